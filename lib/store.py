"""Storage: C01, C02 and C04 to C13."""

import json

import vlib

# Bound of the model in the quick and the thorough tier.
BOUNDS = {'C01': (1, 1), 'C02': (2, 2), 'C04': (1, 2), 'C05': (1, 2), 'C06': (1, 2), 'C07': (1, 2),
          'C08': (1, 2), 'C09': (1, 2), 'C10': (1, 2), 'C11': (1, 1), 'C12': (1, 1)}


def count_ops(ck, files):
    ops = ck.cov.setdefault('events_by_outcome', {})
    n = 0
    for fn in files:
        with open(fn) as f:
            for line in f:
                e = json.loads(line)
                k = '%s %s' % (e['op'], e['res'][0])
                ops[k] = ops.get(k, 0) + 1
                if e['op'] == 'reset':
                    n += 1
    return n


def random_traces(ck, prop, shards, events):
    ck.build()
    files = [ck.path('trace-%d.ndjson' % i) for i in range(shards)]
    vlib.parallel([
        lambda i=i: ck.run(['store-random', '-profile', prop, '-seed', ck.seed * 1000 + i,
                            '-n', events, '-out', files[i]]) for i in range(shards)])
    bad = ck.validate('StoreTrace', files)
    ck.trace_violations(bad, 'a recorded execution of the storage layer is not one the '
                             'specification (spec/Store.tla) allows')
    n = count_ops(ck, files)
    ck.add('traces_validated_against_impl', n)
    ck.add('recorded_executions', n)
    with open(files[0]) as f:
        ck.sample([json.loads(x) for x in f.read().split('\n')[:6] if x])


def check(ck, prop):
    ck.build()
    if prop in BOUNDS:
        out = ck.path('paths')
        consts = {'Profile': '"%s"' % prop, 'Bound': BOUNDS[prop][ck.thorough]}
        what = 'the real store does not follow a transition of the model spec/StoreMC.tla'
        vlib.mc(ck, 'StoreMC', consts, vlib.spec_cfg('StoreMC'), out=out)
        s = ck.replay('store-replay', out, what)
        vlib.walks(ck, 'StoreMC', consts, 'store-replay', what)
        ck.add('model_paths_replayed', s['paths'])
        ck.cov['exhaustive'] = False
    if ck.thorough:
        for rnd in range(6):
            random_traces(ck, prop, 8, 12000)
            ck.seed += 1000003
        ck.seed -= 6 * 1000003
    else:
        random_traces(ck, prop, 8, 2500)


def check_c03(ck, prop):
    """Histories of concurrent transactions must have a serial order."""
    serial(ck, 'store-conc', 'SerialTrace', 'spec/Store.tla', (12, 120) if ck.thorough else (1, 50))


def serial(ck, cmd, module, spec, size):
    ck.build()
    ck.build(paused=True)
    rounds, n = size
    for rnd in range(rounds):
        # Half of them with goroutines held up around locks.
        files = [ck.path('conc-%d-%d.ndjson' % (rnd, i)) for i in range(16)]
        seed = (ck.seed + rnd * 1000003) * 1000
        vlib.parallel([
            lambda i=i: ck.run([cmd, '-seed', seed + i * 100, '-n', n, '-out', files[i]],
                               timeout=800, paused=i >= 8) for i in range(16)], jobs=4)
        for fn, k, want, _ in ck.validate(module, files, timeout=800):
            with open(fn) as f:
                h = json.loads(f.read().split('\n')[k - 1])
            ck.violation({'kind': 'history', 'what': 'there is no serial order of these concurrent '
                          'transactions, consistent with their real time order, in which '
                          '%s gives the results observed' % spec, 'history': h})
        for fn in files:
            with open(fn) as f:
                hs = [json.loads(x) for x in f if x.strip()]
            ck.add('traces_validated_against_impl', len(hs))
            ck.add('transactions', sum(len(h['txs']) for h in hs))
            ck.add('overlapping_pairs', sum(
                1 for h in hs for i, a in enumerate(h['txs']) for b in h['txs'][:i]
                if a['call'] < b['ret'] and b['call'] < a['ret']))
        if rnd == 0:
            with open(files[0]) as f:
                ck.sample(json.loads(f.readline()))
