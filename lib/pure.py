"""Functions without state, and identifiers: C14 to C19."""

import json

import vlib

WHAT = {
    'CodecTrace': 'an encoding is not as spec/Codec.tla specifies it',
    'ValuesTrace': 'a comparison or conversion is not as spec/Values.tla specifies it',
    'IdentTrace': 'an identifier is not as spec/Ident.tla specifies it',
}


def lines(fn):
    with open(fn) as f:
        return sum(1 for _ in f)


def traces(ck, module, cmd, seeds, n, reset, race=False, paused=False):
    """Record traces (for each seed) and validate them."""
    files = [ck.path('%s-%d-%d.ndjson' % (cmd[0], i, s)) for i, s in enumerate(seeds)]
    ck.build(race, paused)
    vlib.parallel([lambda f=f, s=s: ck.run(cmd + ['-seed', s, '-n', n, '-out', f], race=race, paused=paused)
                   for f, s in zip(files, seeds)])
    bad = ck.validate(module, files, timeout=800)
    ck.trace_violations(bad, WHAT[module], reset=reset)
    k = sum(lines(f) for f in files)
    ck.add('calls_validated', k)
    ck.add('traces_validated_against_impl', len(files))
    with open(files[-1]) as f:
        ck.sample([json.loads(x) for x in f.read(4000).split('\n')[:-1][:6]])


def values(ck):
    vlib.mc(ck, 'ValuesMC', {'Wide': 'TRUE' if ck.thorough else 'FALSE'}, vlib.spec_cfg('ValuesMC'))


def check(ck, prop):
    module = {'C14': 'CodecTrace', 'C15': 'CodecTrace', 'C16': 'ValuesTrace', 'C17': 'ValuesTrace'}[prop]
    n = {'C14': 600, 'C15': 6000, 'C16': 6000, 'C17': 6000}[prop]
    if ck.thorough:
        n *= 10
    values(ck)
    traces(ck, module, ['pure', '-profile', prop],
           [-1] + [ck.seed * 1000 + i for i in range(15 if ck.thorough else 7)], n, None)


def check_ident(ck, prop):
    n = 20000 if ck.thorough else 2500
    traces(ck, 'IdentTrace', ['ident', '-profile', prop],
           [-1] + [ck.seed * 1000 + i for i in range(15 if ck.thorough else 7)], n, 'reset')
    if prop == 'C18':
        k = 8 if ck.thorough else 2
        traces(ck, 'IdentTrace', ['ident-conc'], [ck.seed * 1000 + i for i in range(8)],
               2000 if ck.thorough else 250, 'reset')
        traces(ck, 'IdentTrace', ['ident-conc'], [ck.seed * 3000 + i for i in range(8)],
               1000 if ck.thorough else 60, 'reset', paused=True)
        traces(ck, 'IdentTrace', ['ident-conc'], [ck.seed * 2000 + i for i in range(k)],
               1000 if ck.thorough else 100, 'reset', race=True)
