"""The catalog of the engine: C20 to C22; typed tables: C23."""

import json

import vlib
from store import count_ops

CATALOG_TEXT = ('a recorded execution of the engine is not one the specification (spec/Catalog.tla) '
                'allows')


def record(ck, cmd, module, prop, shards, n, what, first=0):
    files = [ck.path('%s-%d-%d.ndjson' % (cmd, ck.seed, first + i)) for i in range(shards)]
    vlib.parallel([
        lambda i=i: ck.run([cmd, '-profile', prop, '-seed', ck.seed * 1000 + first + i, '-n', n,
                            '-out', files[i]]) for i in range(shards)])
    bad = ck.validate(module, files)
    ck.trace_violations(bad, what)
    k = count_ops(ck, files)
    ck.add('traces_validated_against_impl', k)
    ck.add('recorded_executions', k)
    with open(files[0]) as f:
        ck.sample([json.loads(x) for x in f.read().split('\n')[:6] if x])


def known_scenario(ck, cmd, module, prop, key, what):
    """A scenario which breaks the property and is listed as a known finding."""
    fn = ck.path('known-%s.ndjson' % key)
    ck.run([cmd, '-profile', prop, '-out', fn])
    bad = ck.validate(module, [fn])
    if bad and key in ck.known:
        ck.finding('%s: %s' % (key, ck.known[key]))
    else:
        ck.trace_violations(bad, what)


def check(ck, prop):
    ck.build()
    out = ck.path('paths')
    consts = {'Profile': '"%s"' % prop, 'Bound': 2 if ck.thorough else 1}
    what = 'the real engine does not follow a transition of the model spec/CatalogMC.tla'
    vlib.mc(ck, 'CatalogMC', consts, vlib.spec_cfg('CatalogMC'), out=out)
    s = ck.replay('catalog-replay', out, what)
    vlib.walks(ck, 'CatalogMC', consts, 'catalog-replay', what)
    ck.add('model_paths_replayed', s['paths'])
    ck.cov['exhaustive'] = False
    if prop != 'C22':
        known_scenario(ck, 'catalog-keyword', 'CatalogTrace', prop, 'keyword-name',
                       CATALOG_TEXT)
    for rnd in range(6 if ck.thorough else 1):
        record(ck, 'catalog-random', 'CatalogTrace', prop, 8, 8000 if ck.thorough else 2000,
               CATALOG_TEXT, first=rnd * 8)


TYPED_TEXT = ('a recorded execution on typed tables is not one the specification (spec/Typed.tla) '
              'allows')


def check_typed(ck, prop):
    ck.build()
    out = ck.path('paths')
    consts = {'Bound': 2 if ck.thorough else 1}
    what = 'typed tables do not follow a transition of the model spec/TypedMC.tla'
    vlib.mc(ck, 'TypedMC', consts, vlib.spec_cfg('TypedMC'), out=out)
    s = ck.replay('typed-replay', out, what, timeout=800)
    vlib.walks(ck, 'TypedMC', consts, 'typed-replay', what)
    ck.add('model_paths_replayed', s['paths'])
    ck.cov['exhaustive'] = False
    for rnd in range(6 if ck.thorough else 1):
        record(ck, 'typed-random', 'TypedTrace', prop, 8, 8000 if ck.thorough else 2000,
               TYPED_TEXT, first=rnd * 8)
