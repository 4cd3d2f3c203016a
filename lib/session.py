"""Sessions: C24 to C28."""

import catalog
import store
import vlib

TEXT = 'a recorded execution of sessions is not one the specification (spec/Session.tla) allows'


def check(ck, prop):
    ck.build()
    out = ck.path('paths')
    consts = {'Profile': '"%s"' % prop, 'Bound': 2 if ck.thorough else 1}
    what = 'real sessions do not follow a transition of the model spec/SessionMC.tla'
    vlib.mc(ck, 'SessionMC', consts, vlib.spec_cfg('SessionMC'), out=out)
    s = ck.replay('session-replay', out, what, timeout=800)
    vlib.walks(ck, 'SessionMC', consts, 'session-replay', what)
    ck.add('model_paths_replayed', s['paths'])
    ck.cov['exhaustive'] = False
    for rnd in range(5 if ck.thorough else 1):
        catalog.record(ck, 'session-random', 'SessionTrace', prop, 8, 8000 if ck.thorough else 2000,
                       TEXT, first=rnd * 8)


def check_c28(ck, prop):
    """Histories of concurrent sessions must have a serial order."""
    store.serial(ck, 'session-conc', 'SessionSerialTrace', 'spec/Session.tla',
                 (12, 120) if ck.thorough else (1, 40))
