"""Parsing: C29 to C37."""

import os

import pure
import vlib

pure.WHAT['SqlTrace'] = 'parsing a script gave something else than spec/Lex.tla and spec/Sql.tla specify'

# Tables whose constraints have no names, where two made up names are the same.
COLLIDING = [
    'create table t (a int, b_c int, a_b int, c int, unique (a, b_c), unique (a_b, c))',
    'create table t (a int, "A" int, unique (a), unique ("A"))',
    'create table t (a int, unique (a), unique (a desc))',
]


# How large the scripts of spec/SqlMC.tla are, for quick and thorough.
BOUNDS = {'C29': (3, 4), 'C30': (3, 4), 'C31': (3, 4), 'C32': (3, 4), 'C33': (3, 4), 'C34': (4, 5), 'C35': (1, 2),
          'C36': (3, 4), 'C37': (2, 3)}


# Edits of the sentences of a grammar: profiles, bounds and kinds of edits, for quick and thorough.
EDITS = {
    'C29': ([('C29', 1, 3)], [('C29', 2, 3), ('C29', 3, 1)]),
    'C31': ([('C33', 0, 3)], [('C33', 1, 3), ('C34', 1, 3), ('C29', 1, 3)]),
    'C33': ([('C33', 0, 3), ('C33', 1, 2)], [('C33', 1, 3), ('C33', 2, 2)]),
    'C34': ([('C34', 2, 1)], [('C34', 2, 3), ('C34', 3, 1)]),
}


def check(ck, prop):
    ck.build()
    model(ck, prop)
    n = {'C29': 260, 'C30': 220, 'C31': 700, 'C32': 450, 'C33': 500, 'C34': 450, 'C35': 120, 'C36': 400, 'C37': 500}[prop]
    for rnd in range(8 if ck.thorough else 1):
        pure.traces(ck, 'SqlTrace', ['sql-random', '-profile', prop],
                    [ck.seed * 1000 + rnd * 100 + i for i in range(8)], n * (4 if ck.thorough else 1), None)
        pure.traces(ck, 'SqlTrace', ['sql-big', '-profile', prop],
                    [ck.seed * 1000 + rnd * 100 + 50 + i for i in range(8)], 10 if prop == 'C36' else 40, None)
    if prop == 'C31':
        pure.traces(ck, 'SqlTrace', ['sql-deep'], [ck.seed * 1000 + i for i in range(8)],
                    40 if ck.thorough else 6, None)
    if prop == 'C34':
        made_up_names(ck)


def model(ck, prop):
    """Every script of the model, which must be parsed into what the model says."""
    out = ck.path('scripts.ndjson')
    for prof, bound, edits in [(prop, BOUNDS[prop][ck.thorough], 0)] + EDITS.get(prop, ([], []))[ck.thorough]:
        vlib.mc(ck, 'SqlMC', {'Profile': '"%s"' % prof, 'Bound': bound, 'Edits': edits}, vlib.spec_cfg('SqlMC'), out=out,
                name='SqlMC-%s-%d-%d' % (prof, bound, edits))
        s = ck.replay('sql-replay', out, 'the real parser does not give what the model spec/SqlMC.tla says')
        if s['paths'] == 0:
            raise vlib.ToolError('no scripts')
        ck.add('model_paths_replayed', s['paths'])
        if edits:
            ck.add('edited_sentences_replayed', s['paths'])
        os.unlink(out)


def made_up_names(ck):
    """Two constraints which are given no name must not be refused because of the names made up."""
    for text in COLLIDING:
        r = ck.run(['sql-child'], stdin=text)
        if r.stdout == '[2,["stmt"],["eof"]]':
            continue
        if r.stdout != '[2,["err"],["eof"]]' or 'made-up-name' not in ck.known:
            ck.violation({'kind': 'scenario', 'what': 'a table without contradictions is refused', 'text': text,
                          'result': r.stdout})
        else:
            ck.finding(ck.known['made-up-name'])
            break
