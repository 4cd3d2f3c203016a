"""Which function decides which property, and how."""

import catalog
import pure
import session
import sql
import store

CHECKS = {}
INFO = {}
NOT_CLAIMED = {}

STORE_NOTE = (
    'TLC explores every state and transition of a bounded model of spec/Store.tla, whose invariants '
    'and step properties include this property; every transition is replayed in the real store and '
    'its results and resulting tables compared; and seeded random executions of the real store are '
    'validated by TLC against the same specification. It shows the property on the executions '
    'explored, not on all; it trusts TLC, the harness that calls the public storage interface, and '
    'its translation of values.')

for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13'):
    CHECKS[p] = store.check
    INFO[p] = {'technique': 'TLA+ specification of the storage layer: TLC model checking, replay of '
                            'every model transition in the code, trace validation of recorded executions',
               'level': 'model_checking', 'level_note': STORE_NOTE}
INFO['C13'] = dict(INFO['C13'], technique='TLA+ trace validation of recorded executions in which the '
                                          'caller overwrites its rows and values',
                   level_note='Seeded random executions of the real store, in which the caller overwrites '
                              'every row and value it gave or got, are validated by TLC against '
                              'spec/Store.tla, where that has no effect. It shows the property on the '
                              'executions explored.')

CHECKS['C03'] = store.check_c03
INFO['C03'] = {'technique': 'TLA+ trace validation: TLC searches for a serial order of recorded '
                            'concurrent histories under spec/Store.tla',
               'level': 'model_checking',
               'level_note': 'Transactions are run by up to eight goroutines with random pauses, and '
                             'TLC decides for each recorded history whether some serial order '
                             'consistent with real time explains every result. It shows the property '
                             'on the schedules which occurred; a schedule is not forced.'}

PURE_NOTE = ('TLC checks the laws of spec/Values.tla and spec/Codec.tla (total order, key order, conversion) over '
             'all triples of a set of values, and validates recorded calls of the real functions, over '
             'exhaustive boundary sets and seeded random inputs, against them. It shows the property on '
             'the inputs explored.')
for p in ('C14', 'C15', 'C16', 'C17'):
    CHECKS[p] = pure.check
    INFO[p] = {'technique': 'TLA+ specification of values and encodings: TLC model checking of its laws, '
                            'trace validation of recorded calls', 'level': 'model_checking',
               'level_note': PURE_NOTE}
for p in ('C18', 'C19'):
    CHECKS[p] = pure.check_ident
    INFO[p] = {'technique': 'TLA+ trace validation of recorded identifiers and definitions against spec/Ident.tla',
               'level': 'model_checking',
               'level_note': 'Recorded calls (every keyword and known name in several cases, and seeded random '
                             'names, many equal or almost equal) are validated by TLC. It shows the property '
                             'on the names explored.'}
INFO['C18']['level_note'] += (' Names are also made by 16 goroutines at once, with and without the race '
                              'detector; schedules are not forced.')

CATALOG_NOTE = ('TLC explores every state and transition of a bounded model of spec/Catalog.tla, whose invariants and step '
                'properties include this property; every transition is replayed in the real engine and its results and the '
                'resulting catalogs compared; and seeded random executions of the real engine, with names that are easily '
                'confused, are validated by TLC against the same specification. It shows the property on the executions '
                'explored.')
for p in ('C20', 'C21', 'C22'):
    CHECKS[p] = catalog.check
    INFO[p] = {'technique': 'TLA+ specification of the catalog: TLC model checking, replay of every model transition in '
                            'the code, trace validation of recorded executions',
               'level': 'model_checking', 'level_note': CATALOG_NOTE}
CHECKS['C23'] = catalog.check_typed
INFO['C23'] = {'technique': 'TLA+ specification of typed tables: TLC model checking, replay of every model transition in '
                            'the code, trace validation of recorded executions', 'level': 'model_checking',
               'level_note': 'Structure types are made at run time from all kinds of fields and tags. TLC explores a bounded '
                             'model of spec/Typed.tla and every transition is replayed; seeded random executions on random '
                             'structure types are validated by TLC. It shows the property on the executions explored.'}

SESSION_NOTE = ('TLC explores every state and transition of a bounded model of spec/Session.tla (two sessions on the catalog), whose '
                'invariants and step properties include this property; every transition is executed as SQL text in the real '
                'sessions, parsed by the real parser, and its results and the resulting catalogs compared; and seeded random '
                'executions of four real sessions are validated by TLC against the same specification. ')
for p in ('C24', 'C25', 'C26', 'C27'):
    CHECKS[p] = session.check
    INFO[p] = {'technique': 'TLA+ specification of sessions and statements: TLC model checking, replay of every model transition '
                            'in the code, trace validation of recorded executions',
               'level': 'model_checking',
               'level_note': SESSION_NOTE + 'It shows the property on the executions explored.'}
INFO['C26']['level_note'] = (SESSION_NOTE + 'For each statement of the model, each of its calls of the storage is made to fail in turn, '
                             'with an error and with a panic. It shows the property on the executions and failures explored.')
CHECKS['C28'] = session.check_c28
INFO['C28'] = {'technique': 'TLA+ trace validation: TLC searches for a serial order of recorded histories of concurrent '
                            'sessions under spec/Session.tla',
               'level': 'model_checking',
               'level_note': 'Up to five sessions execute statements and transactions concurrently with random pauses, and '
                             'TLC decides for each recorded history whether some serial order consistent with real time explains '
                             'every result and the final catalog. It shows the property on the schedules which occurred; a '
                             'schedule is not forced.'}

SQL_NOTE = ('spec/Lex.tla and spec/Sql.tla specify which tokens a text is and which statement tokens are, and TLC computes from '
            'them what parsing each recorded script must have given; the scripts are seeded random ones, many malformed, aimed '
            'at this property. It shows the property on the scripts explored.')
for p in ('C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C37'):
    CHECKS[p] = sql.check
    INFO[p] = {'technique': 'TLA+ specification of the lexical structure and grammar of SQL: TLC model checking, replay of every script '
                            'of the model in the real parser, and trace validation of recorded parses',
               'level': 'model_checking', 'level_note': SQL_NOTE}
