#!/usr/bin/env python3
"""Write spec/SqlPieces.tla: the pieces of text of which the texts of spec/SqlMC.tla are made."""
import os
here = os.path.dirname(os.path.abspath(__file__))

# Each is: frames (what is before and after the pieces), and the pieces.
P = {
    'C30': ([('', ''), ('select 0;', ''), ('?;', '')],
            ['select 1;', 'select (;', ';', ' insert into t values (1), (2);', '?;', 'begin;', 'create table t (a int, a int);',
             'values (1), (1, 2);', 'select a ? b c;', '-- x\n;', 'select \'x', 'commit', 'select 1 1',
             'set a = \'b\';', 'create database d with a = 1;', 'create database d with b = 2 c 3;',
             'create table u (b int, primary key (b desc));', 'select 99999999999999999999;', ')']),
    'C31': ([('select ', '')],
            [c for c in "'\"[]`\\-/*;ae1.$ \n(,=<x@|"] + ['\x00', '\xff']),
    'C32': ([("values (e'", "', 7)"), ("values ('", "', 7)"), ("values (b'", "', 7)"), ("values (x'", "', 7)"),
             ('select a."', '" from t'), ('values (', ', \'z\')'), ('values (-', ')')],
            ["a", "'", "\\", "n", "x", "4", "1", "\n", " ", "\"", "\xe9", "u", "0", ".", "-", "9223372036854775807", ";"]),
    'C36': ([('copy t from stdin', ''), ('copy t (a) from stdin delimiter \',\'', ''), ('begin;\ncopy t from\nstdin', ''),
             ('copy t from stdin;\n', '')],
            [' ', '\n', '-- c\n', '/* c\n */', ';', 'a\tb', '\\.', ' select 1;', ' copy u from stdin', '\r', "'"]),
}
P['C37'] = ([('', ''), ('create table t (a int) ', ''), ('copy t from stdin;\n', ''), ('delete from t where a = 1 ', '')],
            ['select 1;', ';', 'insert into t values (1)', 'values (1), (1, 2);', ' or', ' b', " 'x y'", '-', "e'\\\\x41'", '"q"', '12.5',
             '/* c */', '-- c\n', '?', '<', '<=', '$1', "x'41'", 'copy t from stdin;', '\n', ' delimiter', "'\n 'z'"])
# Statements as tokens, and what may be between tokens.
SENTENCES = [
    ['select', 'a', '.', '*', ',', '-', '1', '+', "'x'", 'from', 't', ';', 'commit', ';'],
    ['insert', 'into', 't', '(', 'a', ')', 'values', '(', '1', '<=', 'b', ',', "x'41'", ')', ';'],
    ['create', 'table', '"t"', '(', 'a', 'int', 'not', 'null', ',', '\xe9', 'text', ')', ';'],
    ['select', 'count', '(', '*', ')', 'from', 't', '@', 'i', 'where', 'a', '/', '2', '||', '2.5', '=', 'b', '-', '1', ';'],
]
GAPS = ['', ' ', '\n', '\t', '\r\n', '\v\f', '\xa0', '-- c\n', ' --\n', '/* c */', '/**/', '/*\n*/ ', ' /* * / -- */', '\u2003',
        "/*'*/", ' -- ;\n', "--'\n"]

def seq(s):
    return '<<' + ', '.join(str(ord(c)) for c in s) + '>>'

def seqs(ss):
    return '<<' + ', '.join(seq(s) for s in ss) + '>>'

T = r"""----------------------------- MODULE SqlPieces ------------------------------
(***************************************************************************)
(* The pieces of text of which the texts of SqlMC are made.  Written by    *)
(* tools/mksqlpieces.py: do not edit.                                      *)
(***************************************************************************)
FramesOf(p) ==
%s

PiecesOf(p) ==
%s

Sentences == <<
%s >>

Gaps == %s

=============================================================================
"""
def case(f):
    return '\n'.join('  %s p = "%s" -> %s' % ('CASE' if i == 0 else '  []', p, f(*P[p])) for i, p in enumerate(sorted(P)))

open(here + '/../spec/SqlPieces.tla', 'w').write(T % (
    case(lambda fr, ps: '<<' + ', '.join('<<%s, %s>>' % (seq(a), seq(b)) for a, b in fr) + '>>'),
    case(lambda fr, ps: seqs(ps)),
    ',\n'.join('  ' + seqs(s) for s in SENTENCES), seqs(GAPS)))
