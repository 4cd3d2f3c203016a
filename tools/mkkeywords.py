#!/usr/bin/env python3
"""Write spec/IdentKeywords.tla and spec/SqlWords.tla from tools/keywords.txt."""
import os
here = os.path.dirname(os.path.abspath(__file__))
f = lambda w: '  <<' + ', '.join(str(b) for b in w.encode()) + '>>'
words = [l.split() for l in open(here + '/keywords.txt') if not l.startswith('#')]
T = r"""---------------------------- MODULE IdentKeywords ---------------------------
(***************************************************************************)
(* The keywords of the SQL dialect as sequences of bytes.  Written by      *)
(* tools/mkkeywords.py from tools/keywords.txt: do not edit.               *)
(***************************************************************************)
Reserved == {
%s }

NotReserved == {
%s }

Keywords == Reserved \cup NotReserved

=============================================================================
"""
open(here + '/../spec/IdentKeywords.tla', 'w').write(T % (
    ',\n'.join(f(w) for k, w in words if k == 'r'),
    ',\n'.join(f(w) for k, w in words if k == 'n')))

# Names with a meaning which are not keywords, and other texts.
NAMES = ['columns', 'config', 'constraints', 'databases', 'schemas', 'tables', 'metadata',
         'system', 'info', 'table_name', 'schema_name', 'name', 'value', 'by', 'hidden',
         'count', 'count_all', 'is_null', 'btree', '_primary', '_unique', 'true', 'false']
U = r"""------------------------------ MODULE SqlWords ------------------------------
(***************************************************************************)
(* The keywords as strings, and texts which appear in Sql, as sequences of *)
(* bytes.  Written by tools/mkkeywords.py: do not edit.                    *)
(***************************************************************************)
EXTENDS Integers

WordCodes == <<
%s >>

WordTexts == <<
%s >>

WordOf(c) == WordTexts[CHOOSE k \in 1 .. %d : WordCodes[k] = c]

%s
=============================================================================
"""
open(here + '/../spec/SqlWords.tla', 'w').write(U % (
    ',\n'.join(f(w) for k, w in words), ',\n'.join('  "%s"' % w for k, w in words), len(words),
    '\n'.join('T_%s == %s' % (w.strip('_'), f(w).strip()) for w in NAMES)))
