------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Typed tables: tables whose rows are Go structures.  A structure type is *)
(* a sequence of fields, records                                           *)
(*   name, tag   the name, and the column name given by a tag or <<>>      *)
(*   kind        "bool", "int", "int8", ..., "float32", "string", "bytes"  *)
(*   ptr         1 for a pointer, whose nil is NULL                        *)
(*   size        the size given by a tag, or 0                             *)
(*   notnull     1 for a slice of bytes which must not be NULL             *)
(*   primary     1 if it is part of the primary key                        *)
(* A structure is the sequence of the values of its fields, with Null for  *)
(* nil where it is allowed.                                                *)
(***************************************************************************)
EXTENDS Store

\* The name of a column: lower case, with an underscore before an upper case letter that follows
\* a character which is not one.
IsUpper(b) == b >= 65 /\ b <= 90
RECURSIVE SnakeFrom(_, _)
SnakeFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE (IF i > 1 /\ IsUpper(s[i]) /\ ~IsUpper(s[i - 1]) THEN <<95>> ELSE <<>>)
         \o <<LowerByte(s[i])>> \o SnakeFrom(s, i + 1)
ColumnName(f) == <<1>> \o (IF f.tag = <<>> THEN SnakeFrom(f.name, 1) ELSE f.tag)

IntSize == [int |-> 8, int8 |-> 1, int16 |-> 2, int32 |-> 4, int64 |-> 8]
Nullable(f) == IF f.kind = "bytes" THEN f.notnull = 0 ELSE f.ptr = 1
ColumnType(f) ==
    CASE f.kind = "bool" -> CT(TBool, 0, ~Nullable(f))
      [] f.kind \in DOMAIN IntSize -> CT(TInt, IntSize[f.kind], ~Nullable(f))
      [] f.kind \in {"float32", "float64"} -> CT(TFloat, 0, ~Nullable(f))
      [] f.kind = "string" -> CT(TStr, IF f.size = 0 THEN 1 ELSE f.size, ~Nullable(f))
      [] f.kind = "bytes" -> CT(TBytes, IF f.size = 0 THEN 1 ELSE f.size, ~Nullable(f))

\* The primary key: the fields marked primary, in order, ascending.
RECURSIVE KeyFrom(_, _)
KeyFrom(fs, i) ==
    IF i > Len(fs) THEN <<>>
    ELSE (IF fs[i].primary = 1 THEN <<<<i - 1, 0>>>> ELSE <<>>) \o KeyFrom(fs, i + 1)

TypedDef(fs) ==
    [cols |-> [i \in 1 .. Len(fs) |-> ColumnName(fs[i])],
     types |-> [i \in 1 .. Len(fs) |-> ColumnType(fs[i])],
     key |-> KeyFrom(fs, 1)]

-----------------------------------------------------------------------------
(* One typed table; dirty says that an update was refused part of the way, *)
(* after which the transaction must be rolled back.                        *)

InitTyped(def) == [def |-> def, com |-> <<>>, cur |-> <<>>, act |-> FALSE, dirty |-> FALSE]

TooLong(def, row) ==   \* texts and bytes longer than their columns are refused
    \E i \in 1 .. Len(row) : row[i][1] \in {TStr, TBytes} /\ Len(row[i]) - 1 > def.types[i][2]

TypedInsert(st, rows) ==
    LET r == InsertAll(st.def, st.cur, rows)
    IN IF (\E i \in 1 .. Len(rows) : TooLong(st.def, rows[i])) \/ r = Rej THEN R(st, Rej)
       ELSE R([st EXCEPT !.cur = r[2]], OK)

Range(st, min, max) == Scan([def |-> st.def, rows |-> st.cur], min, max, <<>>)

TypedLookup(st, row) ==
    LET rs == Range(st, row, row)
    IN IF rs = <<>> THEN R(st, <<"eof">>) ELSE R(st, <<"row", rs[1]>>)

\* The rows visited when the caller stops after n rows; 0 is never.
Visited(rs, n) == IF n > 0 /\ n < Len(rs) THEN SubSeq(rs, 1, n) ELSE rs

\* mask says which of the visited rows are chosen; it is repeated.
Chosen(rs, mask) ==
    LET RECURSIVE F(_)
        F(i) == IF i > Len(rs) THEN <<>>
                ELSE (IF mask[((i - 1) % Len(mask)) + 1] = 1 THEN <<rs[i]>> ELSE <<>>) \o F(i + 1)
    IN F(1)

RECURSIVE UpdateAll(_, _, _, _, _)
UpdateAll(def, rows, old, cols, vals) ==
    IF old = <<>> THEN <<"ok", rows>>
    ELSE LET r == UpdateRow(def, rows, Head(old), cols, vals)
         IN IF r = Rej THEN Rej ELSE UpdateAll(def, r[2], Tail(old), cols, vals)

TypedUpdate(st, e) ==
    LET vs == Visited(Range(st, e.min, e.max), e.stop)
        ch == Chosen(vs, e.mask)
        long == \E i \in 1 .. Len(e.vals) :
                    e.vals[i][1] \in {TStr, TBytes} /\ Len(e.vals[i]) - 1 > st.def.types[e.cols[i] + 1][2]
        r == UpdateAll(st.def, st.cur, ch, e.cols, e.vals)
    IN IF ch # <<>> /\ (long \/ r = Rej) THEN R([st EXCEPT !.dirty = TRUE], Rej)
       ELSE R([st EXCEPT !.cur = IF ch = <<>> THEN @ ELSE r[2]], <<"rows", vs>>)

TypedDelete(st, e) ==
    LET vs == Visited(Range(st, e.min, e.max), e.stop)
        ch == Chosen(vs, e.mask)
        keep(x) == \A i \in 1 .. Len(ch) : KeyCompare(st.def.key, x, ch[i]) # 0
    IN R([st EXCEPT !.cur = SelectSeq(@, keep)], <<"rows", vs>>)

TypedApply(st, e) ==
    CASE e.op = "begin" -> R([st EXCEPT !.act = TRUE, !.cur = st.com], OK)
      [] e.op = "commit" -> R([st EXCEPT !.act = FALSE, !.com = st.cur], OK)
      [] e.op = "rollback" -> R([st EXCEPT !.act = FALSE, !.cur = st.com, !.dirty = FALSE], OK)
      [] e.op = "ins" -> TypedInsert(st, e.rows)
      [] e.op = "lookup" -> TypedLookup(st, e.row)
      [] e.op = "sel" -> R(st, <<"rows", Visited(Range(st, e.min, e.max), e.stop)>>)
      [] e.op = "upd" -> TypedUpdate(st, e)
      [] e.op = "del" -> TypedDelete(st, e)

-----------------------------------------------------------------------------

TypedOk(st) ==
    \A rows \in {st.com, st.cur} :
        /\ \A i \in 1 .. Len(rows) - 1 : KeyCompare(st.def.key, rows[i], rows[i + 1]) < 0
        /\ \A i \in 1 .. Len(rows) : RowConforms(st.def.types, rows[i])

RowSet(rows) == {rows[i] : i \in 1 .. Len(rows)}
TypedStepOk(st, e, res, st2) ==
    /\ (res[1] = "rej" => st2.cur = st.cur /\ st2.com = st.com)
    /\ (e.op \in {"sel", "lookup"} => st2 = st)
    /\ (e.op = "ins" /\ res = OK => RowSet(st2.cur) = RowSet(st.cur) \cup RowSet(e.rows))
    /\ (e.op = "del" => RowSet(st2.cur) \subseteq RowSet(st.cur))
    /\ (e.op = "upd" /\ res[1] = "rows" =>   \* rows change in the named columns only
            /\ Len(st2.cur) = Len(st.cur)
            /\ \A r \in RowSet(st2.cur) \ RowSet(st.cur) :
                  \E o \in RowSet(st.cur) : \A i \in 1 .. Len(r) :
                      (\A j \in 1 .. Len(e.cols) : e.cols[j] # i - 1) => r[i] = o[i])

=============================================================================
