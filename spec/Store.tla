------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The storage layer: one transaction at a time over typed tables, with    *)
(* cursors.                                                                *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   com   committed tables: table id -> [def, rows]                       *)
(*   cur   tables as seen by the active transaction                        *)
(*   act   is there an active transaction                                  *)
(*   prev  is there a completed transaction                                *)
(*   cs    cursors: id -> [tid, rows, pos, eof, open]                      *)
(*   rs    references to rows: id -> [tid, row]                            *)
(* The rows of a table are kept in key order.                              *)
(*                                                                         *)
(* Apply(st, ev) is the transition for one call of the storage interface:  *)
(* the new state and the result of the call.  Every refusal, by error or   *)
(* panic, is <<"rej">>, and leaves the state as it was.                    *)
(*                                                                         *)
(* A definition is a record [db, sc, tb, cols, types, key, nokey] with     *)
(* written names (see Ident).                                              *)
(***************************************************************************)
EXTENDS Values, Ident, TLC

LOCAL SE == INSTANCE SequencesExt

OK == <<"ok">>
Rej == <<"rej">>
EngineTableId == 16
RowidName == <<1, 95, 95, 114, 111, 119, 105, 100>>   \* "__rowid"

EmptyFn == [x \in {} |-> 0]

InitStore == [com |-> EmptyFn, cur |-> EmptyFn, act |-> FALSE, prev |-> FALSE,
              cs |-> EmptyFn, rs |-> EmptyFn]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

-----------------------------------------------------------------------------
(* Definitions *)

CanonDef(d) ==
    [db |-> Canon(d.db), sc |-> Canon(d.sc), tb |-> Canon(d.tb),
     cols |-> [i \in 1 .. Len(d.cols) |-> Canon(d.cols[i])],
     types |-> d.types, key |-> IF d.nokey = 1 THEN <<<<-1, 0>>>> ELSE d.key]

\* May a table be created with this definition.
RowidOk(d) ==
    \A i \in 1 .. Len(d.cols) :
        Canon(d.cols[i]) = RowidName =>
            i = 1 /\ d.types[1] = <<TInt, 8, 0, 1>> /\ d.key = <<<<0, 0>>>>

ValidDef(d) ==
    /\ Len(d.cols) = Len(d.types)
    /\ d.nokey = 0
    /\ \A i \in 1 .. Len(d.key) : d.key[i][1] < Len(d.cols)
    /\ RowidOk(d)

-----------------------------------------------------------------------------
(* Rows of a table *)

RECURSIVE Place(_, _, _, _, _)
\* The place of the first row, from lo on, which is not before row; the rows are in order.
Place(rows, key, row, lo, hi) ==
    IF lo > hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN IF KeyCompare(key, rows[mid], row) < 0 THEN Place(rows, key, row, mid + 1, hi)
            ELSE Place(rows, key, row, lo, mid - 1)
PlaceOf(rows, key, row) == Place(rows, key, row, 1, Len(rows))

HasKeyAt(rows, key, row, i) == i <= Len(rows) /\ KeyCompare(key, rows[i], row) = 0
HasKey(rows, key, row) == HasKeyAt(rows, key, row, PlaceOf(rows, key, row))
InsertAt(rows, row, i) == SubSeq(rows, 1, i - 1) \o <<row>> \o SubSeq(rows, i, Len(rows))
InsertSorted(rows, key, row) == InsertAt(rows, row, PlaceOf(rows, key, row))
\* The rows without, and with only, the one with the key of row.
Without(rows, key, row) ==
    LET i == PlaceOf(rows, key, row)
    IN IF HasKeyAt(rows, key, row, i) THEN SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows)) ELSE rows
WithKey(rows, key, row) ==
    LET i == PlaceOf(rows, key, row)
    IN IF HasKeyAt(rows, key, row, i) THEN <<rows[i]>> ELSE <<>>

\* Insert all rows: the new rows of the table, or <<"rej">>.
\* A converted row; the store is only given values whose conversion is specified.
Converted(types, row) ==
    LET r == ConvertRow(types, row)
    IN IF r # None /\ \E i \in 1 .. Len(r) : r[i] = Unknown THEN Assert(FALSE, <<"unknown conversion", row>>) ELSE r

InsertAll(def, rows, new) ==
    LET insert(acc, row) ==
            IF acc[1] = "rej" THEN Rej
            ELSE LET r == Converted(def.types, row)
                 IN IF r = None THEN Rej
                    ELSE LET i == PlaceOf(acc[2], def.key, r)
                         IN IF HasKeyAt(acc[2], def.key, r, i) THEN Rej
                            ELSE <<"ok", InsertAt(acc[2], r, i)>>
    IN SE!FoldLeft(insert, <<"ok", rows>>, new)

\* Change columns of the row with the key of old: <<"ok", rows>> or Rej.
Assign(row, cols, vals) ==
    [i \in 1 .. Len(row) |->
        IF \E j \in 1 .. Len(cols) : cols[j] = i - 1
        THEN vals[CHOOSE j \in 1 .. Len(cols) : cols[j] = i - 1]
        ELSE row[i]]

UpdateRow(def, rows, old, cols, vals) ==
    LET cur == WithKey(rows, def.key, old)
    IN IF cur = <<>> THEN Rej
       ELSE LET r == Converted(def.types, Assign(cur[1], cols, vals))
            IN IF r = None THEN Rej
               ELSE LET others == Without(rows, def.key, old)
                    IN IF HasKey(others, def.key, r) THEN Rej
                       ELSE <<"ok", InsertSorted(others, def.key, r)>>

DeleteRow(def, rows, old) ==
    IF WithKey(rows, def.key, old) = <<>> THEN Rej
    ELSE <<"ok", Without(rows, def.key, old)>>

\* Bounds are rows or <<>>; a predicate is <<>> or <<column, relation, value>>.
Holds(pred, row) ==
    pred = <<>> \/
    LET v == row[pred[1] + 1]
        c == Compare(v, pred[3])
    IN /\ ~IsNull(v)
       /\ CASE pred[2] = 0 -> c = 0
            [] pred[2] = 1 -> c < 0
            [] pred[2] = 2 -> c >= 0
            [] OTHER -> c # 0

Scan(t, min, max, pred) ==
    LET in(r) == /\ (min = <<>> \/ KeyCompare(t.def.key, r, min) >= 0)
                 /\ (max = <<>> \/ KeyCompare(t.def.key, r, max) <= 0)
                 /\ Holds(pred, r)
    IN SelectSeq(t.rows, in)

\* Columns: <<-1>> for all of them.
Project(row, cols) ==
    IF cols = <<-1>> THEN row ELSE [i \in 1 .. Len(cols) |-> row[cols[i] + 1]]
ProjectAll(rows, cols) == [i \in 1 .. Len(rows) |-> Project(rows[i], cols)]

-----------------------------------------------------------------------------
(* Transitions *)

R(st, res) == [st |-> st, res |-> res]
Refused(st) == R(st, Rej)

\* May the table be opened with the definition.
CanOpen(st, tid, d) ==
    st.act /\ tid \in DOMAIN st.cur /\ CanonDef(st.cur[tid].def) = CanonDef(d)

OpenCursors(st) == {c \in DOMAIN st.cs : st.cs[c].open}

SetRows(st, tid, rows) == [st EXCEPT !.cur = [@ EXCEPT ![tid].rows = rows]]

ChangeRows(st, tid, r) == IF r[1] = "ok" THEN R(SetRows(st, tid, r[2]), OK) ELSE Refused(st)

Begin(st) == R([st EXCEPT !.act = TRUE, !.cur = st.com, !.cs = EmptyFn, !.rs = EmptyFn], OK)

Complete(st, commit) ==
    IF ~st.act \/ OpenCursors(st) # {} THEN Refused(st)
    ELSE R([com |-> IF commit THEN st.cur ELSE st.com, cur |-> EmptyFn, act |-> FALSE,
            prev |-> TRUE, cs |-> EmptyFn, rs |-> EmptyFn], OK)

Create(st, tid, d) ==
    IF tid < EngineTableId \/ tid \in DOMAIN st.cur \/ ~ValidDef(d) THEN Refused(st)
    ELSE R([st EXCEPT !.cur = Put(@, tid, [def |-> d, rows |-> <<>>])], OK)

DropTable(st, tid) ==
    IF tid \notin DOMAIN st.cur THEN Refused(st)
    ELSE R([st EXCEPT !.cur = Drop(@, tid)], OK)

Open(st, tid, d) == IF CanOpen(st, tid, d) THEN R(st, OK) ELSE Refused(st)

\* A scan from beginning to end.
ScanAll(st, e) ==
    IF ~CanOpen(st, e.tid, e.d) THEN Refused(st)
    ELSE R(st, <<"rows", ProjectAll(Scan(st.cur[e.tid], e.min, e.max, e.pred), e.cols)>>)

Insert(st, e) ==
    IF ~CanOpen(st, e.tid, e.d) THEN Refused(st)
    ELSE ChangeRows(st, e.tid, InsertAll(st.cur[e.tid].def, st.cur[e.tid].rows, e.rows))

OpenCursor(st, e) ==
    IF ~CanOpen(st, e.tid, e.d) THEN Refused(st)
    ELSE R([st EXCEPT !.cs = Put(@, e.c, [tid |-> e.tid,
                rows |-> Scan(st.cur[e.tid], e.min, e.max, e.pred), cols |-> e.cols,
                pos |-> 0, eof |-> FALSE, open |-> TRUE])], OK)

Next_(st, c) ==
    LET cu == st.cs[c]
    IN IF ~cu.open THEN Refused(st)
       ELSE IF cu.pos = Len(cu.rows)
       THEN R([st EXCEPT !.cs = [@ EXCEPT ![c].eof = TRUE]], <<"eof">>)
       ELSE R([st EXCEPT !.cs = [@ EXCEPT ![c].pos = cu.pos + 1]],
              <<"row", Project(cu.rows[cu.pos + 1], cu.cols)>>)

\* n calls of next, or fewer where the end comes first.
Fetch(st, c, n) ==
    LET cu == st.cs[c]
        left == Len(cu.rows) - cu.pos
        k == IF n < left THEN n ELSE left
    IN IF ~cu.open THEN Refused(st)
       ELSE R([st EXCEPT !.cs = [@ EXCEPT ![c].pos = cu.pos + k, ![c].eof = @ \/ n > left]],
              <<"rows", [i \in 1 .. k |-> Project(cu.rows[cu.pos + i], cu.cols)], n > left>>)

Current(st, c, r) ==
    LET cu == st.cs[c]
    IN IF ~cu.open \/ cu.pos = 0 THEN Refused(st)
       ELSE R([st EXCEPT !.rs = Put(@, r, [tid |-> cu.tid, row |-> cu.rows[cu.pos]])], OK)

Close(st, c) ==
    IF ~st.cs[c].open THEN Refused(st)
    ELSE R([st EXCEPT !.cs = [@ EXCEPT ![c].open = FALSE]], OK)

Update(st, r, cols, vals) ==
    LET ref == st.rs[r]
    IN IF ref.tid \notin DOMAIN st.cur THEN Refused(st)
       ELSE ChangeRows(st, ref.tid, UpdateRow(st.cur[ref.tid].def, st.cur[ref.tid].rows,
                                              ref.row, cols, vals))

Delete(st, r) ==
    LET ref == st.rs[r]
    IN IF ref.tid \notin DOMAIN st.cur THEN Refused(st)
       ELSE ChangeRows(st, ref.tid, DeleteRow(st.cur[ref.tid].def, st.cur[ref.tid].rows, ref.row))

\* Update or delete the one row with the key of e.row, found by a cursor.
UpdateKey(st, e) ==
    IF ~CanOpen(st, e.tid, e.d) THEN Refused(st)
    ELSE ChangeRows(st, e.tid, UpdateRow(st.cur[e.tid].def, st.cur[e.tid].rows, e.row, e.cols, e.vals))
DeleteKey(st, e) ==
    IF ~CanOpen(st, e.tid, e.d) THEN Refused(st)
    ELSE ChangeRows(st, e.tid, DeleteRow(st.cur[e.tid].def, st.cur[e.tid].rows, e.row))

Apply(st, e) ==
    CASE e.op = "begin" -> Begin(st)
      [] e.op = "commit" -> Complete(st, TRUE)
      [] e.op = "rollback" -> Complete(st, FALSE)
      [] e.op = "create" -> Create(st, e.tid, e.d)
      [] e.op = "drop" -> DropTable(st, e.tid)
      [] e.op = "open" -> Open(st, e.tid, e.d)
      [] e.op = "scan" -> ScanAll(st, e)
      [] e.op = "insert" -> Insert(st, e)
      [] e.op = "rows" -> OpenCursor(st, e)
      [] e.op = "next" -> Next_(st, e.c)
      [] e.op = "fetch" -> Fetch(st, e.c, e.n)
      [] e.op = "cur" -> Current(st, e.c, e.r)
      [] e.op = "close" -> Close(st, e.c)
      [] e.op = "upd" -> Update(st, e.r, e.cols, e.vals)
      [] e.op = "del" -> Delete(st, e.r)
      [] e.op = "updk" -> UpdateKey(st, e)
      [] e.op = "delk" -> DeleteKey(st, e)
      [] e.op = "nextstmt" -> R(st, OK)
      [] e.op = "scribble" -> R(st, OK)   \* the caller changes its own rows and values

-----------------------------------------------------------------------------
(* What must hold in every state *)

TablesOf(st) == {st.com[t] : t \in DOMAIN st.com} \cup {st.cur[t] : t \in DOMAIN st.cur}

UniqueKeys(st) ==
    \A t \in TablesOf(st) : \A i, j \in 1 .. Len(t.rows) :
        i < j => KeyCompare(t.def.key, t.rows[i], t.rows[j]) # 0

Sorted(st) ==
    \A t \in TablesOf(st) : \A i \in 1 .. Len(t.rows) - 1 :
        KeyCompare(t.def.key, t.rows[i], t.rows[i + 1]) < 0

Conforming(st) ==
    \A t \in TablesOf(st) : \A i \in 1 .. Len(t.rows) : RowConforms(t.def.types, t.rows[i])

IdleIsClean(st) == ~st.act => st.cur = EmptyFn /\ st.cs = EmptyFn

\* What must hold of every transition by event e with result res.
CommittedOnlyByCommit(st, e, res, st2) ==
    st2.com # st.com => e.op = "commit" /\ res = OK /\ st2.com = st.cur
BeginSeesCommitted(st, e, res, st2) == e.op = "begin" => st2.cur = st.com
RollbackRestores(st, e, res, st2) == e.op = "rollback" /\ res = OK => st2.com = st.com
CommitKeepsAll(st, e, res, st2) == e.op = "commit" /\ res = OK => st2.com = st.cur
RefusedChangesNothing(st, e, res, st2) == res = Rej => st2 = st
ReadsChangeNothing(st, e, res, st2) ==
    e.op \in {"open", "scan", "rows", "next", "fetch", "cur", "close", "nextstmt", "scribble"} =>
        st2.com = st.com /\ st2.cur = st.cur
OthersUntouched(st, e, res, st2) ==   \* only the named table may change
    /\ (e.op \in {"create", "drop", "insert", "updk", "delk"} =>
           \A t \in (DOMAIN st.cur \cup DOMAIN st2.cur) \ {e.tid} :
               t \in DOMAIN st.cur /\ t \in DOMAIN st2.cur /\ st2.cur[t] = st.cur[t])
    /\ (e.op \in {"upd", "del"} =>
           \A t \in DOMAIN st.cur \ {st.rs[e.r].tid} : st2.cur[t] = st.cur[t])
SnapshotStable(st, e, res, st2) ==
    st.act /\ st2.act => \A c \in DOMAIN st.cs : c \in DOMAIN st2.cs =>
        (e.op = "rows" /\ e.c = c) \/ st2.cs[c].rows = st.cs[c].rows
OneRowChanged(st, e, res, st2) ==
    e.op \in {"upd", "del", "updk", "delk"} /\ res = OK =>
        LET tid == IF e.op \in {"upd", "del"} THEN st.rs[e.r].tid ELSE e.tid
            old == {st.cur[tid].rows[i] : i \in 1 .. Len(st.cur[tid].rows)}
            new == {st2.cur[tid].rows[i] : i \in 1 .. Len(st2.cur[tid].rows)}
        IN Cardinality(old \ new) <= 1 /\ Cardinality(new \ old) <= 1
CreatedEmpty(st, e, res, st2) == e.op = "create" /\ res = OK => st2.cur[e.tid].rows = <<>>

StateOk(st) == UniqueKeys(st) /\ Sorted(st) /\ Conforming(st) /\ IdleIsClean(st)

StepOk(st, e, res, st2) ==
    /\ CommittedOnlyByCommit(st, e, res, st2)
    /\ BeginSeesCommitted(st, e, res, st2)
    /\ RollbackRestores(st, e, res, st2)
    /\ CommitKeepsAll(st, e, res, st2)
    /\ RefusedChangesNothing(st, e, res, st2)
    /\ ReadsChangeNothing(st, e, res, st2)
    /\ OthersUntouched(st, e, res, st2)
    /\ SnapshotStable(st, e, res, st2)
    /\ OneRowChanged(st, e, res, st2)
    /\ CreatedEmpty(st, e, res, st2)

=============================================================================
