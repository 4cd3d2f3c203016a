------------------------------ MODULE StoreMC -------------------------------
(***************************************************************************)
(* Bounded models of Store.  Profile selects the events of the model; TLC  *)
(* explores every reachable state and every transition.  For each          *)
(* transition it writes a path of events from the initial state, with the  *)
(* result of each event and the tables at the end of it, which the harness *)
(* replays in the real code.  (hist is hidden by VIEW.)                    *)
(***************************************************************************)
EXTENDS Store, Json, CSV, IOUtils

CONSTANT Profile, Bound   \* Bound: a size for the thorough tier
CONSTANT Walk    \* 0, or the length of the random paths to write instead (TLC -simulate)

VARIABLES st, hist

\* Unquoted names made of lower case letters.
N(s) == <<0>> \o s
Na == N(<<97>>)
Nb == N(<<98>>)
Nc == N(<<99>>)
IntCol(nn) == CT(TInt, 8, nn)
Def(tb, types, key) ==
    [db |-> N(<<100>>), sc |-> N(<<101>>), tb |-> tb,
     cols |-> [i \in 1 .. Len(types) |-> N(<<96 + i>>)], types |-> types, key |-> key, nokey |-> 0]

I(n) == MkInt(n)
S(s) == Str(s)
Sa == Str(<<97>>)
S0 == Str(<<>>)

-----------------------------------------------------------------------------
(* The definitions of each profile, by number *)

DefKV == Def(N(<<116>>), <<IntCol(TRUE), IntCol(FALSE)>>, <<<<0, 0>>>>)
DefKV2 == Def(N(<<117>>), <<IntCol(TRUE), IntCol(FALSE)>>, <<<<0, 0>>>>)

KeyDefs ==
    << Def(Na, <<IntCol(FALSE), CT(TStr, 4, FALSE)>>, <<<<0, 0>>, <<1, 0>>>>),
       Def(Na, <<IntCol(FALSE), CT(TStr, 4, FALSE)>>, <<<<0, 1>>, <<1, 0>>>>),
       Def(Na, <<IntCol(FALSE), CT(TStr, 4, FALSE)>>, <<<<1, 1>>, <<0, 1>>>>),
       Def(Na, <<IntCol(FALSE), CT(TStr, 4, FALSE)>>, <<<<1, 0>>>>),
       Def(Na, <<CT(TFloat, 0, FALSE), CT(TBytes, 4, FALSE)>>, <<<<1, 0>>, <<0, 1>>>>),
       Def(Na, <<CT(TBool, 0, FALSE), CT(TBytes, 4, FALSE)>>, <<<<0, 1>>, <<1, 1>>>>) >>

RefuseDefs ==
    << Def(Na, <<CT(TInt, 2, TRUE), CT(TStr, 1, FALSE)>>, <<<<0, 0>>>>),
       Def(Na, <<CT(TInt, 8, TRUE), CT(TInt, 8, TRUE)>>, <<<<1, 1>>>>) >>

TypeDefs ==
    << Def(Na, <<CT(TInt, 2, TRUE), CT(TInt, 4, FALSE), CT(TFloat, 0, FALSE)>>, <<<<0, 0>>>>),
       Def(Na, <<CT(TStr, 2, TRUE), CT(TBytes, 2, FALSE), CT(TBool, 0, FALSE)>>, <<<<0, 0>>>>) >>

NameDefs ==
    << DefKV,
       [DefKV EXCEPT !.tb = <<1, 116>>],
       [DefKV EXCEPT !.tb = <<1, 84>>],
       [DefKV EXCEPT !.cols = <<Nb, Na>>],
       [DefKV EXCEPT !.types = <<IntCol(TRUE), IntCol(TRUE)>>],
       [DefKV EXCEPT !.types = <<CT(TInt, 4, TRUE), IntCol(FALSE)>>],
       [DefKV EXCEPT !.key = <<<<0, 1>>>>],
       [DefKV EXCEPT !.key = <<<<1, 0>>>>],
       [DefKV EXCEPT !.key = <<<<0, 0>>, <<1, 0>>>>],
       [DefKV EXCEPT !.db = <<0, 115, 101, 108, 101, 99, 116>>],               \* select
       [DefKV EXCEPT !.db = <<1, 115, 101, 108, 101, 99, 116>>],               \* "select"
       [DefKV EXCEPT !.db = <<1, 83, 69, 76, 69, 67, 84>>],                    \* "SELECT"
       [DefKV EXCEPT !.sc = <<0, 116, 101, 120, 116>>],                        \* text
       [DefKV EXCEPT !.sc = <<1, 116, 101, 120, 116>>],                        \* "text"
       [DefKV EXCEPT !.cols = <<<<0, 112, 114, 105, 109, 97, 114, 121>>, Nb>>],  \* primary
       [DefKV EXCEPT !.cols = <<<<1, 112, 114, 105, 109, 97, 114, 121>>, Nb>>],  \* "primary"
       [DefKV EXCEPT !.cols = <<<<1, 80, 82, 73, 77, 65, 82, 89>>, Nb>>] >>      \* "PRIMARY"

MisuseDefs ==
    << DefKV, DefKV2,
       [DefKV EXCEPT !.cols = <<Na>>],
       [DefKV EXCEPT !.nokey = 1],
       [DefKV EXCEPT !.key = <<<<2, 0>>>>],
       [DefKV EXCEPT !.cols = <<Na, RowidName>>],
       [DefKV EXCEPT !.cols = <<RowidName, Nb>>] >>

Defs ==
    CASE Profile \in {"C04", "C06"} -> KeyDefs
      [] Profile = "C05" -> RefuseDefs
      [] Profile = "C09" -> TypeDefs
      [] Profile = "C11" -> MisuseDefs
      [] Profile = "C12" -> NameDefs
      [] OTHER -> <<DefKV, DefKV2>>

-----------------------------------------------------------------------------
(* The events of each profile *)

Ev(op) == [op |-> op]
TEv(op, tid, def) == [op |-> op, tid |-> tid, def |-> def, d |-> Defs[def]]
InsEv(tid, def, rows) == [op |-> "insert", tid |-> tid, def |-> def, d |-> Defs[def], rows |-> rows]
UpdEv(tid, def, row, cols, vals) ==
    [op |-> "updk", tid |-> tid, def |-> def, d |-> Defs[def], row |-> row, cols |-> cols, vals |-> vals]
DelEv(tid, def, row) == [op |-> "delk", tid |-> tid, def |-> def, d |-> Defs[def], row |-> row]
ScanEv(tid, def, cols, min, max, pred) ==
    [op |-> "scan", tid |-> tid, def |-> def, d |-> Defs[def], cols |-> cols, min |-> min,
     max |-> max, pred |-> pred]
RowsEv(c, tid, def, min, max) ==
    [op |-> "rows", c |-> c, tid |-> tid, def |-> def, d |-> Defs[def], cols |-> <<-1>>, min |-> min,
     max |-> max, pred |-> <<>>]
CEv(op, c) == [op |-> op, c |-> c]
CurEv(c, r) == [op |-> "cur", c |-> c, r |-> r]
RUpd(r, cols, vals) == [op |-> "upd", r |-> r, cols |-> cols, vals |-> vals]
RDel(r) == [op |-> "del", r |-> r]

DefNo(s, tid) == CHOOSE i \in 1 .. Len(Defs) : Defs[i] = s.cur[tid].def
Rows(s, tid) == {s.cur[tid].rows[i] : i \in 1 .. Len(s.cur[tid].rows)}

TxEvents(s) ==
    IF s.act THEN {Ev("commit"), Ev("rollback")}
    ELSE {Ev("begin")} \cup (IF s.prev /\ Profile = "C11" THEN {Ev("commit"), Ev("rollback")} ELSE {})

\* Rows of two columns from a small domain.
Ks(tid) == IF tid = 20 THEN {I(0), I(1)} ELSE {I(0)}
Vs(tid) == IF tid = 20 THEN {I(0), Null} ELSE {I(7)}
KVRows(tid) == {<<k, v>> : k \in Ks(tid), v \in Vs(tid)}

TxnEvents(s, tids, drops) ==
    TxEvents(s) \cup
    IF ~s.act THEN {}
    ELSE UNION { IF tid \notin DOMAIN s.cur
                 THEN {TEv("create", tid, IF tid = 20 THEN 1 ELSE 2)}
                 ELSE LET d == DefNo(s, tid)
                      IN (IF tid \in drops THEN {TEv("drop", tid, d)} ELSE {})
                         \cup {InsEv(tid, d, <<r>>) : r \in KVRows(tid)}
                         \cup {UpdEv(tid, d, r, <<1>>, <<v>>) : r \in Rows(s, tid), v \in Vs(tid)}
                         \cup {UpdEv(tid, d, r, <<0>>, <<k>>) : r \in Rows(s, tid), k \in Ks(tid)}
                         \cup {DelEv(tid, d, r) : r \in Rows(s, tid)}
                 : tid \in tids }

\* Keys of every kind.
KeyDom(t) ==
    CASE t = TInt -> {Null, I(0), I(-1)}
      [] t = TStr -> {Null, S0, Str(<<0>>)}
      [] t = TFloat -> {MkFloat(0), <<3, -1, 1, -32768, 0, 0, 0>>}
      [] t = TBytes -> {Bytes(<<>>), Bytes(<<0>>), Bytes(<<1>>)}
      [] t = TBool -> {Null, Bool(FALSE), Bool(TRUE)}

KeyRows(d) == {<<x, y>> : x \in KeyDom(Defs[d].types[1][1]), y \in KeyDom(Defs[d].types[2][1])}

KeyEvents(s, max) ==
    IF ~s.act THEN (IF s.prev /\ Walk = 0 THEN {} ELSE {Ev("begin")})
    ELSE IF DOMAIN s.cur = {} THEN {TEv("create", 20, d) : d \in 1 .. Len(Defs)}
    ELSE LET d == DefNo(s, 20)
         IN (IF Cardinality(Rows(s, 20)) < max THEN {InsEv(20, d, <<r>>) : r \in KeyRows(d)} ELSE {})
            \cup {UpdEv(20, d, r, <<0>>, <<v>>) : r \in Rows(s, 20), v \in KeyDom(Defs[d].types[1][1])}
            \cup {UpdEv(20, d, r, <<0, 1>>, r2) : r \in Rows(s, 20), r2 \in KeyRows(d)}
            \cup {DelEv(20, d, r) : r \in Rows(s, 20)}

ScanEvents(s, max) ==
    IF ~s.act THEN (IF s.prev /\ Walk = 0 THEN {} ELSE {Ev("begin")})
    ELSE IF DOMAIN s.cur = {} THEN {TEv("create", 20, d) : d \in 1 .. Len(Defs)}
    ELSE LET d == DefNo(s, 20)
             bs == KeyRows(d) \cup {<<>>}
         IN (IF Cardinality(Rows(s, 20)) < max
             THEN {InsEv(20, d, <<r>>) : r \in KeyRows(d) \ Rows(s, 20)} ELSE {})
            \cup {ScanEv(20, d, <<-1>>, b1, b2, <<>>) : b1 \in bs, b2 \in bs}
            \cup {ScanEv(20, d, <<1, 0, 1>>, b1, <<>>, <<1, rel, v>>) :
                    b1 \in bs, rel \in 0 .. 3, v \in KeyDom(Defs[d].types[2][1]) \ {Null}}
            \cup {ScanEv(20, d, <<0>>, <<>>, b2, <<0, rel, v>>) :
                    b2 \in bs, rel \in 0 .. 3, v \in KeyDom(Defs[d].types[1][1]) \ {Null}}

\* Inserts and updates which are refused for every reason.
RefuseRows(d) ==
    IF d = 1
    THEN {<<I(0), Sa>>, <<I(1), Null>>, <<I(1), Sa>>, <<Null, Sa>>, <<I(40000), Sa>>,
          <<Bool(TRUE), Sa>>, <<I(0), Str(<<97, 97>>)>>, <<I(0), Sa, Sa>>, <<>>, <<I(1)>>,
          <<Str(<<120>>), Sa>>, <<Str(<<49>>), I(3)>>}
    ELSE {<<I(0), I(0)>>, <<I(0), I(1)>>, <<I(1), Null>>, <<I(1)>>, <<I(2), I(1)>>}

RefuseEvents(s, max) ==
    IF ~s.act THEN (IF s.prev /\ Walk = 0 THEN {} ELSE {Ev("begin")})
    ELSE IF DOMAIN s.cur = {} THEN {TEv("create", 20, d) : d \in 1 .. Len(Defs)}
    ELSE LET d == DefNo(s, 20)
             rs == RefuseRows(d)
             vs == {r[1] : r \in rs \ {<<>>}}
             ws == {r[2] : r \in {q \in rs : Len(q) >= 2}}
         IN {InsEv(20, d, <<a>>) : a \in rs}
            \cup {InsEv(20, d, <<a, b>>) : a \in rs, b \in rs}
            \cup (IF max > 2 THEN {InsEv(20, d, <<a, b, c>>) : a \in rs, b \in rs, c \in rs} ELSE {})
            \cup {UpdEv(20, d, r, <<0>>, <<v>>) : r \in Rows(s, 20), v \in vs}
            \cup {UpdEv(20, d, r, <<1>>, <<w>>) : r \in Rows(s, 20), w \in ws}
            \cup {UpdEv(20, d, r, <<1, 0>>, <<w, v>>) : r \in Rows(s, 20), w \in ws, v \in vs}
            \cup {DelEv(20, d, r) : r \in Rows(s, 20)}

\* Cursors over a changing table.
CurTids == IF Profile = "C08" THEN {20, 21} ELSE {20}
SmallRows(tid) ==
    IF Profile = "C08" THEN (IF tid = 20 THEN {<<I(k), I(v)>> : k \in 0 .. 1, v \in 0 .. 1} ELSE {<<I(0), I(0)>>})
    ELSE IF Bound > 1 THEN {<<I(k), I(0)>> : k \in 0 .. 1}
    ELSE {<<I(k), I(0)>> : k \in 0 .. 2} \cup {<<I(0), I(1)>>}
CursorEvents(s, ncur, nref) ==
    IF ~s.act THEN (IF s.prev /\ Walk = 0 THEN {} ELSE {Ev("begin")})
    ELSE IF \E t \in CurTids : t \notin DOMAIN s.cur /\ s.cs = EmptyFn
    THEN {TEv("create", t, IF t = 20 THEN 1 ELSE 2) : t \in {x \in CurTids : x \notin DOMAIN s.cur}}
    ELSE UNION {
           {InsEv(t, DefNo(s, t), <<r>>) : r \in SmallRows(t)}
           \cup {DelEv(t, DefNo(s, t), r) : r \in Rows(s, t)}
           \cup (IF Profile = "C07" THEN {UpdEv(t, DefNo(s, t), r, <<1>>, <<I(1)>>) : r \in Rows(s, t)}
                      \cup {TEv("drop", t, DefNo(s, t))} ELSE {})
           \cup {RowsEv(c, t, DefNo(s, t), <<>>, <<>>) : c \in {x \in 1 .. ncur : x \notin DOMAIN s.cs}}
           : t \in CurTids \cap DOMAIN s.cur }
         \cup {CEv("next", c) : c \in OpenCursors(s)}
         \cup {CEv("close", c) : c \in OpenCursors(s)}
         \cup (IF Profile = "C08" THEN
                 {CurEv(c, r) : c \in {x \in OpenCursors(s) : s.cs[x].pos > 0 /\ ~s.cs[x].eof}, r \in 1 .. nref}
                 \cup UNION {{RDel(r)} \cup {RUpd(r, <<1>>, <<I(v)>>) : v \in 0 .. 1}
                             \cup {RUpd(r, <<0>>, <<I(k)>>) : k \in 0 .. 1}
                             \cup {RUpd(r, <<1, 0>>, <<I(1), I(1)>>)} : r \in DOMAIN s.rs}
               ELSE {})

\* Values of every type into columns of every type.
TypeVals ==
    {Null, Bool(TRUE), I(3), I(40000), MkFloat(3), <<3, 1, 1, 40960, 0, 0, 0>>, <<3, 1, 40, 32768, 0, 0, 0>>,
     <<2, 1, 40, 32768, 0, 0, 0>>, Str(<<51>>), Str(<<32, 52, 32>>), Str(<<116>>), Str(<<120, 121, 122>>),
     Bytes(<<65>>), Bytes(<<255>>), Bytes(<<1, 2, 3>>), Str(<<50, 46, 53>>)}
TypeEvents(s) ==
    IF ~s.act THEN (IF s.prev /\ Walk = 0 THEN {} ELSE {Ev("begin")})
    ELSE IF DOMAIN s.cur = {} THEN {TEv("create", 20, d) : d \in 1 .. Len(Defs)}
    ELSE LET d == DefNo(s, 20)
             k == IF d = 1 THEN I(1) ELSE Sa
         IN IF Rows(s, 20) = {}
            THEN {InsEv(20, d, <<<<v>>>>) : v \in TypeVals} \cup {InsEv(20, d, <<<<k, v>>>>) : v \in TypeVals}
                 \cup {InsEv(20, d, <<<<k, v, w>>>>) : v \in TypeVals, w \in TypeVals}
                 \cup {InsEv(20, d, <<<<>>>>)}
            ELSE IF s.cur[20].rows = <<<<k, Null, Null>>>> \/ Bound > 1 \/ Walk > 0
            THEN UNION {{UpdEv(20, d, r, <<c>>, <<v>>) : c \in 0 .. 2, v \in TypeVals} : r \in Rows(s, 20)}
            ELSE {}

MisuseEvents(s) ==
    TxEvents(s) \cup
    IF ~s.act THEN {}
    ELSE {TEv("create", t, d) : t \in {15, 20}, d \in 1 .. Len(Defs)}
         \cup {TEv("open", t, d) : t \in {20, 21}, d \in 1 .. 2}
         \cup {TEv("drop", t, 1) : t \in {20, 21}}
         \cup (IF 20 \in DOMAIN s.cur
               THEN (IF Rows(s, 20) = {} THEN {InsEv(20, DefNo(s, 20), <<<<I(0), I(0)>>>>)} ELSE {})
                    \cup (IF 1 \notin DOMAIN s.cs THEN {RowsEv(1, 20, DefNo(s, 20), <<>>, <<>>)} ELSE {})
               ELSE {})
         \cup UNION {{CEv("next", c), CEv("close", c)}
                     \cup (IF s.cs[c].eof \/ 20 \notin DOMAIN s.cur THEN {} ELSE {CurEv(c, 1)}) : c \in DOMAIN s.cs}
         \cup UNION {IF 20 \in DOMAIN s.cur THEN {RDel(r), RUpd(r, <<1>>, <<I(1)>>), RUpd(r, <<0>>, <<I(1)>>)} ELSE {}
                     : r \in DOMAIN s.rs}

DefEvents(s) ==
    TxEvents(s) \cup
    IF ~s.act THEN {}
    ELSE {TEv("create", 20, d) : d \in 1 .. Len(Defs)}
         \cup {TEv("open", 20, d) : d \in 1 .. Len(Defs)}
         \cup {TEv("drop", 20, 1)}

\* Three tables with the same contents.
TableTids == IF Bound > 1 THEN {16, 20, 2147483647} ELSE {16, 17}
TableEvents(s) ==
    (IF s.act THEN {Ev("commit")} ELSE {Ev("begin")}) \cup
    IF ~s.act THEN {}
    ELSE UNION { IF t \notin DOMAIN s.cur
                 THEN {TEv("create", t, 1)} \cup {TEv("open", t, 1)}
                 ELSE {TEv("drop", t, 1), InsEv(t, 1, <<<<I(0), I(0)>>>>), InsEv(t, 1, <<<<I(1), I(0)>>>>)}
                      \cup {DelEv(t, 1, r) : r \in Rows(s, t)}
                      \cup {ScanEv(t, 1, <<-1>>, <<>>, <<>>, <<>>)}
                 : t \in TableTids }
TableBound(s) == \A t \in DOMAIN s.com : Len(s.com[t].rows) <= Bound

ProfileEvents(s) ==
    CASE Profile = "C01" -> TxnEvents(s, {20, 21}, {21})
      [] Profile = "C02" -> TxnEvents(s, IF Bound > 1 THEN {20, 21} ELSE {20}, {20, 21})
      [] Profile = "C04" -> KeyEvents(s, Bound + 1)
      [] Profile = "C05" -> RefuseEvents(s, Bound + 1)
      [] Profile = "C06" -> ScanEvents(s, Bound + 1)
      [] Profile = "C07" -> CursorEvents(s, Bound, 0)
      [] Profile = "C08" -> CursorEvents(s, 1, Bound)
      [] Profile = "C09" -> TypeEvents(s)
      [] Profile = "C10" -> TableEvents(s)
      [] Profile = "C11" -> MisuseEvents(s)
      [] Profile = "C12" -> DefEvents(s)

\* A random path has more than one transaction.
Events(s) == ProfileEvents(s) \cup (IF Walk > 0 /\ s.act THEN {Ev("commit"), Ev("rollback")} ELSE {})

-----------------------------------------------------------------------------

Bare(e) == [x \in DOMAIN e \ {"d"} |-> e[x]]

TableList(ts) ==
    {[tid |-> t, def |-> CHOOSE i \in 1 .. Len(Defs) : Defs[i] = ts[t].def, rows |-> ts[t].rows]
     : t \in DOMAIN ts}

Init == st = InitStore /\ hist = <<>>

Step ==
    \E e \in IF Walk > 0 THEN {RandomElement(Events(st))} ELSE Events(st) :
        LET a == Apply(st, e)
        IN /\ Assert(StepOk(st, e, a.res, a.st), <<"step", e>>)
           /\ st' = a.st
           /\ hist' = Append(hist, [e |-> Bare(e), res |-> a.res])

Line(h, s) == ToJson([path |-> h, act |-> s.act, cur |-> TableList(s.cur), com |-> TableList(s.com)])

\* The end of a random path.
End == CSVWrite("%1$s", <<Line(hist, st)>>, IOEnv.OUT) /\ UNCHANGED <<st, hist>>

Next == IF Walk > 0 /\ Len(hist) >= Walk THEN End ELSE Step

Spec == Init /\ [][Next]_<<st, hist>>

View == st
Ok == StateOk(st)
Constraint == TRUE

\* Write the path of every transition.
Emit == Walk > 0 \/ CSVWrite("%1$s", <<Line(hist', st')>>, IOEnv.OUT)

ASSUME CSVWrite("%1$s", <<ToJson([defs |-> Defs])>>, IOEnv.OUT)
=============================================================================
