------------------------------ MODULE TypedMC -------------------------------
(***************************************************************************)
(* A bounded model of Typed: a structure with a key of two fields, one of  *)
(* which is optional, an optional integer and a slice of bytes.  For each  *)
(* transition TLC writes a path of events with their results, which the    *)
(* harness replays, and the rows at the end of it.                         *)
(***************************************************************************)
EXTENDS Typed, Json, CSV, IOUtils

CONSTANT Bound
CONSTANT Walk    \* 0, or the length of the random paths to write instead (TLC -simulate)

VARIABLES st, hist

F(name, kind, ptr, size, notnull, primary) ==
    [name |-> name, tag |-> <<>>, kind |-> kind, ptr |-> ptr, size |-> size, notnull |-> notnull,
     primary |-> primary]

\* Two types; the second one has no fields which are not part of the key.
Fields(n) ==
    IF n = 1
    THEN << F(<<75, 101, 121>>, "int16", 0, 0, 0, 1),            \* Key
            F(<<79, 112, 116>>, "int32", 1, 0, 0, 0),            \* Opt
            F(<<66, 121, 116, 101, 115>>, "bytes", 0, 2, 0, 0) >> \* Bytes
    ELSE << F(<<65>>, "string", 1, 2, 0, 1),                     \* A
            F(<<66>>, "float32", 1, 0, 0, 0),                    \* B
            F(<<67>>, "bool", 0, 0, 0, 1) >>                     \* C

\* Values of the fields.
I(n) == MkInt(n)
Vals(n) ==
    IF n = 1
    THEN << {I(-1), I(1)}, {Null, I(-7)}, {Null, Bytes(<<>>)} \cup (IF Bound > 1 THEN {Bytes(<<0, 1>>)} ELSE {}) >>
    ELSE << {Null, Str(<<>>)} \cup (IF Bound > 1 THEN {Str(<<97, 0>>)} ELSE {}),
            {Null, MkFloat(0)}, {Bool(FALSE), Bool(TRUE)} >>

VARIABLE type

Structs == LET v == Vals(type) IN {<<a, b, c>> : a \in v[1], b \in v[2], c \in v[3]}
Keys == LET v == Vals(type) IN
    IF type = 1 THEN {<<a, Null, Null>> : a \in v[1]} ELSE {<<a, Null, c>> : a \in v[1], c \in v[3]}
Long == IF type = 1 THEN <<I(1), Null, Bytes(<<1, 2, 3>>)>> ELSE <<Str(<<97, 98, 99>>), Null, Bool(TRUE)>>

Cases == \* columns and new values of an update
    LET v == Vals(type)
    IN UNION {{<<<<c - 1>>, <<x>>>> : x \in v[c]} : c \in 1 .. 3}
       \cup {<<<<2, 0>>, <<x, y>>>> : x \in v[3], y \in v[1]}

Events(s) ==
    IF s.dirty THEN {[op |-> "rollback"]}
    ELSE IF ~s.act THEN {[op |-> "begin"]}
    ELSE {[op |-> "commit"], [op |-> "rollback"]}
         \cup {[op |-> "ins", rows |-> <<x>>] : x \in Structs \cup {Long}}
         \cup {[op |-> "ins", rows |-> <<CHOOSE y \in Structs : TRUE, x>>] : x \in Structs}
         \cup {[op |-> "lookup", row |-> k] : k \in Keys}
         \cup {[op |-> "sel", min |-> a, max |-> b, stop |-> n] : a \in Keys \cup {<<>>}, b \in Keys \cup {<<>>}, n \in 0 .. 1}
         \cup {[op |-> "del", min |-> a, max |-> b, stop |-> 0, mask |-> m] :
                 a \in Keys \cup {<<>>}, b \in Keys \cup {<<>>}, m \in {<<1>>, <<0, 1>>}}
         \cup {[op |-> "upd", min |-> k, max |-> k, stop |-> 0, mask |-> <<1>>, cols |-> c[1], vals |-> c[2]] : k \in Keys, c \in Cases}
         \cup {[op |-> "upd", min |-> <<>>, max |-> <<>>, stop |-> n, mask |-> m, cols |-> c[1], vals |-> c[2]] :
                 c \in Cases, n \in 0 .. 1, m \in {<<1>>, <<0, 1>>}}

Init == type \in 1 .. 2 /\ hist = <<>> /\ st = InitTyped(TypedDef(Fields(type)))

Step ==
    /\ UNCHANGED type
    /\ \E e \in IF Walk > 0 THEN {RandomElement(Events(st))} ELSE Events(st) :
        LET a == TypedApply(st, e)
        IN /\ Assert(TypedStepOk(st, e, a.res, a.st), <<"step", e>>)
           /\ st' = a.st
           /\ hist' = Append(hist, [e |-> e, res |-> a.res])

Line(h, s, t) == ToJson([type |-> t, path |-> h, act |-> s.act, dirty |-> s.dirty, cur |-> s.cur, com |-> s.com])

\* The end of a random path.
End == CSVWrite("%1$s", <<Line(hist, st, type)>>, IOEnv.OUT) /\ UNCHANGED <<st, hist, type>>

Next == IF Walk > 0 /\ Len(hist) >= Walk THEN End ELSE Step

Spec == Init /\ [][Next]_<<st, hist, type>>
View == <<st, type>>
Ok == TypedOk(st)
Constraint == Walk > 0 \/ (Len(st.cur) <= 2 /\ (Bound > 1 \/ Len(st.com) <= 1))

\* Write the path of every transition.
Emit == Walk > 0 \/ CSVWrite("%1$s", <<Line(hist', st', type')>>, IOEnv.OUT)

ASSUME CSVWrite("%1$s", <<ToJson([types |-> <<Fields(1), Fields(2)>>])>>, IOEnv.OUT)
=============================================================================
