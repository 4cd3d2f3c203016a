---------------------------- MODULE ValuesTrace -----------------------------
(* Validates recorded comparisons and conversions of values against Values. *)
EXTENDS Values, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Unsorted(vs) == {i \in 1 .. Len(vs) - 1 : Compare(vs[i], vs[i + 1]) > 0}

\* Where the specification does not give the exact result.
Plausible(t, v, r) ==
    CASE t = TFloat -> r = <<"rej">> \/ (r[1] = "ok" /\ r[2][1] = TFloat)
      [] t = TStr ->
            /\ r[1] = "ok" /\ r[2][1] = TStr
            /\ LET f == TextToFloat(Payload(r[2])) IN f = Unknown \/ f = v
      [] OTHER -> FALSE

Result(v) == IF v = None THEN <<"rej">> ELSE <<"ok", v>>

ConvertOk(t, v, want, e) ==
    /\ IF want = Unknown THEN Plausible(t, v, e.res) ELSE e.res = Result(want)
    /\ e.again = e.res

Wrong(e) ==
    CASE e.op = "cmp" ->
            LET want == <<"ok", Compare(e.a, e.b)>>
                key == <<"ok", KeyColCompare(e.a, e.b, FALSE)>>
            IN IF e.res # want THEN ToJson(want)
               ELSE IF e.a[1] = e.b[1] /\ (e.key # key \/ e.key # want)
               THEN "key order " \o ToJson(key) ELSE ""
      [] e.op = "sorted" ->
            LET bad == Unsorted(e.vals)
            IN IF bad = {} /\ e.res = <<"ok">> THEN "" ELSE "sorted values: positions " \o ToString(bad)
      [] e.op = "cast" ->
            LET want == Cast(e.t, e.v)
            IN IF ConvertOk(e.t, e.v, want, e) THEN "" ELSE ToJson(want)
      [] e.op = "convert" ->
            LET want == Convert(e.ct, e.v)
                c == IF want = Unknown /\ e.ct[1] = TStr
                     THEN e.res = <<"rej">> \/ (Plausible(TStr, e.v, e.res) /\ Conforms(e.ct, e.res[2]))
                     ELSE ConvertOk(e.ct[1], e.v, want, e)
            IN IF c /\ e.again = e.res THEN "" ELSE ToJson(want)
      [] e.op = "row" ->
            LET want == ConvertRow(e.cts, e.row)
            IN IF e.after # e.row THEN "the given row to be unchanged"
               ELSE IF want = None THEN (IF e.res = <<"rej">> THEN "" ELSE "refused")
               ELSE IF \E i \in 1 .. Len(want) : want[i] = Unknown
               THEN IF e.res[1] = "rej" \/ RowConforms(e.cts, e.res[2]) THEN "" ELSE "a conforming row"
               ELSE IF e.res = <<"ok", want>> THEN "" ELSE ToJson(want)
      [] OTHER -> "a result"

Init == l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET w == Wrong(Trace[l])
       IN IF w = "" THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l, w>>) /\ FALSE

Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
