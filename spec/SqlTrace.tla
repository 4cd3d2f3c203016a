------------------------------ MODULE SqlTrace ------------------------------
(***************************************************************************)
(* Validates recorded parses of scripts against SqlScript.                 *)
(***************************************************************************)
EXTENDS SqlScript, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Trees are compared as text: one may have any shape.
SameTree(a, b) == ToJson(a) = ToJson(b)

Right == <<>>
Wrong(k, t) == <<k, t>>

\* Check results from the k-th against the text from i: Right, or Wrong with
\* the number of the result and what it should have been.
RECURSIVE Check(_, _, _, _, _)
Check(x, i, res, k, cut) ==
    LET seg == Segment(x, i)
        last == Last(seg[1])
        toks == SegTokens(seg)
        bad == Count(toks, "bad")
        r == SegStatement(seg)
        d == AfterLine(x, seg[2])
        got == res[k]
        errs == {n \in 1 .. bad + 1 : \A m \in k .. k + n - 1 : m <= Len(res) /\ res[m] = <<"err">>}
    IN IF k > Len(res) THEN Wrong(k, "another result")
       ELSE IF last = <<"wild">> THEN Right
       ELSE IF last = <<"lost">>
       THEN IF got = <<"err">> THEN Right ELSE Wrong(k, "error")
       ELSE IF cut /\ last = End
       THEN IF Len(res) - k \in 0 .. bad + 1 /\ \A m \in k .. Len(res) : res[m] = <<"err">> THEN Right ELSE Wrong(k, "only an error")
       ELSE IF toks = <<>>
       THEN IF last = End
            THEN IF got = <<"eof">> /\ k = Len(res) THEN Right ELSE Wrong(k, "end of input")
            ELSE IF got = <<"nil">> THEN Check(x, seg[2], res, k + 1, cut) ELSE Wrong(k, "empty statement")
       ELSE IF bad > 0
       THEN IF errs = {} THEN Wrong(k, "error")
            ELSE IF \E n \in errs : Check(x, seg[2], res, k + n, cut) = Right THEN Right
            ELSE Check(x, seg[2], res, k + 1, cut)
       ELSE IF r[1] = -1
       THEN IF toks[1] = Kw("COPY") THEN Right
            ELSE IF got[1] \in {"stmt", "err"} THEN Check(x, seg[2], res, k + 1, cut)
            ELSE Wrong(k, "statement or error")
       ELSE IF ~Good(r)
       THEN IF got = <<"err">> THEN Check(x, seg[2], res, k + 1, cut) ELSE Wrong(k, "error")
       ELSE IF r[2][1] = "copy"
       THEN IF got[1] # "copy" \/ ~SameTree(got[2], r[2]) THEN Wrong(k, ToJson(r[2]))
            ELSE IF got[3] # 1 + NLs(x, d - 1) THEN Wrong(k, "line " \o ToString(1 + NLs(x, d - 1)))
            ELSE IF \/ d + Len(got[4]) - 1 > Len(x)
                    \/ got[4] # SubSeq(x, d, d + Len(got[4]) - 1)
                    \/ got[5] > 0 /\ d + Len(got[4]) - 1 < Len(x)
                    \/ got[5] = IF cut THEN 1 ELSE 2
                 THEN Wrong(k, "data " \o ToJson(SubSeq(x, d, Len(x))))
            ELSE IF got[5] = 2 THEN IF k = Len(res) THEN Right ELSE Wrong(k + 1, "nothing")
            ELSE Check(x, d + Len(got[4]), res, k + 1, cut)
       ELSE IF SameTree(got, <<"stmt", r[2]>>) THEN Check(x, seg[2], res, k + 1, cut)
       ELSE Wrong(k, ToJson(r[2]))

\* The tokens of a text.
RECURSIVE AllTokens(_, _)
AllTokens(x, i) ==
    LET seg == Segment(x, i)
    IN IF Last(seg[1])[1] # "semi" THEN seg[1] ELSE seg[1] \o AllTokens(x, seg[2])

\* Only that parsing ends.  n is the length of the text; all is how many results there were, and
\* then what kinds of them.
Ended(all, n) ==
    LET res == Tail(all)
    IN IF \E k \in 1 .. Len(res) : res[k] \notin {<<"stmt">>, <<"nil">>, <<"err">>, <<"eof">>, <<"copy">>}
       THEN Wrong(1, "no crash")
       ELSE IF res = <<>> \/ Last(res) # <<"eof">> \/ all[1] > n + 1 THEN Wrong(all[1], "end of input")
       ELSE Right

Verdict(e) ==
    CASE e.op = "script" -> Check(e.text, 1, e.res, 1, e.cut)
      [] e.op = "layouts" ->
            LET c == [k \in 1 .. Len(e.texts) |-> Check(e.texts[k], 1, e.res[k], 1, FALSE)]
                toks == [k \in 1 .. Len(e.texts) |-> AllTokens(e.texts[k], 1)]
                wrong == {k \in 1 .. Len(c) : c[k] # Right}
                differ == {k \in 2 .. Len(c) : ~SameTree(e.res[k], e.res[1])}
                clear == Last(toks[1]) = End
            IN IF clear /\ \E k \in 2 .. Len(toks) : toks[k] # toks[1]
               THEN Wrong(0, "texts of the same tokens")
               ELSE IF wrong # {} THEN LET k == CHOOSE k \in wrong : \A m \in wrong : k <= m
                                       IN Wrong(k, "layout " \o ToString(k) \o ": " \o c[k][2])
               ELSE IF clear /\ differ # {} THEN Wrong(CHOOSE k \in differ : TRUE, "the same as the first layout")
               ELSE Right
      [] e.op = "any" -> Ended(e.res, e.len)

VARIABLE l
Init == l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l])
       IN IF v = Right THEN l' = l + 1
          ELSE PrintT(<<"MISMATCH", l, "result " \o ToString(v[1]) \o ": " \o v[2]>>) /\ FALSE

Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
