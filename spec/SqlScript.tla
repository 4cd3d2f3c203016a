----------------------------- MODULE SqlScript ------------------------------
(***************************************************************************)
(* What parsing a script (a sequence of characters) gives, call by call:   *)
(*   <<"stmt", tree>>  a statement                                         *)
(*   <<"nil">>         an empty statement                                  *)
(*   <<"err">>         an error; the statement is skipped                  *)
(*   <<"eof">>         the end of the script                               *)
(*   <<"copy", tree, line, data, all>>  a COPY statement, and the data     *)
(*                     read then: 1 if that was all there was, or 0        *)
(* or, where it is not completely specified,                               *)
(*   <<"errs", n>>     one to n errors, for a statement with bad tokens    *)
(*   <<"any">>         a statement or an error                             *)
(*   <<"lost">>        an error, and what is next is not specified         *)
(*   <<"wild">>        what is next is not specified                       *)
(*                                                                         *)
(* If reading fails at the end of the characters (a cut script), then the  *)
(* last result is an error, or a COPY statement with 2 for all.  What is   *)
(* before its semicolon is not a statement.                                *)
(***************************************************************************)
EXTENDS Sql

Ends == <<End, End, End, End>>
Count(s, k) == Cardinality({i \in 1 .. Len(s) : s[i][1] = k})
NLs(x, n) == Cardinality({i \in 1 .. n : x[i] = NL})

\* The statement which is in segment seg (see Lex).
SegTokens(seg) == SubSeq(seg[1], 1, Len(seg[1]) - 1)
SegStatement(seg) ==
    IF Count(SegTokens(seg), "any") > 0 THEN Unspecified ELSE Statement(SegTokens(seg) \o Ends)

\* From i, where take[k] is how much of the data of the k-th COPY is read; all
\* of it if it is not given.
RECURSIVE ResultsOf(_, _, _, _)
ResultsOf(x, i, take, cut) ==
    LET seg == Segment(x, i)
        last == Last(seg[1])[1]
        toks == SegTokens(seg)
        bad == Count(toks, "bad")
        r == SegStatement(seg)
        d == AfterLine(x, seg[2])
        size == Len(x) - d + 1
        rest == ResultsOf(x, seg[2], take, cut)
        all == take = <<>> \/ take[1] > size
        n == IF all THEN size ELSE take[1]
    IN IF last \in {"lost", "wild"} THEN <<<<last>>>>
       ELSE IF cut /\ last = "end" THEN <<<<"errs", bad + 2>>>>
       ELSE IF toks = <<>> THEN IF last = "end" THEN <<<<"eof">>>> ELSE <<<<"nil">>>> \o rest
       ELSE IF bad > 0 THEN <<<<"errs", bad + 1>>>> \o rest
       ELSE IF r[1] = -1 THEN IF toks[1] = Kw("COPY") THEN <<<<"wild">>>> ELSE <<<<"any">>>> \o rest
       ELSE IF ~Good(r) THEN <<<<"err">>>> \o rest
       ELSE IF r[2][1] = "copy"
       THEN <<<<"copy", r[2], 1 + NLs(x, d - 1), SubSeq(x, d, d + n - 1),
                IF ~all THEN 0 ELSE IF cut THEN 2 ELSE 1>>>>
            \o (IF all /\ cut THEN <<>> ELSE ResultsOf(x, d + n, IF take = <<>> THEN take ELSE Tail(take), cut))
       ELSE <<<<"stmt", r[2]>>>> \o rest

Results(x, i, take) == ResultsOf(x, i, take, FALSE)

=============================================================================
