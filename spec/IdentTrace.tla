----------------------------- MODULE IdentTrace -----------------------------
(***************************************************************************)
(* Validates recorded identifiers against Ident.  The harness numbers the  *)
(* identifiers in the order it sees them; which number an identifier (its  *)
(* Canon) has is the state.                                                *)
(***************************************************************************)
EXTENDS Ident, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* nums: numbers of identifiers seen.
VARIABLES l, nums

Num(n) == IF Canon(n) \in DOMAIN nums THEN nums[Canon(n)] ELSE 0
Used == {nums[c] : c \in DOMAIN nums}

\* Is k right as the number of n, where more are the names seen before it in
\* the same event.
Add(f, c, k) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN k ELSE f[x]]

\* The numbers after names ns are seen with numbers ks: <<>> if they are wrong.
RECURSIVE See(_, _, _, _)
See(f, ns, ks, i) ==
    IF i > Len(ns) THEN <<f>>
    ELSE LET c == Canon(ns[i])
         IN IF c \in DOMAIN f
            THEN IF f[c] = ks[i] THEN See(f, ns, ks, i + 1) ELSE <<>>
            ELSE IF \E x \in DOMAIN f : f[x] = ks[i] THEN <<>>
            ELSE See(Add(f, c, ks[i]), ns, ks, i + 1)

\* An event: the numbers afterwards, or <<>> if it is wrong.
After(e) ==
    CASE e.op = "reset" -> <<<<>>>>
      [] e.op \in {"id", "gob"} ->
            IF e.res[1] # "ok" \/ e.res[3] # Text(e.name) THEN <<>>
            ELSE See(nums, <<e.name>>, <<e.res[2]>>, 1)
      [] e.op = "def" ->
            IF \/ e.res[1] # "ok" \/ Len(e.res[2]) # Len(e.def.cols)
               \/ e.res[3] # [i \in 1 .. Len(e.def.cols) |-> Text(e.def.cols[i])]
               \/ e.res[4] # e.def.types \/ e.res[5] # e.def.key
               \/ (e.index = <<>> /\ e.res[6] # 0)
            THEN <<>>
            ELSE See(nums, e.def.cols \o (IF e.index = <<>> THEN <<>> ELSE <<e.index>>),
                     e.res[2] \o <<e.res[6]>>, 1)
      [] OTHER -> <<>>

Init == l = 1 /\ nums = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET a == After(Trace[l])
       IN IF a = <<>>
          THEN PrintT(<<"MISMATCH", l, IF "name" \in DOMAIN Trace[l]
                                       THEN "identifier " \o ToJson(Canon(Trace[l].name)) \o " number "
                                            \o ToString(Num(Trace[l].name))
                                       ELSE "the definition as given">>) /\ FALSE
          ELSE l' = l + 1 /\ nums' = a[1]

Spec == Init /\ [][Next]_<<l, nums>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
