----------------------------- MODULE CodecTrace -----------------------------
(* Validates recorded calls of the encoders and decoders against Codec. *)
EXTENDS Codec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

\* What is wrong with a call: "" if nothing.
Wrong(e) ==
    CASE e.op = "keys" ->
            IF e.res # <<"ok">> THEN "keys to be made"
            ELSE LET i == KeysBad(e.key, e.rows, e.keys)
                 IN IF i = 0 THEN ""
                    ELSE "the order of keys to be that of the rows: " \o ToJson(<<e.key,
                         e.rows[i], e.keys[i], e.rows[i + 1], e.keys[i + 1]>>)
      [] e.op = "varint" ->
            IF e.res # <<"ok", e.n, e.rest>> THEN "the integer and the rest"
            ELSE IF e.short # 0 THEN "an input which is cut short to be refused"
            ELSE IF Len(e.enc) # Len(Varint(e.n)) THEN ToJson(Varint(e.n)) ELSE ""
      [] e.op = "zigzag" ->
            IF e.res # <<"ok", e.n, e.rest>> THEN "the integer and the rest"
            ELSE IF e.short # 0 THEN "an input which is cut short to be refused"
            ELSE IF Len(e.enc) # Len(Varint(Zigzag(e.n))) THEN ToJson(Varint(Zigzag(e.n))) ELSE ""
      [] e.op = "decode" ->
            LET d == Unvarint(e.buf)
                want == IF d = <<>> THEN <<"rej">> ELSE <<"ok", d[1], d[2]>>
                zwant == IF d = <<>> THEN <<"rej">> ELSE <<"ok", Unzigzag(d[1]), d[2]>>
            IN IF e.res # want THEN ToJson(want) ELSE IF e.zres # zwant THEN ToJson(zwant) ELSE ""
      [] e.op = "fixed" ->
            LET b == BigEndian(e.n)
                want == <<"ok", <<9>> \o b, <<9>> \o SubSeq(b, 5, 8)>>
            IN IF e.res = want THEN "" ELSE ToJson(want)
      [] OTHER -> "a result"

Init == l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET w == Wrong(Trace[l])
       IN IF w = "" THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l, w>>) /\ FALSE

Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
