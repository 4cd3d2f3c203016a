------------------------------- MODULE Ident --------------------------------
(***************************************************************************)
(* Identifiers.  A written name is <<q, byte, byte, ...>> where q is 0 for *)
(* an unquoted and 1 for a quoted name.  Canon maps a written name to the  *)
(* identifier it denotes: <<0, upper case bytes>> for a keyword and        *)
(* <<1, bytes>> for any other.  Two names denote the same identifier if    *)
(* and only if they have the same Canon.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, IdentKeywords

MaxIdent == 128

Truncate(s) == IF Len(s) > MaxIdent THEN SubSeq(s, 1, MaxIdent) ELSE s

LowerByte(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
UpperByte(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b

\* Lower case of ASCII and of the Latin-1 letters (C3 80 .. C3 9E in UTF-8).
Lower(s) ==
    [i \in 1 .. Len(s) |->
        IF i > 1 /\ s[i - 1] = 195 /\ s[i] >= 128 /\ s[i] <= 158 /\ s[i] # 151
        THEN s[i] + 32 ELSE LowerByte(s[i])]
Upper(s) == [i \in 1 .. Len(s) |-> UpperByte(s[i])]

IsKeyword(s) == Upper(s) \in Keywords

Canon(n) ==
    LET s == Truncate(Tail(n))
    IN IF n[1] = 1 THEN <<1>> \o s
       ELSE IF IsKeyword(s) THEN <<0>> \o Upper(s)
       ELSE <<1>> \o Lower(s)

\* The text of an identifier.
Text(n) == Tail(Canon(n))

Same(n1, n2) == Canon(n1) = Canon(n2)

=============================================================================
