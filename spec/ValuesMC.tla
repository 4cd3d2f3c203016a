------------------------------ MODULE ValuesMC ------------------------------
(***************************************************************************)
(* Properties of the order of values, of the order of keys, and of         *)
(* conversion, checked over all triples of a set of values.                *)
(***************************************************************************)
EXTENDS Values, Codec, TLC

CONSTANT Wide   \* the larger set of values

Ints == {MkInt(n) : n \in {0, 1, -1, 2, 7, -7, 127, 128, 32767, 32768, -32768, -32769}}
BigInts ==
    {<<2, 1, 62, 65535, 65535, 65535, 65534>>, <<2, 1, 62, 32768, 0, 0, 0>>, MinInt64,
     <<2, 1, 53, 32768, 0, 0, 1024>>, <<2, -1, -62, -65535, -65535, -65535, -65534>>,
     <<2, 1, 31, 32768, 0, 0, 0>>, <<2, 1, 53, 32768, 0, 0, 0>>}
Floats ==
    {MkFloat(n) : n \in {0, 1, -1, 2, 32768}} \cup
    {<<3, c, 0, 0, 0, 0, 0>> : c \in {-3, -2, 2}} \cup
    {<<3, 1, -1, 32768, 0, 0, 0>>, <<3, 1, 0, 49152, 0, 0, 0>>, <<3, -1, 0, -49152, 0, 0, 0>>,
     <<3, 1, 63, 32768, 0, 0, 0>>, <<3, 1, 62, 32768, 0, 0, 0>>, <<3, -1, -63, -32768, 0, 0, 0>>,
     <<3, 1, 62, 65535, 65535, 65535, 63488>>, <<3, 1, 53, 32768, 0, 0, 0>>,
     <<3, 1, 64, 32768, 0, 0, 0>>, <<3, -1, -1000, -40000, 0, 0, 0>>}
Texts == {<<>>, <<97>>, <<97, 0>>, <<0>>, <<98>>, <<49, 50>>, <<32, 49>>, <<45, 55>>, <<48, 46, 53>>,
          <<116>>, <<111, 110>>, <<255>>, <<51, 50, 55, 54, 56>>}
Small == {Null, Bool(FALSE), Bool(TRUE)} \cup Ints \cup Floats \cup {Str(s) : s \in Texts}
Domain == IF Wide THEN Small \cup BigInts \cup {Bytes(s) : s \in Texts} ELSE Small \cup {Bytes(<<97>>)}

ColTypes ==
    {<<t, s, 0, n>> : t \in {1, 3}, s \in {0}, n \in {0, 1}} \cup
    {<<2, s, 0, n>> : s \in {2, 4, 8}, n \in {0, 1}} \cup
    {<<t, s, 0, n>> : t \in {4, 5}, s \in {1, 3, 8}, n \in {0, 1}}

VARIABLES a, b, c, chosen

Init == a \in Domain /\ b = a /\ c = a /\ chosen = FALSE
Next == ~chosen /\ a' = a /\ b' \in Domain /\ c' \in Domain /\ chosen' = TRUE
Spec == Init /\ [][Next]_<<a, b, c, chosen>>

Antisymmetric == Compare(a, b) = -Compare(b, a)
Reflexive == (a = b => Compare(a, b) = 0)
    /\ ((Compare(a, b) = 0 /\ a # b) => {a[1], b[1]} = {TInt, TFloat})
Transitive == (Compare(a, b) <= 0 /\ Compare(b, c) <= 0) =>
                  (Compare(a, c) <= 0 /\ (Compare(a, c) = 0 => Compare(a, b) = 0 /\ Compare(b, c) = 0))

KeyOrder ==
    /\ \A d \in BOOLEAN :
        /\ KeyColCompare(a, b, d) = -KeyColCompare(b, a, d)
        /\ (KeyColCompare(a, b, d) <= 0 /\ KeyColCompare(b, c, d) <= 0) => KeyColCompare(a, c, d) <= 0
        /\ KeyColCompare(a, b, d) = 0 <=> a = b
    /\ a[1] = b[1] => KeyColCompare(a, b, FALSE) = Compare(a, b)
    /\ a[1] = b[1] /\ ~IsNull(a) => KeyColCompare(a, b, TRUE) = -Compare(a, b)

\* Two key columns: the first decides, then the second.
KeyRows ==
    LET k == <<<<0, 0>>, <<1, 1>>>>
    IN KeyCompare(k, <<a, b>>, <<a, c>>) = KeyColCompare(b, c, TRUE)
       /\ (a # b => KeyCompare(k, <<a, c>>, <<b, b>>) = KeyColCompare(a, b, FALSE))

Conversion ==
    b = c =>
    \A ct \in ColTypes :
        LET r == Convert(ct, a)
        IN /\ r \notin {None, Unknown} => Conforms(ct, r) /\ Convert(ct, r) = r
           /\ (a[1] = ct[1] /\ r # None) => r = a
           /\ Conforms(ct, a) => r = a
           /\ IsNull(a) => (r = None <=> ct[4] = 1)

\* An integer as text and back.
Texts2 ==
    (b = c /\ a[1] = TInt) =>
        /\ Cast(TInt, Cast(TStr, a)) = a
        /\ Unvarint(Varint(TruncMag(a)) \o <<b[1]>>) = <<TruncMag(a), <<b[1]>>>>
        /\ Unzigzag(Zigzag(a)) = a
=============================================================================
