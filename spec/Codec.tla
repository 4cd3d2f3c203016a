------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The encodings of keys and of variable length integers.                  *)
(*                                                                         *)
(* What the bytes of a key are is not specified, only that their order is  *)
(* that of the key values (KeyCompare).  Variable length integers have     *)
(* seven bits in every byte, the least significant first; all bytes but    *)
(* the last have the high bit set.  An integer of 64 bits is given as its  *)
(* four 16 bit limbs, most significant first.                              *)
(***************************************************************************)
EXTENDS Values

\* keys[i] is the encoded key of rows[i], and they are in the order of the
\* keys.  As both orders are transitive it is enough that they agree on
\* neighbors.  Returns the first position where they do not, or zero.
KeysBad(key, rows, keys) ==
    LET bad == {i \in 1 .. Len(rows) - 1 :
                    LET c == LexCmp(keys[i], keys[i + 1])
                    IN c > 0 \/ c # KeyCompare(key, rows[i], rows[i + 1])}
    IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

-----------------------------------------------------------------------------

RECURSIVE Varint(_)
Varint(m) ==
    LET qr == DivMod(m, 128)
    IN IF qr[1] = Zero4 THEN <<qr[2]>> ELSE <<qr[2] + 128>> \o Varint(qr[1])

\* Bitwise or of a magnitude and b * 2^s where those bits are zero.
AddShifted(m, b, s) ==
    LET t == ShiftLeft(<<0, 0, 0, b>>, s)
    IN <<m[1] + t[1], m[2] + t[2], m[3] + t[3], m[4] + t[4]>>

\* Decode from position i: <<>> if there is no integer or <<limbs, rest>>.
RECURSIVE UnvarintFrom(_, _, _)
UnvarintFrom(buf, i, m) ==
    IF i > Len(buf) \/ i > 10 THEN <<>>
    ELSE LET b == buf[i]
             n == AddShifted(m, b % 128, 7 * (i - 1))
         IN IF b < 128 THEN <<n, SubSeq(buf, i + 1, Len(buf))>>
            ELSE UnvarintFrom(buf, i + 1, n)
Unvarint(buf) == UnvarintFrom(buf, 1, Zero4)

\* The two's complement limbs of a sign and a magnitude.
Complement(m) ==
    LET t4 == (B - 1 - m[4]) + 1
        t3 == (B - 1 - m[3]) + t4 \div B
        t2 == (B - 1 - m[2]) + t3 \div B
        t1 == (B - 1 - m[1]) + t2 \div B
    IN <<t1 % B, t2 % B, t3 % B, t4 % B>>

\* Zigzag: 0, -1, 1, -2, ... are 0, 1, 2, 3, ...
Zigzag(v) ==
    LET d == ShiftLeft(TruncMag(v), 1)   \* 2 * |v|
    IN IF Neg(v) THEN LET c == Complement(<<0, 0, 0, 1>>)   \* 2 * |v| - 1
                          t4 == d[4] + c[4]
                          t3 == d[3] + c[3] + t4 \div B
                          t2 == d[2] + c[2] + t3 \div B
                          t1 == d[1] + c[1] + t2 \div B
                      IN <<t1 % B, t2 % B, t3 % B, t4 % B>>
       ELSE d

Unzigzag(m) ==
    LET h == ShiftRight(m, 1)
    IN IF m[4] % 2 = 0 THEN MakeNumber(TInt, FALSE, h)
       ELSE LET t4 == h[4] + 1
                t3 == h[3] + t4 \div B
                t2 == h[2] + t3 \div B
                t1 == h[1] + t2 \div B
            IN MakeNumber(TInt, TRUE, <<t1, t2 % B, t3 % B, t4 % B>>)

BigEndian(m) == <<m[1] \div 256, m[1] % 256, m[2] \div 256, m[2] % 256,
                  m[3] \div 256, m[3] % 256, m[4] \div 256, m[4] % 256>>
=============================================================================
