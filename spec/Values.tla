------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* SQL values, their order, the order of keys, and conversion to column    *)
(* types.                                                                  *)
(*                                                                         *)
(* Every value is a tuple of integers:                                     *)
(*   NULL     <<0>>                                                        *)
(*   boolean  <<1, 0 or 1>>                                                *)
(*   integer  <<2, c, e, m1, m2, m3, m4>>                                  *)
(*   float    <<3, c, e, m1, m2, m3, m4>>                                  *)
(*   string   <<4, byte, byte, ...>>                                       *)
(*   bytes    <<5, byte, byte, ...>>                                       *)
(* A number is written the same way whether it is an integer or a float:   *)
(* c is -3 for NaN, -2 for -infinity, -1 negative, 0 zero, 1 positive, 2   *)
(* for infinity.  The magnitude of a finite number is M * 2^(E-63) where   *)
(* 2^63 <= M < 2^64 has the four 16 bit limbs, most significant first, M1  *)
(* to M4; e, m1..m4 are E, M1..M4 if it is positive and -E, -M1..-M4 if    *)
(* it is negative.  (Zero, NaN and infinities have all zeros.)  Written    *)
(* this way the exact numeric order is the lexicographic order.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LOCAL INSTANCE SequencesExt

TNull  == 0
TBool  == 1
TInt   == 2
TFloat == 3
TStr   == 4
TBytes == 5

Null == <<0>>
Bool(b) == <<1, IF b THEN 1 ELSE 0>>
Str(s) == <<4>> \o s
Bytes(s) == <<5>> \o s

IsNull(v) == v[1] = 0
IsNumber(v) == v[1] \in {2, 3}
Payload(v) == SubSeq(v, 2, Len(v))

-----------------------------------------------------------------------------
(* Order *)

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE IF i + 31 <= Len(a) /\ i + 31 <= Len(b) /\ SubSeq(a, i, i + 31) = SubSeq(b, i, i + 31)
    THEN LexFrom(a, b, i + 32)     \* in larger steps where they are equal
    ELSE LexFrom(a, b, i + 1)

LexCmp(a, b) == LexFrom(a, b, 1)

Rank(v) == IF v[1] = 3 THEN 2 ELSE v[1]

\* The order of values: NULL, booleans, numbers, strings, bytes.
Compare(a, b) ==
    IF Rank(a) < Rank(b) THEN -1
    ELSE IF Rank(a) > Rank(b) THEN 1
    ELSE LexFrom(a, b, 2)

\* The order of values in a key column.  NULL is first in either direction.
KeyColCompare(a, b, desc) ==
    IF IsNull(a) \/ IsNull(b)
    THEN (IF IsNull(a) /\ IsNull(b) THEN 0 ELSE IF IsNull(a) THEN -1 ELSE 1)
    ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF desc THEN LexFrom(b, a, 2) ELSE LexFrom(a, b, 2)

\* The order of rows under a primary key: a sequence of <<column, desc>>
\* where columns count from zero and desc is 0 or 1.
RECURSIVE KeyCmpFrom(_, _, _, _)
KeyCmpFrom(key, r1, r2, i) ==
    IF i > Len(key) THEN 0
    ELSE LET c == KeyColCompare(r1[key[i][1] + 1], r2[key[i][1] + 1], key[i][2] = 1)
         IN IF c # 0 THEN c ELSE KeyCmpFrom(key, r1, r2, i + 1)

KeyCompare(key, r1, r2) == KeyCmpFrom(key, r1, r2, 1)

KeyOf(key, row) == [i \in 1 .. Len(key) |-> row[key[i][1] + 1]]

-----------------------------------------------------------------------------
(* Arithmetic on magnitudes: four 16 bit limbs, most significant first *)

B == 65536
Zero4 == <<0, 0, 0, 0>>

\* m * k + a where k and a are small; the result has five limbs, the first
\* being the overflow.
MulAdd(m, k, a) ==
    LET t4 == m[4] * k + a
        t3 == m[3] * k + t4 \div B
        t2 == m[2] * k + t3 \div B
        t1 == m[1] * k + t2 \div B
    IN <<t1 \div B, t1 % B, t2 % B, t3 % B, t4 % B>>

\* <<quotient, remainder>> of m by a small k.
DivMod(m, k) ==
    LET r1 == m[1] % k
        t2 == r1 * B + m[2]
        r2 == t2 % k
        t3 == r2 * B + m[3]
        r3 == t3 % k
        t4 == r3 * B + m[4]
    IN <<<<m[1] \div k, t2 \div k, t3 \div k, t4 \div k>>, t4 % k>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

RECURSIVE ShiftRight(_, _)
ShiftRight(m, n) ==
    IF n = 0 THEN m
    ELSE IF n >= 16 THEN ShiftRight(<<0, m[1], m[2], m[3]>>, n - 16)
    ELSE DivMod(m, Pow2(n))[1]

\* Bits shifted out of the left are lost.
RECURSIVE ShiftLeft(_, _)
ShiftLeft(m, n) ==
    IF n = 0 THEN m
    ELSE IF n >= 16 THEN ShiftLeft(<<m[2], m[3], m[4], 0>>, n - 16)
    ELSE LET r == MulAdd(m, Pow2(n), 0) IN <<r[2], r[3], r[4], r[5]>>

\* The number of leading zero bits of a nonzero magnitude.
RECURSIVE LeadingLimb(_)
LeadingLimb(x) == IF x >= 32768 THEN 0 ELSE 1 + LeadingLimb(2 * x)
LeadingZeros(m) ==
    IF m[1] # 0 THEN LeadingLimb(m[1])
    ELSE IF m[2] # 0 THEN 16 + LeadingLimb(m[2])
    ELSE IF m[3] # 0 THEN 32 + LeadingLimb(m[3])
    ELSE 48 + LeadingLimb(m[4])

\* The number with the given tag, sign, and magnitude (an integer below 2^64).
MakeNumber(tag, neg, m) ==
    IF m = Zero4 THEN <<tag, 0, 0, 0, 0, 0, 0>>
    ELSE LET z == LeadingZeros(m)
             n == ShiftLeft(m, z)
             e == 63 - z
         IN IF neg THEN <<tag, -1, -e, -n[1], -n[2], -n[3], -n[4]>>
            ELSE <<tag, 1, e, n[1], n[2], n[3], n[4]>>

Abs(n) == IF n < 0 THEN -n ELSE n
MkInt(n) == MakeNumber(TInt, n < 0, <<0, 0, Abs(n) \div B, Abs(n) % B>>)
MkFloat(n) == MakeNumber(TFloat, n < 0, <<0, 0, Abs(n) \div B, Abs(n) % B>>)

Neg(v) == v[2] < 0
Exp(v) == Abs(v[3])   \* only for numbers of magnitude at least one
E2(v) == IF v[2] < 0 THEN -v[3] ELSE v[3]
Mant(v) == <<Abs(v[4]), Abs(v[5]), Abs(v[6]), Abs(v[7])>>
IsFinite(v) == v[2] \in {-1, 0, 1}

\* The magnitude of the integer part of a number which is less than 2^64.
TruncMag(v) == IF v[2] = 0 \/ E2(v) < 0 THEN Zero4 ELSE ShiftRight(Mant(v), 63 - E2(v))

MinInt64 == <<2, -1, -63, -32768, 0, 0, 0>>
InInt64(v) ==
    /\ IsFinite(v)
    /\ \/ v[2] = 0
       \/ E2(v) <= 62
       \/ Payload(v) = Payload(MinInt64)

\* Is the integer v within a signed integer of size bytes.
FitsInt(v, size) ==
    LET bits == 8 * size - 1
    IN \/ v[2] = 0
       \/ E2(v) < bits
       \/ v[2] = -1 /\ E2(v) = bits /\ Mant(v) = <<32768, 0, 0, 0>>

\* The float nearest to integer v; ties go to the even mantissa of 53 bits.
\* A carry or a sticky bit below the 64 bits of the mantissa may be given.
Round53(neg, e, m, sticky) ==
    LET rem == m[4] % 2048
        low == <<m[1], m[2], m[3], m[4] - rem>>
        up  == \/ rem > 1024
               \/ rem = 1024 /\ (sticky \/ (m[4] \div 2048) % 2 = 1)
        t4  == low[4] + (IF up THEN 2048 ELSE 0)
        t3  == low[3] + t4 \div B
        t2  == low[2] + t3 \div B
        t1  == low[1] + t2 \div B
        r   == IF t1 >= B THEN <<e + 1, 32768, 0, 0, 0>> ELSE <<e, t1, t2 % B, t3 % B, t4 % B>>
    IN IF neg THEN <<TFloat, -1, -r[1], -r[2], -r[3], -r[4], -r[5]>>
       ELSE <<TFloat, 1>> \o r

IntToFloat(v) ==
    IF v[2] = 0 THEN <<TFloat, 0, 0, 0, 0, 0, 0>>
    ELSE Round53(v[2] = -1, E2(v), Mant(v), FALSE)

FloatToInt(v) == MakeNumber(TInt, v[2] = -1, TruncMag(v))

-----------------------------------------------------------------------------
(* Text *)

RECURSIVE DigitsOf(_)
DigitsOf(m) ==
    IF m = Zero4 THEN <<>>
    ELSE LET qr == DivMod(m, 10) IN Append(DigitsOf(qr[1]), qr[2])

DigitChars(ds) == [i \in 1 .. Len(ds) |-> 48 + ds[i]]

IntText(v) ==
    IF v[2] = 0 THEN <<48>>
    ELSE (IF Neg(v) THEN <<45>> ELSE <<>>) \o DigitChars(DigitsOf(TruncMag(v)))

IsBlank(b) == b \in {32, 9, 10}
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsBlank(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsBlank(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

IsDigit(b) == b >= 48 /\ b <= 57
AllDigits(s) == \A i \in 1 .. Len(s) : IsDigit(s[i])

None == <<>>    \* there is no such value

\* The magnitude of a sequence of digit characters: <<overflow, 4 limbs>>.
RECURSIVE MagOf(_, _, _)
MagOf(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET r == MulAdd(<<acc[2], acc[3], acc[4], acc[5]>>, 10, s[i] - 48)
         IN MagOf(s, i + 1, <<IF acc[1] # 0 \/ r[1] # 0 THEN 1 ELSE 0, r[2], r[3], r[4], r[5]>>)
Magnitude(s) == MagOf(s, 1, <<0, 0, 0, 0, 0>>)

\* An integer from text (already trimmed) or None.
TextToInt(s) ==
    LET signed == s # <<>> /\ s[1] \in {43, 45}
        ds == IF signed THEN Tail(s) ELSE s
        neg == s # <<>> /\ s[1] = 45
    IN IF ds = <<>> \/ ~AllDigits(ds) THEN None
       ELSE LET m == Magnitude(ds)
            IN IF m[1] # 0 THEN None
               ELSE LET v == MakeNumber(TInt, neg, <<m[2], m[3], m[4], m[5]>>)
                    IN IF InInt64(v) THEN v ELSE None

\* The position of the first byte of s which is in S, or 0.
IndexOf(s, S) ==
    LET is == {i \in 1 .. Len(s) : s[i] \in S}
    IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

Zeros(n) == [i \in 1 .. n |-> 48]

\* Decimal fraction digits doubled: <<carry, digits>>.
DoubleDigits(ds) ==
    LET carry == [i \in 1 .. Len(ds) + 1 |-> IF i <= Len(ds) /\ ds[i] >= 5 THEN 1 ELSE 0]
    IN <<IF ds = <<>> THEN 0 ELSE carry[1],
         [i \in 1 .. Len(ds) |-> ((2 * ds[i]) % 10) + carry[i + 1]]>>

AllZero(ds) == \A i \in 1 .. Len(ds) : ds[i] = 0

\* Shift bits of the fraction into the magnitude until it has 64 bits.
\* Returns <<E, m, sticky>>.
RECURSIVE Normalize(_, _, _)
Normalize(e, m, frac) ==
    IF m[1] >= 32768 THEN <<e, m, ~AllZero(frac)>>
    ELSE LET d == DoubleDigits(frac)
             r == MulAdd(m, 2, d[1])
         IN Normalize(e - 1, <<r[2], r[3], r[4], r[5]>>, d[2])

Unknown == <<99>>

\* Texts which may denote a float in ways which are not specified: with
\* underscores or hexadecimal digits, infinity, or not a number.
LowerAscii(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
OtherFloat(s) ==
    LET u == [i \in 1 .. Len(s) |-> LowerAscii(s[i])]
        v == IF u # <<>> /\ u[1] \in {43, 45} THEN Tail(u) ELSE u
    IN \/ Len(v) > 1 /\ v[1] = 48 /\ v[2] = 120
       \/ v # <<>> /\ v[1] \in 46 .. 57 /\ \E i \in 1 .. Len(v) : v[i] = 95
       \/ v \in {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}

RECURSIVE StripZeros(_)
StripZeros(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

RECURSIVE LeadZeros(_)
LeadZeros(ds) == IF ds # <<>> /\ ds[1] = 0 THEN 1 + LeadZeros(Tail(ds)) ELSE 0

-----------------------------------------------------------------------------
(* Long magnitudes: sequences of digits in some base, least first *)

\* s * k + a in a base; k and a are small.
MulBig(s, k, a, base) ==
    LET r == FoldLeft(LAMBDA x, d : LET t == d * k + x[1]
                                    IN <<t \div base, Append(x[2], t % base)>>, <<a, <<>>>>, s)
    IN IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])

RECURSIVE StripTop(_)
StripTop(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripTop(SubSeq(s, 1, Len(s) - 1)) ELSE s

Front0(n) == [i \in 1 .. n |-> 0]

\* Decimal digits (most significant first) in groups of four, least first.
Groups(ds) ==
    LET d == Front0((4 - (Len(ds) % 4)) % 4) \o ds
        n == Len(d) \div 4
    IN [i \in 1 .. n |-> LET j == 4 * (n - i)
                         IN 1000 * d[j + 1] + 100 * d[j + 2] + 10 * d[j + 3] + d[j + 4]]
Ungroup(g) ==
    [i \in 1 .. 4 * Len(g) |->
        LET x == g[Len(g) - (i - 1) \div 4]
            k == (i - 1) % 4
        IN CASE k = 0 -> x \div 1000 [] k = 1 -> (x \div 100) % 10
             [] k = 2 -> (x \div 10) % 10 [] OTHER -> x % 10]

\* Groups of decimal digits to limbs.
Limbs(g) == FoldLeft(LAMBDA x, d : MulBig(x, 10000, d, B), <<>>, [i \in 1 .. Len(g) |-> g[Len(g) + 1 - i]])

\* A nonzero fraction is doubled until it has a bit before the point:
\* <<exponent, bits before the point, rest>>.
RECURSIVE FracTop(_, _)
FracTop(e, g) ==
    LET r == MulBig(g, 8192, 0, 10000)
    IN IF Len(r) = Len(g) THEN FracTop(e - 13, r)
       ELSE <<e - 13, r[Len(r)], SubSeq(r, 1, Len(g))>>

BitOf(m, j) == (m[4 - j \div 16] \div Pow2(j % 16)) % 2

\* Rounding to a float: None if it is too large, and less precision for
\* the smallest ones.
RoundFloat(neg, e, m, sticky) ==
    LET zero == <<TFloat, 0, 0, 0, 0, 0, 0>>
        p == 1075 + e    \* the bits of precision if e < -1022
        r == Round53(neg, e, m, sticky)
    IN IF e >= -1022 THEN IF Abs(r[3]) > 1023 THEN None ELSE r
       ELSE IF p < 0 THEN zero
       ELSE LET rest == sticky \/ \E j \in 0 .. 62 - p : BitOf(m, j) = 1
                odd == p > 0 /\ BitOf(m, 64 - p) = 1
                up == BitOf(m, 63 - p) = 1 /\ (rest \/ odd)
                q == MulAdd(ShiftRight(m, 64 - p), 1, IF up THEN 1 ELSE 0)
                v == MakeNumber(TFloat, neg, <<q[2], q[3], q[4], q[5]>>)
            IN IF v = zero THEN zero ELSE [v EXCEPT ![3] = IF neg THEN @ + 1074 ELSE @ - 1074]

\* The float nearest to the number 0.ds * 10^point, where ds are digits of
\* which the first is not zero; None if it is too large.
DecimalToFloat(neg, ds, point) ==
    LET n == Len(ds)
        int == IF point <= 0 THEN <<>>
               ELSE IF point <= n THEN SubSeq(ds, 1, point) ELSE ds \o Front0(point - n)
        frac == IF point >= n THEN <<>>
                ELSE IF point > 0 THEN SubSeq(ds, point + 1, n) ELSE Front0(-point) \o ds
    IN IF point > 310 THEN None
       ELSE IF point < -330 THEN <<TFloat, 0, 0, 0, 0, 0, 0>>
       ELSE IF int = <<>>
       THEN LET t == FracTop(63, Groups(frac \o Front0((4 - (Len(frac) % 4)) % 4)))
                r == Normalize(t[1], <<0, 0, 0, t[2]>>, Ungroup(t[3]))
            IN RoundFloat(neg, r[1], r[2], r[3])
       ELSE IF point < 20
       THEN LET m == Magnitude([i \in 1 .. Len(int) |-> 48 + int[i]])
                r == Normalize(63, <<m[2], m[3], m[4], m[5]>>, frac)
            IN RoundFloat(neg, r[1], r[2], r[3])
       ELSE LET b == Limbs(Groups(int))
                k == Len(b)
                z == LeadingLimb(b[k])
                l == MulBig(b, Pow2(z), 0, B)
            IN RoundFloat(neg, 16 * k - z - 1, <<l[k], l[k - 1], l[k - 2], l[k - 3]>>,
                          ~AllZero(frac) \/ \E i \in 1 .. k - 4 : l[i] # 0)

\* The float denoted by decimal text (already trimmed): sign, digits, a
\* point and an exponent; None if it is not such a text or it is too large.
TextToFloat(s) ==
    LET signed == s # <<>> /\ s[1] \in {43, 45}
        neg == s # <<>> /\ s[1] = 45
        body == IF signed THEN Tail(s) ELSE s
        ei == IndexOf(body, {69, 101})
        mantissa == IF ei = 0 THEN body ELSE SubSeq(body, 1, ei - 1)
        expo == IF ei = 0 THEN <<48>> ELSE SubSeq(body, ei + 1, Len(body))
        esigned == expo # <<>> /\ expo[1] \in {43, 45}
        edigits == IF esigned THEN Tail(expo) ELSE expo
        pi == IndexOf(mantissa, {46})
        ip == IF pi = 0 THEN mantissa ELSE SubSeq(mantissa, 1, pi - 1)
        fp == IF pi = 0 THEN <<>> ELSE SubSeq(mantissa, pi + 1, Len(mantissa))
    IN IF OtherFloat(s) THEN Unknown
       ELSE IF ip \o fp = <<>> \/ ~AllDigits(ip \o fp) \/ edigits = <<>> \/ ~AllDigits(edigits) THEN None
       ELSE IF Len(edigits) > 4 THEN Unknown
       ELSE LET em == Magnitude(edigits)[5]
                x == IF expo[1] = 45 THEN -em ELSE em
                all == [i \in 1 .. Len(ip \o fp) |-> (ip \o fp)[i] - 48]
                lz == LeadZeros(all)
                ds == StripZeros(SubSeq(all, lz + 1, Len(all)))
            IN IF ds = <<>> THEN <<TFloat, 0, 0, 0, 0, 0, 0>>
               ELSE DecimalToFloat(neg, ds, Len(ip) + x - lz)

RECURSIVE MulPow(_, _, _)
MulPow(g, k, n) ==   \* g * k^n of groups of decimal digits, n a multiple of 5 or small
    IF n = 0 THEN g
    ELSE IF k = 5 /\ n >= 5 THEN MulPow(MulBig(g, 3125, 0, 10000), 5, n - 5)
    ELSE IF k = 2 /\ n >= 13 THEN MulPow(MulBig(g, 8192, 0, 10000), 2, n - 13)
    ELSE MulPow(MulBig(g, k, 0, 10000), k, n - 1)

\* All the decimal digits of a finite float which is not zero: <<ds, point>>
\* where it is 0.ds * 10^point.
ExactDigits(v) ==
    LET e == E2(v) - 63
        m == Groups(DigitsOf(Mant(v)))
        ds == Ungroup(StripTop(IF e >= 0 THEN MulPow(m, 2, e) ELSE MulPow(m, 5, -e)))
        lz == LeadZeros(ds)
    IN <<StripZeros(SubSeq(ds, lz + 1, Len(ds))), Len(ds) - lz - (IF e >= 0 THEN 0 ELSE -e)>>

RECURSIVE Incremented(_)
Incremented(ds) ==   \* <<>> if all are 9
    IF ds = <<>> THEN <<>>
    ELSE IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1]
    ELSE Incremented(SubSeq(ds, 1, Len(ds) - 1))

\* The nearest number of n digits to the number 0.ds * 10^point.
Nearest(ds, point, n) ==
    IF Len(ds) <= n THEN <<ds, point>>
    ELSE LET low == SubSeq(ds, 1, n)
             up == \/ ds[n + 1] > 5
                   \/ ds[n + 1] = 5 /\ (Len(ds) > n + 1 \/ (n > 0 /\ ds[n] % 2 = 1))
             inc == Incremented(low)
         IN IF ~up THEN <<StripZeros(low), point>>
            ELSE IF inc = <<>> THEN <<<<1>>, point + 1>> ELSE <<inc, point>>

\* The shortest decimal which is nearer to v than to other floats.
RECURSIVE ShortestFrom(_, _, _)
ShortestFrom(v, d, n) ==
    LET c == Nearest(d[1], d[2], n)
    IN IF n >= 17 \/ DecimalToFloat(Neg(v), c[1], c[2]) = v THEN c ELSE ShortestFrom(v, d, n + 1)
\* If 15 digits are enough, no shorter decimal is a different one.
Shortest(v) ==
    LET d == ExactDigits(v)
    IN ShortestFrom(v, d, IF E2(v) < -1022 THEN 1 ELSE 15)

\* The text of a float: the shortest decimal, with an exponent when it is
\* less than -4 or more than 5.  Unknown for powers of two, next to which
\* the floats on one side are closer, if they need many digits.
FloatText(v) ==
    IF v[2] = -3 THEN <<78, 97, 78>>
    ELSE IF v[2] = -2 THEN <<45, 73, 110, 102>>
    ELSE IF v[2] = 2 THEN <<43, 73, 110, 102>>
    ELSE IF v[2] = 0 THEN <<48>>
    ELSE LET t == Shortest(v)
             sig == t[1]
             dp == t[2]          \* value is 0.sig * 10^dp
             x == dp - 1
             sign == IF Neg(v) THEN <<45>> ELSE <<>>
         IN IF Len(sig) > 15 /\ Mant(v) = <<32768, 0, 0, 0>> THEN Unknown
            ELSE IF x < -4 \/ x >= 6
            THEN sign \o DigitChars(SubSeq(sig, 1, 1))
                 \o (IF Len(sig) > 1 THEN <<46>> \o DigitChars(Tail(sig)) ELSE <<>>)
                 \o <<101, IF x < 0 THEN 45 ELSE 43>>
                 \o (IF Abs(x) < 100 THEN <<48 + Abs(x) \div 10, 48 + (Abs(x) % 10)>>
                     ELSE <<48 + Abs(x) \div 100, 48 + ((Abs(x) \div 10) % 10), 48 + (Abs(x) % 10)>>)
            ELSE IF dp <= 0
            THEN sign \o <<48, 46>> \o Zeros(-dp) \o DigitChars(sig)
            ELSE IF dp >= Len(sig)
            THEN sign \o DigitChars(sig) \o Zeros(dp - Len(sig))
            ELSE sign \o DigitChars(SubSeq(sig, 1, dp)) \o <<46>>
                 \o DigitChars(SubSeq(sig, dp + 1, Len(sig)))

\* Valid UTF-8.
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET b == s[i]
         IN IF b < 128 THEN Utf8From(s, i + 1)
            ELSE IF b >= 194 /\ b <= 223 THEN Cont(s, i + 1) /\ Utf8From(s, i + 2)
            ELSE IF b >= 224 /\ b <= 239
            THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                 /\ (b = 224 => s[i + 1] >= 160)
                 /\ (b = 237 => s[i + 1] <= 159)
                 /\ Utf8From(s, i + 3)
            ELSE IF b >= 240 /\ b <= 244
            THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                 /\ (b = 240 => s[i + 1] >= 144)
                 /\ (b = 244 => s[i + 1] <= 143)
                 /\ Utf8From(s, i + 4)
            ELSE FALSE
ValidUtf8(s) == Utf8From(s, 1)

TrueTexts == {<<116>>, <<116, 114, 117, 101>>, <<121>>, <<121, 101, 115>>, <<111, 110>>, <<49>>}
FalseTexts == {<<102>>, <<102, 97, 108, 115, 101>>, <<110>>, <<110, 111>>, <<111, 102, 102>>, <<48>>}

-----------------------------------------------------------------------------
(* Conversion *)

\* Convert to a type: None when it is refused.  Unknown when this module
\* does not define the result.
Cast(t, v) ==
    IF IsNull(v) THEN Null
    ELSE IF v[1] = t THEN v
    ELSE CASE t = TBool /\ v[1] = TStr ->
                LET s == Trim(Payload(v))
                IN IF s \in TrueTexts THEN Bool(TRUE)
                   ELSE IF s \in FalseTexts THEN Bool(FALSE) ELSE None
           [] t = TStr /\ v[1] = TInt -> Str(IntText(v))
           [] t = TStr /\ v[1] = TFloat ->
                LET s == FloatText(v) IN IF s = Unknown THEN Unknown ELSE Str(s)
           [] t = TStr /\ v[1] = TBytes -> IF ValidUtf8(Payload(v)) THEN Str(Payload(v)) ELSE None
           [] t = TBytes /\ v[1] = TStr -> Bytes(Payload(v))
           [] t = TFloat /\ v[1] = TInt -> IntToFloat(v)
           [] t = TFloat /\ v[1] = TStr -> TextToFloat(Trim(Payload(v)))
           [] t = TInt /\ v[1] = TFloat -> IF InInt64(v) THEN FloatToInt(v) ELSE None
           [] t = TInt /\ v[1] = TStr -> TextToInt(Trim(Payload(v)))
           [] OTHER -> None

\* A column type is <<type, size, fixed, notnull>>.
CT(t, size, nn) == <<t, size, 0, IF nn THEN 1 ELSE 0>>

\* Does a value conform to a column type.
Conforms(ct, v) ==
    IF IsNull(v) THEN ct[4] = 0
    ELSE /\ v[1] = ct[1]
         /\ (v[1] \in {TStr, TBytes} => Len(v) - 1 <= ct[2])
         /\ (v[1] = TInt => FitsInt(v, ct[2]))

Convert(ct, v) ==
    IF IsNull(v) THEN (IF ct[4] = 1 THEN None ELSE Null)
    ELSE LET c == Cast(ct[1], v)
         IN IF c = None \/ c = Unknown THEN c
            ELSE IF Conforms(ct, c) THEN c ELSE None

\* Convert a row; columns missing from its end are NULL.  None if refused.
ConvertRow(types, row) ==
    IF Len(row) > Len(types) THEN None
    ELSE LET r == [i \in 1 .. Len(types) |->
                      Convert(types[i], IF i <= Len(row) THEN row[i] ELSE Null)]
         IN IF \E i \in 1 .. Len(types) : r[i] = None THEN None ELSE r

RowConforms(types, row) ==
    Len(row) = Len(types) /\ \A i \in 1 .. Len(types) : Conforms(types[i], row[i])

=============================================================================
