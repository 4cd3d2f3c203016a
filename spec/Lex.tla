-------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* The lexical structure of SQL text: a sequence of characters (code       *)
(* points) to tokens.                                                      *)
(*                                                                         *)
(* A token is one of                                                       *)
(*   <<"kw", WORD>>         a reserved word                                *)
(*   <<"id", canon, WORD>>  a name (see Ident; WORD is "" unless the name  *)
(*                          is a keyword which is not reserved)            *)
(*   <<"str", value>>  <<"bytes", value>>  <<"int", value>>                *)
(*   <<"float", value>>     literals (see Values)                          *)
(*   <<"param">>            a parameter                                    *)
(*   <<"op", text>>         operators and punctuation                      *)
(*   <<"semi">>  <<"end">>  a semicolon; the end of the text               *)
(*   <<"bad">>              text which is not a token and must be reported *)
(*   <<"lost">>             the same, and where it ends is not specified   *)
(*   <<"wild">>             not specified: characters beyond Latin-1 other *)
(*                          than in strings, quoted names and comments     *)
(*   <<"any">>              a literal whose value is not specified         *)
(* TokenAt yields <<token, position after it>>.                            *)
(***************************************************************************)
EXTENDS Values, Ident, SqlWords

Blank(r) == r \in {9, 10, 11, 12, 13, 32, 133, 160, 5760} \cup 8192 .. 8202
                  \cup {8232, 8233, 8239, 8287, 12288}
\* Characters outside Latin-1 which are not specified.
Beyond(r) == r > 255 /\ ~Blank(r)
Digit(r) == r >= 48 /\ r <= 57
Letter(r) ==
    \/ r >= 97 /\ r <= 122
    \/ r >= 65 /\ r <= 90
    \/ r \in {170, 181, 186}
    \/ r >= 192 /\ r <= 255 /\ r # 215 /\ r # 247
WordStart(r) == Letter(r) \/ r = 95
WordRune(r) == Letter(r) \/ Digit(r) \/ r = 95 \/ r = 36

Quote == 39
NL == 10
CR == 13

At(x, i) == IF i <= Len(x) THEN x[i] ELSE -1

\* The UTF-8 encoding of a character and of a sequence of characters.
Utf8(r) ==
    IF r < 128 THEN <<r>>
    ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
    ELSE IF r < 65536
    THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
    ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64),
           128 + (r % 64)>>

RECURSIVE Utf8Of(_, _, _)
Utf8Of(x, i, j) == IF i > j THEN <<>> ELSE Utf8(x[i]) \o Utf8Of(x, i + 1, j)

-----------------------------------------------------------------------------
(* White space and comments *)

RECURSIVE AfterBlanks(_, _)
AfterBlanks(x, i) == IF i <= Len(x) /\ Blank(x[i]) THEN AfterBlanks(x, i + 1) ELSE i

RECURSIVE AfterLine(_, _)
AfterLine(x, i) ==
    IF i > Len(x) THEN i ELSE IF x[i] = NL THEN i + 1 ELSE AfterLine(x, i + 1)

\* The end of a comment of which i is in the text.
RECURSIVE AfterComment(_, _)
AfterComment(x, i) ==
    IF i >= Len(x) THEN Len(x) + 1
    ELSE IF x[i] = 42 /\ x[i + 1] = 47 THEN i + 2
    ELSE AfterComment(x, i + 1)

RECURSIVE Skip(_, _)
Skip(x, i) ==
    LET k == AfterBlanks(x, i)
    IN IF At(x, k) = 45 /\ At(x, k + 1) = 45 THEN Skip(x, AfterLine(x, k + 2))
       ELSE IF At(x, k) = 47 /\ At(x, k + 1) = 42 THEN Skip(x, AfterComment(x, k + 2))
       ELSE k

-----------------------------------------------------------------------------
(* Words, numbers *)

RECURSIVE AfterWord(_, _)
AfterWord(x, i) == IF i <= Len(x) /\ WordRune(x[i]) THEN AfterWord(x, i + 1) ELSE i

RECURSIVE AfterDigits(_, _)
AfterDigits(x, i) == IF i <= Len(x) /\ Digit(x[i]) THEN AfterDigits(x, i + 1) ELSE i

NameToken(n) ==
    LET c == Canon(n)
        w == IF c[1] = 0 THEN WordOf(Tail(c)) ELSE ""
    IN IF c[1] = 0 /\ Tail(c) \in Reserved THEN <<"kw", w>> ELSE <<"id", c, w>>

WordAt(x, i) ==
    LET j == AfterWord(x, i)
    IN IF Beyond(At(x, j)) THEN <<<<"wild">>, j>>
       ELSE <<NameToken(<<0>> \o Utf8Of(x, i, j - 1)), j>>

\* A number whose digits begin at i.
NumberAt(x, i, neg) ==
    LET j == AfterDigits(x, i)
        float == At(x, j) = 46
        k == IF float THEN AfterDigits(x, j + 1) ELSE j
        sign == IF neg THEN <<45>> ELSE <<>>
        iv == TextToInt(sign \o SubSeq(x, i, j - 1))
        fv == TextToFloat(sign \o SubSeq(x, i, k - 1))
    IN IF Beyond(At(x, k)) THEN <<<<"wild">>, k>>
       ELSE IF float
       THEN IF fv = None THEN <<<<"bad">>, k>>
            ELSE IF fv = Unknown THEN <<<<"any">>, k>>
            ELSE <<<<"float", fv>>, k>>
       ELSE IF iv = None THEN <<<<"bad">>, k>>
       ELSE <<<<"int", iv>>, k>>

ParamAt(x, i) ==
    LET j == AfterDigits(x, i)
        v == TextToInt(SubSeq(x, i, j - 1))
    IN IF Beyond(At(x, j)) THEN <<<<"wild">>, j>>
       ELSE IF v = None \/ v[2] = 0 THEN <<<<"bad">>, j>> ELSE <<<<"param">>, j>>

-----------------------------------------------------------------------------
(* Quoted names, strings, bytes *)

RECURSIVE QuotedEnd(_, _, _)
QuotedEnd(x, i, delim) ==
    IF i > Len(x) THEN 0 ELSE IF x[i] = delim THEN i ELSE QuotedEnd(x, i + 1, delim)

QuotedNameAt(x, i, delim) ==
    LET j == QuotedEnd(x, i, delim)
    IN IF j = 0 THEN <<<<"lost">>, Len(x) + 1>>
       ELSE IF j = i THEN <<<<"bad">>, j + 1>>
       ELSE <<NameToken(<<1>> \o Utf8Of(x, i, j - 1)), j + 1>>

HexVal(r) ==
    IF r >= 48 /\ r <= 57 THEN r - 48
    ELSE IF r >= 97 /\ r <= 102 THEN r - 87
    ELSE IF r >= 65 /\ r <= 70 THEN r - 55
    ELSE -1
OctVal(r) == IF r >= 48 /\ r <= 55 THEN r - 48 ELSE -1

\* The value of n hexadecimal digits at i, or -1; at most 7 nonzero ones.
RECURSIVE HexNumber(_, _, _, _)
HexNumber(x, i, n, acc) ==
    IF n = 0 THEN acc
    ELSE IF HexVal(At(x, i)) < 0 THEN -1
    ELSE HexNumber(x, i + 1, n - 1, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(x[i]))

\* An escape whose character after the backslash is at i: <<bytes, next>>,
\* <<>> if it is malformed, <<<<-1>>, next>> if its value is not specified.
\* raw: hexadecimal and octal escapes are bytes.
Escape(x, i, raw) ==
    LET r == At(x, i)
        simple == CASE r = 97 -> 7 [] r = 98 -> 8 [] r = 116 -> 9 [] r = 110 -> 10
                    [] r = 118 -> 11 [] r = 102 -> 12 [] r = 114 -> 13 [] OTHER -> r
    IN IF r = -1 THEN <<>>
       ELSE IF r = 120
       THEN LET v == HexNumber(x, i + 1, 2, 0)
            IN IF v < 0 THEN <<>> ELSE <<IF raw THEN <<v>> ELSE Utf8(v), i + 3>>
       ELSE IF r \in {117, 85}
       THEN LET n == IF r = 117 THEN 4 ELSE 8
                v == HexNumber(x, i + 1, n, 0)
            IN IF v < 0 \/ v > 1114111 THEN <<>>
               ELSE <<IF v >= 55296 /\ v <= 57343 THEN <<-1>> ELSE Utf8(v), i + 1 + n>>
       ELSE IF OctVal(r) >= 0
       THEN IF OctVal(At(x, i + 1)) < 0 \/ OctVal(At(x, i + 2)) < 0 THEN <<>>
            ELSE LET v == 64 * OctVal(r) + 8 * OctVal(x[i + 1]) + OctVal(x[i + 2])
                 IN <<IF v > 255 THEN <<-1>> ELSE IF raw THEN <<v>> ELSE Utf8(v), i + 3>>
       ELSE <<Utf8(simple), i + 1>>

\* The rest of a string from i: <<bytes, next>> or <<>>.
RECURSIVE StringFrom(_, _, _, _, _)
StringFrom(x, i, esc, raw, acc) ==
    IF i > Len(x) THEN <<>>
    ELSE IF x[i] = Quote
    THEN IF At(x, i + 1) = Quote THEN StringFrom(x, i + 2, esc, raw, Append(acc, Quote))
         ELSE LET k == AfterBlanks(x, i + 1)
                  line == \E m \in i + 1 .. k - 1 : x[m] \in {NL, CR}
              IN IF line /\ At(x, k) = Quote THEN StringFrom(x, k + 1, esc, raw, acc)
                 ELSE <<acc, i + 1>>
    ELSE IF x[i] = 92 /\ esc
    THEN LET e == Escape(x, i + 1, raw)
         IN IF e = <<>> THEN <<>> ELSE StringFrom(x, e[2], esc, raw, acc \o e[1])
    ELSE StringFrom(x, i + 1, esc, raw, acc \o Utf8(x[i]))

StringAt(x, i, esc, raw) ==
    LET s == StringFrom(x, i, esc, raw, <<>>)
    IN IF s = <<>> THEN <<<<"lost">>, Len(x) + 1>>
       ELSE IF \E k \in 1 .. Len(s[1]) : s[1][k] = -1 THEN <<<<"any">>, s[2]>>
       ELSE IF raw THEN <<<<"bytes", Bytes(s[1])>>, s[2]>>
       ELSE <<<<"str", Str(s[1])>>, s[2]>>

RECURSIVE HexFrom(_, _, _)
HexFrom(x, i, acc) ==
    IF At(x, i) = Quote THEN <<acc, i + 1>>
    ELSE LET v == HexNumber(x, i, 2, 0)
         IN IF v < 0 THEN <<>> ELSE HexFrom(x, i + 2, Append(acc, v))

HexAt(x, i) ==
    LET h == HexFrom(x, i, <<>>)
    IN IF h = <<>> THEN <<<<"lost">>, Len(x) + 1>> ELSE <<<<"bytes", Bytes(h[1])>>, h[2]>>

-----------------------------------------------------------------------------
(* Operators *)

OpRunes == {37, 38, 42, 60, 61, 62, 124, 33, 47}
OpText(r) ==
    CASE r = 37 -> "%" [] r = 38 -> "&" [] r = 42 -> "*" [] r = 60 -> "<" [] r = 61 -> "="
      [] r = 62 -> ">" [] r = 124 -> "|" [] r = 33 -> "!" [] r = 47 -> "/" [] r = 43 -> "+"
      [] r = 45 -> "-" [] r = 40 -> "(" [] r = 41 -> ")" [] r = 44 -> "," [] r = 46 -> "."
      [] r = 64 -> "@"
Pair(r, s) ==
    CASE r = 124 /\ s = 124 -> "||" [] r = 60 /\ s = 60 -> "<<" [] r = 60 /\ s = 61 -> "<="
      [] r = 60 /\ s = 62 -> "<>" [] r = 62 /\ s = 62 -> ">>" [] r = 62 /\ s = 61 -> ">="
      [] r = 61 /\ s = 61 -> "==" [] r = 33 /\ s = 61 -> "!=" [] OTHER -> ""

\* No operator has a slash as its second character, and a slash may begin a
\* comment.
OperatorAt(x, i) ==
    LET s == At(x, i + 1)
    IN IF s \notin OpRunes \/ s = 47 THEN <<<<"op", OpText(x[i])>>, i + 1>>
       ELSE IF Pair(x[i], s) = "" THEN <<<<"bad">>, i + 2>>
       ELSE <<<<"op", Pair(x[i], s)>>, i + 2>>

-----------------------------------------------------------------------------
(* Tokens *)

\* Does a token end an operand: a sign after it is an operator.
EndsOperand(t) ==
    \/ t[1] \in {"id", "str", "bytes", "int", "float", "param", "any"}
    \/ t = <<"op", ")">>
    \/ t \in {<<"kw", "NULL">>, <<"kw", "TRUE">>, <<"kw", "FALSE">>}

\* The token at i, where there is no white space or comment.
TokenAt(x, i, operand) ==
    IF i > Len(x) THEN <<<<"end">>, i>>
    ELSE LET r == x[i]
             s == At(x, i + 1)
         IN IF r = 59 THEN <<<<"semi">>, i + 1>>
            ELSE IF r \in {69, 101} /\ s = Quote THEN StringAt(x, i + 2, TRUE, FALSE)
            ELSE IF r = 98 /\ s = Quote THEN StringAt(x, i + 2, TRUE, TRUE)
            ELSE IF r \in {88, 120} /\ s = Quote THEN HexAt(x, i + 2)
            ELSE IF WordStart(r) THEN WordAt(x, i)
            ELSE IF Digit(r) THEN NumberAt(x, i, FALSE)
            ELSE IF r \in {43, 45}
            THEN IF Digit(s) /\ ~operand THEN NumberAt(x, i + 1, r = 45)
                 ELSE <<<<"op", OpText(r)>>, i + 1>>
            ELSE IF r \in {34, 96} THEN QuotedNameAt(x, i + 1, r)
            ELSE IF r = 91 THEN QuotedNameAt(x, i + 1, 93)
            ELSE IF r = Quote THEN StringAt(x, i + 1, FALSE, FALSE)
            ELSE IF r \in OpRunes THEN OperatorAt(x, i)
            ELSE IF r \in {40, 41, 44, 46, 64} THEN <<<<"op", OpText(r)>>, i + 1>>
            ELSE IF r = 36
            THEN IF Digit(s) THEN ParamAt(x, i + 1)
                 ELSE IF Letter(s) \/ s \in {32, 95} THEN <<<<"bad">>, i + 2>>
                 ELSE <<<<IF s > 255 THEN "wild" ELSE "lost">>, Len(x) + 1>>
            ELSE IF r > 255 THEN <<<<"wild">>, Len(x) + 1>>
            ELSE <<<<"bad">>, i + 1>>

\* The tokens of the statement from i up to and including a semicolon, the end
\* of the text, or a token after which the text is lost: <<tokens, next>>.
RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(x, i, operand, acc) ==
    LET t == TokenAt(x, Skip(x, i), operand)
    IN IF t[1][1] \in {"semi", "end", "lost", "wild"} THEN <<Append(acc, t[1]), t[2]>>
       ELSE TokensFrom(x, t[2], EndsOperand(t[1]), Append(acc, t[1]))

Segment(x, i) == TokensFrom(x, i, FALSE, <<>>)

=============================================================================
