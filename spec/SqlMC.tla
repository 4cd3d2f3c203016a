------------------------------- MODULE SqlMC --------------------------------
(***************************************************************************)
(* Bounded sets of scripts, one for each property (Profile): sentences of  *)
(* a grammar, or texts made of pieces.  For each TLC checks what Sql makes *)
(* of it against what the property says directly, and writes it, with what *)
(* parsing it must give, for the harness to parse with the real parser.    *)
(*                                                                         *)
(* The grammars are written apart from Sql: productions with a cost, where *)
(* a sentence costs at most Bound.  With Edits > 0 it is edits of such     *)
(* sentences which are written: with a token left out, repeated or         *)
(* exchanged with the next one (1), with tokens added (2), or with one     *)
(* replaced (3).  Most of them are not statements.                         *)
(***************************************************************************)
EXTENDS SqlScript, SqlPieces, Json, CSV, IOUtils, TLC

CONSTANT Profile, Bound, Edits

VARIABLES out, todo, cost

-----------------------------------------------------------------------------
(* Tokens as they are written in productions *)

Reserveds == {WordTexts[k] : k \in {k \in 1 .. Len(WordTexts) : WordCodes[k] \in Reserved}}
Types == {"BIGINT", "BINARY", "BLOB", "BOOL", "BOOLEAN", "BYTEA", "BYTES", "CHAR", "CHARACTER", "DOUBLE", "INT", "INT2", "INT4",
          "INT8", "INTEGER", "REAL", "SMALLINT", "TEXT", "VARBINARY", "VARCHAR"}
Ops == {"(", ")", ",", ".", "@", "*", "=", "<>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "+", "-", "/", "%", "||"}
Ns == <<"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18",
        "n19", "n20", "n21", "n22", "n23", "n24", "n25">>
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + k \div 10, 48 + (k % 10)>>
Fixed == [a |-> <<97>>, b |-> <<98>>, f |-> <<102>>, t |-> <<116>>, columns |-> T_columns, constraints |-> T_constraints,
          config |-> T_config, databases |-> T_databases, schemas |-> T_schemas, tables |-> T_tables, btree |-> T_btree,
          count |-> T_count]

TokenOf(s) ==
    IF s \in Reserveds THEN <<"kw", s>>
    ELSE IF s \in Types \cup {"PRECISION", "STDIN"} THEN <<"id", KwCanon(s), s>>
    ELSE IF s \in Ops THEN Op(s)
    ELSE IF s \in DOMAIN Fixed THEN <<"id", Name(Fixed[s]), "">>
    ELSE IF s = "'x'" THEN <<"str", Str(<<120>>)>>
    ELSE IF s = "1" THEN <<"int", MkInt(1)>>
    ELSE IF s = "2" THEN <<"int", MkInt(2)>>
    ELSE IF s = "0" THEN <<"int", MkInt(0)>>
    ELSE IF s = "9223372036854775807" THEN <<"int", TextToInt(<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>)>>
    ELSE IF s = "2.0" THEN <<"float", MkFloat(2)>>
    ELSE IF s = "''" THEN <<"str", Str(<<>>)>>
    ELSE IF s = "x''" THEN <<"bytes", Bytes(<<>>)>>
    ELSE IF s = "$1" THEN <<"param">>
    ELSE LET k == CHOOSE k \in 1 .. Len(Ns) : Ns[k] = s IN <<"id", Name(<<110>> \o Digits(k)), "">>

-----------------------------------------------------------------------------
(* Grammars.  P(c, s) is a production of cost c.  The symbol "n" is a new  *)
(* name: n1, n2, and so on.                                                *)

P(c, s) == [c |-> c, s |-> s]
Opt(c, s) == {P(0, <<>>), P(c, s)}
More(sep, s, rest) == {P(0, <<>>), P(1, <<sep, s, rest>>)}

BinaryOps == IF Bound < 4 THEN {"OR", "AND", "=", "<>", "<", ">=", "&", "<<", "+", "-", "*", "/", "||"}
             ELSE {"OR", "AND", "=", "<", "|", "+", "-", "*", "||"}

C29(s) ==
    CASE s = "S" -> {P(0, <<"VALUES", "(", "E", ")">>)}
      [] s = "E" -> {P(0, <<"U">>), P(1, <<"U", "O", "E">>)}
      [] s = "O" -> {P(0, <<o>>) : o \in BinaryOps}
      [] s = "U" -> {P(0, <<"n">>), P(1, <<"-", "U">>), P(1, <<"NOT", "U">>), P(1, <<"n", "IS", "NULL">>),
                     P(1, <<"n", "IS", "NOT", "NULL">>), P(1, <<"(", "E", ")">>), P(1, <<"f", "(", "E", ",", "E", ")">>),
                     P(1, <<"n", "IN", "Q">>), P(1, <<"n", "NOT", "IN", "Q">>), P(1, <<"n", "<", "ALL", "Q">>),
                     P(1, <<"n", "OR", "ANY", "Q">>), P(1, <<"EXISTS", "Q">>), P(1, <<"Q">>)}
      [] s = "Q" -> {P(0, <<"(", "VALUES", "(", "n", ")", ")">>)}
      [] OTHER -> {}

C33(s) ==
    CASE s = "S" -> {P(0, <<"SELECT", "sel">>), P(0, <<"INSERT", "INTO", "tn", "cols", "VALUES", "rows">>),
                     P(0, <<"UPDATE", "tn", "SET", "n", "=", "v", "sets", "where">>), P(0, <<"DELETE", "FROM", "tn", "where">>),
                     P(0, <<"VALUES", "xrows">>),
                     P(0, <<"CREATE", "TABLE", "ifn", "tn", "(", "n", "ty", "nn", "df", "pu", "ck", "rf", "ds", ")">>),
                     P(1, <<"CREATE", "TABLE", "ifn", "tn", "(", "con", "PRIMARY", "KEY", "(", "key", "keys", ")", "d", "ds", ")">>),
                     P(0, <<"CREATE", "uq", "INDEX", "ifn", "n", "ON", "tn", "using", "(", "key", "keys", ")">>),
                     P(0, <<"CREATE", "DATABASE", "n", "opts">>), P(0, <<"CREATE", "SCHEMA", "sn">>),
                     P(0, <<"ALTER", "TABLE", "tn", "alt", "alts">>),
                     P(0, <<"DROP", "TABLE", "ife", "tn", "tns", "casc">>), P(0, <<"DROP", "INDEX", "ife", "n", "ON", "tn">>),
                     P(0, <<"DROP", "DATABASE", "ife", "n">>), P(0, <<"DROP", "SCHEMA", "ife", "sn">>),
                     P(0, <<"SHOW", "show">>), P(0, <<"SET", "var", "to", "lit">>), P(0, <<"USE", "lit">>),
                     P(0, <<"EXPLAIN", "SELECT", "sel">>), P(0, <<"EXPLAIN", "VERBOSE", "SELECT", "sel">>),
                     P(0, <<"BEGIN">>), P(0, <<"START", "TRANSACTION">>), P(0, <<"COMMIT">>), P(0, <<"ROLLBACK">>),
                     P(0, <<"COPY", "tn", "cols", "FROM", "STDIN", "dl">>)}
      [] s = "dl" -> Opt(0, <<"DELIMITER", "'x'">>)
      [] s = "sel" -> {P(0, <<"*", "from", "where", "group", "having", "order">>),
                       P(1, <<"item", "items", "from", "where", "group", "having", "order">>)}
      [] s = "item" -> {P(0, <<"x">>), P(1, <<"x", "AS", "n">>), P(1, <<"x", "n">>), P(1, <<"n", ".", "*">>)}
      [] s = "items" -> More(",", "item", "items")
      [] s = "from" -> Opt(1, <<"FROM", "fi", "fis">>)
      [] s = "fi" -> {P(0, <<"tn", "al", "js">>), P(1, <<"tn", "@", "n", "al", "js">>), P(1, <<"(", "q", ")", "AS", "n", "cas", "js">>),
                      P(1, <<"(", "fi", "fis", ")", "js">>)}
      [] s = "fis" -> More(",", "fi", "fis")
      [] s = "js" -> {P(0, <<>>), P(1, <<"CROSS", "JOIN", "fi", "js">>)}
                     \cup {P(1, <<j, "JOIN", "fi", "ON", "x", "js">>) : j \in {"INNER", "LEFT", "RIGHT", "FULL"}}
                     \cup {P(1, <<"JOIN", "fi", "USING", "(", "n", "ns", ")", "js">>),
                           P(1, <<"FULL", "OUTER", "JOIN", "fi", "USING", "(", "n", "ns", ")", "js">>)}
      [] s = "al" -> {P(0, <<>>), P(1, <<"AS", "n">>), P(1, <<"n">>)}
      [] s = "cas" -> Opt(1, <<"(", "n", "ns", ")">>)
      [] s = "ns" -> More(",", "n", "ns")
      [] s = "tn" -> {P(0, <<"n">>), P(1, <<"n", ".", "n">>), P(1, <<"n", ".", "n", ".", "n">>)}
      [] s = "sn" -> {P(0, <<"n">>), P(1, <<"n", ".", "n">>)}
      [] s = "tns" -> More(",", "tn", "tns")
      [] s = "x" -> {P(0, <<"n">>), P(1, <<"1">>), P(1, <<"n", ".", "n">>), P(1, <<"f", "(", "x", ",", "x", ")">>), P(1, <<"count", "(", "*", ")">>),
                     P(1, <<"EXISTS", "(", "q", ")">>), P(1, <<"(", "q", ")">>)}
      [] s = "xs" -> More(",", "x", "xs")
      [] s = "xrows" -> {P(0, <<"xrow", "xmore">>), P(1, <<"xrow2", "xmore2">>), P(2, <<"(", "x", ",", "x", ",", "x", "xs", ")">>)}
      [] s = "xmore" -> More(",", "xrow", "xmore")
      [] s = "xrow" -> {P(0, <<"(", "x", ")">>)}
      [] s = "xmore2" -> More(",", "xrow2", "xmore2")
      [] s = "xrow2" -> {P(0, <<"(", "x", ",", "x", ")">>)}
      [] s = "q" -> {P(0, <<"SELECT", "sel">>), P(0, <<"VALUES", "(", "x", ")">>), P(0, <<"TABLE", "tn">>), P(0, <<"SHOW", "show">>)}
      [] s = "where" -> Opt(1, <<"WHERE", "x">>)
      [] s = "group" -> Opt(1, <<"GROUP", "BY", "x", "xs">>)
      [] s = "having" -> Opt(1, <<"HAVING", "x">>)
      [] s = "order" -> Opt(1, <<"ORDER", "BY", "key", "keys">>)
      [] s = "key" -> {P(0, <<"n">>), P(1, <<"n", "ASC">>), P(1, <<"n", "DESC">>)}
      [] s = "keys" -> More(",", "key", "keys")
      [] s = "cols" -> Opt(1, <<"(", "n", "ns", ")">>)
      [] s = "v" -> {P(0, <<"x">>), P(1, <<"DEFAULT">>)}
      [] s = "rows" -> {P(0, <<"row", "more">>), P(1, <<"row2", "more2">>), P(2, <<"(", "v", ",", "v", ",", "v", "vs", ")">>)}
      [] s = "vs" -> More(",", "v", "vs")
      [] s = "more" -> More(",", "row", "more")
      [] s = "row" -> {P(0, <<"(", "v", ")">>)}
      [] s = "more2" -> More(",", "row2", "more2")
      [] s = "row2" -> {P(0, <<"(", "v", ",", "v", ")">>)}
      [] s = "sets" -> {P(0, <<>>), P(1, <<",", "n", "=", "v", "sets">>)}
      [] s = "ifn" -> Opt(1, <<"IF", "NOT", "EXISTS">>)
      [] s = "ife" -> Opt(1, <<"IF", "EXISTS">>)
      [] s = "uq" -> Opt(1, <<"UNIQUE">>)
      [] s = "using" -> Opt(1, <<"USING", "btree">>)
      [] s = "ty" -> {P(0, <<"INT">>), P(1, <<"DOUBLE", "PRECISION">>)} \cup {P(1, <<w>>) : w \in Types \ {"INT"}}
                     \cup {P(1, <<w, "(", "2", ")">>) : w \in {"CHAR", "VARCHAR", "BINARY", "TEXT", "BYTES"}}
      [] s = "nn" -> Opt(1, <<"con", "NOT", "NULL">>)
      [] s = "df" -> Opt(1, <<"con", "DEFAULT", "x">>)
      [] s = "pu" -> {P(0, <<>>), P(1, <<"con", "PRIMARY", "KEY">>), P(1, <<"con", "UNIQUE">>)}
      [] s = "un" -> Opt(1, <<"con", "UNIQUE">>)
      [] s = "ck" -> {P(0, <<>>), P(1, <<"con", "CHECK", "(", "x", ")", "ck">>)}
      [] s = "rf" -> {P(0, <<>>), P(1, <<"con", "REFERENCES", "tn", "rcol", "act", "rf">>)}
      [] s = "con" -> Opt(1, <<"CONSTRAINT", "n">>)
      [] s = "rcol" -> Opt(1, <<"(", "n", ")">>)
      [] s = "act" -> {P(0, <<>>), P(1, <<"ON", "DELETE", "NO", "ACTION">>), P(1, <<"ON", "UPDATE", "RESTRICT">>), P(1, <<"ON", "UPDATE", "CASCADE">>),
                       P(1, <<"ON", "DELETE", "SET", "NULL">>), P(1, <<"ON", "UPDATE", "SET", "DEFAULT", "ON", "DELETE", "CASCADE">>)}
      [] s = "ds" -> Opt(1, <<"d", "ds">>)
      [] s = "d" -> {P(0, <<",", "n", "ty", "un", "rf", "nn", "ck", "df">>), P(0, <<",", "con", "UNIQUE", "(", "key", "keys", ")">>),
                     P(0, <<",", "con", "CHECK", "(", "x", ")">>), P(0, <<",", "con", "fk">>)}
      [] s = "fk" -> {P(0, <<"FOREIGN", "KEY", "(", "n", "ns", ")", "REFERENCES", "tn", "cols", "act">>)}
      [] s = "opts" -> {P(0, <<>>), P(1, <<"WITH", "opt", "opts2">>)}
      [] s = "opts2" -> {P(0, <<>>), P(1, <<"opt", "opts2">>)}
      [] s = "opt" -> {P(0, <<"n", "=", "'x'">>), P(1, <<"n", "1">>), P(1, <<"n", "=", "n">>)}
      [] s = "alt" -> {P(0, <<"ADD", "con", "fk">>), P(0, <<"DROP", "CONSTRAINT", "ife", "n">>), P(0, <<"ALTER", "n", "DROP", "DEFAULT">>),
                       P(1, <<"ALTER", "COLUMN", "n", "DROP", "NOT", "NULL">>)}
      [] s = "alts" -> More(",", "alt", "alts")
      [] s = "casc" -> {P(0, <<>>), P(1, <<"CASCADE">>), P(1, <<"RESTRICT">>)}
      [] s = "show" -> {P(0, <<"columns", "FROM", "tn">>), P(0, <<"constraints", "FROM", "tn">>), P(0, <<"config">>), P(0, <<"databases">>),
                        P(0, <<"DATABASE">>), P(0, <<"SCHEMA">>), P(0, <<"schemas">>), P(1, <<"schemas", "FROM", "n">>),
                        P(0, <<"tables">>), P(1, <<"tables", "FROM", "sn">>), P(0, <<"n">>)}
      [] s = "var" -> {P(0, <<"n">>), P(0, <<"DATABASE">>), P(0, <<"SCHEMA">>)}
      [] s = "to" -> {P(0, <<"=">>), P(0, <<"TO">>)}
      [] s = "lit" -> {P(0, <<"'x'">>), P(0, <<"1">>), P(0, <<"TRUE">>), P(0, <<"FALSE">>)}
      [] OTHER -> {}

\* The name "m" is a or b, so that contradictions are common.
C34(s) ==
    CASE s = "S" -> {P(0, <<"CREATE", "TABLE", "t", "(", "d", "ds", ")">>), P(0, <<"CREATE", "TABLE", "t", "(", "d", "ds", ")">>),
                     P(1, <<"INSERT", "INTO", "t", "(", "m", "ms", ")", "VALUES", "r", "rs">>),
                     P(1, <<"VALUES", "r", "rs">>), P(1, <<"CREATE", "INDEX", "f", "ON", "t", "(", "k", "ks", ")">>),
                     P(1, <<"SELECT", "*", "FROM", "fi">>)}
      [] s = "d" -> {P(0, <<"m", "INT", "cc">>), P(1, <<"con", "PRIMARY", "KEY", "(", "k", "ks", ")">>),
                     P(1, <<"con", "UNIQUE", "(", "k", "ks", ")">>), P(1, <<"con", "CHECK", "(", "1", ")">>),
                     P(1, <<"con", "FOREIGN", "KEY", "(", "m", ")", "REFERENCES", "t", "act">>)}
      [] s = "ds" -> More(",", "d", "ds")
      [] s = "cc" -> {P(0, <<>>), P(1, <<"con", "NOT", "NULL", "cc">>), P(1, <<"con", "DEFAULT", "1", "cc">>), P(1, <<"con", "PRIMARY", "KEY", "cc">>),
                      P(1, <<"con", "UNIQUE", "cc">>), P(1, <<"con", "CHECK", "(", "2", ")", "cc">>), P(1, <<"con", "REFERENCES", "t", "rc", "act", "cc">>)}
      [] s = "con" -> {P(0, <<>>), P(1, <<"CONSTRAINT", "a">>), P(1, <<"CONSTRAINT", "b">>)}
      [] s = "m" -> {P(0, <<"a">>), P(0, <<"b">>)}
      [] s = "ms" -> More(",", "m", "ms")
      [] s = "k" -> {P(0, <<"m">>), P(1, <<"m", "DESC">>)}
      [] s = "ks" -> More(",", "k", "ks")
      [] s = "rc" -> {P(0, <<>>), P(1, <<"(", "m", "ms", ")">>)}
      [] s = "act" -> {P(0, <<>>), P(1, <<"ON", "DELETE", "CASCADE", "act">>), P(1, <<"ON", "UPDATE", "SET", "NULL", "act">>)}
      [] s = "r" -> {P(0, <<"(", "1", "vs", ")">>)}
      [] s = "vs" -> {P(0, <<>>), P(1, <<",", "2", "vs">>)}
      [] s = "rs" -> More(",", "r", "rs")
      [] s = "fi" -> {P(0, <<"m", "js">>), P(1, <<"(", "fi", ")", "js">>)}
      [] s = "js" -> {P(0, <<>>)} \cup {P(1, <<j, "JOIN", "fi", "jc", "js">>) : j \in {"INNER", "CROSS", "LEFT"}}
      [] s = "jc" -> {P(0, <<>>), P(0, <<"ON", "1">>), P(0, <<"USING", "(", "m", "ms", ")">>)}
      [] OTHER -> {}

ByGrammar == Profile \in {"C29", "C33", "C34"}
Productions(s) == CASE Profile = "C29" -> C29(s) [] Profile = "C33" -> C33(s) [] Profile = "C34" -> C34(s)

\* Write the terminals at the front of todo.
RECURSIVE Shift(_, _)
Shift(o, td) ==
    IF td = <<>> THEN <<o, td>>
    ELSE IF Head(td) = "n"
    THEN Shift(Append(o, Ns[1 + Cardinality({k \in 1 .. Len(o) : o[k] \in {Ns[m] : m \in 1 .. Len(Ns)}})]), Tail(td))
    ELSE IF Productions(Head(td)) = {} THEN Shift(Append(o, Head(td)), Tail(td))
    ELSE <<o, td>>

GrammarNext ==
    /\ todo # <<>>
    /\ \E p \in Productions(Head(todo)) :
          /\ cost + p.c <= Bound
          /\ LET s == Shift(out, p.s \o Tail(todo))
             IN out' = s[1] /\ todo' = s[2]
          /\ cost' = cost + p.c

\* What is added: at most the last name.
Added ==
    {<<w>> : w \in {"n25", ",", "(", ")", ".", "*", "=", "-", "1", "'x'", "NOT", "NULL", "DEFAULT", "PRECISION", "UNIQUE", "DESC",
                    "SELECT", "TABLE", "INT"}}
    \cup {<<"CONSTRAINT", "n25">>, <<"AS", "n25">>, <<"(", "n25", ")">>, <<"(", "2", ")">>, <<",", "n25">>, <<".", "n25">>,
          <<"NOT", "NULL">>, <<"DEFAULT", "1">>, <<"PRIMARY", "KEY">>, <<"IF", "EXISTS">>, <<"IF", "NOT", "EXISTS">>,
          <<"USING", "btree">>, <<"ON", "DELETE", "CASCADE">>, <<"ON", "n25">>, <<"WHERE", "n25">>, <<"GROUP", "BY", "n25">>,
          <<"HAVING", "n25">>, <<"ORDER", "BY", "n25">>, <<"FROM", "n25">>, <<"=", "1">>, <<"+", "1">>, <<"IS", "NULL">>,
          <<"CROSS", "JOIN", "n25">>, <<"n25", "INT">>, <<"@", "n25">>}
Replacing ==
    Reserveds \cup Ops \cup {"INT", "CHAR", "DOUBLE", "PRECISION", "n25", "1", "'x'", "columns", "config", "btree", "count", "0", "9223372036854775807", "2.0",
                         "''", "x''", "$1"}

Edited(o) ==
    LET n == Len(o)
        But(a, b) == SubSeq(o, 1, a - 1) \o b
    IN {But(k, SubSeq(o, k + 1, n)) : k \in 1 .. n}
       \cup {But(k, SubSeq(o, k, k) \o SubSeq(o, k, n)) : k \in 1 .. n}
       \cup {But(k, SubSeq(o, k + 1, k + 1) \o SubSeq(o, k, k) \o SubSeq(o, k + 2, n)) : k \in 1 .. n - 1}
       \cup (IF Edits < 2 THEN {} ELSE {But(k, a \o SubSeq(o, k, n)) : k \in 1 .. n + 1, a \in Added})
       \cup (IF Edits < 3 THEN {} ELSE {But(k, <<a>> \o SubSeq(o, k + 1, n)) : k \in 1 .. n, a \in Replacing})

\* An edited sentence has todo <<"#">>.
EditNext ==
    /\ Edits > 0
    /\ todo = <<>>
    /\ out' \in Edited(out) \ {<<>>}
    /\ todo' = <<"#">>
    /\ cost' = 0

Tokens == [k \in 1 .. Len(out) |-> TokenOf(out[k])] \o Ends
\* What parsing a sentence gives; there is no data after it.
Expected(r) == IF Tokens[1] = Kw("COPY") /\ r[1] = -1 THEN <<<<"wild">>>> ELSE <<IF r[1] = -1 THEN <<"any">> ELSE IF ~Good(r) THEN <<"err">>
              ELSE IF r[2][1] = "copy" THEN <<"copy", r[2], 1, <<>>, 1>> ELSE <<"stmt", r[2]>>, <<"eof">>>>

-----------------------------------------------------------------------------
(* What the properties say of trees *)

Prec(op) ==
    CASE op = "or" -> 1 [] op = "and" -> 2 [] op = "not" -> 3 [] op \in {"=", "<>"} -> 4 [] op \in {"<", "<=", ">", ">="} -> 5
      [] op \in {"<<", ">>", "&", "|"} -> 6 [] op \in {"+", "-"} -> 7 [] op \in {"*", "/", "%"} -> 8 [] op = "neg" -> 9
      [] op = "||" -> 10

IsNullTree(e) == e[1] = "call" /\ e[2] = Name(T_is_null)

\* The names in an expression, from the left.
RECURSIVE Names(_), NamesOf(_, _)
Names(e) ==
    CASE e[1] = "ref" -> e[2]
      [] e[1] = "un" -> Names(e[3])
      [] e[1] = "bin" -> Names(e[3]) \o Names(e[4])
      [] e[1] = "cmp" -> Names(e[4]) \o NamesOf(e[5][2][1], 1)
      [] e[1] \in {"scalar", "exists"} -> NamesOf(e[2][2][1], 1)
      [] e[1] = "call" -> NamesOf(e[3], 1)
NamesOf(es, k) == IF k > Len(es) THEN <<>> ELSE Names(es[k]) \o NamesOf(es, k + 1)

\* Its binary operators, from the left.
RECURSIVE BinOps(_), BinOpsOf(_, _)
BinOps(e) ==
    CASE e[1] = "un" -> BinOps(e[3])
      [] e[1] = "bin" -> BinOps(e[3]) \o <<e[2]>> \o BinOps(e[4])
      [] e[1] = "cmp" -> BinOps(e[4]) \o <<e[3]>>
      [] e[1] = "call" -> BinOpsOf(e[3], 1)
      [] OTHER -> <<>>
BinOpsOf(es, k) == IF k > Len(es) THEN <<>> ELSE BinOps(es[k]) \o BinOpsOf(es, k + 1)

OpOfToken(k) ==
    LET s == out[k]
    IN IF s = "IN" THEN IF out[k - 1] = "NOT" THEN <<"<>">> ELSE <<"=">>
       ELSE IF s = "-" /\ out[k - 1] \notin ({")", "NULL"} \cup {Ns[m] : m \in 1 .. Len(Ns)}) THEN <<>>
       ELSE IF BinOp(TokenOf(s)) = <<>> THEN <<>>
       ELSE <<BinOp(TokenOf(s))[1]>>
RECURSIVE OpsFrom(_)
OpsFrom(k) == IF k > Len(out) THEN <<>> ELSE OpOfToken(k) \o OpsFrom(k + 1)
NamesWritten == SelectSeq([k \in 1 .. Len(out) |-> TokenOf(out[k])], LAMBDA t : t[1] = "id" /\ t[2] # Name(<<102>>))

\* The prefix operators at the right end of an expression.
RECURSIVE RightUnary(_)
RightUnary(e) ==
    CASE e[1] = "un" /\ ~IsNullTree(e[3]) -> {e[2]} \cup RightUnary(e[3])
      [] e[1] = "bin" -> RightUnary(e[4])
      [] OTHER -> {}
OpOf(e) == IF e[1] = "bin" THEN Prec(e[2]) ELSE IF e[1] = "cmp" THEN Prec(e[3]) ELSE 99

\* Without parentheses: operators of equal precedence group from the left,
\* others by precedence.
RECURSIVE Grouped(_)
Grouped(e) ==
    CASE e[1] = "bin" -> /\ OpOf(e[3]) >= Prec(e[2]) /\ OpOf(e[4]) > Prec(e[2])
                         /\ \A u \in RightUnary(e[3]) : Prec(u) >= Prec(e[2])
                         /\ Grouped(e[3]) /\ Grouped(e[4])
      [] e[1] = "cmp" -> /\ OpOf(e[4]) >= Prec(e[3])
                         /\ \A u \in RightUnary(e[4]) : Prec(u) >= Prec(e[3])
                         /\ Grouped(e[4])
      [] e[1] = "un" -> Grouped(e[3]) /\ OpOf(e[3]) > Prec(e[2])
      [] e[1] = "call" -> \A k \in 1 .. Len(e[3]) : Grouped(e[3][k])
      [] OTHER -> TRUE

\* Is there a ( for grouping: not of a subquery or a call.
HasGroup == \E k \in 4 .. Len(out) : out[k] = "(" /\ out[k - 1] \notin {"f", "VALUES"} /\ out[k + 1] # "VALUES"
FirstGroup == out[3] = "(" /\ out[4] # "VALUES"

C29Ok(r) ==
    LET e == r[2][2][1][1]
    IN Good(r) =>
          /\ Names(e) = [k \in 1 .. Len(NamesWritten) |-> NamesWritten[k][2]]
          /\ BinOps(e) = OpsFrom(1)
          /\ ~HasGroup /\ ~FirstGroup => Grouped(e)

TableOk(t) ==
    LET keys == SelectSeq(t[7], LAMBDA c : c[4] # <<>>)
        names == [k \in 1 .. Len(t[7]) |-> t[7][k][2]] \o [k \in 1 .. Len(t[8]) |-> t[8][k][1]]
    IN /\ Distinct(t[4])
       /\ Cardinality({k \in 1 .. Len(keys) : keys[k][1] = "primary"}) <= 1
       /\ Distinct([k \in 1 .. Len(keys) |-> keys[k][4]])
       /\ \A k \in 1 .. Len(keys) : Distinct(Columns(keys[k][4]))
       /\ Distinct(SelectSeq(names, LAMBDA n : n # <<>>))
       /\ \A k \in 1 .. Len(t[4]) : Cardinality({m \in 1 .. Len(t[7]) : t[7][m][1] = "notnull" /\ t[7][m][3] = k - 1}) <= 1

C34Ok(r) ==
    Good(r) =>
        LET t == r[2]
        IN CASE t[1] = "createtable" -> TableOk(t)
             [] t[1] = "insert" -> Distinct(t[3])
             [] t[1] = "values" -> \A k \in 1 .. Len(t[2]) : Len(t[2][k]) = Len(t[2][1])
             [] t[1] = "createindex" -> Distinct(Columns(t[5]))
             [] OTHER -> TRUE

\* Whatever may be left out, what is written is a statement.
C33Ok(r) == Good(r)

EditedOk(r) ==
    /\ C34Ok(r)
    /\ CSVWrite("%1$s", <<ToJson([toks |-> out, res |-> Expected(r)])>>, IOEnv.OUT)

SentenceOk(r) ==
    /\ CASE Profile = "C29" -> C29Ok(r) [] Profile = "C33" -> C33Ok(r) [] Profile = "C34" -> C34Ok(r)
    /\ CSVWrite("%1$s", <<ToJson([toks |-> out, res |-> Expected(r)])>>, IOEnv.OUT)

-----------------------------------------------------------------------------
(* Texts made of pieces: out is <<frame, piece, ...>> *)

Frames == FramesOf(Profile)
Pieces == PiecesOf(Profile)

RECURSIVE PiecesFrom(_, _)
PiecesFrom(s, k) == IF k > Len(s) THEN <<>> ELSE Pieces[s[k]] \o PiecesFrom(s, k + 1)
TextOfPieces == Frames[out[1]][1] \o PiecesFrom(out, 2) \o Frames[out[1]][2]

PiecesNext ==
    /\ Len(out) <= Bound
    /\ \E k \in 1 .. Len(Pieces) : out' = Append(out, k)
    /\ UNCHANGED <<todo, cost>>

\* Each statement is parsed as it would be alone.
Alone(p) == LET r == Results(p, 1, <<>>) IN SubSeq(r, 1, Len(r) - 1)
RECURSIVE AloneFrom(_)
AloneFrom(k) == IF k > Len(out) THEN <<<<"eof">>>> ELSE Alone(Pieces[out[k]]) \o AloneFrom(k + 1)
Complete(p) == Last(p) = 59 /\ Last(Results(p, 1, <<>>)) = <<"eof">>
C30Ok(r) ==
    (\A k \in 2 .. Len(out) : Complete(Pieces[out[k]])) => r = Alone(Frames[out[1]][1]) \o AloneFrom(2)

C31Ok(r) == Len(r) <= Len(TextOfPieces) + 1 /\ Last(r)[1] \in {"eof", "lost", "wild"}

\* The data of COPY is what follows the line on which its semicolon is.
C36Ok(r) ==
    \A k \in 1 .. Len(r) : r[k][1] = "copy" /\ r[k][5] = 1 =>
        LET d == r[k][4]
            b == SubSeq(TextOfPieces, 1, Len(TextOfPieces) - Len(d))
        IN /\ d # <<>> => Last(b) = NL
           /\ Len(r) = k + 1
           /\ r[k][3] = 1 + NLs(b, Len(b))

\* A script of this script again and again: as each statement is parsed as it
\* would be alone, it gives the results of this one again and again.
Times(r) ==
    IF /\ Profile = "C30" /\ Len(out) \in 2 .. 3 /\ \A k \in 2 .. Len(out) : Complete(Pieces[out[k]])
       /\ Frames[out[1]] = <<<<>>, <<>>>> /\ \A k \in 1 .. Len(r) : r[k][1] \in {"stmt", "err", "nil", "eof"}
    THEN {1, 400}
    ELSE {1}

\* What is before the end of the last statement of a cut script is as it would
\* be, and the part of a statement after it is only an error.
C37Ok(x, cut) ==
    LET whole == Results(x, 1, <<>>)
        n == Len(cut)
    IN /\ n <= Len(whole) /\ n > 0
       /\ SubSeq(cut, 1, n - 1) = SubSeq(whole, 1, n - 1)
       /\ \/ cut[n][1] \in {"errs", "lost", "wild"}
          \/ cut[n][1] = "copy" /\ cut[n][5] = 2 /\ whole[n] = [cut[n] EXCEPT ![5] = 1]

Takes == IF Profile \notin {"C36", "C37"} THEN {<<>>} ELSE {<<>>, <<0>>, <<2>>, <<4, 1>>}

-----------------------------------------------------------------------------
(* Layouts of a sentence: out is <<sentence, gap, what is there, ...>>,    *)
(* and todo is <<results, tokens>> when there is a space in each gap.      *)

GapAt(k) ==
    LET g == {m \in 1 .. (Len(out) - 1) \div 2 : out[2 * m] = k}
    IN IF g = {} THEN <<32>> ELSE Gaps[out[2 * (CHOOSE m \in g : TRUE) + 1]]
RECURSIVE LayoutFrom(_)
LayoutFrom(k) == IF k > Len(Sentences[out[1]]) THEN <<>> ELSE Sentences[out[1]][k] \o GapAt(k) \o LayoutFrom(k + 1)
Plain(n) == LET RECURSIVE F(_)
                F(k) == IF k > Len(Sentences[n]) THEN <<>> ELSE Sentences[n][k] \o <<32>> \o F(k + 1)
            IN F(1)

RECURSIVE AllTokens(_, _)
AllTokens(x, i) ==
    LET seg == Segment(x, i)
    IN IF Last(seg[1])[1] # "semi" THEN seg[1] ELSE seg[1] \o AllTokens(x, seg[2])
LayoutNext ==
    /\ Len(out) < 2 * Bound + 1
    /\ \E k \in 1 .. Len(Sentences[out[1]]), g \in 1 .. Len(Gaps) :
          /\ \A m \in 1 .. (Len(out) - 1) \div 2 : out[2 * m] < k
          /\ Gaps[g] # <<32>>
          /\ out' = out \o <<k, g>>
    /\ UNCHANGED <<todo, cost>>

\* White space and comments change nothing between tokens, but where there is
\* nothing tokens may not be the same.
C35Ok(x, r) ==
    \/ r = todo[1]
    \/ /\ \E m \in 1 .. (Len(out) - 1) \div 2 :
             \/ Gaps[out[2 * m + 1]] = <<>>
             \/ /\ Sentences[out[1]][out[2 * m]] \in {<<45>>, <<47>>, <<42>>}
                /\ Gaps[out[2 * m + 1]][1] \in {45, 47, 42}
       /\ AllTokens(x, 1) # todo[2]

-----------------------------------------------------------------------------

Init ==
    /\ cost = 0
    /\ IF ByGrammar THEN out = <<>> /\ todo = <<"S">>
       ELSE IF Profile = "C35"
       THEN /\ out \in {<<k>> : k \in 1 .. Len(Sentences)}
            /\ todo = <<Results(Plain(out[1]), 1, <<>>), AllTokens(Plain(out[1]), 1)>>
       ELSE todo = <<>> /\ out \in {<<k>> : k \in 1 .. Len(Frames)}

Next == IF ByGrammar THEN GrammarNext \/ EditNext ELSE IF Profile = "C35" THEN LayoutNext ELSE PiecesNext

Spec == Init /\ [][Next]_<<out, todo, cost>>

\* Check a script and write it.
TextOk(x, take) ==
    LET r == Results(x, 1, take)
    IN /\ CASE Profile = "C30" -> C30Ok(r)
            [] Profile = "C31" -> C31Ok(r)
            [] Profile = "C35" -> C35Ok(x, r)
            [] Profile = "C36" -> C36Ok(r)
            [] OTHER -> TRUE
       /\ \A n \in Times(r) :
             CSVWrite("%1$s", <<ToJson([text |-> x, take |-> take, res |-> r, times |-> n])>>, IOEnv.OUT)

\* A text which is cut anywhere in its last piece.
CutOk(x, take) ==
    LET r == ResultsOf(x, 1, take, TRUE)
    IN /\ take = <<>> => C37Ok(x, r)
       /\ CSVWrite("%1$s", <<ToJson([text |-> x, take |-> take, res |-> r, cut |-> TRUE])>>, IOEnv.OUT)

LastPiece == IF Len(out) = 1 THEN TextOfPieces ELSE Pieces[Last(out)]
Cuts == {SubSeq(TextOfPieces, 1, Len(TextOfPieces) - k) : k \in 0 .. Len(LastPiece)}

Written == IF Profile = "C35" THEN LayoutFrom(1) ELSE TextOfPieces

Ok ==
    IF ByGrammar THEN
        /\ todo = <<>> /\ Edits = 0 => SentenceOk(Statement(Tokens))
        /\ todo = <<"#">> => EditedOk(Statement(Tokens))
    ELSE IF Profile = "C37" THEN \A x \in Cuts, take \in Takes : CutOk(x, take)
    ELSE \A take \in Takes : TextOk(Written, take)

=============================================================================
