-------------------------------- MODULE Sql ---------------------------------
(***************************************************************************)
(* The grammar of SQL: sequences of tokens (see Lex) to statements.        *)
(*                                                                         *)
(* Each operator takes the tokens T of a statement, which end with         *)
(* <<"end">>, and the position i to begin at.  It yields <<position after, *)
(* tree>>, <<0>> if there is no such phrase at i, or <<-1>> if it is not   *)
(* specified what it means.                                                *)
(*                                                                         *)
(* Names are identifiers as in Ident (Canon), and <<>> for no name.  Trees *)
(* of expressions:                                                         *)
(*   <<"lit", value>>  <<"ref", names>>  <<"call", name, arguments>>       *)
(*   <<"un", operator, e>>  <<"bin", operator, e1, e2>>                    *)
(*   <<"cmp", "any" or "all", operator, e, query>>                         *)
(*   <<"scalar", query>>  <<"exists", query>>  <<"default">>               *)
(* Parentheses are not part of the tree.                                   *)
(***************************************************************************)
EXTENDS Lex

Refused == <<0>>
Unspecified == <<-1>>
Good(r) == r[1] > 0

End == <<"end">>
Op(s) == <<"op", s>>
Kw(s) == <<"kw", s>>
IsOp(T, i, s) == T[i] = <<"op", s>>
IsKw(T, i, s) == T[i] = <<"kw", s>>
IsKwIn(T, i, S) == T[i][1] = "kw" /\ T[i][2] \in S
IsId(T, i) == T[i][1] = "id"
IsWord(T, i, w) == T[i][1] = "id" /\ T[i][3] = w    \* a keyword not reserved
IsName(T, i, c) == T[i][1] = "id" /\ T[i][2] = <<1>> \o c
Last(s) == s[Len(s)]

Distinct(s) == \A i, j \in 1 .. Len(s) : i # j => s[i] # s[j]

KwCanon(w) == <<0>> \o WordCodes[CHOOSE k \in 1 .. Len(WordTexts) : WordTexts[k] = w]
Name(c) == <<1>> \o c

-----------------------------------------------------------------------------
(* Names *)

IdAt(T, i) == IF IsId(T, i) THEN <<i + 1, T[i][2]>> ELSE Refused

\* [[database .] schema .] table: <<database, schema, table>>
TableName(T, i) ==
    IF ~IsId(T, i) THEN Refused
    ELSE IF ~IsOp(T, i + 1, ".") THEN <<i + 1, <<<<>>, <<>>, T[i][2]>>>>
    ELSE IF ~IsId(T, i + 2) THEN Refused
    ELSE IF ~IsOp(T, i + 3, ".") THEN <<i + 3, <<<<>>, T[i][2], T[i + 2][2]>>>>
    ELSE IF ~IsId(T, i + 4) THEN Refused
    ELSE <<i + 5, <<T[i][2], T[i + 2][2], T[i + 4][2]>>>>

SchemaName(T, i) ==
    IF ~IsId(T, i) THEN Refused
    ELSE IF ~IsOp(T, i + 1, ".") THEN <<i + 1, <<<<>>, T[i][2]>>>>
    ELSE IF ~IsId(T, i + 2) THEN Refused
    ELSE <<i + 3, <<T[i][2], T[i + 2][2]>>>>

\* [[AS] alias]
Alias(T, i) ==
    IF IsKw(T, i, "AS") THEN IdAt(T, i + 1)
    ELSE IF IsId(T, i) THEN <<i + 1, T[i][2]>>
    ELSE <<i, <<>>>>

-----------------------------------------------------------------------------
(* Operators: <<operator, precedence, may be used with ANY and ALL>> *)

BinOp(t) ==
    IF t[1] = "op"
    THEN CASE t[2] \in {"=", "=="}  -> <<"=", 4, TRUE>>
           [] t[2] \in {"<>", "!="} -> <<"<>", 4, TRUE>>
           [] t[2] \in {"<", "<=", ">", ">="} -> <<t[2], 5, TRUE>>
           [] t[2] \in {"<<", ">>", "&", "|"} -> <<t[2], 6, FALSE>>
           [] t[2] \in {"+", "-"} -> <<t[2], 7, FALSE>>
           [] t[2] \in {"*", "/", "%"} -> <<t[2], 8, FALSE>>
           [] t[2] = "||" -> <<"||", 10, FALSE>>
           [] OTHER -> <<>>
    ELSE IF t = Kw("AND") THEN <<"and", 2, TRUE>>
    ELSE IF t = Kw("OR") THEN <<"or", 1, TRUE>>
    ELSE <<>>
NotPrec == 3
NegPrec == 9

\* The precedence of the operator at i: of a comparison or IN, or 0.
PrecAt(T, i) ==
    IF IsKw(T, i, "IN") \/ (IsKw(T, i, "NOT") /\ IsKw(T, i + 1, "IN")) THEN 4
    ELSE IF BinOp(T[i]) # <<>> THEN BinOp(T[i])[2]
    ELSE 0

RECURSIVE Expr(_, _, _), Climb(_, _, _, _), Operand(_, _), Nulls(_, _, _), Primary(_, _),
          RefFrom(_, _, _), Query(_, _), List(_, _, _, _), Item(_, _, _), SelectStmt(_, _),
          FromItem(_, _), Joins(_, _, _), FromMore(_, _, _), ShowStmt(_, _)

\* An expression of operators of at least precedence min.
Expr(T, i, min) ==
    LET o == Operand(T, i)
    IN IF ~Good(o) THEN o ELSE Climb(T, o[1], o[2], min)

\* Go on with a comparison with a subquery of precedence p.  What operators of
\* higher precedence after it mean is not specified.
AfterCmp(T, i, e, p, min) ==
    IF PrecAt(T, i) > p \/ IsKw(T, i, "IS") THEN Unspecified ELSE Climb(T, i, e, min)

Compared(T, i, kind, op, left, p, min) ==
    LET q == Query(T, i)
    IN IF ~Good(q) THEN q ELSE AfterCmp(T, q[1], <<"cmp", kind, op, left, q[2]>>, p, min)

\* left is what is before i.
Climb(T, i, left, min) ==
    LET b == BinOp(T[i])
    IN IF IsKw(T, i, "IN") THEN IF 4 < min THEN <<i, left>>
                                ELSE Compared(T, i + 1, "any", "=", left, 4, min)
       ELSE IF IsKw(T, i, "NOT") /\ IsKw(T, i + 1, "IN")
       THEN IF 4 < min THEN <<i, left>> ELSE Compared(T, i + 2, "all", "<>", left, 4, min)
       ELSE IF b = <<>> \/ b[2] < min THEN <<i, left>>
       ELSE IF IsKwIn(T, i + 1, {"ANY", "SOME", "ALL"})
       THEN IF ~b[3] THEN Refused
            ELSE Compared(T, i + 2, IF IsKw(T, i + 1, "ALL") THEN "all" ELSE "any", b[1],
                          left, b[2], min)
       ELSE LET r == Expr(T, i + 1, b[2] + 1)
            IN IF ~Good(r) THEN r ELSE Climb(T, r[1], <<"bin", b[1], left, r[2]>>, min)

\* A prefix operator applies to operators of higher precedence than its own.
Operand(T, i) ==
    IF IsKw(T, i, "NOT")
    THEN LET e == Expr(T, i + 1, NotPrec + 1)
         IN IF ~Good(e) THEN e ELSE <<e[1], <<"un", "not", e[2]>>>>
    ELSE IF IsOp(T, i, "-")
    THEN LET e == Expr(T, i + 1, NegPrec + 1)
         IN IF ~Good(e) THEN e ELSE <<e[1], <<"un", "neg", e[2]>>>>
    ELSE LET p == Primary(T, i) IN IF ~Good(p) THEN p ELSE Nulls(T, p[1], p[2])

\* IS [NOT] NULL applies to the operand before it.
Nulls(T, i, e) ==
    LET t == <<"call", Name(T_is_null), <<e>>>>
    IN IF ~IsKw(T, i, "IS") THEN <<i, e>>
       ELSE IF IsKw(T, i + 1, "NULL") THEN Nulls(T, i + 2, t)
       ELSE IF IsKw(T, i + 1, "NOT") /\ IsKw(T, i + 2, "NULL")
       THEN Nulls(T, i + 3, <<"un", "not", t>>)
       ELSE Refused

RefFrom(T, i, names) ==
    IF ~IsOp(T, i, ".") THEN <<i, <<"ref", names>>>>
    ELSE IF ~IsId(T, i + 1) THEN Refused
    ELSE RefFrom(T, i + 2, Append(names, T[i + 1][2]))

\* A literal at i or <<>>.
Literal(t) ==
    IF t[1] \in {"str", "bytes", "int", "float"} THEN <<"lit", t[2]>>
    ELSE IF t = Kw("TRUE") THEN <<"lit", Bool(TRUE)>>
    ELSE IF t = Kw("FALSE") THEN <<"lit", Bool(FALSE)>>
    ELSE IF t = Kw("NULL") THEN <<"lit", Null>>
    ELSE <<>>

IsQuery(T, i) == IsKwIn(T, i, {"SELECT", "VALUES", "SHOW", "TABLE"})

Primary(T, i) ==
    LET t == T[i]
    IN IF Literal(t) # <<>> THEN <<i + 1, Literal(t)>>
       ELSE IF t = Kw("EXISTS")
       THEN LET q == Query(T, i + 1)
            IN IF ~Good(q) THEN q ELSE <<q[1], <<"exists", q[2]>>>>
       ELSE IF t[1] = "id"
       THEN IF ~IsOp(T, i + 1, "(") THEN RefFrom(T, i + 1, <<t[2]>>)
            ELSE IF IsOp(T, i + 2, ")") THEN <<i + 3, <<"call", t[2], <<>>>>>>
            ELSE IF IsName(T, i, T_count) /\ IsOp(T, i + 2, "*")
            THEN IF IsOp(T, i + 3, ")") THEN <<i + 4, <<"call", Name(T_count_all), <<>>>>>> ELSE Refused
            ELSE LET a == List(T, i + 2, "expr", <<>>)
                 IN IF ~Good(a) THEN a
                    ELSE IF ~IsOp(T, a[1], ")") THEN Refused
                    ELSE <<a[1] + 1, <<"call", t[2], a[2]>>>>
       ELSE IF t = Op("(")
       THEN IF IsQuery(T, i + 1)
            THEN LET q == Query(T, i) IN IF ~Good(q) THEN q ELSE <<q[1], <<"scalar", q[2]>>>>
            ELSE LET e == Expr(T, i + 1, 1)
                 IN IF ~Good(e) THEN e
                    ELSE IF ~IsOp(T, e[1], ")") THEN Refused
                    ELSE <<e[1] + 1, e[2]>>
       ELSE Refused

-----------------------------------------------------------------------------
(* Lists *)

\* A comma separated list of phrases of a kind, after the phrases acc.
List(T, i, kind, acc) ==
    LET r == Item(T, i, kind)
    IN IF ~Good(r) THEN r
       ELSE IF IsOp(T, r[1], ",") THEN List(T, r[1] + 1, kind, Append(acc, r[2]))
       ELSE <<r[1], Append(acc, r[2])>>

\* One in parentheses.
Parens(T, i, kind) ==
    IF ~IsOp(T, i, "(") THEN Refused
    ELSE LET r == List(T, i + 1, kind, <<>>)
         IN IF ~Good(r) THEN r
            ELSE IF ~IsOp(T, r[1], ")") THEN Refused
            ELSE <<r[1] + 1, r[2]>>

\* One whose phrases are different; one which may be left out.
Different(r) == IF Good(r) /\ ~Distinct(r[2]) THEN Refused ELSE r
Maybe(T, i, kind) == IF IsOp(T, i, "(") THEN Parens(T, i, kind) ELSE <<i, <<>>>>

ValueItem(T, i) == IF IsKw(T, i, "DEFAULT") THEN <<i + 1, <<"default">>>> ELSE Expr(T, i, 1)

\* column [ASC | DESC]: <<column, 1 if descending else 0>>
KeyItem(T, i) ==
    IF ~IsId(T, i) THEN Refused
    ELSE IF IsKw(T, i + 1, "DESC") THEN <<i + 2, <<T[i][2], 1>>>>
    ELSE IF IsKw(T, i + 1, "ASC") THEN <<i + 2, <<T[i][2], 0>>>>
    ELSE <<i + 1, <<T[i][2], 0>>>>

SelectItem(T, i) ==
    IF IsId(T, i) /\ IsOp(T, i + 1, ".") /\ IsOp(T, i + 2, "*")
    THEN <<i + 3, <<"table", T[i][2]>>>>
    ELSE LET e == Expr(T, i, 1)
         IN IF ~Good(e) THEN e
            ELSE LET a == Alias(T, e[1])
                 IN IF ~Good(a) THEN a ELSE <<a[1], <<"expr", e[2], a[2]>>>>

\* column = (expression | DEFAULT)
SetItem(T, i) ==
    IF ~IsId(T, i) \/ ~IsOp(T, i + 1, "=") THEN Refused
    ELSE LET e == ValueItem(T, i + 2) IN IF ~Good(e) THEN e ELSE <<e[1], <<T[i][2], e[2]>>>>

-----------------------------------------------------------------------------
(* Queries *)

ValuesStmt(T, i) ==
    LET r == List(T, i, "row", <<>>)
    IN IF ~Good(r) THEN r
       ELSE IF \E k \in 1 .. Len(r[2]) : Len(r[2][k]) # Len(r[2][1]) THEN Refused
       ELSE <<r[1], <<"values", r[2]>>>>

FromSelect(f) == <<"select", <<>>, f, <<>>, <<>>, <<>>, <<>>>>

\* The query at i, in parentheses which begin at i.
Query(T, i) ==
    IF ~IsOp(T, i, "(") \/ ~IsQuery(T, i + 1) THEN Refused
    ELSE LET tn == TableName(T, i + 2)
             q == CASE IsKw(T, i + 1, "SELECT") -> SelectStmt(T, i + 2)
                    [] IsKw(T, i + 1, "VALUES") -> ValuesStmt(T, i + 2)
                    [] IsKw(T, i + 1, "SHOW") -> ShowStmt(T, i + 2)
                    [] OTHER -> IF ~Good(tn) THEN tn
                                ELSE <<tn[1], FromSelect(<<"table", tn[2], <<>>>>)>>
         IN IF ~Good(q) THEN q ELSE IF ~IsOp(T, q[1], ")") THEN Refused ELSE <<q[1] + 1, q[2]>>

FromItem(T, i) ==
    LET tn == TableName(T, i)
        q == Query(T, i)
        l == FromMore(T, i + 1, <<>>)
        index == Good(tn) /\ IsOp(T, tn[1], "@")
        j == IF index THEN tn[1] + 2 ELSE tn[1]
        al == Alias(T, j)
        qa == Alias(T, q[1])
        qc == Maybe(T, qa[1], "id")
    IN IF IsOp(T, i, "(")
       THEN IF IsQuery(T, i + 1)
            THEN IF ~Good(q) THEN q
                 ELSE IF ~Good(qa) \/ qa[2] = <<>> THEN Refused
                 ELSE IF ~Good(qc) THEN qc
                 ELSE Joins(T, qc[1], <<"query", q[2], qa[2], qc[2]>>)
            ELSE IF ~Good(l) THEN l
            ELSE IF ~IsOp(T, l[1], ")") THEN Refused
            ELSE Joins(T, l[1] + 1, l[2])
       ELSE IF ~Good(tn) THEN tn
       ELSE IF index /\ ~IsId(T, tn[1] + 1) THEN Refused
       ELSE IF ~Good(al) THEN al
       ELSE Joins(T, al[1], IF index THEN <<"index", tn[2], T[tn[1] + 1][2], al[2]>>
                            ELSE <<"table", tn[2], al[2]>>)

\* A from list: the items are cross joined from the left.
FromMore(T, i, left) ==
    LET r == FromItem(T, i)
        f == IF left = <<>> THEN r[2] ELSE <<"join", "cross", left, r[2], <<>>, <<>>>>
    IN IF ~Good(r) THEN r
       ELSE IF IsOp(T, r[1], ",") THEN FromMore(T, r[1] + 1, f)
       ELSE <<r[1], f>>

\* The kind of join at i and where it ends, <<>> if there is none.
JoinAt(T, i) ==
    LET outer == IF IsKw(T, i + 1, "OUTER") THEN i + 2 ELSE i + 1
        kind == CASE IsKw(T, i, "LEFT") -> "left" [] IsKw(T, i, "RIGHT") -> "right"
                  [] OTHER -> "full"
    IN IF IsKw(T, i, "JOIN") THEN <<"inner", i + 1>>
       ELSE IF IsKwIn(T, i, {"INNER", "CROSS"})
       THEN <<IF ~IsKw(T, i + 1, "JOIN") THEN "none"
              ELSE IF IsKw(T, i, "INNER") THEN "inner" ELSE "cross", i + 2>>
       ELSE IF IsKwIn(T, i, {"LEFT", "RIGHT", "FULL"})
       THEN <<IF IsKw(T, outer, "JOIN") THEN kind ELSE "none", outer + 1>>
       ELSE <<>>

\* The joins after a from item.  The item to the right of JOIN includes the
\* joins after it; a condition belongs to the innermost join without one.
Joins(T, i, left) ==
    LET jt == JoinAt(T, i)
        r == FromItem(T, jt[2])
        e == Expr(T, r[1] + 1, 1)
        u == Different(Parens(T, r[1] + 1, "id"))
    IN IF jt = <<>> THEN <<i, left>>
       ELSE IF jt[1] = "none" THEN Refused
       ELSE IF ~Good(r) THEN r
       ELSE IF jt[1] = "cross" THEN Joins(T, r[1], <<"join", "cross", left, r[2], <<>>, <<>>>>)
       ELSE IF IsKw(T, r[1], "ON")
       THEN IF ~Good(e) THEN e ELSE Joins(T, e[1], <<"join", jt[1], left, r[2], e[2], <<>>>>)
       ELSE IF IsKw(T, r[1], "USING")
       THEN IF ~Good(u) THEN u ELSE Joins(T, u[1], <<"join", jt[1], left, r[2], <<>>, u[2]>>)
       ELSE Refused

\* An optional clause: keywords, then a phrase or list of a kind.
Clause(T, i, kws, kind) ==
    IF ~\A k \in 1 .. Len(kws) : i + k - 1 <= Len(T) /\ IsKw(T, i + k - 1, kws[k])
    THEN IF IsKw(T, i, kws[1]) THEN Refused ELSE <<i, <<>>>>
    ELSE LET j == i + Len(kws)
         IN CASE kind = "expr" -> Expr(T, j, 1)
              [] kind = "from" -> FromMore(T, j, <<>>)
              [] kind = "exprs" -> List(T, j, "expr", <<>>)
              [] kind = "keys" -> List(T, j, "key", <<>>)

\* After SELECT: <<"select", results, from, where, group by, having, order by>>
SelectStmt(T, i) ==
    LET res == IF IsOp(T, i, "*") THEN <<i + 1, <<>>>> ELSE List(T, i, "select", <<>>)
        from == Clause(T, res[1], <<"FROM">>, "from")
        where == Clause(T, from[1], <<"WHERE">>, "expr")
        group == Clause(T, where[1], <<"GROUP", "BY">>, "exprs")
        having == Clause(T, group[1], <<"HAVING">>, "expr")
        order == Clause(T, having[1], <<"ORDER", "BY">>, "keys")
    IN IF ~Good(res) THEN res
       ELSE IF ~Good(from) THEN from
       ELSE IF ~Good(where) THEN where
       ELSE IF ~Good(group) THEN group
       ELSE IF ~Good(having) THEN having
       ELSE IF ~Good(order) THEN order
       ELSE <<order[1], <<"select", res[2], from[2], where[2], group[2], having[2], order[2]>>>>

-----------------------------------------------------------------------------
(* SHOW: most are queries of tables of metadata *)

Metadata(db, t) == <<"table", <<db, Name(T_metadata), Name(t)>>, <<>>>>
SystemInfo(t) == <<"table", <<Name(T_system), Name(T_info), Name(t)>>, <<>>>>
Equals(c, e) == <<"bin", "=", <<"ref", <<Name(c)>>>>, e>>
TextOf(canon) == <<"lit", Str(Tail(canon))>>
CurrentSchema == <<"scalar", <<"show", KwCanon("SCHEMA")>>>>
OfSchema(sc) == Equals(T_schema_name, IF sc = <<>> THEN CurrentSchema ELSE TextOf(sc))
Where(f, e) == <<"select", <<>>, f, e, <<>>, <<>>, <<>>>>

ShowStmt(T, i) ==
    LET tn == TableName(T, i + 2)
        sn == SchemaName(T, i + 2)
        id == IdAt(T, i + 2)
        from == IsKw(T, i + 1, "FROM")
        ofTable(t) ==
            IF ~from \/ ~Good(tn) THEN Refused
            ELSE <<tn[1], Where(Metadata(tn[2][1], t),
                                <<"bin", "and", Equals(T_table_name, TextOf(tn[2][3])),
                                  OfSchema(tn[2][2])>>)>>
    IN IF IsName(T, i, T_columns) THEN ofTable(T_columns)
       ELSE IF IsName(T, i, T_constraints) THEN ofTable(T_constraints)
       ELSE IF IsName(T, i, T_config)
       THEN <<i + 1, <<"select",
                <<<<"expr", <<"ref", <<Name(T_name)>>>>, <<>>>>,
                  <<"expr", <<"ref", <<Name(T_value)>>>>, <<>>>>,
                  <<"expr", <<"ref", <<KwCanon("BY")>>>>, <<>>>>>>,
                SystemInfo(T_config), Equals(T_hidden, <<"lit", Bool(FALSE)>>),
                <<>>, <<>>, <<>>>>>>
       ELSE IF IsName(T, i, T_databases) THEN <<i + 1, FromSelect(SystemInfo(T_databases))>>
       ELSE IF IsName(T, i, T_schemas)
       THEN IF ~from THEN <<i + 1, FromSelect(Metadata(<<>>, T_schemas))>>
            ELSE IF ~Good(id) THEN id
            ELSE <<id[1], FromSelect(Metadata(id[2], T_schemas))>>
       ELSE IF IsName(T, i, T_tables)
       THEN IF ~from THEN <<i + 1, Where(Metadata(<<>>, T_tables), OfSchema(<<>>))>>
            ELSE IF ~Good(sn) THEN sn
            ELSE <<sn[1], Where(Metadata(sn[2][1], T_tables), OfSchema(sn[2][2]))>>
       ELSE IF IsId(T, i) THEN <<i + 1, <<"show", T[i][2]>>>>
       ELSE IF IsKwIn(T, i, {"DATABASE", "SCHEMA"}) THEN <<i + 1, <<"show", KwCanon(T[i][2])>>>>
       ELSE IF T[i][1] = "kw" THEN Unspecified
       ELSE Refused

-----------------------------------------------------------------------------
(* Column types: <<type, size, fixed>>; a size is <<high 16 bits, low>> *)

Size(n) == <<0, n>>
MaxSize == <<65535, 65534>>
ColumnType(w) ==
    CASE w = "BINARY" -> <<"bytes", Size(1), 1>>
      [] w = "VARBINARY" -> <<"bytes", Size(1), 0>>
      [] w \in {"BLOB", "BYTEA", "BYTES"} -> <<"bytes", MaxSize, 0>>
      [] w \in {"CHAR", "CHARACTER"} -> <<"string", Size(1), 1>>
      [] w = "VARCHAR" -> <<"string", Size(1), 0>>
      [] w = "TEXT" -> <<"string", MaxSize, 0>>
      [] w \in {"BOOL", "BOOLEAN"} -> <<"bool", Size(1), 0>>
      [] w = "DOUBLE" -> <<"float", Size(8), 0>>
      [] w = "REAL" -> <<"float", Size(4), 0>>
      [] w \in {"SMALLINT", "INT2"} -> <<"int", Size(2), 0>>
      [] w \in {"INT", "INTEGER", "INT4"} -> <<"int", Size(4), 0>>
      [] w \in {"BIGINT", "INT8"} -> <<"int", Size(8), 0>>
      [] OTHER -> <<>>

\* The size an integer token denotes, or <<>>.
SizeOf(t) ==
    IF t[1] # "int" THEN <<>>
    ELSE LET m == TruncMag(t[2])
         IN IF Neg(t[2]) \/ m[1] # 0 \/ m[2] # 0 \/ (m[3] = 65535 /\ m[4] = 65535) THEN <<>>
            ELSE <<m[3], m[4]>>

TypeAt(T, i) ==
    LET ct == IF IsId(T, i) THEN ColumnType(T[i][3]) ELSE <<>>
        j == IF IsWord(T, i, "DOUBLE") /\ IsWord(T, i + 1, "PRECISION") THEN i + 2 ELSE i + 1
    IN IF ct = <<>> THEN Refused
       ELSE IF ct[1] \in {"string", "bytes"} /\ IsOp(T, j, "(")
       THEN IF SizeOf(T[j + 1]) = <<>> \/ ~IsOp(T, j + 2, ")") THEN Refused
            ELSE <<j + 3, <<ct[1], SizeOf(T[j + 1]), ct[3]>>>>
       ELSE <<j, ct>>

-----------------------------------------------------------------------------
(* Keys and foreign keys *)

Columns(key) == [k \in 1 .. Len(key) |-> key[k][1]]
Key(T, i) ==
    LET r == Parens(T, i, "key")
    IN IF Good(r) /\ ~Distinct(Columns(r[2])) THEN Refused ELSE r

RefAction(T, i) ==
    CASE IsKw(T, i, "NO") -> IF IsKw(T, i + 1, "ACTION") THEN <<i + 2, "none">> ELSE Refused
      [] IsKw(T, i, "RESTRICT") -> <<i + 1, "restrict">>
      [] IsKw(T, i, "CASCADE") -> <<i + 1, "cascade">>
      [] IsKw(T, i, "SET") -> IF IsKw(T, i + 1, "NULL") THEN <<i + 2, "setnull">>
                              ELSE IF IsKw(T, i + 1, "DEFAULT") THEN <<i + 2, "setdefault">>
                              ELSE Refused
      [] OTHER -> Refused

\* Actions on foreign key fk, where d and u are what is known.
RECURSIVE Actions(_, _, _, _)
Actions(T, i, d, u) ==
    LET a == RefAction(T, i + 2)
    IN IF ~IsKw(T, i, "ON") THEN <<i, <<d, u>>>>
       ELSE IF IsKw(T, i + 1, "DELETE")
       THEN IF d # "" THEN Refused ELSE IF ~Good(a) THEN a ELSE Actions(T, a[1], a[2], u)
       ELSE IF IsKw(T, i + 1, "UPDATE")
       THEN IF u # "" THEN Refused ELSE IF ~Good(a) THEN a ELSE Actions(T, a[1], d, a[2])
       ELSE Refused

\* REFERENCES table ...: <<name, columns, table, its columns, on delete, on
\* update>>.  At i is REFERENCES.  one: at most one column may follow.
References(T, i, name, cols, one) ==
    LET tn == TableName(T, i + 1)
        rc == Maybe(T, tn[1], "id")
        ac == Actions(T, rc[1], "", "")
        act(a) == IF a = "" THEN "none" ELSE a
    IN IF ~IsKw(T, i, "REFERENCES") THEN Refused
       ELSE IF ~Good(tn) THEN tn
       ELSE IF ~Good(rc) THEN rc
       ELSE IF one /\ Len(rc[2]) > 1 THEN Refused
       ELSE IF ~Good(ac) THEN ac
       ELSE <<ac[1], <<name, cols, tn[2], rc[2], act(ac[2][1]), act(ac[2][2])>>>>

\* (columns) REFERENCES ...
ForeignKey(T, i, name) ==
    LET c == Parens(T, i, "id")
    IN IF ~Good(c) THEN c ELSE References(T, c[1], name, c[2], FALSE)

-----------------------------------------------------------------------------
(* CREATE TABLE.  A table being defined: cols, types, dflts, cons, fks, and *)
(* made, the names of constraints which were not given.  Constraints are    *)
(* <<type, name, column number or -1, key, expression>>.                    *)

NewTable == [cols |-> <<>>, types |-> <<>>, dflts |-> <<>>, cons |-> <<>>, fks |-> <<>>, made |-> {}]

NameUsed(st, n) ==
    /\ n # <<>>
    /\ \/ \E k \in 1 .. Len(st.cons) : st.cons[k][2] = n
       \/ \E k \in 1 .. Len(st.fks) : st.fks[k][1] = n

\* [CONSTRAINT name]: <<position after, name>>
ConstraintName(T, i) == IF IsKw(T, i, "CONSTRAINT") THEN IdAt(T, i + 1) ELSE <<i, <<>>>>

RECURSIVE JoinNames(_, _)
JoinNames(key, k) ==
    IF k > Len(key) THEN <<>> ELSE Tail(key[k][1]) \o (IF k < Len(key) THEN <<95>> ELSE <<>>) \o JoinNames(key, k + 1)

\* The name of a key constraint without a name.
MadeName(type, key) ==
    Canon(<<0>> \o JoinNames(key, 1) \o (IF type = "primary" THEN T_primary ELSE T_unique))

\* Table st with another key, at position i.  What a name made up for a key
\* is if the same was made up for another key is not specified.
WithKey(st, i, type, name, key) ==
    LET n == IF name = <<>> THEN MadeName(type, key) ELSE name
    IN IF type = "primary" /\ \E k \in 1 .. Len(st.cons) : st.cons[k][1] = "primary" THEN Refused
       ELSE IF \E k \in 1 .. Len(st.cons) : st.cons[k][4] = key THEN Refused
       ELSE IF name = <<>> /\ n \in st.made THEN Unspecified
       ELSE IF NameUsed(st, n) THEN Refused
       ELSE <<i, [st EXCEPT !.cons = Append(@, <<type, n, -1, key, <<>>>>),
                            !.made = IF name = <<>> THEN @ \cup {n} ELSE @]>>

WithCheck(T, i, st, name, col) ==
    IF ~IsOp(T, i, "(") THEN Refused
    ELSE LET e == Expr(T, i + 1, 1)
         IN IF ~Good(e) THEN e
            ELSE IF ~IsOp(T, e[1], ")") \/ NameUsed(st, name) THEN Refused
            ELSE <<e[1] + 1, [st EXCEPT !.cons = Append(@, <<"check", name, col, <<>>, e[2]>>)]>>

WithForeign(st, name, r) ==
    IF ~Good(r) THEN r
    ELSE IF NameUsed(st, name) THEN Refused
    ELSE <<r[1], [st EXCEPT !.fks = Append(@, r[2])]>>

WithNamed(st, type, name, col) ==
    IF name = <<>> THEN st ELSE [st EXCEPT !.cons = Append(@, <<type, name, col, <<>>, <<>>>>)]

\* The constraints of the last column from i: <<position after, table, NOT
\* NULL, default>>.
RECURSIVE ColumnConstraints(_, _, _, _, _)
ColumnConstraints(T, i, st, nn, dflt) ==
    LET col == Last(st.cols)
        num == Len(st.cols) - 1
        cn == ConstraintName(T, i)
        k == cn[1]
        e == Expr(T, k + 1, 1)
        p == WithKey(st, k + 2, "primary", cn[2], <<<<col, 0>>>>)
        u == WithKey(st, k + 1, "unique", cn[2], <<<<col, 0>>>>)
        c == WithCheck(T, k + 1, st, cn[2], num)
        f == WithForeign(st, cn[2], References(T, k, cn[2], <<col>>, TRUE))
        more(r) == IF ~Good(r) THEN r ELSE ColumnConstraints(T, r[1], r[2], nn, dflt)
    IN IF ~Good(cn) THEN cn
       ELSE CASE IsKw(T, k, "DEFAULT") ->
                    IF dflt # <<>> \/ NameUsed(st, cn[2]) THEN Refused
                    ELSE IF ~Good(e) THEN e
                    ELSE ColumnConstraints(T, e[1], WithNamed(st, "default", cn[2], num), nn, e[2])
              [] IsKw(T, k, "NOT") ->
                    IF ~IsKw(T, k + 1, "NULL") \/ nn = 1 \/ NameUsed(st, cn[2]) THEN Refused
                    ELSE ColumnConstraints(T, k + 2, WithNamed(st, "notnull", cn[2], num), 1, dflt)
              [] IsKw(T, k, "PRIMARY") -> IF ~IsKw(T, k + 1, "KEY") THEN Refused ELSE more(p)
              [] IsKw(T, k, "UNIQUE") -> more(u)
              [] IsKw(T, k, "CHECK") -> more(c)
              [] IsKw(T, k, "REFERENCES") -> more(f)
              [] OTHER -> IF cn[2] # <<>> THEN Refused ELSE <<i, st, nn, dflt>>

ColumnDef(T, i, st) ==
    LET ty == TypeAt(T, i + 1)
        cs == ColumnConstraints(T, ty[1], [st EXCEPT !.cols = Append(@, T[i][2])], 0, <<>>)
    IN IF ~IsId(T, i) THEN Refused
       ELSE IF \E k \in 1 .. Len(st.cols) : st.cols[k] = T[i][2] THEN Refused
       ELSE IF ~Good(ty) THEN ty
       ELSE IF ~Good(cs) THEN cs
       ELSE <<cs[1], [cs[2] EXCEPT !.types = Append(@, Append(ty[2], cs[3])),
                                   !.dflts = Append(@, cs[4])]>>

\* One column or constraint.
TableDetail(T, i, st) ==
    LET cn == ConstraintName(T, i)
        k == cn[1]
        pk == Key(T, k + 2)
        uk == Key(T, k + 1)
    IN IF ~Good(cn) THEN cn
       ELSE CASE IsKw(T, k, "PRIMARY") ->
                    IF ~IsKw(T, k + 1, "KEY") THEN Refused
                    ELSE IF ~Good(pk) THEN pk
                    ELSE WithKey(st, pk[1], "primary", cn[2], pk[2])
              [] IsKw(T, k, "UNIQUE") ->
                    IF ~Good(uk) THEN uk ELSE WithKey(st, uk[1], "unique", cn[2], uk[2])
              [] IsKw(T, k, "CHECK") -> WithCheck(T, k + 1, st, cn[2], -1)
              [] IsKw(T, k, "FOREIGN") ->
                    IF ~IsKw(T, k + 1, "KEY") THEN Refused
                    ELSE WithForeign(st, cn[2], ForeignKey(T, k + 2, cn[2]))
              [] OTHER -> IF cn[2] # <<>> THEN Refused ELSE ColumnDef(T, i, st)

RECURSIVE TableDetails(_, _, _)
TableDetails(T, i, st) ==
    LET r == TableDetail(T, i, st)
    IN IF ~Good(r) THEN r
       ELSE IF IsOp(T, r[1], ",") THEN TableDetails(T, r[1] + 1, r[2])
       ELSE IF IsOp(T, r[1], ")") THEN <<r[1] + 1, r[2]>>
       ELSE Refused

\* IF [NOT] EXISTS: <<position after, 0 or 1>>
IfExists(T, i) ==
    IF ~IsKw(T, i, "IF") THEN <<i, 0>> ELSE IF IsKw(T, i + 1, "EXISTS") THEN <<i + 2, 1>> ELSE Refused
IfNotExists(T, i) ==
    IF ~IsKw(T, i, "IF") THEN <<i, 0>>
    ELSE IF IsKw(T, i + 1, "NOT") /\ IsKw(T, i + 2, "EXISTS") THEN <<i + 3, 1>> ELSE Refused

CreateTable(T, i) ==
    LET x == IfNotExists(T, i)
        tn == TableName(T, x[1])
        d == TableDetails(T, tn[1] + 1, NewTable)
    IN IF ~Good(x) THEN x
       ELSE IF ~Good(tn) THEN tn
       ELSE IF ~IsOp(T, tn[1], "(") THEN Refused
       ELSE IF ~Good(d) THEN d
       ELSE <<d[1], <<"createtable", tn[2], x[2], d[2].cols, d[2].types, d[2].dflts, d[2].cons,
                      d[2].fks>>>>

-----------------------------------------------------------------------------
(* Other statements *)

AlterItem(T, i) ==
    LET cn == ConstraintName(T, i + 1)
        fk == ForeignKey(T, cn[1] + 2, cn[2])
        x == IfExists(T, i + 2)
        j == IF IsKw(T, i + 1, "COLUMN") THEN i + 2 ELSE i + 1
    IN CASE IsKw(T, i, "ADD") ->
              IF ~Good(cn) THEN cn
              ELSE IF ~IsKw(T, cn[1], "FOREIGN") \/ ~IsKw(T, cn[1] + 1, "KEY") THEN Refused
              ELSE IF ~Good(fk) THEN fk
              ELSE <<fk[1], <<"addforeign", fk[2]>>>>
         [] IsKw(T, i, "DROP") ->
              IF ~IsKw(T, i + 1, "CONSTRAINT") THEN Refused
              ELSE IF ~Good(x) THEN x
              ELSE IF ~IsId(T, x[1]) THEN Refused
              ELSE <<x[1] + 1, <<"dropconstraint", T[x[1]][2], x[2]>>>>
         [] IsKw(T, i, "ALTER") ->
              IF ~IsId(T, j) \/ ~IsKw(T, j + 1, "DROP") THEN Refused
              ELSE IF IsKw(T, j + 2, "DEFAULT") THEN <<j + 3, <<"alter", T[j][2], "default">>>>
              ELSE IF IsKw(T, j + 2, "NOT") /\ IsKw(T, j + 3, "NULL")
              THEN <<j + 4, <<"alter", T[j][2], "notnull">>>>
              ELSE Refused
         [] OTHER -> Refused

AlterTable(T, i) ==
    LET tn == TableName(T, i)
        a == List(T, tn[1], "alter", <<>>)
    IN IF ~Good(tn) THEN tn ELSE IF ~Good(a) THEN a ELSE <<a[1], <<"altertable", tn[2], a[2]>>>>

CreateIndex(T, i, unique) ==
    LET x == IfNotExists(T, i)
        tn == TableName(T, x[1] + 2)
        using == IsKw(T, tn[1], "USING")
        key == Key(T, IF using THEN tn[1] + 2 ELSE tn[1])
    IN IF ~Good(x) THEN x
       ELSE IF ~IsId(T, x[1]) \/ ~IsKw(T, x[1] + 1, "ON") THEN Refused
       ELSE IF ~Good(tn) THEN tn
       ELSE IF using /\ ~IsName(T, tn[1] + 1, T_btree) THEN Refused
       ELSE IF ~Good(key) THEN key
       ELSE <<key[1], <<"createindex", T[x[1]][2], tn[2], unique, key[2], x[2]>>>>

\* The text of a literal token.
LiteralText(t) ==
    CASE t[1] = "str" -> <<1, Payload(t[2])>>
      [] t[1] = "int" -> <<1, IntText(t[2])>>
      [] t[1] = "float" -> IF FloatText(t[2]) = Unknown THEN Unspecified ELSE <<1, FloatText(t[2])>>
      [] OTHER -> Refused

\* option [=] value ...: pairs <<option, text>>
RECURSIVE Options(_, _, _)
Options(T, i, acc) ==
    LET j == IF IsOp(T, i + 1, "=") THEN i + 2 ELSE i + 1
        v == IF IsId(T, j) THEN <<1, Tail(T[j][2])>>
             ELSE IF T[j][1] = "bytes" THEN <<1, Payload(T[j][2])>>
             ELSE LiteralText(T[j])
    IN IF ~IsId(T, i) THEN IF acc = <<>> THEN Refused ELSE <<i, acc>>
       ELSE IF ~Good(v) THEN v
       ELSE IF \E k \in 1 .. Len(acc) : acc[k][1] = T[i][2] THEN Unspecified
       ELSE Options(T, j + 1, Append(acc, <<T[i][2], v[2]>>))

\* Options in the order of their names.
RECURSIVE Insert(_, _), SortOptions(_, _)
Insert(s, o) ==
    IF s # <<>> /\ LexCmp(s[1][1], o[1]) < 0 THEN <<s[1]>> \o Insert(Tail(s), o) ELSE <<o>> \o s
SortOptions(s, k) == IF k > Len(s) THEN <<>> ELSE Insert(SortOptions(s, k + 1), s[k])

CreateDatabase(T, i) ==
    LET o == Options(T, i + 2, <<>>)
    IN IF ~IsId(T, i) THEN Refused
       ELSE IF ~IsKw(T, i + 1, "WITH") THEN <<i + 1, <<"createdatabase", T[i][2], <<>>>>>>
       ELSE IF ~Good(o) THEN o
       ELSE <<o[1], <<"createdatabase", T[i][2], SortOptions(o[2], 1)>>>>

CopyStmt(T, i) ==
    LET tn == TableName(T, i)
        cs == Different(Maybe(T, tn[1], "id"))
        j == cs[1]
        t == T[j + 3]
    IN IF ~Good(tn) THEN tn
       ELSE IF ~Good(cs) THEN cs
       ELSE IF ~IsKw(T, j, "FROM") \/ ~IsWord(T, j + 1, "STDIN") THEN Refused
       ELSE IF ~IsKw(T, j + 2, "DELIMITER") THEN <<j + 2, <<"copy", tn[2], cs[2], 9>>>>
       ELSE IF t[1] # "str" \/ Len(t[2]) # 2 THEN Refused
       ELSE <<j + 4, <<"copy", tn[2], cs[2], t[2][2]>>>>

DeleteStmt(T, i) ==
    LET tn == TableName(T, i + 1)
        w == Clause(T, tn[1], <<"WHERE">>, "expr")
    IN IF ~IsKw(T, i, "FROM") THEN Refused
       ELSE IF ~Good(tn) THEN tn
       ELSE IF ~Good(w) THEN w
       ELSE <<w[1], <<"delete", tn[2], w[2]>>>>

InsertStmt(T, i) ==
    LET tn == TableName(T, i + 1)
        cs == Different(Maybe(T, tn[1], "id"))
        r == List(T, cs[1] + 1, "insertrow", <<>>)
    IN IF ~IsKw(T, i, "INTO") THEN Refused
       ELSE IF ~Good(tn) THEN tn
       ELSE IF ~Good(cs) THEN cs
       ELSE IF ~IsKw(T, cs[1], "VALUES") THEN Refused
       ELSE IF ~Good(r) THEN r
       ELSE <<r[1], <<"insert", tn[2], cs[2], r[2]>>>>

UpdateStmt(T, i) ==
    LET tn == TableName(T, i)
        s == List(T, tn[1] + 1, "set", <<>>)
        w == Clause(T, s[1], <<"WHERE">>, "expr")
    IN IF ~Good(tn) THEN tn
       ELSE IF ~IsKw(T, tn[1], "SET") THEN Refused
       ELSE IF ~Good(s) THEN s
       ELSE IF ~Good(w) THEN w
       ELSE <<w[1], <<"update", tn[2], s[2], w[2]>>>>

\* What is assigned by SET and USE is a single literal other than NULL.
SetTo(T, i, var) ==
    LET v == IF T[i] = Kw("TRUE") THEN <<1, T_true>>
             ELSE IF T[i] = Kw("FALSE") THEN <<1, T_false>>
             ELSE IF T[i][1] = "bytes" THEN Unspecified
             ELSE LiteralText(T[i])
    IN IF ~Good(v) THEN v ELSE <<i + 1, <<"set", var, v[2]>>>>

SetStmt(T, i) ==
    IF ~IsId(T, i) /\ ~IsKwIn(T, i, {"DATABASE", "SCHEMA"}) THEN Refused
    ELSE IF ~IsOp(T, i + 1, "=") /\ ~IsKw(T, i + 1, "TO") THEN Refused
    ELSE SetTo(T, i + 2, IF IsId(T, i) THEN T[i][2] ELSE KwCanon(T[i][2]))

DropTable(T, i) ==
    LET x == IfExists(T, i)
        l == List(T, x[1], "table", <<>>)
        c == IF IsKw(T, l[1], "CASCADE") THEN 1 ELSE 0
    IN IF ~Good(x) THEN x
       ELSE IF ~Good(l) THEN l
       ELSE <<IF IsKwIn(T, l[1], {"CASCADE", "RESTRICT"}) THEN l[1] + 1 ELSE l[1],
              <<"droptable", x[2], l[2], c>>>>

DropIndex(T, i) ==
    LET x == IfExists(T, i)
        tn == TableName(T, x[1] + 2)
    IN IF ~Good(x) THEN x
       ELSE IF ~IsId(T, x[1]) \/ ~IsKw(T, x[1] + 1, "ON") THEN Refused
       ELSE IF ~Good(tn) THEN tn
       ELSE <<tn[1], <<"dropindex", x[2], T[x[1]][2], tn[2]>>>>

DropDatabase(T, i) ==
    LET x == IfExists(T, i)
    IN IF ~Good(x) THEN x
       ELSE IF ~IsId(T, x[1]) THEN Refused
       ELSE <<x[1] + 1, <<"dropdatabase", x[2], T[x[1]][2]>>>>

DropSchema(T, i) ==
    LET x == IfExists(T, i)
        sn == SchemaName(T, x[1])
    IN IF ~Good(x) THEN x ELSE IF ~Good(sn) THEN sn ELSE <<sn[1], <<"dropschema", x[2], sn[2]>>>>

CreateSchema(T, i) ==
    LET sn == SchemaName(T, i) IN IF ~Good(sn) THEN sn ELSE <<sn[1], <<"createschema", sn[2]>>>>

Item(T, i, kind) ==
    CASE kind = "expr" -> Expr(T, i, 1)
      [] kind = "value" -> ValueItem(T, i)
      [] kind = "id" -> IdAt(T, i)
      [] kind = "key" -> KeyItem(T, i)
      [] kind = "row" -> Parens(T, i, "expr")
      [] kind = "insertrow" -> Parens(T, i, "value")
      [] kind = "select" -> SelectItem(T, i)
      [] kind = "set" -> SetItem(T, i)
      [] kind = "table" -> TableName(T, i)
      [] kind = "alter" -> AlterItem(T, i)

Explain(T, i) ==
    LET v == IsKw(T, i, "VERBOSE")
        j == IF v THEN i + 1 ELSE i
        s == SelectStmt(T, j + 1)
    IN IF ~IsKw(T, j, "SELECT") THEN Refused
       ELSE IF ~Good(s) THEN s
       ELSE <<s[1], <<"explain", IF v THEN 1 ELSE 0, s[2]>>>>

\* A statement which begins with the keyword at position 1 and what follows.
StatementAt(T) ==
    LET k == T[1]
    IN CASE k = Kw("ALTER") -> IF IsKw(T, 2, "TABLE") THEN AlterTable(T, 3) ELSE Refused
         [] k = Kw("BEGIN") -> <<2, <<"begin">>>>
         [] k = Kw("COMMIT") -> <<2, <<"commit">>>>
         [] k = Kw("COPY") -> CopyStmt(T, 2)
         [] k = Kw("CREATE") ->
               CASE IsKw(T, 2, "DATABASE") -> CreateDatabase(T, 3)
                 [] IsKw(T, 2, "INDEX") -> CreateIndex(T, 3, 0)
                 [] IsKw(T, 2, "SCHEMA") -> CreateSchema(T, 3)
                 [] IsKw(T, 2, "TABLE") -> CreateTable(T, 3)
                 [] IsKw(T, 2, "UNIQUE") -> IF IsKw(T, 3, "INDEX") THEN CreateIndex(T, 4, 1) ELSE Refused
                 [] OTHER -> Refused
         [] k = Kw("DELETE") -> DeleteStmt(T, 2)
         [] k = Kw("DROP") ->
               CASE IsKw(T, 2, "DATABASE") -> DropDatabase(T, 3)
                 [] IsKw(T, 2, "INDEX") -> DropIndex(T, 3)
                 [] IsKw(T, 2, "SCHEMA") -> DropSchema(T, 3)
                 [] IsKw(T, 2, "TABLE") -> DropTable(T, 3)
                 [] OTHER -> Refused
         [] k = Kw("EXPLAIN") -> Explain(T, 2)
         [] k = Kw("INSERT") -> InsertStmt(T, 2)
         [] k = Kw("ROLLBACK") -> <<2, <<"rollback">>>>
         [] k = Kw("SELECT") -> SelectStmt(T, 2)
         [] k = Kw("SET") -> SetStmt(T, 2)
         [] k = Kw("SHOW") -> ShowStmt(T, 2)
         [] k = Kw("START") -> IF IsKw(T, 2, "TRANSACTION") THEN <<3, <<"begin">>>> ELSE Refused
         [] k = Kw("UPDATE") -> UpdateStmt(T, 2)
         [] k = Kw("USE") -> SetTo(T, 2, KwCanon("DATABASE"))
         [] k = Kw("VALUES") -> ValuesStmt(T, 2)
         [] OTHER -> Refused

\* The statement of which T are all tokens.
Statement(T) ==
    LET r == StatementAt(T) IN IF Good(r) /\ T[r[1]] # End THEN Refused ELSE r

=============================================================================
