------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions: SQL statements executed on the catalog of the engine.         *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   com    the committed catalog (see Catalog)                            *)
(*   cur    the catalog as seen by the open transaction, if there is one   *)
(*   owner  the session whose transaction is open, or 0                    *)
(*   ses    the current database and schema of each session                *)
(* Only one transaction is open at a time: whatever needs another one has  *)
(* to wait, so that it is not enabled (Blocked).                           *)
(*                                                                         *)
(* A statement is an event e: e.ses is the session, e.op the kind of       *)
(* statement, and e.db, e.sc and e.tb are the parts of a name, <<>> when   *)
(* not written.                                                            *)
(***************************************************************************)
EXTENDS Catalog, SqlTypes

Sessions == 1 .. 4
InitSession == [com |-> InitCatalog, cur |-> InitCatalog, owner |-> 0,
                ses |-> [s \in Sessions |-> [db |-> Maho, sc |-> Public]]]

-----------------------------------------------------------------------------
(* Names *)

Absent == <<>>

\* The table a written name denotes for a session with current database and schema d.
ResolveTable(d, db, sc, tb) ==
    IF db # Absent THEN <<Canon(db), Canon(sc), Canon(tb)>>
    ELSE IF sc # Absent THEN <<d.db, Canon(sc), Canon(tb)>>
    ELSE <<d.db, d.sc, Canon(tb)>>

ResolveSchema(d, db, sc) == IF db # Absent THEN <<Canon(db), Canon(sc)>> ELSE <<d.db, Canon(sc)>>

\* The name which a value given to SET denotes.
Value(v) == Canon(<<0>> \o v)

-----------------------------------------------------------------------------
(* CREATE TABLE.  A declaration is a sequence of items in the order written:
     <<"col", name, type, constraints>>   with constraints from "nn", "pk", "uq", "df", "ck", "fk"
     <<"pk", key>> and <<"uq", key>>      with a key of <<name, 0 or 1 for descending>>
     <<"ck">> and <<"fk", name>>          which have no effect on the table  *)

Range(s) == {s[i] : i \in 1 .. Len(s)}
ColItems(items) == SelectSeq(items, LAMBDA i : i[1] = "col")
Columns(items) == [i \in 1 .. Len(ColItems(items)) |-> ColItems(items)[i][2]]
CanonColumns(items) == [i \in 1 .. Len(ColItems(items)) |-> Canon(ColItems(items)[i][2])]
Types(items) ==
    [i \in 1 .. Len(ColItems(items)) |->
        ColumnType(ColItems(items)[i][3], IF "nn" \in Range(ColItems(items)[i][4]) THEN 1 ELSE 0)]

\* The primary keys written, in order, as <<name, descending>>.
RECURSIVE PrimaryKeys(_)
PrimaryKeys(items) ==
    IF items = <<>> THEN <<>>
    ELSE LET i == Head(items)
             ks == IF i[1] = "col" /\ "pk" \in Range(i[4]) THEN <<<< <<i[2], 0>> >>>>
                   ELSE IF i[1] = "pk" THEN <<i[2]>> ELSE <<>>
         IN ks \o PrimaryKeys(Tail(items))

\* All keys written: no two may be equal, and only one may be primary.
RECURSIVE Keys(_)
Keys(items) ==
    IF items = <<>> THEN <<>>
    ELSE LET i == Head(items)
             ofCol == SelectSeq(IF i[1] = "col" THEN i[4] ELSE <<>>, LAMBDA c : c \in {"pk", "uq"})
             ks == IF i[1] = "col" THEN [j \in 1 .. Len(ofCol) |-> << <<Canon(i[2]), 0>> >>]
                   ELSE IF i[1] \in {"pk", "uq"}
                   THEN << [j \in 1 .. Len(i[2]) |-> <<Canon(i[2][j][1]), i[2][j][2]>>] >>
                   ELSE <<>>
         IN ks \o Keys(Tail(items))

NumOf(cols, n) == CHOOSE i \in 1 .. Len(cols) : cols[i] = Canon(n)
\* cols: canonical names of columns
Known(cols, key) == \A i \in 1 .. Len(key) : Canon(key[i][1]) \in Range(cols)
KeyOf(cols, key) == [i \in 1 .. Len(key) |-> <<NumOf(cols, key[i][1]) - 1, key[i][2]>>]

DefOf(items) ==
    LET ks == PrimaryKeys(items)
        cols == CanonColumns(items)
    IN [cols |-> Columns(items), types |-> Types(items),
        key |-> IF ks = <<>> THEN <<>> ELSE KeyOf(cols, ks[1])]

Declares(items) == PrimaryKeys(items) = <<>> \/ Known(CanonColumns(items), PrimaryKeys(items)[1])

\* A declaration which contradicts itself is refused whatever there is.
Consistent(items) ==
    LET ks == Keys(items)
    IN Len(PrimaryKeys(items)) <= 1 /\ (\A i, j \in 1 .. Len(ks) : ks[i] = ks[j] => i = j)

\* What a statement does to a catalog c, for a session with current database and schema d:
\* <<new catalog, result>>.
CreateTableStmt(c, d, e) ==
    LET n == ResolveTable(d, e.db, e.sc, e.tb)
    IN IF ~Consistent(e.items) THEN <<c, Rej>>
       ELSE IF n \in DOMAIN c.tables THEN <<c, IF e.ifx = 1 THEN OK ELSE Rej>>
       ELSE IF ~Declares(e.items) THEN <<c, Rej>>
       ELSE LET r == CreateTable(c, n, DefOf(e.items), e.id) IN <<r[1], IF r[2] = Rej THEN Rej ELSE OK>>

CreateIndexStmt(c, d, e) ==
    LET n == ResolveTable(d, e.db, e.sc, e.tb)
    IN IF n \notin DOMAIN c.tables THEN <<c, Rej>>
       ELSE <<c, IF Known(c.tables[n].def.cols, e.key) THEN OK ELSE Rej>>

Effect(c, d, e) ==
    CASE e.op = "cschema" ->
           LET n == ResolveSchema(d, e.db, e.sc) IN CreateSchema(c, n[1], n[2])
      [] e.op = "dschema" ->
           LET n == ResolveSchema(d, e.db, e.sc) IN DropSchema(c, n[1], n[2], e.ifx = 1)
      [] e.op = "ctable" -> CreateTableStmt(c, d, e)
      [] e.op = "cindex" -> CreateIndexStmt(c, d, e)
      [] e.op = "unsupported" -> <<c, Rej>>

-----------------------------------------------------------------------------
(* Statements *)

InAny(e) == e.op \in {"cschema", "dschema", "ctable", "cindex", "unsupported"}
Reads(e) == e.op \in {"dbs", "schemas", "open", "snap"}
NeedsTx(st, e) ==
    \/ e.op = "begin" /\ st.owner # e.ses
    \/ e.op \in {"createdb", "dropdb"} /\ st.owner # e.ses
    \/ InAny(e) /\ st.owner # e.ses
    \/ e.op = "dbs"
    \/ e.op \in {"schemas", "open"} /\ st.owner # e.ses

\* The statement has to wait for the open transaction to complete.
Blocked(st, e) == NeedsTx(st, e) /\ st.owner # 0

CurrentOf(st, e) == st.ses[e.ses]
Mine(st, e) == st.owner = e.ses
SeenBy(st, e) == IF Mine(st, e) THEN st.cur ELSE st.com

Committed(st, r) == R([st EXCEPT !.com = r[1], !.cur = r[1]], r[2])

Exec(st, e) ==
    CASE e.op = "begin" ->
           IF Mine(st, e) THEN R(st, Rej) ELSE R([st EXCEPT !.owner = e.ses, !.cur = st.com], OK)
      [] e.op = "commit" ->
           IF Mine(st, e) THEN R([st EXCEPT !.owner = 0, !.com = st.cur], OK) ELSE R(st, Rej)
      [] e.op = "rollback" ->
           IF Mine(st, e) THEN R([st EXCEPT !.owner = 0, !.cur = st.com], OK) ELSE R(st, Rej)
      [] e.op = "createdb" ->
           IF Mine(st, e) THEN R(st, Rej) ELSE Committed(st, CreateDatabase(st.com, Db(e), e.opts))
      [] e.op = "dropdb" ->
           IF Mine(st, e) THEN R(st, Rej) ELSE Committed(st, DropDatabase(st.com, Db(e), e.ifx = 1))
      [] e.op = "setdb" -> R([st EXCEPT !.ses[e.ses].db = Value(e.val)], OK)
      [] e.op = "setsc" -> R([st EXCEPT !.ses[e.ses].sc = Value(e.val)], OK)
      [] e.op = "setvar" -> R(st, Rej)
      [] InAny(e) ->
           IF Mine(st, e)
           THEN LET r == Effect(st.cur, CurrentOf(st, e), e) IN R([st EXCEPT !.cur = r[1]], r[2])
           ELSE Committed(st, Effect(st.com, CurrentOf(st, e), e))
      \* What a statement would act on: the name as the session resolves it.
      [] e.op = "rtable" -> R(st, <<"name", ResolveTable(CurrentOf(st, e), e.db, e.sc, e.tb)>>)
      [] e.op = "rschema" -> R(st, <<"name", ResolveSchema(CurrentOf(st, e), e.db, e.sc)>>)
      \* What the engine shows of the catalog: all databases, the schemas of one, and one table
      \* by its whole name.
      [] e.op = "dbs" -> R(st, <<"names", st.com.dbs>>)
      [] e.op = "schemas" ->
           R(st, IF Db(e) \in SeenBy(st, e).dbs THEN <<"names", SchemasOf(SeenBy(st, e), Db(e))>> ELSE Rej)
      [] e.op = "open" ->
           R(st, IF Tn(e) \in DOMAIN SeenBy(st, e).tables
                 THEN <<"table", Tn(e), SeenBy(st, e).tables[Tn(e)].def, SeenBy(st, e).tables[Tn(e)].id>>
                 ELSE Rej)

-----------------------------------------------------------------------------
(* What must hold in every state *)

SessionOk(st) == CatalogOk(st.com) /\ CatalogOk(st.cur) /\ (st.owner = 0 => st.cur = st.com)

(* What must hold of every statement e with result res *)

Explicit(st, e) == Mine(st, e)     \* part of an open transaction

\* C24
RefusedNoEffect(st, e, res, st2) == res = Rej => st2 = st
OneTransaction(st, e, res, st2) ==
    \* in a transaction only commit and rollback end it, and only commit makes its effect permanent
    Explicit(st, e) =>
        /\ e.op \notin {"commit", "rollback"} => st2.owner = e.ses /\ st2.com = st.com
        /\ e.op = "commit" => st2.owner = 0 /\ st2.com = st.cur
        /\ e.op = "rollback" => st2.owner = 0 /\ st2.com = st.com
        /\ e.op \in {"begin", "createdb", "dropdb"} => res = Rej
ByItself(st, e, res, st2) ==
    ~Explicit(st, e) =>
        /\ e.op # "begin" => st2.owner = st.owner
        /\ e.op \in {"commit", "rollback"} => res = Rej
        /\ st.owner # 0 => st2.com = st.com
\* C25
OnlySetChangesNames(st, e, res, st2) ==
    /\ \A s \in Sessions \ {e.ses} : st2.ses[s] = st.ses[s]
    /\ e.op \notin {"setdb", "setsc"} => st2.ses = st.ses
    /\ e.op = "setdb" => st2.ses[e.ses].sc = st.ses[e.ses].sc
    /\ e.op = "setsc" => st2.ses[e.ses].db = st.ses[e.ses].db
QualifiedStays(st, e, res, st2) ==
    e.op = "rtable" =>
        /\ res[2][3] = Canon(e.tb)
        /\ e.sc # Absent => res[2][2] = Canon(e.sc)
        /\ e.db # Absent => res[2][1] = Canon(e.db)
\* C27
AsDeclared(st, e, res, st2) ==
    e.op = "ctable" /\ res = OK =>
        LET n == ResolveTable(CurrentOf(st, e), e.db, e.sc, e.tb)
            after == SeenBy(st2, e).tables
            before == SeenBy(st, e).tables
        IN /\ n \in DOMAIN after
           /\ IF n \in DOMAIN before THEN e.ifx = 1 /\ after = before
              ELSE /\ after[n].def.cols = CanonColumns(e.items)
                   /\ \A m \in DOMAIN before : after[m] = before[m]

StatementOk(st, e, res, st2) ==
    /\ RefusedNoEffect(st, e, res, st2)
    /\ OneTransaction(st, e, res, st2)
    /\ ByItself(st, e, res, st2)
    /\ OnlySetChangesNames(st, e, res, st2)
    /\ QualifiedStays(st, e, res, st2)
    /\ AsDeclared(st, e, res, st2)

=============================================================================
