------------------------------ MODULE Catalog -------------------------------
(***************************************************************************)
(* The catalog of the engine: databases, schemas and tables.               *)
(*                                                                         *)
(* A catalog is a record                                                   *)
(*   dbs      the databases                                                *)
(*   schemas  the schemas, as <<database, schema>>                         *)
(*   tables   <<database, schema, table>> -> [def, id]                     *)
(*   top      the largest table id in use                                  *)
(* where every name is the Canon of a written name (see Ident).  The state *)
(* of the engine is the committed catalog, com, and the one seen by the    *)
(* active transaction, cur; a transaction sees its own changes at once.    *)
(*                                                                         *)
(* A definition of a table is a record [cols, types, key] with written     *)
(* names.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ident

OK == <<"ok">>
Rej == <<"rej">>

Qn(s) == <<1>> \o s    \* the Canon of a name which is not a keyword
System == Qn(<<115, 121, 115, 116, 101, 109>>)
Info == Qn(<<105, 110, 102, 111>>)
Maho == Qn(<<109, 97, 104, 111>>)
Public == Qn(<<112, 117, 98, 108, 105, 99>>)
SystemTables ==   \* sequences, databases, schemas, tables
    << Qn(<<115, 101, 113, 117, 101, 110, 99, 101, 115>>),
       Qn(<<100, 97, 116, 97, 98, 97, 115, 101, 115>>),
       Qn(<<115, 99, 104, 101, 109, 97, 115>>),
       Qn(<<116, 97, 98, 108, 101, 115>>) >>
FirstTableId == 512
NoDef == [cols |-> <<>>, types |-> <<>>, key |-> <<>>]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitCatalog ==
    [dbs |-> {System, Maho}, schemas |-> {<<System, Info>>, <<Maho, Public>>},
     tables |-> [n \in {<<System, Info, SystemTables[i]>> : i \in 1 .. 4} |->
                    [def |-> NoDef, id |-> 15 + (CHOOSE i \in 1 .. 4 : n[3] = SystemTables[i])]],
     top |-> FirstTableId - 1]

InitEngine == [com |-> InitCatalog, cur |-> InitCatalog, act |-> FALSE]

CanonTableDef(d) == [cols |-> [i \in 1 .. Len(d.cols) |-> Canon(d.cols[i])], types |-> d.types, key |-> d.key]

\* A definition with few columns of ordinary names can always be stored; whether a larger one can
\* is not specified, only that it is stored exactly or refused.
IsSmall(d) == Len(d.cols) <= 40

-----------------------------------------------------------------------------
(* Operations on a catalog: <<new catalog, result>> *)

CreateDatabase(c, db, opts) ==
    IF db \in c.dbs \/ opts > 0 THEN <<c, Rej>> ELSE <<[c EXCEPT !.dbs = @ \cup {db}], OK>>

DropDatabase(c, db, ifx) ==
    IF db \in c.dbs THEN <<[c EXCEPT !.dbs = @ \ {db}], OK>>
    ELSE <<c, IF ifx THEN OK ELSE Rej>>

CreateSchema(c, db, sc) ==
    IF db \notin c.dbs \/ <<db, sc>> \in c.schemas THEN <<c, Rej>>
    ELSE <<[c EXCEPT !.schemas = @ \cup {<<db, sc>>}], OK>>

DropSchema(c, db, sc, ifx) ==
    IF <<db, sc>> \in c.schemas THEN <<[c EXCEPT !.schemas = @ \ {<<db, sc>>}], OK>>
    ELSE <<c, IF ifx THEN OK ELSE Rej>>

SchemasOf(c, db) == {s[2] : s \in {x \in c.schemas : x[1] = db}}

CanCreateTable(c, n) == <<n[1], n[2]>> \in c.schemas /\ n \notin DOMAIN c.tables

\* id: the table id chosen, any which is larger than those in use.
CreateTable(c, n, d, id) ==
    IF CanCreateTable(c, n)
    THEN <<[c EXCEPT !.tables = Put(@, n, [def |-> CanonTableDef(d), id |-> id]), !.top = id], <<"ok", id>>>>
    ELSE <<c, Rej>>

-----------------------------------------------------------------------------
(* Calls of the engine.  An event e names its operation in op. *)

R(st, res) == [st |-> st, res |-> res]

InTx(st, r) == IF st.act THEN R([st EXCEPT !.cur = r[1]], r[2]) ELSE R(st, Rej)
\* Operations on databases are transactions of their own.
Alone(st, r) == R([st EXCEPT !.com = r[1], !.cur = r[1]], r[2])

Db(e) == Canon(e.db)
Sc(e) == Canon(e.sc)
Tn(e) == <<Canon(e.db), Canon(e.sc), Canon(e.tb)>>

\* e.id is the table id the code chose, for an event which creates a table.
Apply(st, e) ==
    CASE e.op = "createdb" -> Alone(st, CreateDatabase(st.com, Db(e), e.opts))
      [] e.op = "dropdb" -> Alone(st, DropDatabase(st.com, Db(e), e.ifx = 1))
      [] e.op = "dbs" -> R(st, <<"names", st.com.dbs>>)
      [] e.op = "reopen" -> R(st, OK)       \* another engine on the same store
      [] e.op = "other" -> R(st, OK)        \* the one used before
      [] e.op = "begin" -> R([st EXCEPT !.act = TRUE, !.cur = st.com], OK)
      [] e.op = "commit" -> IF st.act THEN R([st EXCEPT !.act = FALSE, !.com = st.cur], OK) ELSE R(st, Rej)
      [] e.op = "rollback" -> IF st.act THEN R([st EXCEPT !.act = FALSE, !.cur = st.com], OK) ELSE R(st, Rej)
      [] e.op = "cschema" -> InTx(st, CreateSchema(st.cur, Db(e), Sc(e)))
      [] e.op = "dschema" -> InTx(st, DropSchema(st.cur, Db(e), Sc(e), e.ifx = 1))
      [] e.op = "schemas" ->
           IF st.act /\ Db(e) \in st.cur.dbs THEN R(st, <<"names", SchemasOf(st.cur, Db(e))>>) ELSE R(st, Rej)
      [] e.op = "ctable" -> InTx(st, CreateTable(st.cur, Tn(e), e.d, e.id))
      [] e.op = "open" ->
           IF st.act /\ Tn(e) \in DOMAIN st.cur.tables
           THEN R(st, <<"table", Tn(e), st.cur.tables[Tn(e)].def, st.cur.tables[Tn(e)].id>>)
           ELSE R(st, Rej)

-----------------------------------------------------------------------------
(* What must hold in every state *)

IdsOf(c) == {c.tables[n].id : n \in DOMAIN c.tables}
UniqueIds(c) == Cardinality(IdsOf(c)) = Cardinality(DOMAIN c.tables)
UserIds(c) ==
    \A n \in DOMAIN c.tables :
        c.tables[n].id >= FirstTableId \/ n \in DOMAIN InitCatalog.tables
TopIsLargest(c) == \A n \in DOMAIN c.tables : c.tables[n].id <= c.top
CatalogOk(c) == UniqueIds(c) /\ UserIds(c) /\ TopIsLargest(c)

EngineOk(st) == CatalogOk(st.com) /\ CatalogOk(st.cur) /\ (~st.act => st.cur = st.com)

(* What must hold of every transition by event e with result res *)

RefusedChangesNothing(st, e, res, st2) == res = Rej => st2 = st
CommittedOnly(st, e, res, st2) ==
    st2.com # st.com => e.op \in {"commit", "createdb", "dropdb"} /\ (e.op = "commit" => st2.com = st.cur)
RollbackDiscards(st, e, res, st2) == e.op = "rollback" => st2.com = st.com /\ st2.cur = st.com
BeginSeesCommitted(st, e, res, st2) == e.op = "begin" => st2.cur = st.com
ReadsChangeNothing(st, e, res, st2) == e.op \in {"dbs", "schemas", "open", "reopen", "other"} => st2 = st
TablesStay(st, e, res, st2) ==   \* the definition and the id of a table never change
    e.op # "rollback" => \A n \in DOMAIN st.cur.tables \cap DOMAIN st2.cur.tables :
                            st2.cur.tables[n] = st.cur.tables[n]
IdsIncrease(st, e, res, st2) ==
    e.op = "ctable" /\ res # Rej => \A n \in DOMAIN st.cur.tables : st.cur.tables[n].id < st2.cur.tables[Tn(e)].id
OnlyNamed(st, e, res, st2) ==    \* an operation changes only what it names
    /\ (e.op \in {"createdb", "dropdb"} =>
            /\ st2.com.dbs \ {Db(e)} = st.com.dbs \ {Db(e)}
            /\ st2.com.schemas = st.com.schemas /\ st2.com.tables = st.com.tables)
    /\ (e.op \in {"cschema", "dschema"} =>
            /\ st2.cur.schemas \ {<<Db(e), Sc(e)>>} = st.cur.schemas \ {<<Db(e), Sc(e)>>}
            /\ st2.cur.dbs = st.cur.dbs /\ st2.cur.tables = st.cur.tables)
    /\ (e.op = "ctable" => st2.cur.dbs = st.cur.dbs /\ st2.cur.schemas = st.cur.schemas)

StepOk(st, e, res, st2) ==
    /\ RefusedChangesNothing(st, e, res, st2)
    /\ CommittedOnly(st, e, res, st2)
    /\ RollbackDiscards(st, e, res, st2)
    /\ BeginSeesCommitted(st, e, res, st2)
    /\ ReadsChangeNothing(st, e, res, st2)
    /\ TablesStay(st, e, res, st2)
    /\ IdsIncrease(st, e, res, st2)
    /\ OnlyNamed(st, e, res, st2)

=============================================================================
