------------------------------ MODULE SqlTypes -------------------------------
(***************************************************************************)
(* The data types of SQL: what type a column declared with a name, and     *)
(* perhaps a size, has.  A declared type is [name, size] where size is -1  *)
(* when none is written; a column type is <<type, size, fixed, not null>>  *)
(* where the types are 1 bool, 2 integer, 3 float, 4 string and 5 bytes.   *)
(***************************************************************************)
EXTENDS Integers

MaxSize == 2147483647    \* stands for the size of a column which is not limited

TypeNames ==
    [binary |-> <<5, 1, 1>>, varbinary |-> <<5, 1, 0>>,
     blob |-> <<5, MaxSize, 0>>, bytea |-> <<5, MaxSize, 0>>, bytes |-> <<5, MaxSize, 0>>,
     char |-> <<4, 1, 1>>, character |-> <<4, 1, 1>>, varchar |-> <<4, 1, 0>>, text |-> <<4, MaxSize, 0>>,
     bool |-> <<1, 1, 0>>, boolean |-> <<1, 1, 0>>,
     double |-> <<3, 8, 0>>, real |-> <<3, 4, 0>>,
     smallint |-> <<2, 2, 0>>, int2 |-> <<2, 2, 0>>, int |-> <<2, 4, 0>>, integer |-> <<2, 4, 0>>,
     int4 |-> <<2, 4, 0>>, int8 |-> <<2, 8, 0>>, bigint |-> <<2, 8, 0>>]

Sized(t) == TypeNames[t][1] \in {4, 5}     \* may be declared with a size

ColumnType(decl, nn) ==
    LET t == TypeNames[decl.name]
    IN <<t[1], IF decl.size >= 0 THEN decl.size ELSE t[2], t[3], nn>>
=============================================================================
