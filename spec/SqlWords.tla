------------------------------ MODULE SqlWords ------------------------------
(***************************************************************************)
(* The keywords as strings, and texts which appear in Sql, as sequences of *)
(* bytes.  Written by tools/mkkeywords.py: do not edit.                    *)
(***************************************************************************)
EXTENDS Integers

WordCodes == <<
  <<65, 67, 84, 73, 79, 78>>,
  <<65, 68, 68>>,
  <<65, 76, 76>>,
  <<65, 76, 84, 69, 82>>,
  <<65, 78, 68>>,
  <<65, 78, 89>>,
  <<65, 83>>,
  <<65, 83, 67>>,
  <<66, 69, 71, 73, 78>>,
  <<66, 89>>,
  <<66, 73, 71, 73, 78, 84>>,
  <<66, 73, 78, 65, 82, 89>>,
  <<66, 76, 79, 66>>,
  <<66, 79, 79, 76>>,
  <<66, 79, 79, 76, 69, 65, 78>>,
  <<66, 89, 84, 69, 65>>,
  <<66, 89, 84, 69, 83>>,
  <<67, 65, 83, 67, 65, 68, 69>>,
  <<67, 72, 65, 82>>,
  <<67, 72, 65, 82, 65, 67, 84, 69, 82>>,
  <<67, 72, 69, 67, 75>>,
  <<67, 79, 76, 85, 77, 78>>,
  <<67, 79, 77, 77, 73, 84>>,
  <<67, 79, 78, 83, 84, 82, 65, 73, 78, 84>>,
  <<67, 79, 80, 89>>,
  <<67, 82, 69, 65, 84, 69>>,
  <<67, 82, 79, 83, 83>>,
  <<68, 65, 84, 65, 66, 65, 83, 69>>,
  <<68, 69, 70, 65, 85, 76, 84>>,
  <<68, 69, 76, 69, 84, 69>>,
  <<68, 69, 76, 73, 77, 73, 84, 69, 82>>,
  <<68, 69, 83, 67>>,
  <<68, 69, 84, 65, 67, 72>>,
  <<68, 79, 85, 66, 76, 69>>,
  <<68, 82, 79, 80>>,
  <<69, 88, 69, 67, 85, 84, 69>>,
  <<69, 88, 73, 83, 84, 83>>,
  <<69, 88, 80, 76, 65, 73, 78>>,
  <<70, 65, 76, 83, 69>>,
  <<70, 79, 82, 69, 73, 71, 78>>,
  <<70, 82, 79, 77>>,
  <<70, 85, 76, 76>>,
  <<71, 82, 79, 85, 80>>,
  <<72, 65, 86, 73, 78, 71>>,
  <<73, 70>>,
  <<73, 78>>,
  <<73, 78, 68, 69, 88>>,
  <<73, 78, 78, 69, 82>>,
  <<73, 78, 83, 69, 82, 84>>,
  <<73, 78, 84>>,
  <<73, 78, 84, 50>>,
  <<73, 78, 84, 52>>,
  <<73, 78, 84, 56>>,
  <<73, 78, 84, 69, 71, 69, 82>>,
  <<73, 78, 84, 79>>,
  <<73, 83>>,
  <<74, 79, 73, 78>>,
  <<75, 69, 89>>,
  <<76, 69, 70, 84>>,
  <<78, 79>>,
  <<78, 79, 84>>,
  <<78, 85, 76, 76>>,
  <<79, 78>>,
  <<79, 82>>,
  <<79, 82, 68, 69, 82>>,
  <<79, 85, 84, 69, 82>>,
  <<80, 65, 84, 72>>,
  <<80, 82, 69, 67, 73, 83, 73, 79, 78>>,
  <<80, 82, 69, 80, 65, 82, 69>>,
  <<80, 82, 73, 77, 65, 82, 89>>,
  <<82, 69, 65, 76>>,
  <<82, 69, 83, 84, 82, 73, 67, 84>>,
  <<82, 69, 70, 69, 82, 69, 78, 67, 69, 83>>,
  <<82, 73, 71, 72, 84>>,
  <<82, 79, 76, 76, 66, 65, 67, 75>>,
  <<83, 67, 72, 69, 77, 65>>,
  <<83, 69, 76, 69, 67, 84>>,
  <<83, 69, 84>>,
  <<83, 72, 79, 87>>,
  <<83, 77, 65, 76, 76, 73, 78, 84>>,
  <<83, 79, 77, 69>>,
  <<83, 84, 68, 73, 78>>,
  <<83, 84, 65, 82, 84>>,
  <<84, 65, 66, 76, 69>>,
  <<84, 69, 88, 84>>,
  <<84, 79>>,
  <<84, 82, 65, 78, 83, 65, 67, 84, 73, 79, 78>>,
  <<84, 82, 85, 69>>,
  <<85, 78, 73, 81, 85, 69>>,
  <<85, 80, 68, 65, 84, 69>>,
  <<85, 83, 69>>,
  <<85, 83, 73, 78, 71>>,
  <<86, 65, 76, 85, 69, 83>>,
  <<86, 65, 82, 66, 73, 78, 65, 82, 89>>,
  <<86, 65, 82, 67, 72, 65, 82>>,
  <<86, 69, 82, 66, 79, 83, 69>>,
  <<87, 72, 69, 82, 69>>,
  <<87, 73, 84, 72>> >>

WordTexts == <<
  "ACTION",
  "ADD",
  "ALL",
  "ALTER",
  "AND",
  "ANY",
  "AS",
  "ASC",
  "BEGIN",
  "BY",
  "BIGINT",
  "BINARY",
  "BLOB",
  "BOOL",
  "BOOLEAN",
  "BYTEA",
  "BYTES",
  "CASCADE",
  "CHAR",
  "CHARACTER",
  "CHECK",
  "COLUMN",
  "COMMIT",
  "CONSTRAINT",
  "COPY",
  "CREATE",
  "CROSS",
  "DATABASE",
  "DEFAULT",
  "DELETE",
  "DELIMITER",
  "DESC",
  "DETACH",
  "DOUBLE",
  "DROP",
  "EXECUTE",
  "EXISTS",
  "EXPLAIN",
  "FALSE",
  "FOREIGN",
  "FROM",
  "FULL",
  "GROUP",
  "HAVING",
  "IF",
  "IN",
  "INDEX",
  "INNER",
  "INSERT",
  "INT",
  "INT2",
  "INT4",
  "INT8",
  "INTEGER",
  "INTO",
  "IS",
  "JOIN",
  "KEY",
  "LEFT",
  "NO",
  "NOT",
  "NULL",
  "ON",
  "OR",
  "ORDER",
  "OUTER",
  "PATH",
  "PRECISION",
  "PREPARE",
  "PRIMARY",
  "REAL",
  "RESTRICT",
  "REFERENCES",
  "RIGHT",
  "ROLLBACK",
  "SCHEMA",
  "SELECT",
  "SET",
  "SHOW",
  "SMALLINT",
  "SOME",
  "STDIN",
  "START",
  "TABLE",
  "TEXT",
  "TO",
  "TRANSACTION",
  "TRUE",
  "UNIQUE",
  "UPDATE",
  "USE",
  "USING",
  "VALUES",
  "VARBINARY",
  "VARCHAR",
  "VERBOSE",
  "WHERE",
  "WITH" >>

WordOf(c) == WordTexts[CHOOSE k \in 1 .. 98 : WordCodes[k] = c]

T_columns == <<99, 111, 108, 117, 109, 110, 115>>
T_config == <<99, 111, 110, 102, 105, 103>>
T_constraints == <<99, 111, 110, 115, 116, 114, 97, 105, 110, 116, 115>>
T_databases == <<100, 97, 116, 97, 98, 97, 115, 101, 115>>
T_schemas == <<115, 99, 104, 101, 109, 97, 115>>
T_tables == <<116, 97, 98, 108, 101, 115>>
T_metadata == <<109, 101, 116, 97, 100, 97, 116, 97>>
T_system == <<115, 121, 115, 116, 101, 109>>
T_info == <<105, 110, 102, 111>>
T_table_name == <<116, 97, 98, 108, 101, 95, 110, 97, 109, 101>>
T_schema_name == <<115, 99, 104, 101, 109, 97, 95, 110, 97, 109, 101>>
T_name == <<110, 97, 109, 101>>
T_value == <<118, 97, 108, 117, 101>>
T_by == <<98, 121>>
T_hidden == <<104, 105, 100, 100, 101, 110>>
T_count == <<99, 111, 117, 110, 116>>
T_count_all == <<99, 111, 117, 110, 116, 95, 97, 108, 108>>
T_is_null == <<105, 115, 95, 110, 117, 108, 108>>
T_btree == <<98, 116, 114, 101, 101>>
T_primary == <<95, 112, 114, 105, 109, 97, 114, 121>>
T_unique == <<95, 117, 110, 105, 113, 117, 101>>
T_true == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>
=============================================================================
