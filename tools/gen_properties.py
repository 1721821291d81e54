#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (one place to edit)."""
import json, os

FM = "mygrations/formats/mysql/"
CD = "mygrations/core/definitions/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


prop("P01", "Applying the plan turns the live structure into the declared structure",
     "For every valid live database and every valid set of declared tables, executing the planned statements in order leaves the database with exactly the declared tables, and in each table exactly the declared columns (type, length, sign, nullability, default, auto-increment, enum values), indexes (kind, name, column order) and foreign keys (columns, target, actions). "
     "A column that is added lands right after the column that precedes it in the declaration (first if none does). "
     "Integer display widths, and a character set or collation given on one side only, do not count as differences.",
     ["inputs"], "all pairs (live schema, declared schema), including the empty one on either side, unrelated pairs and pairs that differ by a few edits",
     "The repository's tests compare the text of a handful of plans for hand-written table pairs; none executes a plan, so whether the plan really produces the target is never checked, let alone for every pair of schemas.",
     [FM + "definitions/table.py", FM + "mygrations/mygration.py", CD + "table.py", CD + "columns/column.py", CD + "columns/numeric.py", CD + "columns/string.py"],
     [("table diff", FM + "definitions/table.py:to"), ("database diff", FM + "mygrations/mygration.py:_process"), ("column comparison", CD + "columns/*.py:is_really_the_same_as"), ("statement rendering", FM + "mygrations/operations/*.py")],
     ["statements handed to the driver", "structure after executing them"])

prop("P02", "Every statement of a plan is accepted by the server at its place in the plan",
     "For every valid live database and every valid set of declared tables, a MySQL 8 server with foreign key checks off accepts each planned statement when the plan is run in order. "
     "No statement names a table, column, key or foreign key that is not there at that moment, adds one that is already there, reuses a foreign key name still in use, drops a column or index that a foreign key still needs, or adds a foreign key before its target column and index exist.",
     ["inputs"], "all pairs (live schema, declared schema), in particular with foreign keys that appear, vanish, move or swap names between tables, mutually and self referencing tables, tables replaced under a new name, and changed primary keys",
     "Ordering faults need several tables that change together (a parent's column dropped while a child's key moves away, a foreign key name moving to a new table); the tests have one or two such plans, and compare text rather than running them.",
     [FM + "mygrations/mygration.py", FM + "definitions/table.py"],
     [("order of operations", FM + "mygrations/mygration.py:_process"), ("split of key operations", FM + "definitions/table.py:to"), ("rendering of key changes", FM + "mygrations/operations/change_key.py")],
     ["each statement's acceptance by the server"])

prop("P03", "A database that already matches gets an empty plan",
     "When the live database already has the declared structure and rows, the plan is empty, whatever way the server prints its table definitions (integer widths or none, quoted defaults, explicit NULL defaults, table options, foreign key indexes named after the constraint). "
     "In particular, planning again right after a plan was applied gives an empty plan.",
     ["inputs", "configurations"], "all valid schemas, over the ways MySQL 5.7 and 8.0 print them, and all pairs of schemas for the plan-after-apply part",
     "The tests pin down about ten individual false positives found in production one at a time; each combination of type, default, key and printing style is a new chance for another, and only generation covers the product.",
     [FM + "definitions/table.py", CD + "columns/numeric.py", CD + "columns/string.py", CD + "columns/column.py", FM + "mygrations/mygration.py", FM + "file_reader/parsers/type.py"],
     [("column equality", CD + "columns/*.py:is_really_the_same_as"), ("key name matching", FM + "definitions/table.py:to"), ("type synonyms", FM + "file_reader/parsers/type.py"), ("type change detection", FM + "mygrations/mygration.py:_column_type_differs")],
     ["planned statements"])

prop("P04", "A plan touches only what differs",
     "Every planned structural operation corresponds to a difference between the live and the declared database: a table present on both sides is never dropped or created, a column, index or foreign key that is the same on both sides is never altered (a foreign key may only be dropped and re-added when a column it connects changes type), and each operation appears once. "
     "Consequently rows of tables that are not tracked keep their values in every column that is on both sides with an unchanged definition.",
     ["inputs"], "all pairs (live schema with data, declared schema)",
     "Tests assert which statements are present in a few plans; they cannot show for every pair that nothing else is ever touched.",
     [FM + "definitions/table.py", FM + "mygrations/mygration.py", FM + "mygrations/row_mygration.py"],
     [("diff by name", CD + "table.py:_differences"), ("false positive suppression", FM + "definitions/table.py:to"), ("foreign key cycling", FM + "mygrations/mygration.py:_find_fk_ops_for_column_type_changes")],
     ["planned statements", "rows after executing them"])

prop("P05", "Column type changes under foreign keys are unlinked first and relinked after",
     "When the type of a column connected by a foreign key changes, every foreign key on that column - in its own table, in any table pointing at it, in tables about to be dropped, under whatever name, and any number of them - is dropped before the first such change and each declared foreign key is added exactly once after the last one. "
     "Afterwards exactly the declared foreign keys exist.",
     ["inputs"], "all graphs of tables linked by foreign keys (chains, cycles, self references, several keys on one column, auto-named and duplicate keys) times all choices of which columns change type",
     "MySQL error 3780 depends on the whole graph of keys; the existing tests enumerate a dozen shapes with one parent and one or two children, and check positions in the text.",
     [FM + "mygrations/mygration.py"],
     [("cycling", FM + "mygrations/mygration.py:_find_fk_ops_for_column_type_changes"), ("deduplication", FM + "mygrations/mygration.py:_strip_cycled_fk_ops"), ("match by columns", FM + "mygrations/mygration.py:_find_matching_constraint")],
     ["order of the planned statements", "server acceptance"])

prop("P06", "Rows of tracked tables are synchronised, all other rows are left alone",
     "After the plan is applied every table for which the files contain rows holds exactly the declared row ids, and each of those rows has the declared value in every column the files give a value for, in one single run - including rows of new tables and values for newly added columns. "
     "Tables without declared rows keep all their rows, and columns the files give no value for keep theirs.",
     ["inputs"], "all live tables with rows and all declared row sets over them (inserted, deleted, changed, unchanged, NULL, partial column lists, several INSERT commands per table)",
     "The row tests use two or three fixed rows with one change each; the combination with structural changes and partial column lists is not tested at all.",
     [FM + "mygrations/row_mygration.py", FM + "definitions/table.py", CD + "table.py", FM + "db_reader/database.py"],
     [("row diff", FM + "definitions/table.py:to_rows"), ("row collection", CD + "table.py:add_rows, add_raw_row"), ("live rows", FM + "db_reader/database.py:read_rows")],
     ["table contents after executing the plan"])

prop("P07", "Row values reach the database unaltered, and are never run as SQL",
     "For any text value and any row id held by a row - with quotes, backslashes, semicolons, comment markers, line breaks, percent signs or non-ASCII text - the generated INSERT, UPDATE and DELETE is one single statement by MySQL's literal syntax, stores exactly that value, and affects exactly the one row it is meant for; a missing value is written as NULL and the text NULL as text.",
     ["inputs"], "all values, ids, column and table names",
     "Escaping is a property of all strings; the tests try one backslash in one column of an UPDATE.",
     [FM + "mygrations/operations/row_insert.py", FM + "mygrations/operations/row_update.py", FM + "mygrations/operations/row_delete.py", "mygrations/core/operations/add_row.py", "mygrations/core/operations/change_row.py", "mygrations/core/operations/remove_row.py"],
     [("literal escaping", FM + "mygrations/operations/row_*.py:__str__"), ("literal escaping", "mygrations/core/operations/*_row.py:__str__")],
     ["text of the statement, read by an independent SQL lexer"])

prop("P08", "Row comparison finds exactly the real differences",
     "A row is updated if and only if some column the files give a value for differs or is not in the database yet, where a value read from the database (number, decimal, date, text, NULL) equals a declared value exactly when their printed text is the same and NULL equals only NULL; a row id is inserted or deleted if and only if it is on one side only, comparing ids by their text.",
     ["inputs"], "all pairs of row sets with database values of every driver type against declared text values",
     "Tests cover an int/str pair, one NULL and three updates; equality across types is a relation over all values.",
     [FM + "definitions/table.py", CD + "table.py"],
     [("loose equality", CD + "table.py:_loose_equal"), ("row diff", FM + "definitions/table.py:to_rows")],
     ["row operations"])

prop("P09", "CREATE TABLE text is read exactly as written",
     "For every table written with the supported column types, keys, foreign keys and options, the definition that is read has exactly the written columns in order with type, length, sign, nullability, default, character set, collation, auto-increment and enum values, and exactly the written indexes, foreign keys and options, and no error is reported. "
     "The result does not depend on keyword case, optional backticks, amount of white space and line breaks, comments between definitions or commands, trailing semicolons, synonyms (INTEGER/INT, BOOLEAN/TINYINT(1), KEY/INDEX), or order of the clauses the grammar allows.",
     ["inputs"], "all tables in the supported grammar times all ways of spelling them",
     "The parser tests feed about sixty fixed lines; the grammar is a product of types, clause orders, names that look like keywords, and layout.",
     [FM + "file_reader/create_parser.py", FM + "file_reader/parsers/", "mygrations/core/parse/", FM + "file_reader/reader.py", FM + "file_reader/comment_parser.py"],
     [("rules", FM + "file_reader/parsers/*.py"), ("longest match", "mygrations/core/parse/rule_children.py"), ("lists", "mygrations/core/parse/rule_delimited.py"), ("command loop", FM + "file_reader/reader.py:parse")],
     ["definitions read from the text"])

prop("P10", "INSERT text is read exactly as written",
     "For every INSERT with a column list, the rows read have exactly the written values in the written columns: quoted text keeps every character, including separators, parentheses, semicolons, comment markers, white space and escaped quotes and backslashes, unquoted NULL is a missing value, and unquoted numbers keep their digits. "
     "Several value groups and several INSERT commands for one table, before or after its CREATE TABLE, in one or several files, add up to the union of their rows, and add no error or warning.",
     ["inputs"], "all row sets, values, spellings and splits into commands",
     "Three insert tests with plain words; literal fidelity quantifies over all strings.",
     [FM + "file_reader/insert_parser.py", FM + "file_reader/parsers/insert_values.py", "mygrations/core/parse/rule_delimited.py", "mygrations/core/parse/parser.py", FM + "file_reader/database.py"],
     [("value lists", "mygrations/core/parse/rule_delimited.py:parse"), ("unescaping", FM + "file_reader/parsers/insert_values.py"), ("row collection", FM + "file_reader/database.py:_combine_tables_and_rows")],
     ["rows by table and id"])

prop("P11", "A printed table definition reads back as the same table",
     "For every valid table, both the compact and the formatted CREATE TABLE text it prints is accepted by MySQL as that very table and, when read again, gives an equal definition with no difference in either direction, and printing that again gives the same text.",
     ["inputs"], "all valid tables",
     "One test prints one table; a round trip is a statement over all tables.",
     [FM + "mygrations/operations/create_table.py", CD + "table.py", CD + "columns/", CD + "index.py", CD + "constraint.py", "mygrations/core/operations/create_table.py"],
     [("printing", FM + "mygrations/operations/create_table.py:__str__"), ("column text", CD + "columns/column.py:__str__"), ("key text", CD + "index.py:__str__"), ("foreign key text", CD + "constraint.py:__str__")],
     ["CREATE TABLE text"])

prop("P12", "How the SQL is split over strings, files and directories does not matter",
     "The same CREATE TABLE and INSERT commands give the same tables, rows and errors whether passed as one string, a list of strings, file paths, a directory (all its .sql files and nothing else), or any mix, in any order of files and commands; a reader finds the same in an open file.",
     ["inputs", "configurations"], "all command sets times all partitions and orders",
     "Tests use one fixed arrangement each.",
     [FM + "file_reader/database.py", FM + "file_reader/reader.py"],
     [("dispatch", FM + "file_reader/database.py:process"), ("directory scan", FM + "file_reader/database.py:_process_directory"), ("merge", FM + "file_reader/database.py:_combine_tables_and_rows")],
     ["tables, rows and errors of the loaded database"])

prop("P13", "Input that cannot be understood is reported, never dropped or crashed on",
     "Reading any text ends with a result: either everything in it is represented, or at least one error is reported, so that a command, table, column, index, foreign key or row never disappears silently. "
     "This includes unknown commands and column types, broken or truncated commands, unclosed comments and quotes, duplicate tables, columns, indexes, foreign keys and row ids, rows for unknown tables or columns, and rows with the wrong number of values.",
     ["inputs"], "all texts: valid SQL with injected faults at any place, and arbitrary text",
     "Five error tests with one fault each; a silently lost table makes the next plan drop it from the live database, so this has to hold for every fault at every place.",
     [FM + "file_reader/reader.py", FM + "file_reader/database.py", FM + "file_reader/create_parser.py", FM + "file_reader/insert_parser.py", CD + "database.py", CD + "table.py"],
     [("error collection", CD + "database.py:errors"), ("command loop", FM + "file_reader/reader.py:parse"), ("duplicate detection", FM + "file_reader/create_parser.py:process"), ("row checks", CD + "table.py:add_rows")],
     ["errors of the loaded database"])

prop("P14", "Foreign keys are reported as invalid exactly when MySQL would refuse them",
     "For every set of tables, a foreign key is reported (naming it) if and only if its own column, its target table or its target column is missing, either column lacks an index that starts with it, the two columns differ in type, length, sign, character set or collation, it sets NULL on a column that does not allow NULL, its name is used by another table too, or is longer than 64 characters.",
     ["inputs"], "all table sets with any number of foreign keys, each valid or with any combination of faults",
     "Each error message has one or two fixed examples; both directions (no missed fault, no false report) quantify over all schemas.",
     [CD + "database.py", CD + "table.py"],
     [("constraint check", CD + "database.py:find_constraint_errors"), ("name clash", CD + "database.py:find_all_database_schema_errors"), ("index check", CD + "table.py:column_is_indexed"), ("per table query", CD + "database.py:unfulfilled_fks")],
     ["errors of the loaded database", "unfulfilled foreign keys of a table"])

prop("P15", "Invalid tables, columns and keys are reported, valid ones are not",
     "For every set of tables, each broken column, key or table rule is reported together with the table it is in - a default that is no number on a numeric column or has a fraction on an integer column, any default on a TEXT, BLOB or JSON column, a length on a type that takes none or with decimals on one that takes no decimals, a character set or collation on a column that is no character type, UNSIGNED on a column that is not numeric, AUTO_INCREMENT on a column that is no integer, values on a column that is no ENUM or SET, an ENUM or SET without values or with a default that is not among them, several auto-increment columns, auto-increment without or not first in the primary key, several primary keys, an index on a missing column, an over-long key name, a table without columns - and a set of tables that breaks none of them has no error. "
     "A column without default that allows no NULL only gives a warning.",
     ["inputs"], "all schemas with any set of faults over all column types",
     "The unit tests construct single columns one fault at a time; that a fault is still reported next to any other column type, and that no valid schema is flagged, is not tested.",
     [CD + "columns/numeric.py", CD + "columns/string.py", CD + "columns/date.py", CD + "columns/enum.py", CD + "columns/column.py", CD + "index.py", CD + "table.py"],
     [("column rules", CD + "columns/*.py:_check_for_schema_errors_and_warnings"), ("table rules", CD + "table.py:_find_all_errors"), ("collection", CD + "database.py:errors")],
     ["errors and warnings of the loaded database", "result of the check command"])

prop("P16", "Schema errors stop everything: no plan, nothing sent to the database",
     "When the files contain any error, check reports every error and fails, plan produces no statements, apply sends no statement and changes nothing, unless forced; the same goes for plan and apply when the definition of a live table cannot be read. "
     "When they contain none - warnings allowed - check succeeds and plan and apply go ahead.",
     ["inputs", "configurations"], "all file sets with and without errors and warnings, all commands",
     "No test runs any command.",
     ["mygrations/core/commands/check.py", "mygrations/core/commands/plan.py", "mygrations/core/commands/apply.py", FM + "mygrations/mygration.py", "mygrations/mygrate.py"],
     [("gate", "mygrations/core/commands/plan.py:build_commands"), ("exit status", "mygrations/mygrate.py:execute"), ("no operations on error", FM + "mygrations/mygration.py:__init__")],
     ["command results and output", "statements received by the connection"])

prop("P17", "plan only reads; apply executes exactly that plan, once, in order, and commits",
     "Planning sends nothing but reads to the database, and apply executes exactly the statements plan shows for the same state, each once and in order, followed by a commit. "
     "A non-empty plan starts by switching foreign key checks off and ends by switching them on again, an empty plan executes nothing; statement text reaches the server unchanged whatever characters it contains.",
     ["inputs", "histories"], "all pairs of live database and files, through the programmatic command interface with connection or driver",
     "No test runs plan or apply, or looks at what the driver sends.",
     ["mygrations/core/commands/plan.py", "mygrations/core/commands/apply.py", "mygrations/drivers/pymysql/pymysql.py"],
     [("wrapping", "mygrations/core/commands/plan.py:build_commands"), ("execution", "mygrations/drivers/pymysql/pymysql.py:execute")],
     ["statements received by the connection"])

prop("P18", "Any history of schemas, with interrupted runs, still reaches the current schema",
     "Because no migration history is kept, applying any sequence of declared schemas one after the other, forward or back, ends with the structure and tracked rows of the last one; and when a run fails or the connection is lost at any statement, the failure is raised, nothing after it is executed or committed, and a later run from whatever state was left converges to the same result as an uninterrupted one.",
     ["histories", "crash_points", "fault_sequences"], "all sequences of schemas and all points of interruption in each of them",
     "No test applies two plans in a row or makes a statement fail.",
     [FM + "mygrations/mygration.py", "mygrations/core/commands/apply.py", "mygrations/drivers/pymysql/pymysql.py", FM + "db_reader/database.py"],
     [("stateless diff", FM + "mygrations/mygration.py:_process"), ("live reading", FM + "db_reader/database.py:_load_tables"), ("execution", "mygrations/drivers/pymysql/pymysql.py:execute")],
     ["live structure after each run"])

prop("P19", "In-memory definitions follow the operations applied to them",
     "Applying the operations computed between two table definitions to the first one in memory makes it equal to the second, and every sequence of adding, changing and removing columns, indexes, foreign keys and tables gives the state a plain ordered model gives, including column positions, index lookup and the primary key. "
     "An operation that does not fit (duplicate, unknown name, unknown position) is refused and changes nothing, and the errors reported for the database always describe its current state.",
     ["histories"], "all sequences of operations, through the definition objects and through operation objects",
     "The tests apply single operations to one table; stale lookups and caches only show after particular sequences.",
     [CD + "table.py", CD + "database.py", FM + "definitions/table.py", FM + "mygrations/operations/", "mygrations/core/operations/"],
     [("mutators", CD + "table.py:add_column, add_index, ..."), ("operation objects", FM + "mygrations/operations/*.py:apply_to_table"), ("cache resets", CD + "database.py:add_table, apply_operation")],
     ["definitions after each operation", "errors after each operation"],
     [("indexed columns", "cached set of columns that start an index", CD + "table.py:_indexed_columns"), ("errors", "cached error lists", CD + "database.py:_schema_errors")])

prop("P20", "Configuration and credentials are found where documented",
     "A relative configuration name is looked up in the current directory and then in each parent, nearest first, and an absolute one only at its own place; the schema directory and environment file named there are taken relative to the configuration file unless absolute, and the database host, name, user and password are the environment entries under the configured keys. "
     "A missing configuration or environment file, setting or environment entry is an error and no connection is attempted; a missing schema directory is reported.",
     ["configurations", "inputs"], "all directory depths, placements of configuration files, relative and absolute paths, key names and values, and all omissions",
     "No test touches configuration loading or the command line.",
     ["mygrations/core/commands/base.py", "mygrations/helpers/db_credentials.py", "mygrations/drivers/pymysql/pymysql.py"],
     [("search", "mygrations/core/commands/base.py:_resolve_and_check_config_file_path"), ("relative paths", "mygrations/core/commands/base.py:_relative_to_config_abs_path"), ("key mapping", "mygrations/helpers/db_credentials.py")],
     ["arguments of the connection call", "files read"])

prop("P21", "Environment files give exactly the written keys and values",
     "For every environment or configuration file, as text, file name or open file, every key has the value written for it: surrounding space and quotes removed, escaped quotes restored, comments and blank lines ignored, a comment marker inside quotes kept, '=' or ':' after the key, an optional semicolon after a quoted value, the last of repeated keys winning; a JSON object gives its own entries. "
     "A line that is neither is refused with a syntax error.",
     ["inputs"], "all files over the accepted line forms, and malformed lines",
     "The tests have about twenty fixed lines; quoting, escaping and comments interact for all values.",
     ["mygrations/helpers/dotenv.py"],
     [("line parsing", "mygrations/helpers/dotenv.py:parse_line"), ("input forms", "mygrations/helpers/dotenv.py:get_contents")],
     ["resulting mapping"])

prop("P22", "Exporting gives SQL that brings the files in line with the database",
     "For every valid live database and file set, the export writes nothing to the database and lists exactly the tables of the database whose structure or tracked rows differ from the files (a table linked by a foreign key to a column that changes type may be listed too), each with all rows of the database if the files track it. Replacing those tables in the files by the exported CREATE TABLE and INSERT commands, and removing the tables the database has not, leaves an empty plan.",
     ["inputs"], "all pairs (live database, declared schema)",
     "The export command cannot even be imported at the pinned commit, so nothing tests it.",
     ["mygrations/core/commands/plan_export.py", FM + "mygrations/operations/create_table.py", FM + "mygrations/operations/row_insert.py"],
     [("export", "mygrations/core/commands/plan_export.py")],
     ["exported text", "plan after importing it"])

prop("P23", "A plan depends on nothing but the database and the files",
     "For the same live database and the same files the same statements are planned in the same order, whenever and however they are asked for: again in the same process, after any other plan was made or applied, in a process with another hash seed, by the plan or the apply command, or from the migration objects, whose operations, iteration, length, truth value and text agree with each other. "
     "Making a plan changes neither of the two definitions it is made from, and without a live database it is the plan for an empty one.",
     ["inputs", "histories", "configurations"], "all pairs (live database, declared schema), over everything that was planned before and all hash seeds",
     "The tests make every plan once in a fresh state; shared state between runs, changed inputs and orders taken from sets only show in repetition.",
     [FM + "mygrations/mygration.py", FM + "mygrations/row_mygration.py", "mygrations/core/commands/plan.py", FM + "definitions/table.py", CD + "table.py"],
     [("structure migration", FM + "mygrations/mygration.py:_process"), ("row migration", FM + "mygrations/row_mygration.py"), ("combination", "mygrations/core/commands/plan.py:build_commands")],
     ["statements planned", "definitions before and after planning"])

prop("P24", "The command line does what the program interface does",
     "For every command, option and order of arguments, mygrate.py prints what the command returns when it is called from Python with the same database and files, sends exactly the same statements, and ends with status 0 if and only if the command succeeds. No command, version or -v shows the version; that and check open no connection. -f goes ahead in spite of errors. Unknown commands and options are refused with status 2 (unknown commands with a ValueError from Python) and nothing is read or sent. "
     "What plan prints is itself a script: an SQL client that runs it executes exactly the planned statements.",
     ["inputs", "configurations"], "all argument lists over the documented commands and options, with all databases and files",
     "Nothing in the repository's tests runs the command line program.",
     ["mygrate.py", "mygrations/mygrate.py", "mygrations/core/commands/__init__.py", "mygrations/core/commands/plan.py", "mygrations/core/commands/apply.py", "mygrations/core/commands/check.py", "mygrations/core/commands/version.py", "mygrations/core/commands/plan_export.py"],
     [("arguments", "mygrate.py"), ("command object and exit status", "mygrations/mygrate.py:execute"), ("dispatch", "mygrations/core/commands/__init__.py:execute")],
     ["standard output", "exit status", "statements at the connection"])

prop("P25", "Definitions built in a program are the same as those read from SQL",
     "Tables, columns, indexes, foreign keys, options and rows which a program builds from the public classes, all at once or one by one, with lengths and defaults as numbers or as text, are the same as those read from the SQL that says the same: there is no difference between the two, they have the same errors and warnings and the same rows, they print as SQL that creates the same tables, and their plan leads to the same structure and rows. "
     "What the program leaves out or gets wrong (names, types, columns of an index, rules of a foreign key, names longer than 64 characters) is reported, never raised or passed on; what just fits is accepted.",
     ["inputs"], "all schemas and rows a program can build, every way to build them",
     "The tests build a handful of columns and tables, one property of each at a time.",
     ["mygrations/core/definitions", "mygrations/formats/mysql/definitions", "mygrations/formats/mysql/mygrations/mygration.py", "mygrations/formats/mysql/mygrations/row_mygration.py"],
     [("columns", "mygrations/core/definitions/columns/column.py:__init__"), ("tables", "mygrations/core/definitions/table.py:__init__"), ("foreign keys", "mygrations/core/definitions/constraint.py:__init__"), ("indexes", "mygrations/core/definitions/index.py:__init__"), ("errors", "mygrations/core/definitions/database.py:errors")],
     ["definitions, errors and warnings", "printed SQL", "planned statements"])

prop("P26", "Operations do on a server what they do to definitions",
     "For every sequence of operations (create, alter and drop tables; add, change and remove columns, indexes, primary keys and foreign keys, alone or several in one ALTER TABLE; switch foreign key checks), in both sets of operation classes, the printed SQL is what the operation means: MySQL accepts or refuses it as it does an independently written statement for the same change, with the same result, and the definitions to which the same operations are applied have the same columns in the same order, indexes and foreign keys as the tables on the server.",
     ["inputs", "histories"], "all schemas and sequences of operations",
     "The tests compare the printed text of single operations with fixed strings; none is run on a server or compared with the change in memory.",
     ["mygrations/core/operations", "mygrations/formats/mysql/mygrations/operations", "mygrations/core/definitions/table.py", "mygrations/core/definitions/database.py", "mygrations/formats/mysql/definitions"],
     [("printed operations", "mygrations/core/operations/alter_table.py:__str__"), ("MySQL operations", "mygrations/formats/mysql/mygrations/operations/alter_table.py:__str__"), ("in memory", "mygrations/core/definitions/table.py:apply_operation"), ("in a database", "mygrations/core/definitions/database.py:apply_operation")],
     ["printed SQL", "definitions", "tables on the server"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fp:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fp.write(json.dumps(p) + "\n")
    print(len(P))
