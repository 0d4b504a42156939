#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, quick, thorough, rule, technique, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  quick=quick, thorough=thorough, rule=rule, technique=technique, note=note, **kw))


ANTLR = "sql/parser/sqlite/parser_antlr_visitor.go"
PARSE = ["sql/parser_impl.go", "sql/parser/sqlite/parser_antlr.go", "sql/parser/sqlite/parser_antlr_error_listener.go", "sql/parser/sqlite/antlr/SQLiteParser.g4"]

prop("C01", "Parsing any text ends with statements or an error",
     "For every input text, parsing terminates and returns either a list of statements or an error: it never panics and never hangs. Every statement returned can be printed and inspected through all its accessors without a panic.",
     ["inputs"], "All texts: random bytes, random Unicode, token soup over the SQL vocabulary, mutated, truncated and spliced valid statements, deep nesting, very long texts.",
     "The tests parse a fixed list of well-formed scripts; a server feeds the parser whatever its clients send.",
     PARSE + ["sql/query"], [("error listeners and recovery of the parser", "sql/parser/sqlite"), ("accessors tolerate missing parts", "sql/query")],
     3000, 60000, "the text is not empty and holds at least one SQL keyword, or is a mutation of a valid statement",
     "grammar- and mutation-based fuzzing with a crash and hang oracle, accessor walk over every returned statement", "Random search; termination is a bound of 180 s per text.")

prop("C02", "Malformed SQL is reported as an error",
     "A text that is not well-formed SQL is answered with an error and no statements: a required part missing, an extra token, a clause keyword in place of an operand or name, an unclosed quote or parenthesis, statements that no semicolon separates, an empty text. In a script, one malformed statement makes the whole script fail; nothing before or after the broken place is silently accepted.",
     ["inputs"], "All texts derived from a valid statement by a mutation that is known to leave the supported language (dropping a required token, doubling a punctuator, unbalancing quotes or parentheses, inserting junk), alone or inside a script.",
     "The tests hold a handful of invalid texts; the guarantee is about every broken text, since a silently accepted prefix executes a statement the user did not write.",
     PARSE, [("syntax errors are collected and returned", "sql/parser/sqlite")],
     5000, 60000, "the text is a mutation of a valid statement and still holds at least three tokens of it",
     "mutation of generated valid statements into texts that are invalid by construction; oracle: an error and no statements", "Mutations are restricted to ones that are invalid under any reading of the grammar.")

prop("C03", "CREATE TABLE is read faithfully",
     "Parsing CREATE TABLE yields one statement with exactly the table name, the columns in order with their names, data types and sizes (a column written without a type is kept, with an unknown type), the primary key and indexes with their columns, and the IF NOT EXISTS flag that were written. This holds for plain and quoted names, any number of columns and indexes, and any letter case of the keywords.",
     ["inputs"], "All generated CREATE TABLE statements over the supported column types, key forms and names.",
     "The tests sample a few tables; the combinations of column lists, key forms, quoting and sizes are unbounded.",
     [ANTLR, "sql/query/create_table.go", "sql/query/schema.go", "sql/query/column_def.go"], [("translation of the parse tree", ANTLR)],
     7000, 140000, "at least two columns or an index beside the columns",
     "model-first generation: a random table model is printed as SQL and the parsed statement must equal the model", "Types with two arguments, unknown types and column constraints other than PRIMARY KEY are outside the model.")

prop("C04", "INSERT keeps every column, row and value in order",
     "Parsing INSERT yields the table and, for every row written, the columns in the written order each with exactly its value and whether it is a string; no row, column or value is lost, duplicated or swapped. Each value is its own: giving one inserted column another value changes no other. A row whose number of values differs from the number of named columns is refused with an error.",
     ["inputs"], "All generated INSERT statements: any number of columns and rows, with and without column lists, all literal kinds, and rows with a value too many or too few.",
     "The tests insert a few fixed rows; position mistakes depend on the number of columns, rows and the kinds of values.",
     [ANTLR, "sql/query/insert.go", "sql/query/literal.go"], [("pairing of columns and values", ANTLR)],
     1500, 20000, "two columns or two rows at least, or a mismatched row",
     "model-first generation with mismatch injection; oracle: equality with the model, or an error for the mismatched row", "")

prop("C05", "Conditions are never lost or changed",
     "Parsing a statement with a WHERE clause yields a condition that is the one written: the same comparison, the same column, the same literal, the same AND or OR over the same operands in the same order. A statement with a WHERE clause never yields a statement without a condition, and one without never yields a condition; a clause that cannot be represented is refused with an error.",
     ["inputs"], "All generated DELETE, UPDATE and SELECT statements with every supported comparison, AND and OR, over all literal kinds, and with unsupported conditions.",
     "A lost condition deletes a whole table, and only the shapes of conditions that the tests list are known to survive.",
     [ANTLR, "sql/query/where.go", "sql/query/expr_cmp.go", "sql/query/expr_and.go", "sql/query/expr_or.go", "sql/query/expr_raw.go", "sql/query/delete.go"], [("translation of expressions", ANTLR)],
     8000, 160000, "the statement has a condition",
     "model-first generation of conditions; oracle: equality of the condition tree with the model, or an error", "The grammar accepts at most one AND or OR per condition.")

prop("C06", "UPDATE keeps every assignment and its condition",
     "Parsing UPDATE yields the table, every assigned column in the written order with exactly its new value or its arithmetic expression (operator and operands in order), and the written condition. An assignment that cannot be represented is refused with an error rather than dropped.",
     ["inputs"], "All generated UPDATE statements over literal and arithmetic assignments, with and without conditions.",
     "The tests hold a few updates; a dropped or swapped assignment depends on the mix of assignments.",
     [ANTLR, "sql/query/update.go", "sql/query/column.go"], [("translation of assignments", ANTLR)],
     2000, 25000, "two assignments at least, or an arithmetic assignment",
     "model-first generation; oracle: equality with the model", "")

prop("C07", "SELECT keeps selectors, tables and every clause",
     "Parsing SELECT yields whether it is DISTINCT, the selected columns, function calls and expressions in order with their arguments, the tables with their schemas (an alias is no part of a name), the condition, the grouping column, the ordering keys in order with their directions (ascending by default), and the limit and offset, exactly as written. A clause that was not written is absent from the result.",
     ["inputs"], "All generated SELECT statements over columns, asterisk, functions of the library, several tables, WHERE, GROUP BY, ORDER BY, LIMIT and OFFSET in both spellings.",
     "The tests sample a few combinations of clauses out of an unbounded space.",
     [ANTLR, "sql/query/select.go", "sql/query/selectors.go", "sql/query/order.go", "sql/query/limit.go", "sql/query/group.go"], [("translation of the SELECT clauses", ANTLR)],
     6000, 80000, "at least two of: several selectors, a function, a condition, grouping, ordering, a limit",
     "model-first generation; oracle: equality with the model", "What SELECT cannot represent is refused: C33.")

prop("C08", "ALTER TABLE, index, DROP TABLE and TRUNCATE read faithfully",
     "Parsing ALTER TABLE (add, drop and rename of columns, add of indexes, rename of the table), CREATE INDEX, DROP INDEX, DROP TABLE and TRUNCATE yields exactly the written object names, column definitions, order of names and IF EXISTS or IF NOT EXISTS flags. No part of one operation appears as another operation.",
     ["inputs"], "All generated statements of these kinds, with plain, quoted and qualified names.",
     "A DDL statement read with a wrong name or kind destroys the wrong object; the tests hold a few of each.",
     [ANTLR, "sql/query/alter_table.go", "sql/query/create_index.go", "sql/query/drop_index.go", "sql/query/drop_table.go", "sql/query/truncate.go"], [("translation of DDL statements", ANTLR)],
     10000, 150000, "the statement has a flag, a quoted or qualified name, a column definition, or several names",
     "model-first generation; oracle: equality with the model", "")

prop("C09", "Database, transaction and utility statements read faithfully",
     "Parsing CREATE, ALTER and DROP DATABASE, BEGIN, COMMIT, ROLLBACK, USE, VACUUM and COPY yields the statement of that kind with exactly the written names, flags, column lists, source and format.",
     ["inputs"], "All generated statements of these kinds in all their spellings.",
     "The tests hold a few of each; names and options are unbounded.",
     [ANTLR, "sql/query/create_database.go", "sql/query/alter_database.go", "sql/query/drop_database.go", "sql/query/copy.go", "sql/query/vacuum.go", "sql/query/use.go", "sql/query/begin.go"], [("translation of utility statements", ANTLR)],
     40000, 800000, "the statement has a name, a flag or an option",
     "model-first generation; oracle: equality with the model", "")

prop("C10", "Literals and quoted names keep their exact value",
     "A string literal stands for exactly the characters between its quotes with doubled quotes undone, whatever they are; a number literal keeps its digits, sign and exponent; a quoted name is the text between its quotes (less quotes and parentheses at its ends). Printing a literal and parsing it again yields the same value and the same kind.",
     ["inputs"], "All string contents (quotes, comment marks, semicolons, placeholders, control characters, Unicode), all number spellings, all quoted names, in every position where a literal or name may stand.",
     "The values are unbounded and the tests use simple words and numbers; escaping mistakes show only for special characters and are an injection risk.",
     ["sql/query/literal.go", "sql/util/strings/strings.go", ANTLR], [("quoting and unquoting", "sql/util/strings/strings.go")],
     3000, 60000, "the value holds a character that is special in SQL text, is not ASCII, is signed or has an exponent",
     "generated values embedded in statements; round-trip oracle on value, kind and printed form", "Names containing their own quote character are excluded.")

prop("C11", "Printing a parsed statement loses nothing",
     "For every supported statement whose names need no quotes, the text a parsed statement prints is valid SQL that parses to a statement with the same content, and printing that one gives the same text again.",
     ["inputs"], "All generated statements of all kinds with names that need no quotes.",
     "The tests compare the printed text of fixed scripts; the round trip must hold for every combination of clauses.",
     ["sql/query"], [("String methods of the statements", "sql/query")],
     4000, 80000, "the statement has at least one clause or list beyond its name",
     "round-trip: parse, print, parse; oracle: equality of the extracted models and of the second print", "Names that need quotes are printed without them (known limitation) and excluded.")

prop("C12", "Statements built in code print the SQL that says the same",
     "For every statement assembled through the constructors from names that need no quotes, the text it prints parses to a statement with exactly the assembled content: names, columns, types, values, conditions, ordering, limits and flags. In particular string values are quoted so that no value can change the statement. A condition assembled from nested AND and OR, which the parser does not read, prints a text that means the same by the precedence of SQL. An ALTER TABLE made from a CREATE INDEX or DROP INDEX names the same table and index and does nothing else.",
     ["inputs", "programs"], "All generated statement models of all kinds, assembled through the public constructors and options.",
     "The tests build a few statements by hand; servers build statements from client data.",
     ["sql/query"], [("constructors, options and String methods", "sql/query")],
     6000, 120000, "the statement has at least one clause or list beyond its name",
     "model-first construction through the API, print and parse; oracle: equality with the model", "An ALTER TABLE built to drop an index prints no clause and is excluded.")

prop("C13", "Layout, comments and keyword case do not matter",
     "Changing the white space and line breaks between tokens, inserting comments between tokens, changing the letter case of keywords, or ending the text with a semicolon does not change what a statement parses to.",
     ["inputs"], "All generated statements, each rendered canonically and with random layout, comments and case.",
     "The tests use one layout per statement.",
     PARSE, [("lexer rules for spaces and comments, case-insensitive input", "sql/parser/sqlite")],
     2500, 50000, "the layout differs from the canonical one by a comment, a line break or the letter case",
     "metamorphic relation between two renderings of one generated statement", "")

prop("C14", "A script is the sequence of its statements",
     "Parsing statements joined by semicolons yields exactly the statements that parsing each alone yields, in order, none lost, merged or split, including semicolons and comment marks inside string literals.",
     ["inputs"], "All generated scripts of up to a dozen statements of all kinds, with empty statements, comments and layout between them.",
     "The tests use a few fixed scripts.",
     PARSE, [("statement list of the grammar", "sql/parser/sqlite")],
     700, 12000, "two statements at least",
     "metamorphic: the parse of the script equals the concatenated parses of its parts", "")

prop("C15", "Parsers carry no state between uses and do not share any",
     "What a parser answers for a text depends only on that text: not on texts parsed before, valid or broken, nor on other parsers working at the same time in other goroutines. Statements returned earlier are not changed by later parsing, and there is no data race.",
     ["histories", "schedules"], "All histories of valid and broken texts on one parser, and all schedules of several parsers and readers in parallel.",
     "The tests parse each text once on a new parser in one goroutine.",
     PARSE, [("per-call lexer, parser and error listener", "sql/parser/sqlite/parser_antlr.go")],
     250, 5000, "the history holds both an accepted and a refused text, or several goroutines run",
     "stateful generation of parsing histories against a fresh parser as reference; concurrent runs under the race detector", "Schedules are those the Go scheduler produces.", race=True)

prop("C16", "Bound parameters end up as literals in the right places",
     "Binding values to a statement with placeholders yields the statement with each placeholder replaced by a literal of its value: positional placeholders in order, numbered ones by number and as often as they occur, and nothing replaced inside string literals, quoted names or comments. A value can never end its literal or change the statement, whatever it contains and whatever type of the caller's own it has (named types, pointers, values that print themselves); a nil pointer is NULL. A value that has no literal, and a value without a placeholder, are reported as errors.",
     ["inputs"], "All generated statements with placeholders in any position and style, bound to all kinds of values.",
     "The tests bind a few simple values; correctness for hostile values is an injection guarantee.",
     ["sql/stmt/bind_impl.go", "sql/stmt/bind_param_impl.go"], [("scan for placeholders outside quoted text", "sql/stmt/bind_impl.go")],
     1800, 36000, "two parameters at least, or a value with a character that is special in SQL text",
     "model-first: placeholders are cut into a generated statement; oracle: the bound statement equals the statement with the literals", "")

prop("C17", "A schema evolves exactly as its operations say",
     "After any history of adding, dropping and looking up columns and indexes and of applying parsed ALTER TABLE statements, a schema holds exactly the columns and indexes the history implies, in order. A refused operation (unknown column or index) changes nothing and reports an error, and schemas or copies made from the same lists do not affect each other.",
     ["histories"], "All histories of schema operations and ALTER TABLE statements over several schemas.",
     "The tests apply single operations to one schema.",
     ["sql/query/schema.go", "sql/query/columns.go", "sql/query/indexes.go"], [("column and index lists of the schema", "sql/query/schema.go")],
     8000, 150000, "the history holds at least one successful addition, one removal and one refused operation",
     "stateful model-based testing against a list model", "Renames through a schema are not implemented and are not generated; duplicate additions are unspecified.")

prop("C18", "Values are converted to the column type or refused",
     "Giving a column its type from a schema, or setting a value on a typed column, converts the value to that type without changing what it denotes, or reports an error; out-of-range and non-numeric values are never silently wrapped or zeroed and NULL stays NULL. A copy of a column or column list is independent of the original, and an unknown column is refused.",
     ["inputs"], "All values of all kinds against all column types, all column lists against all schemas.",
     "The tests convert a few in-range values.",
     ["sql/query/column.go", "sql/query/columns.go", "sql/query/insert.go", "sql/query/literal.go"], [("conversion by column type", "sql/query/column.go")],
     4000, 60000, "the value is at or beyond a border of the type, of another kind than the type, or NULL",
     "generated values and types; oracle: an independent conversion table with exact arithmetic", "Conversions that the conversion library leaves open (fractions to integers) accept either truncation or an error.")

prop("C19", "Functions and operators compute their mathematical result",
     "Each mathematical, arithmetic, string and time function of the library returns the value its name means for every argument of a supported kind, number or numeric text, and an error for a wrong number of arguments or a non-numeric argument; it never panics.",
     ["inputs"], "All functions and operators over integers, floats, numeric texts, special values, column references and wrong arguments.",
     "The tests evaluate each function at a few points.",
     ["sql/fn/math_func.go", "sql/fn/arith_func.go", "sql/fn/string_func.go", "sql/fn/time_func.go", "sql/fn/executor_impl.go"], [("one executor per function", "sql/fn")],
     100000, 2000000, "the argument is negative, fractional, very large or very small, textual, or wrong",
     "generated arguments against an independent reference (Go's math and strings packages) and algebraic relations", "Division by zero follows IEEE 754 and is accepted as such.")

prop("C20", "Function names resolve consistently",
     "Every function name of the library is recognised in any letter case, by all lookups alike, with the same class (mathematical, arithmetic, string, time, aggregate) and result type; every other name, however similar, is refused by all of them.",
     ["inputs"], "All names: the library's in any case, near misses, prefixes, suffixes, and random names.",
     "The tests look up the known names in one spelling.",
     ["sql/fn/names.go", "sql/fn/type.go", "sql/fn/func_impl.go", "sql/query/data_type.go"], [("name tables", "sql/fn/names.go")],
     60000, 800000, "the name is in another letter case, has arguments, or is a near miss of a known name",
     "generated names; agreement oracle between all lookups and an independent table", "")

prop("C21", "Aggregates are the aggregates of the rows",
     "After any sequence of rows, COUNT, SUM, AVG, MIN and MAX, grouped by columns or not, report per group exactly the aggregate of that group's values: NULLs are left out, there is one result row per group in the order the groups appeared or sorted by key when asked, and nothing is left from before a reset. A row with a value that cannot be aggregated, or without its grouping value, is refused with an error and changes nothing; a result does not change after it was made.",
     ["inputs", "histories"], "All sequences of rows (as maps, lists and structures), resets and results, over all aggregates, groupings and value kinds.",
     "The tests aggregate a few fixed tables.",
     ["sql/fn/aggr_impl.go", "sql/fn/count.go", "sql/fn/sum.go", "sql/fn/avg.go", "sql/fn/min.go", "sql/fn/max.go", "sql/fn/groupby.go"], [("per-group accumulators", "sql/fn/aggr_impl.go")],
     60000, 1200000, "two rows at least and, when grouped, two groups",
     "stateful model-based testing against exact aggregation of the remembered rows", "Values are chosen so that sums are exact in double precision.")

prop("C22", "Several aggregates over one pass stay aligned",
     "A set of aggregates fed the same rows yields one result table in which every row holds one group's key and the value of every aggregate for that same group, and whose columns are named after the calls. It equals running each aggregate alone. Values of different groups are never mixed in one row, also after a row that some of the aggregates refused. Reading the table by row and by column name gives the same values.",
     ["inputs", "histories"], "All sets of aggregates and groupings over all sequences of rows.",
     "The tests use one or two aggregates over fixed rows.",
     ["sql/fn/aggr_set.go", "sql/fn/resultset_impl.go"], [("joining of the results by group key", "sql/fn/aggr_set.go")],
     20000, 400000, "two aggregates and two groups at least",
     "differential: the set against its members run alone and against a reference aggregation", "After a refused row the aggregates that accepted it may count it.")

prop("C23", "A query with aggregates answers from the whole result set",
     "Aggregating a result set by a parsed SELECT yields one row per group with every selected aggregate and grouping column in the selected order, computed from all rows of the source. A SELECT without aggregates is refused or passed through unchanged, and what cannot be aggregated (a missing column, a value that is no number, another function among the aggregates, a missing part of the question) is an error.",
     ["inputs"], "All generated result sets and SELECT statements with aggregates and grouping.",
     "The tests aggregate a few fixed result sets.",
     ["sql/query/response/resultset/resultset_aggr.go", "sql/query/select_helper.go"], [("aggregation of a result set", "sql/query/response/resultset/resultset_aggr.go")],
     8000, 120000, "two rows, two groups and two selectors at least",
     "generated tables and queries against a reference aggregation", "")

prop("C24", "A result set shows exactly the rows of its window",
     "Iterating a result set yields its rows once each in order and then ends; with a limit and offset it yields exactly that window, clipped at the borders, for every size of limit and offset. Reading outside the window is an error, and reading a row does not move the cursor.",
     ["inputs", "histories"], "All numbers of rows, limits, offsets and sequences of cursor calls.",
     "The tests iterate a few small result sets.",
     ["sql/query/response/resultset/resultset_impl.go", "sql/query/response/resultset/resultset_helper.go"], [("cursor and window", "sql/query/response/resultset/resultset_impl.go")],
     100000, 2000000, "there are rows and a limit or an offset",
     "stateful model-based testing of the cursor against a slice", "")

prop("C25", "Rows give back their values under the right column",
     "A row built from an object, a list of values or a projection by selectors gives back by position, by name, as a whole and by scanning exactly the value of that column; function selectors hold their computed value, an unknown selector or column is an error, and scanning into a variable converts or reports an error.",
     ["inputs"], "All generated schemas, rows, selectors and scan targets.",
     "The tests read a few fixed rows.",
     ["sql/query/response/resultset/row_impl.go", "sql/query/response/resultset/row_helper.go", "sql/query/response/resultset/schema_helper.go", "sql/query/response/resultset/map_row.go"], [("row access by schema", "sql/query/response/resultset/row_impl.go")],
     16000, 320000, "two columns at least",
     "generated rows and projections against a map model", "")

prop("C26", "The description of a database's columns is exact",
     "The query for the columns of given tables asks for exactly those tables and that database whatever characters their names hold, and is recognised as such a query while no other query is. Reading a query back gives the database and tables it asks for or an error for conditions that are not understood or contradict each other, and the rows made from table schemas read back as exactly the columns of those tables, in order, with their types.",
     ["inputs"], "All table and database names, all conditions of such queries, all lists of table schemas.",
     "The tests describe one table with a simple name.",
     ["sql/system/schema_columns.go", "sql/system/schema_columns_stmt_impl.go", "sql/system/schema_columns_resutset.go", "sql/system/schema_columns_resutset_from.go", "sql/system/schema_columns_resutset_impl.go", "sql/system/schema_column_impl.go"],
     [("generation and traversal of the statement", "sql/system/schema_columns_stmt_impl.go")],
     2500, 40000, "a name, a condition or two columns at least",
     "round-trip of generated names, conditions and schemas", "")

prop("C27", "The connection registry matches its history",
     "After any history of adding, replacing, removing and closing connections, the registry holds exactly the connections the history implies and finds each under its ID and its UUID and under nothing else; a conflicting or impossible operation reports an error and changes nothing. Closing the registry closes every connection once and keeps only those whose closing failed; each connection keeps its own user, database and schemas.",
     ["histories", "fault_sequences"], "All histories of registry and connection operations over connections with colliding IDs, with closings that fail.",
     "No test drives the registry through a sequence with conflicts and failures.",
     ["sql/net/conn_manager_impl.go", "sql/net/conn_impl.go"], [("two maps kept in step", "sql/net/conn_manager_impl.go")],
     20000, 400000, "the history holds a conflict and a removal and leaves a connection registered",
     "stateful model-based testing with injected close failures; every observer compared after every step", "")

prop("C28", "The connection registry is safe under concurrency",
     "Concurrent use of the registry by several goroutines looks like some sequential use: every answer is explained by one order of the operations that respects real time. Connections and the registry have no data race, and closing the registry while connections arrive or replace others loses none of them and removes none that it did not close.",
     ["schedules"], "All generated programs of several goroutines over one registry or connection, under the schedules the Go runtime produces.",
     "No test uses the registry from two goroutines.",
     ["sql/net/conn_manager_impl.go", "sql/net/conn_impl.go"], [("read-write lock of the registry", "sql/net/conn_manager_impl.go"), ("lock of the connection", "sql/net/conn_impl.go")],
     1500, 30000, "two goroutines at least with two operations each",
     "generated concurrent programs under the race detector; linearizability checked with porcupine against a sequential model", "Schedules are those the Go scheduler produces; each program runs under eight.", race=True, maxprocs=4)

prop("C29", "Errors tell their kind and object, SQLSTATEs their meaning",
     "An error made for an object is recognised, also when wrapped, as its kind and as no other kind, and its message names the object whatever its name. Every SQLSTATE code and class of the published list has its own code and description, and any other code or class is described as unknown.",
     ["inputs"], "All error kinds over all names; all five-character codes.",
     "No test checks the kinds of errors or the code table.",
     ["sql/errors/errors.go", "sql/errors/query.go", "sql/errors/code.go", "sql/errors/class.go"], [("wrapped sentinels", "sql/errors/query.go"), ("description tables", "sql/errors/code.go")],
     60000, 1200000, "the name is not empty, or the code is in the list or differs from one in a single character",
     "generated names and codes against an independent table of the published SQLSTATEs", "")

prop("C30", "Lists of columns, indexes, tables and selectors find what they hold",
     "Looking up a column, index, table or function by name in a list finds the first one of that name in any letter case at its position, and reports an error or absence for any other name. The functions of a select list are told apart by class: its aggregates, its executable functions and its plain columns are each listed completely, in order.",
     ["inputs"], "All lists, with duplicates and near misses, and all names asked for.",
     "The tests look up a few present names.",
     ["sql/query/columns.go", "sql/query/indexes.go", "sql/query/tables.go", "sql/query/table.go", "sql/query/selectors.go", "sql/query/selectors_helper.go"], [("linear case-insensitive lookups", "sql/query/columns.go")],
     20000, 400000, "two elements at least and a lookup that hits",
     "generated lists and questions against a reference search", "")

prop("C31", "Data types and their names are one to one",
     "Every data type name is recognised in any letter case as its own type and printed back as that name; any other text is refused. The type chosen for a value depends only on the value's kind, and unsupported kinds are refused.",
     ["inputs"], "All type names in any case, near misses, all value kinds.",
     "The tests look up the names once.",
     ["sql/query/data_type.go", "sql/query/column_def.go"], [("name table", "sql/query/data_type.go")],
     40000, 500000, "the name is in another case or a near miss, or the value is not nil",
     "generated names and values against an independent table", "")

prop("C32", "Stack and quoting helpers obey their laws",
     "A stack returns what was pushed, last first, and is empty exactly when everything was popped. Quoting a text yields one SQL literal of it, unquoting undoes quoting for every text and leaves unquoted text alone.",
     ["histories", "inputs"], "All histories of stack operations; all texts.",
     "The tests use a few values.",
     ["sql/util/stack.go", "sql/util/strings/strings.go"], [("slice of objects", "sql/util/stack.go"), ("doubling of quotes", "sql/util/strings/strings.go")],
     40000, 500000, "two pops of pushed values at least, or a text with a quote character",
     "stateful model-based testing against a slice; round-trip of generated texts", "")

prop("C33", "What a statement cannot hold is refused, never dropped",
     "The parsed statements cannot hold every part that SQL has. A well-formed SQL text with one of the following parts is answered with an error and no statements, alone or inside a script, and is never read as the statement without that part: EXPLAIN, WITH, UNION, JOIN, a subquery in FROM, HAVING, a second grouping key, NULLS FIRST, a limit or offset that is no whole number, DISTINCT or OVER in a call, REPLACE or OR IGNORE, ON CONFLICT, RETURNING, UPDATE FROM, an inserted or assigned expression (a comparison included), ROLLBACK TO, an index definition (KEY, INDEX) without a name in CREATE TABLE or ALTER TABLE ADD, UNIQUE or a column with a primary key in ALTER TABLE ADD, the WHERE of a partial index, VACUUM INTO; nor is a statement that has no representation (SAVEPOINT, PRAGMA, CREATE VIEW and the like) read as nothing at all.",
     ["inputs"], "All texts made from a generated SELECT, INSERT, UPDATE or DELETE and one clause that is not supported, and all statements that have no counterpart, alone or between generated statements.",
     "The tests hold no unsupported SQL; a dropped clause executes another statement than the one the client sent.",
     [ANTLR, "sql/query/errors.go"], [("unsupported clauses are errors", ANTLR)],
     6000, 100000, "the text holds exactly one part that is not supported",
     "generation of well-formed SQL with one unsupported part; oracle: an error and no statements", "Table and column aliases, index hints, column and table constraints other than keys, UNIQUE of an index and TEMP are known to be left out and not part of the property.")

prop("C34", "All views of a statement and its parts agree",
     "A statement tells its kind, its name and its parts the same way through every accessor: the table through Table, From and Tables and by its plain and full name; the condition through HasConditions, Expr and text; columns and selectors as list, names, positions and functions with their arguments; IsAsterisk, IsFunction and IsPlaceHolder exactly for what is one; order types, limits, groupings, literals, constraints and definitions as they were set and as they are printed. Every kind of statement has its own number and name, and a grouping key splits back into the names it was made from.",
     ["inputs", "histories"], "All generated statements of every kind and all generated parts: limits, groupings, orders, literals, constraints, columns of result sets and grouping keys.",
     "The tests read one accessor per case; a server built on the library reads the same fact through several of them and must not be told two things.",
     ["sql/query", "sql/fn/func_impl.go", "sql/fn/args.go", "sql/fn/groupby.go", "sql/query/response/resultset/column_impl.go"], [("accessors of statements and their parts", "sql/query")],
     6000, 100000, "the statement has several elements or a clause, or the part is not the empty one",
     "generated statements and parts; oracle: agreement of all accessors with each other and with the generated model", "")

prop("C35", "Uses in different goroutines do not disturb each other",
     "Goroutines that each use objects of their own (parsers and their statements, statements built in code, bound statements, schemas, columns, functions, aggregates, result sets, system queries, errors and SQLSTATE lookups, registries) get from every part of the library what they would get alone, from the very first use in a process on: no result is disturbed by what another goroutine does at the same time, no use panics or fails because of another, and there is no data race on state that the library keeps behind its functions.",
     ["inputs", "schedules"], "All generated combinations of uses, spread over two to six goroutines that start at once in a process that has used nothing before.",
     "The tests run one use at a time in one goroutine, where a cache, a shared buffer or a table filled on first use does no harm.",
     ["sql/fn", "sql/query", "sql/query/response/resultset", "sql/stmt", "sql/system", "sql/errors", "sql/parser/sqlite", "sql/util"], [('package-level tables of names, types, functions and codes', 'sql/fn/names.go, sql/query/data_type.go, sql/errors'), ('prediction caches of the parsers', 'sql/parser/sqlite/parser_antlr.go')],
     40, 1200, "two uses at least run in several goroutines of a fresh process",
     "generated uses of every part run in several goroutines of fresh processes under the race detector; oracle: each use's own property, and no data race", "Schedules are those the Go scheduler produces.",
     race=True, maxprocs=4)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    checks, man = {}, []
    for p in P:
        c = {"quick": p["quick"], "thorough": p["thorough"], "rule": p["rule"]}
        for k in ("race", "maxprocs", "shards"):
            if k in p:
                c[k] = p[k]
        c["assumptions"] = [p["note"]] if p["note"] else []
        checks[p["id"]] = c
        man.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                    "technique": "property-based testing: " + p["technique"], "level": "exploration",
                    "level_note": ("Random search over generated cases; a pass means no counterexample among the cases counted in the evidence. " + p["note"]).strip()})
    json.dump({"checks": checks}, open(os.path.join(ROOT, "checks.json"), "w"), indent=1, ensure_ascii=False)
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": man, "not_applicable": []}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
