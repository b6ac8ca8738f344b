# the properties of the analyzer; executed by props.py
AN = "src/mizugaki/analyzer/details"
QX = AN + "/analyze_query_expression.cpp"
SX = AN + "/analyze_scalar_expression.cpp"
NM = AN + "/analyze_name.cpp"
SF = AN + "/set_function_processor.cpp"
ST = AN + "/analyze_statement.cpp"
PLAN = "Plans are run by an interpreter of the plan operators (mc/plan.h) and queries by a direct evaluator of SQL (mc/sqlref.h); both are small, written independently of the code and of each other. " + SHIM
PLANT = "explicit-state model checking of query plans: all queries of a grammar up to a deviation bound, each plan executed from all small database states and compared with a reference semantics"

p("C16", "A plan computes the rows, names and order which its query asks for",
  "A query over tables is turned into a plan which gives, on every content of the tables, exactly the rows of the query: those which satisfy WHERE, with the values of the select list under their names, once each where DISTINCT is written, in the requested order and no more than LIMIT. NULL and three-valued logic are honoured in every condition. Every plan is complete: connected, with one output, and each operator only uses columns which its inputs give.",
  ["inputs"], "all queries of the supported language, and all contents of the tables",
  "Tests compare the shape of single plans; that the composed operators compute the query on every content is a statement about executions of plans, which no test runs.",
  [QX, SX, AN + "/query_scope.cpp", AN + "/relation_info.cpp"],
  [("WHERE, SELECT, DISTINCT, ORDER BY, LIMIT", QX), ("scalar expressions", SX)],
  ["the execution plan of a query"], PLANT,
  "Bound: 4 deviations from the plainest query (thorough 5); all multisets of up to 2 rows (thorough 3) over NULL, 1, 2 for one table, distinguishing states for several. " + PLAN)

p("C17", "Joins and table functions combine rows as the query says",
  "Inner, cross, left, right and full outer joins pair and keep rows as SQL defines, with ON and USING, nested on either side, and after a comma; a join condition sees its own operands only. The columns of USING appear once and have the value of the side which is present. CROSS and OUTER APPLY call the function once for each row with the values of that row, and keep rows without results only when OUTER.",
  ["inputs"], "all joins and applications over tables, derived tables and joins, and all contents of the tables",
  "Which rows an outer join keeps, and which columns a condition can see, depend on the combination of operands, conditions and contents.",
  [QX, AN + "/query_scope.cpp", NM],
  [("joins", QX), ("APPLY", QX), ("what a condition can see", AN + "/query_scope.cpp")],
  ["the execution plan of a query"], PLANT,
  "Bound: 4 deviations (thorough 5), join trees of up to three tables. " + PLAN)

p("C18", "Grouping and aggregation give one row per group, and nothing ungrouped",
  "A query with GROUP BY, HAVING or aggregate functions gives one row per group, or one row for the whole input where there are no keys, with each aggregate computed over exactly the rows of the group, DISTINCT ones over distinct values. HAVING filters groups, and ORDER BY may use aggregates. A query which uses a column that is neither a key nor aggregated, or an aggregate where none is allowed, is rejected.",
  ["inputs"], "all grouped queries of the supported language, and all contents of the tables",
  "Aggregates move through the select list, HAVING and ORDER BY together; a wrong row set or an ungrouped column which slips through shows only in particular combinations and on particular groups.",
  [QX, SF],
  [("grouping", QX), ("aggregates in expressions", SF)],
  ["the execution plan of a query", "diagnostics"], PLANT,
  "Bound: 3 deviations (thorough 4). " + PLAN)

p("C19", "Set operations, derived tables, WITH and VALUES compose by SQL's rules",
  "UNION, EXCEPT and INTERSECT combine the rows of their operands, with ALL or without duplicates, by position, under the names of the left operand, nested as written. A derived table, TABLE, VALUES or a WITH query stands for its rows wherever it is named, any number of times, under the names it is given; a WITH query hides a table of the same name and does not see what surrounds it. Operands with different numbers of columns are rejected.",
  ["inputs"], "all compositions of queries up to a size, and all contents of the tables",
  "The order, nesting and naming of operands matter for particular contents only; EXCEPT with swapped operands agrees with the right one on most of them.",
  [QX, AN + "/query_info.cpp"],
  [("set operations", QX), ("WITH and derived tables", QX)],
  ["the execution plan of a query"], PLANT,
  "Bound: 4 deviations (thorough 5), three operands. " + PLAN)

p("C20", "Subqueries in expressions see the row around them and give SQL's answer",
  "EXISTS, IN, NOT IN, comparisons with ANY and ALL, and scalar subqueries give SQL's three-valued answer for each row of the query around them, whose columns they can use at any depth. A column name means the innermost one in sight. Used in a grouped query, a subquery only sees the keys of the groups.",
  ["inputs"], "all queries with subqueries up to a nesting depth, and all contents of the tables",
  "NULL among the values, empty results and correlation through several levels each change the answer; the cases multiply and none shows in the shape of a plan.",
  [SX, QX, NM, SF],
  [("subqueries", SX), ("correlation", NM), ("subqueries of groups", SF)],
  ["the execution plan of a query"], PLANT,
  "Bound: 3 deviations (thorough 4), nesting depth 2-3. " + PLAN)

p("C21", "The analyzer answers every statement, soundly or with located diagnostics",
  "For every statement which the parser accepts, on any catalog, the analyzer gives either a result which is complete and well-formed, or at least one diagnostic, each with a message, a code other than the internal one, and a location inside the statement; it never throws or fails otherwise. A result contains nothing which cannot be executed: no unresolved names, no aggregate functions left in expressions, rows as wide as their columns, no operator unconnected.",
  ["inputs"], "all statements of the language, with names which exist and names which do not",
  "The statements which tests analyze were each thought of; the combinations in which a part is neither handled nor reported were not.",
  [QX, SX, NM, ST, AN + "/analyzer_context.cpp", "src/mizugaki/analyzer/sql_analyzer_impl.cpp"],
  [("statements", ST), ("queries", QX), ("expressions", SX), ("diagnostics", AN + "/analyzer_context.cpp")],
  ["results of the analyzer", "diagnostics"],
  "bounded exhaustive enumeration of all derivations of the statement grammar, each analyzed against two catalogs and judged by an invariant over plans, statements and diagnostics",
  "Bound: 3 deviations per statement kind (2 for some; thorough 4 and 3) over a grammar of the whole language, with the names x, y (which exist as schema, table, column and function in one catalog and not in the other) and q. ")

p("C22", "An analysis depends on its inputs alone, and changes none of them",
  "Analyzing the same statement with the same options and catalog gives the same result or the same diagnostics, whatever the analyzer has analyzed before, successfully or not, and wherever its data are in memory. Neither the syntax tree nor the catalog is changed, and a result stays as it is after its syntax tree is gone and while other statements are analyzed.",
  ["inputs", "histories"], "all statements, and all histories of statements on one analyzer",
  "What one statement leaves behind shows in a later one, if at all; tests use a fresh analyzer for each statement.",
  ["src/mizugaki/analyzer/sql_analyzer.cpp", "src/mizugaki/analyzer/sql_analyzer_impl.cpp", AN + "/analyzer_context.cpp", ST, QX],
  [("the analyzer", "src/mizugaki/analyzer/sql_analyzer.cpp"), ("its context", AN + "/analyzer_context.cpp")],
  ["results of the analyzer", "diagnostics", "syntax trees", "the catalog"],
  "explicit exploration of all histories of statements up to a length on one analyzer, each answer compared with that of a fresh one, under address and undefined-behaviour sanitizers",
  "Bound: all sequences of 2 (thorough 3) of 29 statements under two catalogs; all statements of the grammar up to 2 deviations (thorough 3), each analyzed twice. ")

LT = AN + "/analyze_literal.cpp"
TY = AN + "/analyze_type.cpp"
CAT = "All combinations are run on the real parser and analyzer, and what comes out is compared with a description which the check computes from the choices alone. " + SHIM

p("C23", "INSERT, UPDATE and DELETE change exactly the rows and columns they name",
  "INSERT writes exactly the rows of its VALUES or query into the columns it names, in their order, and the others get their defaults; its options decide what happens to rows whose key exists, and it is a plain list of values only where no value needs a query. UPDATE writes the values of SET, computed from the row as it was, to just the rows where its condition is true; DELETE removes just those rows. Statements which name unknown, hidden or repeated columns, give too few or too many values, or cannot identify a row, are rejected.",
  ["inputs"], "all modifications of tables with keys, indices, defaults and hidden columns, and all contents of the tables",
  "Which column gets which value depends on orders and omissions in combination; on most data a swapped pair of columns or an index key in the wrong order looks right.",
  [ST, QX], [("INSERT, UPDATE, DELETE", ST)], ["write operators of plans", "write statements", "diagnostics"], PLANT,
  "Bound: 4 deviations (thorough 5), 5 for DELETE (6); each plan is run on all small contents and the set of written rows compared with the reference. " + PLAN)

p("C24", "CREATE TABLE defines exactly the columns, constraints and keys it declares",
  "The table which CREATE TABLE defines has the declared columns in order, each with its type, nullability, default value and identity sequence, and a primary index over the key columns in their order and directions. Columns of a primary key are not nullable; a table without a key gets a hidden one. Contradictory, repeated or unsupported constraints of a column are rejected, IF NOT EXISTS is honoured, and documentation comments become the descriptions of tables and columns.",
  ["inputs"], "all table definitions up to a number of columns and constraints, and all positions of comments",
  "Constraints interact (NULL with PRIMARY KEY, DEFAULT with GENERATED, column keys with table keys); tests look at one or two at a time.",
  [ST, TY, AN + "/analyze_description.cpp"], [("CREATE TABLE", ST), ("descriptions", AN + "/analyze_description.cpp")], ["create-table statements", "table prototypes", "diagnostics"],
  "bounded exhaustive enumeration of table definitions on the real code, each compared with the definition computed from the choices",
  "Bound: all sequences of up to 4 constraints on a column; 5 deviations (thorough 7) over tables of three columns. " + CAT)

p("C25", "Index, rename, drop, truncate and privilege statements act on what they name",
  "CREATE INDEX, ALTER TABLE RENAME, RENAME COLUMN, DROP, TRUNCATE, GRANT and REVOKE name exactly the tables, columns, indices, schemas, users and privileges which the text names, found by the rules of schema search. IF EXISTS and IF NOT EXISTS turn an absent or present target into a statement without effect. Everything which does not exist, exists already or is not supported is rejected.",
  ["inputs"], "all such statements over names in several schemas, and all option settings",
  "Whether a name is found depends on qualifiers, the search path and options together.",
  [ST, NM], [("definition statements", ST), ("lookup of storages", NM)], ["statements for the catalog", "diagnostics"],
  "bounded exhaustive enumeration of definition and privilege statements on the real code, each compared with the effect computed from the choices",
  "Bound: full products for RENAME, DROP and TRUNCATE; 5-6 deviations (thorough 6-7) for CREATE INDEX, GRANT and REVOKE. " + CAT)

p("C26", "Every literal has the value and type which its text denotes",
  "Exact, approximate, string, binary, truth value, date, time and timestamp literals, signed or not and written in one or several pieces, become constants with exactly the value of the text, and a type which can hold it. The options for type preference and the system time zone are honoured. Texts which denote no value, or one out of range, are rejected.",
  ["inputs"], "all literals of the language and all option settings about them",
  "Boundaries of ranges, leap days, escapes and scales are many and depend on each other; the tests hold a few of each.",
  [LT], [("literals", LT)], ["constants of plans", "diagnostics"],
  "bounded exhaustive enumeration of literal texts around every boundary under all option settings, with address and undefined-behaviour sanitizers",
  "Bound: digits around every power and limit of types, all dates of boundary years, all strings of up to 4 pieces over 5 kinds. " + CAT)

p("C27", "Every type name stands for its type, with its length, precision and scale",
  "Each type which can be written becomes the type it names, varying or not, with the length, precision, scale or time zone which is written, or the default where none is. Sizes which are out of range and types which are not supported are rejected with a diagnostic inside the type.",
  ["inputs"], "all type names and sizes, and all settings of the default sizes",
  "Sizes, defaults and flags interact; the boundary values of each are different.",
  [TY], [("types", TY)], ["types in plans and definitions", "diagnostics"],
  "bounded exhaustive enumeration of all type names with sizes around every boundary under all option settings, with sanitizers",
  "Bound: all type names, sizes around all limits, all combinations of limits in the options. " + CAT)

p("C28", "Expressions compute the value which SQL defines, with NULLs and defined types",
  "Arithmetic, concatenation, comparisons, AND, OR, NOT, IS, BETWEEN, IN, LIKE, CASE, COALESCE, NULLIF and CAST, nested in any way, give the value which SQL defines for every operand, NULL included, and bind as strongly as SQL defines. An operand is evaluated as often as it is written. Operands whose types do not go together are rejected.",
  ["inputs"], "all expressions up to a depth, and all values of their columns",
  "BETWEEN, NULLIF, CASE and row predicates are rewritten into other operators; that the rewriting is right for NULL and for every nesting is a statement about values, which tests of the shape do not see.",
  [SX], [("scalar expressions", SX)], ["values of expressions in plans", "diagnostics"],
  "explicit-state model checking of expressions: all expressions of a grammar up to a depth and deviation bound, evaluated for all valuations of their columns and compared with a reference semantics",
  "Bound: depth 2-3, 3-4 deviations; all valuations over NULL and two or three values per column. " + PLAN)

p("C29", "A call means the function which its name, arguments and schema search select",
  "A call means the one function among those of the name and number of arguments whose parameters accept the arguments, the most specific one where there are several; if none is the most specific, the call is ambiguous and rejected. Schemas are searched in order, a qualified name in its schema only, and the first schema with candidates decides. This does not depend on the order in which functions are declared, and holds for the functions behind special syntax too.",
  ["inputs"], "all sets of declared overloads, in any order and in several schemas, and all types of arguments",
  "The answer is a minimum over a partial order of signatures; an algorithm which is right for chains of overloads fails on particular sets in particular orders.",
  [SX, NM], [("functions", SX), ("lookup of declarations", NM)], ["functions of plans", "diagnostics"],
  "bounded exhaustive enumeration of overload sets, declaration orders, schemas and argument types, each call executed and the called declaration compared with the minimum computed from the definition",
  "Bound: all sets and orders of up to three of ten overloads of two parameters; 4 deviations over argument types (thorough 6). " + CAT)

p("C30", "Placeholders and host variables stand for exactly their values",
  "A placeholder stands for the value given under its name or number, and a host variable for the parameter of its name in the program around the statement, with that type, wherever a value can be written. A statement with a placeholder means the same as one with the constant in its place. Positions are counted over the whole text, and unknown names are rejected.",
  ["inputs"], "all places of parameters in statements, their types, values and names",
  "Parameters pass through every operator; whether each place keeps name, type and value is a matter of the combination.",
  [SX, AN + "/analyzer_context.cpp"], [("parameters", SX)], ["constants and external variables of plans", "diagnostics"],
  "bounded exhaustive enumeration of statements with parameters in all places, each compared with the statement which has the values in their places",
  "Bound: full products over names, types and the places of one to three parameters. " + CAT)

p("C31", "A name means the nearest declaration which its scope, path and letters select",
  "The name of a column, table, WITH query, schema, catalog, function or variable means the declaration in the innermost scope which has one, or the first schema of the search path, and with a qualifier the one of just that table, alias, schema or catalog. An alias hides the name of its table, and a WITH query the table of its name; a name which fits two columns or tables of one scope is rejected, and so is one which fits none. Regular identifiers are read as small letters exactly for those kinds of names for which the options say so, delimited ones never.",
  ["inputs"], "all placements of names in nested scopes, all schema contents and search paths, and all settings of the letter case options",
  "Each name is looked up through several tables of names in a row; a wrong order or a letter which is not folded on one of many paths matters only where two declarations compete.",
  [NM, AN + "/query_scope.cpp", AN + "/relation_info.cpp", QX, ST],
  [("lookup", NM), ("scopes", AN + "/query_scope.cpp"), ("columns of relations", AN + "/relation_info.cpp")],
  ["execution plans", "written tables and columns", "diagnostics"],
  "bounded exhaustive enumeration of names, scopes, schemas and options; each plan is executed over data in which every declaration has a value of its own, and compared with a direct model of the lookup",
  "Bound: full product of 64 option settings, 49 places of names, letters and declared subsets; full product of schema contents, paths and 14 statements; 4 deviations (thorough 5) over up to three nested scopes of up to three relations. " + CAT)
p("C32", "A fault is reported once, with its own code, at exactly its own place",
  "Where one part of an otherwise sound statement is at fault - a name which means nothing or two things, a value, type, call, column list, aggregation or clause which cannot be used there - the statement is rejected with one diagnostic, with the code of this kind of fault and the location of just that part, however deep in expressions, conditions, joins, subqueries and WITH queries it stands. The same statement with a sound part there is accepted. A clause which is understood but not supported is rejected, never silently left out.",
  ["inputs"], "all kinds of faults at all places of all kinds of statements",
  "Tests look at the code of a diagnostic at the top of a statement; which region a diagnostic takes, and whether an error below is passed on or swallowed, is decided again at every place which analyzes a part.",
  [QX, SX, NM, ST, AN + "/analyze_literal.cpp", AN + "/analyze_type.cpp"],
  [("statements", ST), ("queries", QX), ("expressions", SX), ("names", NM)],
  ["diagnostics"],
  "bounded exhaustive enumeration of one fault at every place of nested statements; code and region are compared with those of the inserted part",
  "Bound: 150 kinds of faults at every place up to 2 (thorough 3) pieces below 31 statements; 40 faulty elements of CREATE TABLE between up to two others, with and without a key; 80 other faulty statements. " + CAT)
