ENG = ["lib/fqlprocesses.c", "lib/fqlplan.c", "lib/schema.c", "lib/expression.c"]
T = "the suite runs a few fixed queries over two or three fixed tables"

prop("S01", "A select list returns the requested columns of every row, once, in order",
     "For any delimited table, a query that selects columns (by name in any letter case, qualified or not, repeated, or with *) returns each row of the file exactly once, in file order, with each field's exact value; rows that are too short yield NULL for the missing columns. TOP n returns the first n of those rows, and the row count reported is the number of rows returned.",
     ["inputs", "configurations"], "tables of arbitrary shape and content (quotes, delimiters and line breaks inside fields, non-ASCII, short rows, empty fields), select lists, TOP counts, delimiters and pipe settings",
     T + "; none has ragged rows, quoting in most positions, wide or long tables, and few repeat columns",
     ENG + ["lib/libcsvread.c", "lib/reader.c", "lib/fqlselect.c", "lib/libcsvwrite.c"],
     [("reading, selecting and writing of records", "lib/fqlprocesses.c: read and select processes"), ("record output", "lib/fqlselect.c, lib/writer.c")], NOTE, MODEL)
prop("S02", "WHERE keeps exactly the rows for which its condition is true",
     "For every row, WHERE keeps it if and only if the condition holds for it: comparisons follow the type of their operands (integers and floats numerically, text ignoring letter case and trailing blanks), and AND, OR, NOT, brackets, IN lists and IS NULL combine with their usual precedence. A comparison with NULL is never true.",
     ["inputs", "programs"], "conditions nested up to several levels over all predicate kinds and operand types, on tables with numbers, text and missing values",
     T + "; they reach a handful of conditions and no nested negation", ENG + ["lib/logic.c", "lib/fqllogic.c", "lib/inlist.c", "lib/query.c", "util/stringview.c"],
     [("condition tree", "lib/logic.c, lib/query.c"), ("typed comparison functions", "lib/fqllogic.c")], NOTE, MODEL)
prop("S03", "LIKE matches exactly the strings its pattern describes",
     "expr LIKE pattern is true if and only if the whole value matches the pattern, ignoring ASCII letter case, where % is any run, _ is any one character, [..] and [^..] are sets and ranges, and every other character stands for itself; NOT LIKE is its complement. This holds for constant patterns and for patterns read from a column.",
     ["inputs"], "patterns over wildcards, sets, ranges, and characters special to regular expressions, against generated values",
     "the suite has a few LIKE patterns without special characters", ["lib/like.c", "lib/fqllogic.c", "lib/logic.c"],
     [("translation of a pattern", "lib/like.c"), ("matching", "lib/fqllogic.c")], NOTE, "PBT: generated patterns and values vs an independent matcher, engine run through CLI and API")
prop("S04", "Expressions evaluate by their types and precedence, or the query fails",
     "Arithmetic, bitwise, unary, concatenation, CAST and CASE expressions over columns and literals return the value given by their operand types (integer with integer is integer, with float is float, + on text concatenates) and by operator precedence, and the result type reported by the API is that type. An overflow, a division by zero or text that is not a number fails the query instead of producing a value.",
     ["inputs", "programs"], "expression trees of all operators and types up to depth four, over literals near the limits and column values",
     "the suite evaluates a few expressions over one table", ["lib/function.c", "lib/scalarfn.c", "lib/field.c", "lib/expression.c", "lib/switchcase.c", "lib/misc.h", "lib/query.c"],
     [("type resolution", "lib/expression.c, lib/function.c"), ("operators and their overflow tests", "lib/scalarfn.c"), ("CASE", "lib/switchcase.c")], NOTE, MODEL)
prop("S05", "Scalar functions return their documented value for every argument",
     "LEFT, RIGHT, SUBSTRING, LEN, DATALENGTH, REPLACE, ISNULL and CAST return the result that T-SQL defines for any text (characters, not bytes, for UTF-8 text), position and length, including empty, NULL, out of range and computed arguments, and never read or return anything beyond the argument. Invalid lengths fail the query.",
     ["inputs"], "text of 0 to 40 characters, ASCII and multi-byte, and counts from -1 to beyond the length, from literals, columns and nested calls",
     "the suite calls each function once or twice with in-range arguments", ["lib/scalarfn.c", "lib/function.c", "util/stringy.c", "util/stringview.c"],
     [("function implementations", "lib/scalarfn.c"), ("search and replace", "util/stringy.c")], NOTE, MODEL)
prop("S06", "GROUP BY, aggregates, HAVING and DISTINCT partition rows exactly",
     "GROUP BY returns one row per distinct combination of its expressions (text compared ignoring letter case and trailing blanks, NULL as a value of its own), and COUNT, SUM, MIN, MAX and AVG of each group are those of exactly its rows, NULL values left out of all but COUNT; HAVING filters those groups. Aggregates without GROUP BY yield one row even for no input, and DISTINCT returns each distinct row once, the first seen.",
     ["inputs", "programs", "configurations"], "tables with few distinct keys, case and blank variants, NULLs and numbers; one to three grouping expressions; every aggregate; with and without WHERE and HAVING",
     T + " and check a few aggregates on them", ["lib/group.c", "lib/aggregate.c", "lib/aggregatefn.c", "lib/fqlprocesses.c", "util/hashmap.c", "util/compositemap.c"],
     [("group lookup by composite key", "lib/group.c, util/compositemap.c"), ("aggregate update", "lib/aggregatefn.c")], NOTE, MODEL)
prop("S07", "ORDER BY returns the same rows sorted by its keys",
     "ORDER BY returns exactly the rows the query returns without it, sorted by its keys in turn (numbers by value, text ignoring letter case and trailing blanks), each ascending or descending, whether a key is a column, an expression, an alias or an ordinal position; TOP n then returns the first n of the sorted rows.",
     ["inputs", "programs", "configurations"], "tables with duplicate keys, one to three keys of any type, DESC, TOP, grouped and plain queries, both output paths",
     "the suite sorts one table by few keys and compares with a fixed answer", ["lib/order.c", "lib/fqlprocesses.c", "lib/fqlselect.c", "util/stringview.c"],
     [("sort entries and comparison", "lib/order.c"), ("spooled rows", "lib/order.c, lib/fqlselect.c")], NOTE, "PBT: sortedness and permutation against the reference evaluator's rows, CLI and API")
prop("S08", "UNION ALL returns every row of every branch, in branch order",
     "The result of select ... union all select ... is the concatenation of the branches' results, whatever mix of tables, constants, WHERE, GROUP BY and HAVING the branches use, with column types common to all branches (integers among fractions are fractions); ORDER BY sorts all of them together by selected columns; branches with different numbers of columns are refused.",
     ["inputs", "programs"], "two to four branches over generated tables, with constants, conditions, expressions and groupings",
     "the suite has three union queries", ["lib/fqlplan.c", "lib/fqlselect.c", "lib/fqlprocesses.c", "lib/query.c"],
     [("branch results queue up as inputs of the select", "lib/fqlplan.c, lib/process.c, lib/fqlprocesses.c")], NOTE, MODEL)
prop("S09", "Inner joins return exactly the pairs that satisfy their condition",
     "A join of two or three sources returns one row for each combination of their rows that satisfies the ON conditions and WHERE, no more and no fewer, whichever of the two join algorithms is used; a comma-separated table list returns all combinations.",
     ["inputs", "programs", "configurations"], "tables with duplicate, missing and case-variant keys, equality conditions on columns and expressions with further conditions, self joins, the forced cartesian algorithm, small pipes",
     T + "; joins are compared on one pair of tables", ["lib/fqlprocesses.c", "lib/schema.c", "lib/table.c", "lib/record.c", "util/hashmap.c", "util/multimap.c"],
     [("hash and cartesian joins", "lib/fqlprocesses.c"), ("choice of the hash condition", "lib/schema.c")], NOTE, MODEL)
prop("S10", "LEFT JOIN keeps every left row, padding those without a match with NULL",
     "A left join on an equality returns every matching pair, plus each left row that has no match exactly once with NULL in all columns of the right side; a WHERE clause sees those NULLs.",
     ["inputs", "programs"], "two tables with duplicate and unmatched keys; equality on columns or expressions; WHERE on either side",
     T, ["lib/fqlprocesses.c", "lib/schema.c", "lib/table.c", "lib/expression.c"],
     [("hash join, unmatched left records", "lib/fqlprocesses.c")], NOTE, MODEL)
prop("S11", "A subquery behaves as the table, list or value it produces",
     "A query over a subquery source returns what it would return over a table with the subquery's rows, also when joined on either side; IN (subquery) tests membership in the subquery's values; a scalar subquery is its single value.",
     ["inputs", "programs"], "subqueries with expressions, conditions, groupings and unions as sources, join sides, IN lists and scalars",
     "the suite has eight subquery tests on fixed tables", ["lib/subquery.c", "lib/fqlplan.c", "lib/fqlselect.c", "lib/inlist.c", "lib/expression.c"],
     [("subquery rows", "lib/subquery.c"), ("lists and constants", "lib/inlist.c, lib/fqlselect.c")], NOTE, MODEL)
prop("S12", "UPDATE and DELETE change exactly the rows their condition selects, once each",
     "UPDATE assigns the listed columns of exactly the rows of the target table for which the join and WHERE conditions hold, DELETE removes exactly those rows, and every other row and field keeps its value and place, together with the header; the number of rows reported as affected is the number of rows changed. No other file is changed or left behind, and a statement that fails leaves every file as it was.",
     ["inputs", "programs", "configurations"], "UPDATE and DELETE with and without WHERE, inner, left and comma joins of one or two further tables, constant, column and computed assignments, values that fail half way, on tables with duplicates, short rows and quoting, with small pipes and threads",
     "the suite runs nine updates and deletes on one small table", ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/fqlprocesses.c", "lib/fqlplan.c", "lib/operation.c", "lib/libcsvwrite.c", "lib/fqlsig.c"],
     [("match, filter and rewrite passes", "lib/fqlprocesses.c: fql_update_*, fql_delete_*"), ("temporary file and rename", "lib/operation.c, lib/libcsvwrite.c")], NOTE,
     "PBT: generated statements and tables vs a reference evaluator, comparing every byte left on disk; CLI and API, plain and sanitized")
prop("S14", "Threads and pipe sizes never change what a statement does",
     "A statement run with threads gives the rows, the order, the reported counts, the success or failure and the files that the same statement gives without them, for every statement, every pipe size and every interleaving of the threads: it neither loses or repeats a record, nor crashes, nor hangs, and a statement that fails in a thread fails as it does without threads. Two threads never touch the same data unordered (no data race).",
     ["schedules", "inputs", "programs", "configurations"], "statements of every kind (plain, conditional, grouped, ordered, union, join, left join, subquery, update, delete) under pipe factors 2 to 16 with randomly injected delays at every lock, wait and signal",
     "the suite runs one fixed list of queries with threads once, under whatever schedule the machine gives", ["lib/process.c", "lib/fqlprocesses.c", "util/fifo.c", "lib/record.c", "lib/fqlselect.c"],
     [("one thread per process, connected by pipes", "lib/process.c: _thread_exec"), ("pipes", "util/fifo.c"), ("reference counts of records", "lib/record.c, lib/fqlprocesses.c: fqlprocess_recycle")],
     "Each case runs several times under different injected delays. Interleavings are sampled, not enumerated; a failure counts if one of twelve repetitions shows it again.",
     "PBT: generated statements and tables, threaded runs under random schedule perturbation (wrapped pthread calls) vs the sequential reference evaluator; plain, address-sanitized and thread-sanitized")
prop("S13", "SELECT INTO writes exactly the query's result to the named file",
     "SELECT ... INTO a file (named by a literal or by a variable) leaves in that file the header and exactly the rows that the same query would print, quoted so that they read back unchanged, and reports their number; reading, updating, deleting and replacing that file in later statements works on exactly those rows. An existing file is replaced only if overwriting is allowed; a statement that is refused or fails leaves every existing file as it was, and no statement changes or leaves behind any other file.",
     ["inputs", "programs", "histories"], "histories of up to five INTO, SELECT, UPDATE and DELETE statements over one directory, in one run or one run each, for plain, conditional, grouped, ordered and union queries, with and without permission to overwrite, and with statements that fail at plan time or half way",
     "the suite creates one file once", ["lib/fqlselect.c", "lib/libcsvwrite.c", "lib/writer.c", "lib/operation.c", "lib/fqlplan.c", "lib/order.c"],
     [("temporary file, rename and overwrite test", "lib/libcsvwrite.c, lib/operation.c"), ("rows to writer", "lib/fqlselect.c")], NOTE,
     "PBT (stateful): generated histories of statements vs a model of the directory's tables, comparing every file after the history; plain and sanitized")
prop("S15", "A table name stands for one file, or the statement is refused",
     "A table name, written with or without directory, with or without extension, in any letter case, as a literal or as a table variable, stands for the file of exactly that name if there is one, else for the only one that differs in letter case, or lacks the name's extension, or both; when several files qualify, or none, the statement is refused and nothing is changed. In strict mode only the exact name counts. This holds for every statement and every place of a table in it.",
     ["inputs", "configurations"], "directories of up to eight files with similar names (letter case, extensions, dots, blanks, UTF-8, sub-directories) and SELECT, join, subquery, IN, UPDATE, DELETE and loops over table variables",
     "the suite has four names in one directory", ["lib/schema.c", "lib/table.c", "lib/misc.c", "lib/variable.c", "lib/process.c"],
     [("file lookup", "lib/schema.c, lib/misc.c: file name matching"), ("table variables", "lib/table.c, lib/fqlprocesses.c")],
     "Random exploration with shrinking, no proof. The resolution rules are restated in vf/props_names.py.",
     "PBT: generated directories and names vs an independent resolution rule; each file holds its own identity, so the answer shows which file was read or written")
prop("S16", "A column name stands for one column in scope, or the query is refused",
     "A column name in a select list, condition, join condition or assignment, qualified or not and in any letter case, stands for the one column of that name in the sources in scope; a name that is in none of them or in more than one, a qualifier that is no source's name, and a name used before its source are refused. * and alias.* stand for all columns in order. In strict mode repeated columns of one table are refused too.",
     ["inputs", "configurations"], "one to three tables with overlapping, repeated, case-variant, bracketed and UTF-8 columns, aliases that hide names, self joins, SELECT, UPDATE and DELETE",
     "the suite has three queries with refused names", ["lib/schema.c", "lib/expression.c", "lib/query.c", "lib/fqlupdate.c"],
     [("assignment of columns to sources", "lib/schema.c: schema_assign_columns and helpers")],
     "Random exploration with shrinking, no proof. The resolution rules are restated in vf/props_names.py.",
     "PBT: generated schemas and references vs an independent resolution rule; every cell holds its own identity, CLI and API")
prop("S17", "Fixed-width and schema-described tables hold the same data as delimited ones",
     "A table described by a schema, delimited with or without header or fixed-width, found by its name, by the directory of schemas or by a default schema, is read as exactly the columns and rows that the schema delimits: a query over it returns what it would return over a plain table of those values. UPDATE, DELETE and SELECT INTO write it back in the same layout, so that it reads back as the changed table with every other byte kept, and a value that does not fit its column is refused instead of shifting its neighbours.",
     ["inputs", "configurations", "histories"], "schemas with random names, column lists, widths, delimiters and header settings; tables with empty, blank padded, full width and over-wide values, empty tables; SELECT (plain, ordered, joined, grouped), INTO, UPDATE, DELETE",
     "the suite reads one fixed-width file", ["lib/schema.c", "lib/fixedread.c", "lib/fixedwrite.c", "lib/reader.c", "lib/writer.c"],
     [("schema lookup and columns", "lib/schema.c: schema_resolve_*"), ("fixed-width reading and writing", "lib/fixedread.c, lib/fixedwrite.c")],
     "Random exploration with shrinking, no proof. Layout rules restated in vf/props_schema.py.",
     "PBT: generated schemas and tables vs the reference evaluator over the described values, comparing output and every byte left on disk; plain and sanitized")
prop("S18", "Driving the library query by query gives what executing it gives",
     "A program planned through the library is executed in the same order with the same results however its caller mixes executing one query, several, all, or all up to the next SELECT with output, and stepping through a SELECT record by record: the number of plans, the kind of the next query, its field count, every record with its types and NULLs, and all output and effects are those of the program. What was stepped through partly cannot be executed and can still be stepped to its end, only a SELECT with output is stepped through, nothing is left to do at the end or after a failure, and a handle that was reset is as good as a new one.",
     ["call sequences", "programs", "inputs"], "programs as for S19 with up to three runs on one handle, each driven by a random sequence of twelve kinds of calls, with imported variables, SELECT INTO a variable, failing statements and resets in the middle",
     "the suite only uses the command line", ["lib/libfql.c", "lib/fqlselect.c", "lib/order.c", "lib/process.c", "lib/fqlplan.c", "lib/include/fql.h"],
     [("library interface", "lib/libfql.c: fql_make_plans, fql_step, fql_exec_plans, fql_exec_until_select, fql_reset, fql_field_count, fql_get_operation_type")],
     "Random exploration with shrinking, no proof. One thread, one handle per process.",
     "PBT, model based: generated programs and call sequences vs an interpreter that tells what each call answers; plain and sanitized")
prop("S19", "Programs run their statements in control-flow order on current values",
     "A program of DECLARE, SET, IF/ELSE, WHILE and BEGIN/END runs exactly the statements that its conditions select, in order and as often as its loops say; each statement sees the values its variables then have, converted to their declared type and length, in every place a variable may stand, and the tables as the statements before it left them. A statement run again behaves as one run for the first time, and a program with a failing statement stops there.",
     ["programs", "inputs", "histories"], "nested programs of up to a dozen statements with every variable type, compound assignments, imported variables and queries of all kinds (joins, groupings, unions, subqueries, LIKE, IN, UPDATE, DELETE) inside loops and branches",
     "the suite runs about ten short programs", ["lib/fqlbranch.c", "lib/fqlset.c", "lib/variable.c", "lib/libfql.c", "lib/fqlplan.c", "lib/query.c", "lib/schema.c", "lib/antlr/listenerinterface.cpp"],
     [("branches and loops", "lib/fqlbranch.c, lib/query.c: query_exit_branch"), ("variables", "lib/variable.c, lib/fqlprocesses.c: fql_set"), ("resetting a plan for its next run", "lib/fqlplan.c, lib/table.c: table_reset")],
     "Random exploration with shrinking, no proof. Conditions on NULL under a negation are left open.",
     "PBT: generated programs vs an interpreter over the reference evaluator, comparing all output and the files left; CLI, plain and sanitized")
prop("S20", "Standard input serves as a table like a file of the same content",
     "A query that names __stdin, in any case, at any place where a table may stand once (first source, either side of any join, in a derived table, a subquery, a union, an UPDATE or DELETE with a join), gives what it gives with a file of the same content, whether standard input is a file or a pipe, however it arrives in pieces, whatever its size, and whether the query comes from the command line or a file. It is refused where the query itself is read from standard input or where standard input would be read twice; nothing is left behind.",
     ["inputs", "queries", "arrival of input"], "the cases of S01, S02, S06 to S12 with one table moved to standard input",
     "no test reads a table from standard input", ["lib/libcsvread.c", "lib/reader.c", "lib/schema.c", "lib/fqlplan.c", "lib/query.c", "lib/table.c", "lib/fqlprocesses.c", "src/fql.c"],
     [("standard input as a table", "lib/libcsvread.c: libcsv_get_record, libcsv_reset_stdin; lib/reader.c: reader_start_file_backed_input"), ("refusals", "lib/query.c: query_add_source")],
     "Random exploration with shrinking, no proof. Delimited text only. libcsv itself is a stand-in (see DESIGN.md).",
     "PBT, differential against the reference evaluator on the same data: generated cases fed as file or pipe in generated pieces; plain and sanitized")
prop("S21", "Tables of any layout can be written, read back and changed in one batch",
     "Within one run, a statement sees a table exactly as the earlier statements left it, with the layout, the columns and the header it was written with: fixed-width, delimited without a header, and delimited with one, under every combination of the header options. Selecting into a file, reading it, joining it, updating or deleting from it and overwriting it give in any order what they give on the modelled rows; schema files and other tables stay as they are, and nothing is left behind.",
     ["histories of statements", "layouts", "header options"], "batches of up to a dozen statements over three base tables of generated layouts and the files the batch itself makes, run serially and threaded, with small pipes",
     "the suite runs single statements and reads back nothing it wrote in the same run", ["lib/schema.c", "lib/fqlselect.c", "lib/fixedread.c", "lib/fixedwrite.c", "lib/reader.c", "lib/table.c", "lib/fqlupdate.c", "lib/fqldelete.c"],
     [("layout of a file made earlier", "lib/schema.c: _resolve_file"), ("writing layouts", "lib/fixedwrite.c, lib/fqlselect.c: fqlselect_preop"), ("join on a new file", "lib/table.c: table_hash_join_init")],
     "Random exploration with shrinking, no proof. Values are short printable text compared as text.",
     "PBT (stateful, model based): generated statement histories against a model of the tables and their layouts; plain and sanitized")
prop("S23", "A failing disk or signal never corrupts a table and never goes unnoticed",
     "When creating a temporary file, opening, writing, flushing, closing, renaming or changing the mode of a file fails at any point of a run, when standard output cannot be written, or when the process is interrupted or killed between two such operations: if the run reports success its output and all files are exactly those of a run without the fault; otherwise it reports failure with a message, every table is exactly as some prefix of the statements left it, and no temporary file remains (after a kill, only temporary files may remain). It neither crashes nor hangs.",
     ["fault and crash points", "queries"], "every kind of fault, at a generated operation or byte offset, in batches of SELECT, SELECT INTO, UPDATE, DELETE, joins, ORDER BY, over delimited and fixed-width tables, with buffers down to one byte",
     "tests never make a file operation fail", ["lib/fixedwrite.c", "lib/libcsvwrite.c", "lib/reader.c", "lib/order.c", "lib/operation.c", "lib/fqlsig.c", "lib/fqlprocesses.c", "src/fql.c"],
     [("write to a temporary file, then rename", "lib/fixedwrite.c: fixedwriter_close; lib/libcsvwrite.c"), ("sorted output", "lib/order.c"), ("cleanup on signals", "lib/fqlsig.c")],
     "Random exploration with shrinking, no proof. Faults are injected at the C library boundary (ld --wrap) and as SIGINT or SIGKILL between operations; power loss and torn writes are not modelled. libcsv itself is a stand-in (see DESIGN.md), so its own writer is covered only as far as fql calls it.",
     "PBT with fault injection: generated queries, fault points and buffer sizes; oracle: the states after each fault-free prefix of the statements; plain and sanitized")
prop("S22", "Groups may be built by any expression, and computed with",
     "GROUP BY takes any expression over the rows (columns, text, arithmetic, CASE, CAST, several of them): two rows are in one group exactly when every one of these is equal, text compared without case and trailing blanks, numbers by value, NULL apart from everything else. Each group that HAVING keeps gives one row, in which keys are those of one of its rows and any expression over keys, aggregates and constants in the select list, HAVING or ORDER BY has the value it has for that group. An expression that the group does not determine, however similar to a key, is refused rather than taken for one.",
     ["queries", "tables"], "keys that are generated expressions of depth two over one or two tables, near misses of them (one literal, operator, column, pattern, branch or type changed), expressions of depth three over keys and aggregates in all three places",
     "tests group by one or two columns", ["lib/group.c", "lib/schema.c", "lib/aggregate.c", "lib/aggregatefn.c", "lib/query.c", "lib/switchcase.c"],
     [("matching expressions with keys", "lib/schema.c: _map_expression, _op_find_group"), ("aggregates as operands", "lib/query.c: query_enter_aggregate; lib/schema.c: _map_groups"), ("building groups", "lib/group.c: group_record")],
     "Random exploration with shrinking, no proof. Fractions pass through six decimals of text in keys and aggregates and are compared so.",
     "PBT: generated keys, near misses and expressions vs reference groups (perfect matching of rows and groups, order, refusal); plain and sanitized")
prop("S24", "No query text and no table content crashes, hangs or harms anything",
     "Whatever text is given as a query and whatever bytes a table holds, the engine ends with status 0 or with 1 and a message; it never crashes, hangs, reads or writes memory that is not its own, or leaves a temporary file. Files that the text does not name in UPDATE, DELETE or INTO keep their content, checking a query (--parse-only, dry run) changes nothing at all, and accepts whatever can be executed.",
     ["queries", "tables"], "generated statements and scripts of every kind with up to several token, character and nesting mutations from a dictionary of the grammar's words, constructs outside of the engine's scope included; tables with random bytes; query by argument, file or standard input; options",
     "tests run well-formed queries", ["lib/antlr", "lib/query.c", "lib/schema.c", "lib/expression.c", "lib/fqlplan.c", "lib/libfql.c", "src/fql.c"],
     [("from parse tree to query", "lib/antlr/*.cpp, lib/query.c"), ("refusals", "lib/schema.c, lib/logic.c, lib/expression.c"), ("dry run", "lib/libfql.c")],
     "Random exploration with shrinking, no proof. Endless loops that the text asks for are not told from hangs and dropped. Queries are nested some ten levels deep at most.",
     "PBT/fuzzing: grammar-aware mutation of generated statements, undirected by coverage; oracle: sanitizers, exit status, message, directory before and after, metamorphic relation to --parse-only and dry run")
prop("S25", "Spelling, storage and presentation never change what a query means",
     "Letter case of keywords and functions, blanks, line breaks, comments, brackets around names, semicolons, and whether the text comes as an argument, a file or on standard input never change a query's result; nor does the form in which its tables are stored (quoted or not, LF or CRLF, with or without a last line end, any input delimiter). -h leaves out exactly the header, -W and --out-std ALL change only line ends and quotes, -q, -v and -p leave the result as it is, and -A gives the same values.",
     ["inputs", "configurations", "programs"], "the generated queries of the SELECT, UPDATE and DELETE properties, each rewritten, its tables stored anew and run with one of seven presentation options",
     "the suite uses one spelling and one form of table per query", ["src/fql.c", "lib/antlr", "lib/libfql.c", "lib/reader.c", "lib/libcsvwrite.c", "lib/writer.c", "lib/fqlselect.c", "lib/schema.c"],
     [("lexer over upper-cased text", "lib/antlr/*.cpp"), ("options", "src/fql.c: _parse_args; lib/libfql.c"), ("header", "lib/fqlselect.c"), ("delimiter of a table", "lib/schema.c, lib/reader.c")],
     "Random exploration with shrinking, no proof. Reading and writing of delimited text is done by a stand-in for libcsv (see DESIGN.md), so quoting and line ends are covered as far as fql asks for them.",
     "PBT: generated queries under generated meaning-preserving rewritings vs the reference model; metamorphic relations between presentations; plain and sanitized")
UN = "Random exploration with shrinking, no proof. The harness calls the functions of util/ as their headers describe them; misuse (removing from an empty list, positions past the end) is not generated."
prop("U01", "Hash tables answer like a dictionary after any history of operations",
     "After any sequence of insertions, replacements, lookups and clears, a hashmap, multimap or set with plain, case-insensitive, trailing-blank-insensitive or composite keys answers each lookup as a dictionary over the same normalised keys does: the last value set, or all values added in order, or nothing; its key list, count and iteration agree with it, through every growth and collision, for keys of any bytes and length.",
     ["operation histories", "keys"], "histories of up to several hundred operations with few and many keys, keys that differ only in case, blanks or one byte, empty and long keys, tiny initial sizes",
     "the suite inserts two short word lists into a table of a fixed size", ["util/hashmap.c", "util/hashmap.h"],
     [("open addressing and growth", "util/hashmap.c: _get_entry, _increase_size"), ("sets, multimaps, composite keys", "util/hashmap.c: set_*, multimap_*, compositemap_*")], UN,
     "PBT (stateful, model based): operation histories vs a Python dictionary over normalised keys; AddressSanitizer and plain")
prop("U02", "Vectors, bit vectors and packed vectors keep exactly what was put into them",
     "After any sequence of pushes, insertions, erasures, replacements, resizes, reservations, shrinks, sorts and extensions at any position, a vec, bitvec or flex holds exactly the elements a list would, in order, and never reads or writes outside its memory; what a resize adds is zero where the function says so.",
     ["operation histories"], "histories of up to a hundred operations on elements of several sizes, with zero, one and many elements, at the front, middle and end and across every growth",
     "the suite has no test for them that runs here", ["util/vec.c", "util/flex.c"],
     [("vector", "util/vec.c"), ("packed vector", "util/flex.c")], UN,
     "PBT (stateful, model based): operation histories vs Python lists; AddressSanitizer and plain")
prop("U03", "String functions give what their definition over bytes gives",
     "Every function of the string and stringview types and of util.c (copy, append, format, resize, search and replace with and without case, one or all, compare with and without case and trailing blanks, number parsing, counting, trimming, file name parts) gives for any bytes what its definition gives, also at lengths zero and one, on text longer than any buffer and on text without a terminator, and never touches memory outside the string.",
     ["inputs", "operation histories"], "text of arbitrary bytes from zero to several hundred, with repeated and overlapping patterns, all positions and lengths, operations applied after one another to the same strings",
     "the suite has no test for them that runs here", ["util/stringy.c", "util/stringview.c", "util/util.c"],
     [("strings", "util/stringy.c"), ("views", "util/stringview.c"), ("parsing and comparing", "util/util.c")], UN,
     "PBT: generated text and operation sequences vs the same definitions over Python bytes; AddressSanitizer and plain")
prop("U04", "Linked lists and graphs keep their links and reach every node",
     "After any sequence of pushes, enqueues, pops, removals in the middle and moves between lists, a linked list holds the elements a list would, forwards and backwards. In a graph built by any sequence of added nodes, edges, removed nodes and merged graphs, the roots are the nodes marked so, or else those that no edge leads to, and a traversal from them gives every reachable node, each after one that leads to it, and ends.",
     ["operation histories", "graphs"], "histories over two lists; graphs of up to 40 nodes, with shared children, cycles, parallel edges, no roots, no nodes, and merges",
     "the suite has no test for them that runs here", ["util/node.c", "util/dgraph.c"],
     [("lists", "util/node.c"), ("graph", "util/dgraph.c")], UN,
     "PBT (stateful, model based): operation histories vs Python lists and reachability; AddressSanitizer and plain")
prop("U05", "A fifo hands on every element once and in order, under any schedule",
     "A fifo between any number of producers and a consumer hands on every element exactly once, those of one producer in their order, and its room, emptiness and fullness are told correctly; nobody waits for ever while there are elements, room, or the fifo was closed, and waiting for either of two fifos ends when one of them has something or both are closed. Used by one thread it equals a bounded queue for any history of adding, block and batch transfer, peeking, iterating, closing, resetting and resizing.",
     ["operation histories", "schedules"], "histories on buffers of two to a dozen elements; one to five producer threads with batches, random delays and one or two fifos, with and without ThreadSanitizer",
     "the suite has no test for it that runs here", ["util/fifo.c", "util/fifo.h"],
     [("ring buffer", "util/fifo.c"), ("waiting and closing", "util/fifo.c: fifo_wait_for_*, fifo_set_open")],
     UN + " Schedules are sampled with random delays, not enumerated; at most one consumer per fifo, as in the engine.",
     "PBT: operation histories vs a bounded queue; generated concurrent runs checked for loss, order and termination; ASan, TSan and plain")
