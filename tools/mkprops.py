import json
P=[]
DD="pkg/ddl/{d}/"
def dfiles(*names):
    return [f"pkg/ddl/{d}/{n}" for d in ("postgres","cockroachdb","mysql","spanner") for n in names]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe,hook_needed=hook)))

p("C01","Reading any text as DDL ends in a schema or an error, never in a crash or a hang",
 "For every byte string given as a DDL source in any of the four dialects, reading it terminates and yields either a schema or an error. It never panics, never loops forever, and whatever schema it does yield can be printed and compared (with itself, with an empty schema and with another schema that was read) without a crash.",
 ["inputs"],"every text (valid DDL, DDL mutated or truncated at any byte, token soup, arbitrary bytes), in each dialect",
 "The texts a user can feed are unbounded; the unit tests hold a few dozen fixed malformed statements, while crashes hide in truncations inside quotes, odd token orders and missing names.",
 dfiles("lexar.go","parser.go"),
 [("lexer","pkg/ddl/*/lexar.go Lexer.NextToken / readQuotedLiteral"),("recursive descent parser","pkg/ddl/*/parser.go Parser.Parse")],
 ["NewParser(NewLexer(text)).Parse()","DDL.String()","Diff"])
p("C02","Printed DDL reads back as the same schema",
 "Whenever a DDL text is accepted, printing the resulting schema gives a text that is accepted again, denotes the same schema, and prints identically the second time. Comparing the original reading with the re-read one reports no difference.",
 ["inputs","programs"],"every DDL text the tool accepts, in each dialect",
 "Holds over the whole product of types, column attributes, constraints, options, quoting and ordering; tests compare a handful of fixed statements with fixed strings and never re-read what is printed.",
 dfiles("parser.go","ddl_table.go","ddl_table_create.go","ddl_index_create.go"),
 [("printer","pkg/ddl/*/ddl_table_create.go, ddl_table.go, ddl_index_create.go String methods"),("parser","pkg/ddl/*/parser.go")],
 ["DDL.String()","Parse","Diff"])
p("C03","The schema read from DDL is exactly the schema the DDL declares",
 "For every DDL text in the supported grammar, the schema that is read contains exactly the declared tables, columns (order, type, nullability, default, identity/visibility/generation/comment attributes), primary keys, foreign keys with their actions, unique and check constraints, indexes and table options. Nothing is dropped, invented, merged or attached to another object, and inline (column-level) constraints carry the same meaning as the table-level form.",
 ["inputs","programs"],"every supported schema and every way of writing it (inline or table-level constraints, any supported attribute order), in each dialect",
 "The number of combinations of attributes, their order and their position (last column, before a constraint, before another attribute) is combinatorial; tests fix one or two positions for each attribute.",
 dfiles("parser.go","ddl_table.go"),
 [("column parsing","pkg/ddl/*/parser.go parseColumn / parseColumnDefault / parseColumnConstraints"),("table constraint parsing","pkg/ddl/*/parser.go parseTableConstraint"),("index parsing","pkg/ddl/*/parser.go parseCreateIndexStmt")],
 ["DDL.String() of the parsed text, read by an independent SQL reader"])
p("C04","Layout, comments, keyword case and optional quoting never change the schema",
 "Two DDL texts that differ only in white space, line comments, letter case of keywords and type names, redundant quoting of identifiers or surplus semicolons are read as the same schema: both are accepted or both rejected, and the difference between them is empty in both directions. Text inside quotes is never treated as a comment or a keyword.",
 ["inputs"],"every supported DDL text and every meaning-preserving re-layout of it, in each dialect",
 "A metamorphic relation over unbounded rewritings; tests keep one layout per statement.",
 dfiles("lexar.go","parser.go","ddl.go"),
 [("lexer white space, comments, keywords","pkg/ddl/*/lexar.go"),("identifier normalisation","pkg/ddl/*/parser.go NewRawIdent, pkg/ddl/*/ddl.go StringForDiff")],
 ["Parse","Diff"])
p("C05","Applying the difference turns the first schema into the second",
 "For every pair of schemas of the same dialect, executing on the first schema the statements the tool emits as the difference yields exactly the second schema: same tables, columns with all their attributes, constraints, indexes and options. This covers creating from nothing and dropping everything.",
 ["inputs","programs"],"every ordered pair of supported schemas (any number of simultaneous additions, removals, alterations and renamed constraints), in each dialect",
 "Convergence must hold for every pair, including several simultaneous changes that interact; tests assert fixed output strings for single changes and never execute the migration.",
 dfiles("diff.go","diff_create_table.go","ddl_table_alter.go"),
 [("statement-level diff","pkg/ddl/*/diff.go Diff"),("table diff","pkg/ddl/*/diff_create_table.go DiffCreateTable"),("alter printing","pkg/ddl/*/ddl_table_alter.go")],
 ["Diff(before, after).String() executed by a reference schema engine"])
p("C06","Every statement of a migration is executable at its place in the sequence",
 "For every pair of valid schemas, each emitted migration statement is well-formed for the dialect and refers only to objects that exist (and creates only objects that do not yet exist) at the moment it runs. Tables, columns, indexes and constraints are created before they are used and are no longer used when they are dropped, so the sequence never fails half-way.",
 ["inputs","programs"],"every ordered pair of supported schemas, in each dialect, executed statement by statement",
 "Ordering bugs need two or more related objects changing at once (an index on a new column, a dropped table with an index, two new tables where one references the other); tests compare text only.",
 dfiles("diff.go","diff_create_table.go","ddl_table_alter.go"),
 [("phase order","pkg/ddl/*/diff.go Diff"),("order inside a table","pkg/ddl/*/diff_create_table.go DiffCreateTable")],
 ["Diff(before, after).String() executed by a reference schema engine that rejects dangling or duplicate references"])
p("C07","No difference is reported exactly when there is none",
 "Comparing two schemas that declare the same objects (whatever the order of statements and constraints, spelling of equivalent types, or naming of implicit defaults) reports that there is no difference. Comparing two schemas that differ in any declared object or attribute reports a difference that names the differing object.",
 ["inputs","programs"],"every schema paired with an equivalent writing of itself, and with every single semantic change of it, in each dialect",
 "Both directions quantify over all schemas and all single changes; a missed attribute or an unstable order shows only for the particular attribute, position and combination.",
 dfiles("diff.go","diff_create_table.go","ddl_table.go","ddl.go"),
 [("comparison strings","pkg/ddl/*/ddl_table.go, ddl.go StringForDiff"),("diff","pkg/ddl/*/diff.go, diff_create_table.go")],
 ["Diff(before, after)","ddl.ErrNoDifference"])
p("C08","A migration touches nothing that did not change",
 "Every object that is identical in both schemas is left alone: no emitted statement creates, drops, alters, recreates or renames a table, column, constraint or index that both schemas declare identically, except where the dialect cannot change a dependent object in place. In particular an unchanged table is never dropped, so its data survives the migration.",
 ["inputs","programs"],"every pair of schemas that agree on at least one object, in each dialect",
 "A surplus DROP destroys data and can be triggered by an unrelated neighbouring change; tests cover each change in isolation on tiny schemas.",
 dfiles("diff.go","diff_create_table.go"),
 [("diff","pkg/ddl/*/diff.go Diff, findStmtByTypeAndName"),("table diff","pkg/ddl/*/diff_create_table.go")],
 ["objects touched by Diff(before, after) as seen by a reference engine with data-carrying identities"])
p("C09","Comparing is pure and deterministic",
 "Computing or printing a difference never alters the schemas being compared: they print the same before and after, and repeating the comparison gives byte-identical output. The result does not depend on what was compared earlier in the process.",
 ["inputs","histories"],"every pair of schemas and every sequence of comparisons, reversals and prints over them",
 "Aliasing and in-place sorting show only when a schema is used again after a comparison; tests compare once and throw the schemas away.",
 dfiles("diff.go","diff_create_table.go","ddl_table.go","ddl_table_alter.go"),
 [("diff","pkg/ddl/*/diff.go"),("table diff rename handling and shared nodes","pkg/ddl/*/diff_create_table.go"),("option and constraint sorting","pkg/ddl/*/ddl_table.go")],
 ["DDL.String() before/after Diff","repeated Diff"])
p("C10","DDL generated from annotated Go source declares exactly what the annotations say",
 "For every Go source whose structs carry the DDL annotations, the generated DDL declares exactly the annotated tables, with one column per tagged field in field order and with its exact definition, the primary key from the key tags, the annotated constraints, table options and indexes, and nothing for unannotated structs or skipped fields. Comments around the annotations never leak into the DDL.",
 ["inputs","programs"],"every Go source file with any number of annotated and unannotated structs, in any declaration form, in each supported dialect",
 "The space of struct layouts, tags, comment placements and annotation orders is unbounded; tests generate from one or two fixture files.",
 ["pkg/internal/lang/go/parse.go","pkg/internal/lang/go/extract_source.go","pkg/internal/lang/util/regex.go","pkg/internal/lang/util/trim.go","pkg/internal/generator/ddl.go"]+[f"pkg/internal/generator/dialect/{d}/{f}" for d in ("mysql","postgres","spanner") for f in ("create_table.go","create_index.go")],
 [("Go source extraction","pkg/internal/lang/go/extract_source.go, parse.go"),("dialect fprint","pkg/internal/generator/dialect/*/create_table.go, create_index.go")],
 ["ddlctl generate output, read by an independent SQL reader"])
p("C11","Generated DDL is accepted by the tool and equals its sources",
 "For every annotated source tree, the generated DDL is accepted by the tool for that dialect, and comparing the generated file with the source it came from (in either direction) reports no difference. Generation is deterministic, covers every non-test source file below the directory and is the union of what each file yields alone.",
 ["inputs","programs"],"every directory tree of annotated Go files (nested, with test files and non-Go files), in each supported dialect",
 "Cross-module agreement between generator, parser and directory walk over arbitrary trees; tests check a single fixture file against fixed text.",
 ["pkg/ddlctl/generate/ddlctl_generate.go","pkg/ddlctl/diff/ddlctl_diff.go","pkg/internal/lang/go/parse.go"]+[f"pkg/internal/generator/dialect/{d}/create_table.go" for d in ("mysql","postgres","spanner")],
 [("directory walk","pkg/internal/lang/go/parse.go"),("input resolution","pkg/ddlctl/diff/ddlctl_diff.go resolve")],
 ["ddlctl generate output","ddlctl diff output"])
p("C12","Diffing works alike for files, source directories and live databases",
 "The difference command gives the same migration for the same two schemas however each side is supplied: as a DDL file, as a directory of annotated sources or as a database connection. Equal schemas print nothing and succeed; the direction is always from the first argument to the second.",
 ["inputs","configurations"],"every pair of schemas and every combination of input kinds",
 "A relation between all combinations of input kinds and schemas; tests use two fixed files.",
 ["pkg/ddlctl/diff/ddlctl_diff.go","pkg/ddlctl/show/ddlctl_show.go","pkg/ddlctl/generate/ddlctl_generate.go"],
 [("input resolution","pkg/ddlctl/diff/ddlctl_diff.go resolve"),("command","pkg/ddlctl/diff/ddlctl_diff.go Command")],
 ["ddlctl diff stdout and exit status"])
p("C13","Showing a database reproduces its schema",
 "For every database, the show command prints DDL that the tool accepts and that declares exactly the tables, columns, keys, constraints and indexes of the database's catalog, each once. System objects and other schemas are never included, and a failing catalog query is reported as an error rather than printed as an empty or partial schema.",
 ["inputs","fault_sequences"],"every catalog content and every failure point of the catalog queries, in each dialect",
 "Catalog contents and query failures are unbounded combinations; tests feed one fixed row set to a stub.",
 ["pkg/show/postgres/show_create_all_tables.go","pkg/show/mysql/show_create_all_tables.go","pkg/show/cockroachdb/show_create_all_tables.go","pkg/show/spanner/show_create_all_tables.go","pkg/ddlctl/show/ddlctl_show.go"],
 [("catalog queries","pkg/show/*/show_create_all_tables.go"),("command","pkg/ddlctl/show/ddlctl_show.go")],
 ["ddlctl show stdout against a simulated database"])
p("C14","Apply executes exactly the displayed statements, in order, once each",
 "When approved, apply runs on the database exactly the statements it displayed as the difference between the database and the source: each whole statement once, in the displayed order, with nothing but comments and empty lines left out. No statement is split, merged, truncated, repeated after success or skipped, whatever text its literals contain.",
 ["inputs","programs"],"every database schema and every source schema, in each dialect",
 "Statement splitting and comment removal must be right for every text, including literals containing comment or separator characters; tests run against a stub with one statement.",
 ["pkg/ddlctl/apply/ddlctl_apply.go","pkg/internal/util/remove_comment.go"],
 [("statement splitting and execution","pkg/ddlctl/apply/ddlctl_apply.go"),("comment removal","pkg/internal/util/remove_comment.go")],
 ["statements received by a simulated database","ddlctl apply stdout"])
p("C15","Nothing is executed without approval",
 "Apply changes the database only when automatic approval was requested or the operator answered the prompt with exactly yes. For any other answer, end of input, no difference, or any error before approval, no data-definition statement reaches the database.",
 ["inputs","configurations"],"every answer, every approval configuration and every pair of schemas",
 "Quantifies over all answers and configurations; tests try one answer of each sort.",
 ["pkg/ddlctl/apply/ddlctl_apply.go","pkg/internal/config/auto_approve.go"],
 [("prompt","pkg/ddlctl/apply/ddlctl_apply.go"),("auto approve option","pkg/internal/config/auto_approve.go")],
 ["statements received by a simulated database","exit status"])
p("C16","A failed apply is reported as a failure",
 "If connecting, reading the schema, executing any statement, committing a batch or parsing either side fails, apply ends with an error that carries the cause, and never reports success. Statements after a failing one that depend on it are not silently dropped while success is claimed: success means that every displayed statement was executed without error.",
 ["fault_sequences","inputs"],"every migration and every position and kind of injected database fault, transient or permanent",
 "The failing position and error combine with every migration; tests inject one error at one place.",
 ["pkg/ddlctl/apply/ddlctl_apply.go","pkg/ddlctl/show/ddlctl_show.go"],
 [("execution and retry","pkg/ddlctl/apply/ddlctl_apply.go")],
 ["exit status and error of ddlctl apply against a faulty simulated database"])
p("C17","Apply converges: afterwards the database equals the source, over any history",
 "After a successful apply the database has exactly the source's schema, and a further diff or apply finds nothing to do. This holds along every history of successive source versions applied one after the other.",
 ["histories","programs"],"every sequence of source schema versions applied to one database, in each dialect",
 "Errors accumulate only over sequences where the live schema, read back through the database's own rendering, meets the next version; no test applies twice.",
 ["pkg/ddlctl/apply/ddlctl_apply.go","pkg/ddlctl/diff/ddlctl_diff.go"]+[f"pkg/ddl/{d}/diff.go" for d in ("postgres","cockroachdb","mysql","spanner")],
 [("apply","pkg/ddlctl/apply/ddlctl_apply.go"),("diff","pkg/ddl/*/diff.go")],
 ["simulated database catalog after each apply","next diff"])
p("C18","Wrong invocations are refused with an error and no effect",
 "For every command line, missing or surplus arguments, unknown dialects, languages or options, unreadable inputs and unparsable DDL lead to an error message and a failing status, never to a crash, to partial output that looks like success, or to a database being touched. Valid options given by flag take precedence over the environment, which takes precedence over the default.",
 ["inputs","configurations"],"every argument vector and environment over the documented commands and options",
 "The product of commands, options, environment values and argument counts is large; tests build contexts directly and skip the command line.",
 ["pkg/ddlctl/ddlctl.go","pkg/internal/config/config.go","pkg/ddlctl/generate/ddlctl_generate.go","pkg/ddlctl/show/ddlctl_show.go","pkg/ddlctl/diff/ddlctl_diff.go","pkg/ddlctl/apply/ddlctl_apply.go","pkg/internal/contexts/args.go"],
 [("command table","pkg/ddlctl/ddlctl.go"),("option loading","pkg/internal/config/config.go")],
 ["exit status, stdout, stderr of the command"])
p("C19","Generate writes its result only to the destination, and only on success",
 "Generate leaves the complete DDL of the source in the destination, replacing whatever was there, and changes no other file. If it fails, a destination that already existed keeps its content.",
 ["inputs","fault_sequences"],"every source (valid or broken) and every prior state of the destination",
 "The interaction of failing sources with existing destinations is never exercised by tests, which write to fresh files.",
 ["pkg/ddlctl/generate/ddlctl_generate.go"],
 [("destination handling","pkg/ddlctl/generate/ddlctl_generate.go Command")],
 ["file system below a scratch directory after ddlctl generate"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
