#!/usr/bin/env python3
"""Writes known_findings.json (run by hand, never by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
findings = [
    ("C06", "C06.mysql-drop-index-without-table", "MySQL: an index is dropped with DROP INDEX name, without ON table, which MySQL rejects (the text is pinned by the existing tests)"),
    ("C03", "C03.cockroachdb-index-named-like-constraint", "CockroachDB: of an index and a foreign key of one table that share a name only the later one is kept (constraints and inline indexes are one list, identified by name)"),
    ("C03", "C03.mysql-index-named-like-constraint", "MySQL: of an index and a foreign key of one table that share a name only the later one is kept (constraints and inline indexes are one list, identified by name)"),
] + [
    ("C06", f"C06.{d}-cyclic-{w}", f"{d}: foreign keys of two tables that refer to each other: {t}")
    for d in ("postgres", "cockroachdb", "mysql", "spanner")
    for w, t in (("create", "CREATE TABLE of the first holds the foreign key to the second, which does not exist yet"), ("drop", "the first is dropped while the second still refers to it"))
]
fixed = [  # property, commit, input name, what failed
    ("C02", "1860fe9", "unterminated, escaped or empty quotes and NUL bytes lost text or made the lexer read past the end"),
    ("C03", "3b3e2d4", "NULL, REFERENCES, CHECK and table-level CHECK of a column list were dropped (postgres, cockroachdb)"),
    ("C02", "f41f155", "operators of two or more characters were split and printed apart"),
    ("C03", "522b945", "foreign key actions were dropped (mysql)"),
    ("C07", "05a5612", "implicit constraint names included the quotation marks of a column or table"),
    ("C03", "2d6bd8c", "several unnamed constraints of one table were merged into one"),
    ("C07", "517fd32", "the column order of a Spanner primary key was not compared"),
    ("C03", "c5526c2", "lower-case ROW DELETION POLICY was rejected or misread (spanner)"),
    ("C03", "03b0758", "OPTIONS after DEFAULT was rejected (spanner)"),
    ("C06", "40e7939", "migration statements were emitted in an order in which they fail"),
    ("C05", "c99aca0", "changed visibility and computed expressions were not migrated (cockroachdb), MODIFY lost the character set (mysql)"),
    ("C05", "039bbb9", "indexes, foreign keys and interleaved tables of a recreated table were lost (spanner)"),
    ("C07", "e0420da", "string literals were compared without quotes, so 'A' and the name A were equal (mysql, spanner)"),
    ("C05", "eb1b1b2", "the method of an index was not compared (postgres)"),
    ("C05", "7e21bcb", "a removed table comment was not migrated (mysql)"),
    ("C07", "935298d", "equivalent spellings of one data type were reported as different"),
    ("C07", "fd5ffa3", "an index inside CREATE TABLE and the same CREATE INDEX were reported as different (mysql, cockroachdb)"),
    ("C03", "bd58499", "an implicit constraint name that needs quotes was printed without them"),
    ("C02", "f60ce09", "AUTO_INCREMENT was printed behind DEFAULT, where it is not read (mysql); AS without an expression was accepted (cockroachdb)"),
    ("C10", "5cf5c5c", "annotations and prose of a Go block comment were read as one line"),
    ("C10", "93c4714", "a comment next to a Go type counted as its annotation; an index could be printed before its table"),
    ("C10", "20cd2a2", "annotations of any tag were obeyed, not just those of the given Go DDL tag"),
    ("C10", "802f047", "fields without tag, embedded, declared together or with an interpreted string tag were dropped or crashed generate"),
    ("C11", "46e8404", "mysql table options separated by commas were rejected, so generated DDL could not be read back"),
    ("C19", "1aa3fea", "a generate that failed had already truncated or half written its destination; missing arguments crashed it"),
    ("C18", "4301335", "show without an argument crashed, surplus arguments were ignored"),
    ("C18", "8b8e5a1", "an unknown subcommand ended with status 0"),
    ("C18", "638002f", "a closing parenthesis between statements was ignored"),
    ("C18", "44b20b0", "DEFAULT without a value was accepted"),
    ("C18", "b8cefe3", "expressions and operator classes in an index were misread as columns, text behind CREATE INDEX was ignored"),
    ("C07", "21974df", "DEFAULT NULL was reported as different from no default (mysql, postgres, cockroachdb)"),
    ("C07", "b1a0114", "NOT NULL on a primary key column was reported as a difference (mysql, postgres, cockroachdb)"),
    ("C07", "10f8664", "TIMESTAMP (p) WITH/WITHOUT TIME ZONE, as the catalogs write it, was refused (postgres, cockroachdb)"),
    ("C07", "ac6ef0d", "ON DELETE NO ACTION was reported as different from no action (mysql, postgres, cockroachdb)"),
    ("C07", "b40e3ee", "an interleaved table was dropped and created anew over an explicit ON DELETE NO ACTION (spanner)"),
    ("C05", "0ef32cc", "a qualified name with a quoted part was refused, implicit constraint names with upper-case letters were not quoted (postgres, cockroachdb)"),
    ("C13", "bde0e68", "show listed a view of the database, and failed on it (mysql)"),
    ("C13", "c383ece", "show printed views, and foreign keys as ALTER TABLE statements, which cannot be read back (cockroachdb)"),
    ("C13", "d7dd47a", "show lost foreign key references, checks, type modifiers and quotes, and listed views as tables (postgres)"),
    ("C13", "694d72f", "show gave every index the columns of all indexes of its table (spanner)"),
    ("C13", "018cd8e", "show lost the order of primary key columns (spanner)"),
    ("C13", "bb88554", "show listed views as tables and printed DEFAULT before NOT NULL (spanner)"),
    ("C13", "febdd75", "show lost foreign keys, checks and INTERLEAVE IN PARENT (spanner)"),
    ("C13", "4ef2116", "show did not quote names that need it (spanner)"),
    ("C13", "59ab822", "show did not quote names that ddlctl reads as keywords (spanner)"),
    ("C13", "ec0d5ac", "show failed on the two columns of SHOW CREATE TABLE (cockroachdb)"),
    ("C14", "4fe6514", "apply repeated all statements after one failed, and split statements inside literals"),
    ("C12", "5199b61", "columns of a dropped primary key stayed NOT NULL against the second schema (mysql, postgres, cockroachdb)"),
    ("C16", "e088f3a", "apply ran statements that come after a failed one before retrying it, and then undid them (mysql, cockroachdb)"),
    ("C16", "c167396", "apply hid a failed foreign key behind the failures it led to: the error told only the last one (mysql)"),
    ("C12", "4ea6b23", "diff added the hidden column of a hash-sharded index of the database (cockroachdb)"),
    ("C07", "da665c6", "the NULL that follows DEFAULT was read as a part of the default value (mysql)"),
    ("C03", "5ae1c5d", "column constraints that follow COMMENT were refused, or named as if they were the table's (mysql)"),
    ("C06", "0011897", "the index of a foreign key was dropped before the foreign key, which MySQL refuses"),
    ("C03", "a3a50ec", "non-ASCII letters of unquoted names were broken up into single bytes"),
    ("C03", "961f277", "a prefixed string literal such as E'...', b'...' or _utf8mb4'...' was torn into two tokens"),
    ("C14", "ef3e1f5", "apply split a statement inside an E'...' literal with an escaped quotation mark (cockroachdb)"),
    ("C05", "057712f", "the exponent of a number such as 1e-5 was torn off"),
    ("C06", "af06530", "operators such as <->, <<= and !~* were torn into pieces (postgres, cockroachdb)"),
    ("C10", "296dc23", "generate did not double the quotation marks inside of column names (postgres, cockroachdb, mysql)"),
    ("C11", "ff44cca", "no tables were found in a source that is a symbolic link to a directory: diff and apply would drop everything"),
    ("C02", "90094b5", "a computed column with a DEFAULT was accepted, and printed as what cannot be read (cockroachdb)"),
]
extra = {}
if os.path.exists(V + "/tools/known_extra.json"):
    extra = json.load(open(V + "/tools/known_extra.json"))
out = {"findings": [], "fixed": []}
for p, n, w in findings + [tuple(x) for x in extra.get("findings", [])]:
    out["findings"].append({"property": p, "what": w, "input": f"known/{n}.json"})
for p, c, w in fixed + [tuple(x) for x in extra.get("fixed", [])]:
    e = {"property": p, "commit": c, "line": f"fixed: property={p} {c} {w}"}
    if os.path.exists(f"{V}/known/fixed.{c}.json"):
        e["input"] = f"known/fixed.{c}.json"
    out["fixed"].append(e)
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
