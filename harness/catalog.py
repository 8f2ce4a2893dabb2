# catalog.py: runs catalog queries of the tool on made-up catalogs.
# One JSON text a line on stdin:
#   {"key": k, "tables": {name: [[column...], [row]...]}, "query": q, "args": [...], "dialect": d, ...}
# The tables are kept under their key; later requests leave them out.
# The answer: {"cols": [...], "rows": [...]}, {"err": message}, {"need": true} if
# the tables are not known, or {"unsupported": message} if the query is beyond
# this simulation.
import collections, json, re, sqlite3, sys

def unescape(s):
    out, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            i += 1
            out += {"n": "\n", "t": "\t", "r": "\r"}.get(s[i], s[i])
        else:
            out += c
        i += 1
    return "'" + out + "'"

# strings, comments, E'' strings and casts of postgres
TOK = re.compile(r"""--[^\n]*|/\*.*?\*/|\b[Ee]'((?:[^'\\]|\\.|'')*)'|'(?:[^']|'')*'|"((?:[^"]|"")*)"|::\s*[A-Za-z_]+(?:\[\])?|\$([0-9]+)""", re.S)

def translate(q, dialect):
    def f(m):
        t = m.group(0)
        if t.startswith("--") or t.startswith("/*"):
            return " "
        if t[0] in "eE":
            return unescape(m.group(1))
        if t[0] == '"' and dialect in ("mysql", "spanner"):
            return "'" + m.group(2).replace("'", "''") + "'"
        if t.startswith("::") and dialect in ("postgres", "cockroachdb"):
            return ""
        if t.startswith("$"):
            return "?" + m.group(3)
        return t
    return TOK.sub(f, q)

# what the real catalogs have and these do not
UNKNOWN = set("""udt_name udt_schema character_octet_length 
interval_type is_updatable
collation_name conkey confkey conindid confdeltype confupdtype conbin indkey indexrelid indrelid
reltuples relowner column_type column_key extra column_comment table_comment create_options table_collation
auto_increment statistics allocated_storage is_stored is_insertable_into is_typed commit_action
self_referencing_column_name is_deferrable initially_deferred enforced""".split())

def like(pattern, s):
    if pattern is None or s is None:
        return None
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in str(pattern))
    return int(re.fullmatch(rx, str(s), re.S) is not None)

def regexp_replace(s, pattern, repl, flags=""):
    if None in (s, pattern, repl):
        return None
    r = re.sub(r"\\(?=[^0-9&\\])", "", repl)
    return re.sub(pattern, lambda m: re.sub(r"\\([0-9&])", lambda x: m.group(0 if x.group(1) == "&" else int(x.group(1))) or "", r), s, count=0 if "g" in flags else 1)

def setup(r):
    db = sqlite3.connect(":memory:")
    for s in ("information_schema", "pg_catalog"):
        db.execute(f"ATTACH ':memory:' AS {s}")
    name = r.get("database", "")
    def fn(n, k, f):
        db.create_function(n, k, f)
    fn("database", 0, lambda: name)
    fn("schema", 0, lambda: name)
    fn("current_schema", 0, lambda: "public")
    fn("current_database", 0, lambda: name)
    if r["dialect"] == "mysql":
        fn("concat", -1, lambda *a: None if None in a else "".join(str(x) for x in a))
    else:
        fn("concat", -1, lambda *a: "".join(str(x) for x in a if x is not None))
    reserved = set(r.get("reserved") or [])
    fn("quote_ident", 1, lambda s: s if s is None or re.fullmatch(r"[a-z_][a-z0-9_$]*", s) and s not in reserved else '"' + s.replace('"', '""') + '"')
    fn("quote_literal", 1, lambda s: None if s is None else "'" + str(s).replace("'", "''") + "'")
    defs = r.get("constraintdefs", {})
    for n in (1, 2):
        fn("pg_get_constraintdef", n, lambda *a: defs.get(str(a[0])))
    idefs = r.get("indexdefs", {})
    for n in (1, 2, 3):
        fn("pg_get_indexdef", n, lambda *a: idefs.get(str(a[0])))
    types = r.get("types", {})
    fn("format_type", 2, lambda o, m: None if o is None else types.get(f"{o}:{-1 if m is None else m}", "???"))
    for n in (2, 3):
        fn("pg_get_expr", n, lambda *a: None if a[0] is None else str(a[0]).removeprefix("node:"))
    fn("regexp_replace", 3, regexp_replace)
    fn("regexp_replace", 4, regexp_replace)
    fn("array_to_string", 2, lambda a, b: a)
    fn("starts_with", 2, lambda a, b: None if a is None or b is None else int(a.startswith(b)))
    fn("left", 2, lambda a, n: None if a is None else a[:n])
    fn("right", 2, lambda a, n: None if a is None else a[-n:] if n else "")
    fn("position", 2, lambda a, b: 0)
    fn("like", 2, like)
    for t, (cols, *rows) in r["tables"].items():
        db.execute(f"CREATE TABLE {t} ({', '.join(cols)})")
        db.executemany(f"INSERT INTO {t} VALUES ({', '.join('?' * len(cols))})", rows)
    return db

known = collections.OrderedDict()
for line in sys.stdin:
    r = json.loads(line)
    key = r["key"]
    if key not in known and "tables" not in r:
        print('{"need": true}', flush=True)
        continue
    try:
        if key not in known:
            known[key] = setup(r)
            while len(known) > 40:
                known.popitem(last=False)[1].close()
        db = known[key]
        q = translate(r["query"], r["dialect"]).strip().rstrip(";")
        words = {w.lower() for w in re.findall(r"[A-Za-z_]+", re.sub(r"'(?:[^']|'')*'", "", q))}
        if words & UNKNOWN:
            out = {"unsupported": f"columns {sorted(words & UNKNOWN)}"}
        else:
            cur = db.execute(q, r.get("args") or [])
            bools = set(r.get("bools") or [])
            cols = [d[0] for d in cur.description]
            out = {"cols": cols, "rows": [[bool(v) if v is not None and c.upper() in bools else v for c, v in zip(cols, row)] for row in cur.fetchall()]}
    except sqlite3.Error as e:
        m = str(e)
        real = re.match(r"no such column|ambiguous column", m) or re.match(r"no such table", m) and not re.search(r"pg_|information_schema|crdb_|performance_schema", m, re.I) \
            or re.match(r"Incorrect number of bindings", m)
        out = {"err" if real else "unsupported": m}
    print(json.dumps(out), flush=True)
