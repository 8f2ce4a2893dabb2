package zzverif

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/zzdriver"
)

// ---------------------------------------------------------------------------
// A database the command talks to: statements are executed by the engine, and
// the catalogs are made from what the engine holds, among things of no concern
// (system tables, views, other schemas), in random order where none is asked
// for.
// ---------------------------------------------------------------------------

type fakeDB struct {
	mu      sync.Mutex
	dialect string
	dsns    map[string]*Engine
	noise   uint64
	faults  []fault
	calls   []dbCall
	counts  map[string]int
	conns   map[int]*fakeConn
	nconn   int
	limit   string // why the simulation could not answer
}

// fault makes calls fail.
type fault struct {
	Op    string `json:"op"`    // open, ping, query, rows, exec, close, batch
	Nth   int    `json:"nth"`   // which of them, from 1; 0 is all
	Match string `json:"match"` // only those whose text has this in it
	Times int    `json:"times"` // how often; 0 is for ever
	Bad   bool   `json:"bad"`   // as a broken connection
	Say   string `json:"say"`   // what a real database might add
	Hit   int    `json:"-"`
}

const faultText = "zz-injected-failure"

type dbCall struct {
	Op, DSN, Query string
	Err            string
}

type fakeConn struct {
	dsn   string
	e     *Engine
	batch []string
	in    bool
	tx    *Schema
}

func newFakeDB(dialect string, noise int, dbs map[string]*Schema) *fakeDB {
	db := &fakeDB{dialect: dialect, noise: mix(uint64(noise) + 77), dsns: map[string]*Engine{}, counts: map[string]int{}, conns: map[int]*fakeConn{}}
	for dsn, s := range dbs {
		e := NewEngineFrom(dbForm(s))
		e.LenientDropIndex = true
		db.dsns[dsn] = e
	}
	return db
}

func (db *fakeDB) fails(op, text string) (string, bool) {
	db.counts[op]++
	for i := range db.faults {
		f := &db.faults[i]
		if f.Op != op || f.Match != "" && !strings.Contains(text, f.Match) || f.Nth > 0 && db.counts[op] < f.Nth || f.Nth > 0 && f.Times == 0 && db.counts[op] != f.Nth || f.Times > 0 && f.Hit >= f.Times {
			continue
		}
		if strings.Contains(f.Say, "add foreign key") && !strings.Contains(text, "FOREIGN KEY") {
			continue // MySQL says so of no other statement
		}
		f.Hit++
		return strings.TrimSpace(f.Say + " " + faultText + " " + op), f.Bad
	}
	return "", false
}

func (db *fakeDB) Call(c *zzdriver.Call) *zzdriver.Reply {
	db.mu.Lock()
	defer db.mu.Unlock()
	r := db.answer(c)
	dsn := c.DSN
	if cn := db.conns[c.Conn]; cn != nil && dsn == "" {
		dsn = cn.dsn
	}
	e := r.Err
	if r.BadConn && e == "" {
		e = "bad connection"
	}
	db.calls = append(db.calls, dbCall{Op: c.Op, DSN: dsn, Query: c.Query, Err: e})
	return r
}

func (db *fakeDB) answer(c *zzdriver.Call) *zzdriver.Reply {
	bad := func(f string, a ...any) *zzdriver.Reply { return &zzdriver.Reply{Err: fmt.Sprintf(f, a...)} }
	if c.Op == "exec" {
		w := strings.ToUpper(strings.TrimSpace(c.Query))
		if strings.HasPrefix(w, "RUN BATCH") {
			if msg, b := db.fails("batch", c.Query); msg != "" {
				return &zzdriver.Reply{Err: msg, BadConn: b}
			}
		}
	}
	if msg, b := db.fails(c.Op, c.Query); msg != "" {
		return &zzdriver.Reply{Err: msg, BadConn: b}
	}
	if c.Op == "open" {
		want := map[string]string{PG: "postgres", CR: "postgres", MY: "mysql", SP: "spanner"}[db.dialect]
		if c.Driver != want {
			return bad("driver %q cannot talk to this database", c.Driver)
		}
		e := db.dsns[c.DSN]
		if e == nil {
			return bad("no such database: %s", c.DSN)
		}
		db.nconn++
		db.conns[db.nconn] = &fakeConn{dsn: c.DSN, e: e}
		return &zzdriver.Reply{Conn: db.nconn}
	}
	cn := db.conns[c.Conn]
	if cn == nil {
		return bad("no such connection")
	}
	switch c.Op {
	case "ping":
	case "close":
		delete(db.conns, c.Conn)
	case "begin":
		cn.tx = cn.e.S.cloneKeepIDs()
	case "commit":
		cn.tx = nil
	case "rollback":
		if cn.tx != nil {
			cn.e.S = cn.tx
		}
		cn.tx = nil
	case "exec":
		if err := db.exec(cn, c.Query); err != nil {
			return bad("%v", err)
		}
	case "query":
		r := db.query(cn, c)
		if r.Err == "" {
			if msg, _ := db.fails("rows", c.Query); msg != "" {
				r.RowsErr = msg
				r.Rows = r.Rows[:len(r.Rows)/2]
			}
		}
		return r
	default:
		return bad("unknown call %q", c.Op)
	}
	return &zzdriver.Reply{Conn: c.Conn}
}

func (db *fakeDB) exec(cn *fakeConn, q string) error {
	stmts, err := splitSQL(db.dialect, q)
	if err != nil {
		return fmt.Errorf("syntax error: %w", err)
	}
	if db.dialect == SP {
		switch strings.Join(strings.Fields(strings.ToUpper(strings.TrimRight(strings.TrimSpace(q), ";"))), " ") {
		case "START BATCH DDL":
			if cn.in {
				return fmt.Errorf("a batch is active already")
			}
			cn.in, cn.batch = true, nil
			return nil
		case "ABORT BATCH":
			cn.in, cn.batch = false, nil
			return nil
		case "RUN BATCH":
			if !cn.in {
				return fmt.Errorf("no batch is active")
			}
			l := cn.batch
			cn.in, cn.batch = false, nil
			for _, x := range l {
				if _, err := cn.e.Exec(x); err != nil {
					return err
				}
				cn.e.S = dbForm(cn.e.S)
			}
			return nil
		}
	}
	switch {
	case len(stmts) == 0 && db.dialect != PG && db.dialect != CR:
		return fmt.Errorf("Query was empty")
	case len(stmts) > 1 && db.dialect != PG && db.dialect != CR:
		return fmt.Errorf("syntax error: one statement at a time: %q", q)
	}
	if cn.in {
		cn.batch = append(cn.batch, q)
		return nil
	}
	save := cn.e.S.cloneKeepIDs()
	for _, st := range stmts {
		if err := cn.e.ExecToks(st); err != nil {
			cn.e.S = save
			return err
		}
		cn.e.S = dbForm(cn.e.S)
	}
	return nil
}

// executed lists what was executed without an error, statement by statement,
// each as its tokens, leaving out the batch commands.
func (db *fakeDB) executed(all bool) (out []string) {
	for _, c := range db.calls {
		if c.Op != "exec" || c.Err != "" && !all {
			continue
		}
		if w := strings.ToUpper(c.Query); db.dialect == SP && strings.HasSuffix(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(w), ";")), "BATCH") || db.dialect == SP && strings.HasPrefix(strings.TrimSpace(w), "START BATCH") {
			continue
		}
		out = append(out, stmtTexts(db.dialect, c.Query)...)
	}
	return out
}

// stmtTexts splits a script into statements, each written as its tokens.
func stmtTexts(dialect, script string) (out []string) {
	l, err := splitSQL(dialect, script)
	if err != nil {
		return []string{"malformed: " + script}
	}
	for _, st := range l {
		var w []string
		for _, t := range st {
			w = append(w, t.text)
		}
		out = append(out, strings.Join(w, " "))
	}
	return out
}

func (db *fakeDB) count(op string) (n int) {
	for _, c := range db.calls {
		if c.Op == op {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------------------
// Queries
// ---------------------------------------------------------------------------

var showRE = regexp.MustCompile(`(?is)^\s*(?:--[^\n]*\n\s*)*SHOW\s+(.*?)\s*;?\s*$`)

const appDB = "appdb"

func (db *fakeDB) query(cn *fakeConn, c *zzdriver.Call) *zzdriver.Reply {
	s := dbForm(cn.e.S)
	if m := showRE.FindStringSubmatch(c.Query); m != nil {
		return db.show(s, m[1])
	}
	return db.catalogQuery(s, c)
}

func (db *fakeDB) show(s *Schema, what string) *zzdriver.Reply {
	f := strings.Fields(strings.ToUpper(what))
	rep := func(cols []string, rows ...[]any) *zzdriver.Reply {
		return &zzdriver.Reply{Cols: cols, Rows: db.shuffled(rows)}
	}
	head := func(w ...string) bool {
		return len(f) >= len(w) && strings.Join(f[:len(w)], " ") == strings.Join(w, " ")
	}
	switch {
	case db.dialect == MY && head("TABLES") && len(f) == 1:
		var rows [][]any
		for _, t := range s.Tabs {
			rows = append(rows, []any{t.Name})
		}
		return rep([]string{"Tables_in_" + appDB}, append(rows, []any{"v_all"})...)
	case db.dialect == MY && head("FULL", "TABLES") && len(f) == 2:
		var rows [][]any
		for _, t := range s.Tabs {
			rows = append(rows, []any{t.Name, "BASE TABLE"})
		}
		return rep([]string{"Tables_in_" + appDB, "Table_type"}, append(rows, []any{"v_all", "VIEW"})...)
	case db.dialect == MY && head("CREATE", "TABLE"), db.dialect == CR && head("CREATE", "TABLE"):
		rest := strings.TrimSpace(what[strings.Index(strings.ToUpper(what), "TABLE")+5:])
		toks, err := tokenizeSQL(db.dialect, rest)
		if err != nil || len(toks) != 1 || toks[0].kind != tWord && toks[0].kind != tQIdent {
			return &zzdriver.Reply{Err: "syntax error near " + rest}
		}
		n := toks[0].val
		if toks[0].kind == tWord && db.dialect == CR {
			n = strings.ToLower(n)
		}
		if db.dialect == MY {
			n = strings.TrimPrefix(n, appDB+".")
			if t := s.tab(n); t != nil {
				return rep([]string{"Table", "Create Table"}, []any{n, mysqlShow(s, t)})
			}
			if n == "v_all" {
				return rep([]string{"View", "Create View", "character_set_client", "collation_connection"}, []any{n, "CREATE VIEW `v_all` AS select 1 AS `1`", "utf8mb4", "utf8mb4_0900_ai_ci"})
			}
		} else {
			t := s.tab(n)
			if t == nil {
				t = s.tab("public." + n)
			}
			if t != nil {
				return rep([]string{"table_name", "create_statement"}, []any{n, crdbShow(s, t, true)})
			}
		}
		return &zzdriver.Reply{Err: fmt.Sprintf("relation %q does not exist", n)}
	case db.dialect == CR && head("CREATE", "ALL", "TABLES") && len(f) == 3:
		r := &zzdriver.Reply{Cols: []string{"create_statement"}, Rows: [][]any{}}
		for _, t := range s.Tabs {
			r.Rows = append(r.Rows, []any{crdbShow(s, t, false) + ";"})
		}
		r.Rows = append(r.Rows, []any{"CREATE VIEW public.v_all (\n\tn\n) AS SELECT 1;"})
		for _, t := range s.Tabs {
			for _, k := range t.Cons {
				if k.Kind == KFK {
					r.Rows = append(r.Rows, []any{"ALTER TABLE " + qualName(db.dialect, t.Name) + " ADD CONSTRAINT " + dbQuote(db.dialect, k.Name) + " " + fkText(db.dialect, k, false) + ";"})
				}
			}
		}
		return r
	}
	db.limit = "SHOW " + what
	return &zzdriver.Reply{Err: "zz: this database cannot do SHOW " + what}
}

// dbQuote quotes a name where the database does so itself.
func dbQuote(d, n string) string {
	return quoteIdent(d, n, d == MY || mustQuote(n) || strings.Contains(n, "."))
}

// qualName writes a table name with its schema, if it has one.
func qualName(d, n string) string {
	if qualified(d, n) {
		return "public." + dbQuote(d, n[len("public."):])
	}
	return dbQuote(d, n)
}

func keyText(d string, l []string, asc string) string {
	var out []string
	for _, c := range l {
		x := dbQuote(d, colOf(c))
		if strings.HasSuffix(c, " DESC") {
			x += " DESC"
		} else {
			x += asc
		}
		out = append(out, x)
	}
	return strings.Join(out, ", ")
}

func fkText(d string, c *Con, bareRef bool) string {
	ref := qualName(d, c.RefTable)
	if bareRef {
		ref = dbQuote(d, bare(c.RefTable))
	}
	sp := ""
	if d == MY {
		sp = " "
	}
	x := "FOREIGN KEY (" + keyText(d, c.Cols, "") + ") REFERENCES " + ref + sp + "(" + keyText(d, c.RefCols, "") + ")"
	if c.OnUpdate != "" && d == PG {
		x += " ON UPDATE " + c.OnUpdate
	}
	if c.OnDelete != "" {
		x += " ON DELETE " + c.OnDelete
	}
	if c.OnUpdate != "" && d != PG {
		x += " ON UPDATE " + c.OnUpdate
	}
	return x
}

func mysqlShow(s *Schema, t *Tab) string {
	var l []string
	for _, c := range t.Cols {
		x := dbQuote(MY, c.Name) + " " + mysqlType(c.Type)
		if c.CharSet != "" {
			x += " CHARACTER SET " + c.CharSet
		}
		if c.Collate != "" {
			x += " COLLATE " + c.Collate
		}
		name, _, _ := strings.Cut(c.Type, "(")
		switch {
		case c.NotNull:
			x += " NOT NULL"
		case name == "TIMESTAMP":
			x += " NULL"
		}
		switch {
		case c.Default != "":
			d := c.Default
			if regexp.MustCompile(`^-?[0-9][0-9.]*$`).MatchString(d) {
				d = "'" + d + "'"
			}
			x += " DEFAULT " + d
		case !c.NotNull && !strings.HasSuffix(name, "TEXT") && !c.AutoInc:
			x += " DEFAULT NULL"
		}
		if c.OnUpdate != "" {
			x += " ON UPDATE " + c.OnUpdate
		}
		if c.AutoInc {
			x += " AUTO_INCREMENT"
		}
		if c.Comment != "" {
			x += " COMMENT " + c.Comment
		}
		l = append(l, x)
	}
	key := func(cols []string) string { return strings.ReplaceAll(keyText(MY, cols, ""), ", ", ",") }
	if p := t.pk(); p != nil {
		l = append(l, "PRIMARY KEY ("+key(p.Cols)+")")
	}
	for _, u := range []bool{true, false} {
		for _, ix := range s.Idxs {
			if ix.Table == t.Name && ix.Unique == u {
				l = append(l, map[bool]string{true: "UNIQUE KEY ", false: "KEY "}[u]+dbQuote(MY, ix.Name)+" ("+key(ix.Cols)+")")
			}
		}
	}
	for _, k := range []string{KFK, KCheck} {
		for _, c := range t.Cons {
			if c.Kind != k {
				continue
			}
			x := "CHECK " + c.Expr
			if k == KFK {
				x = fkText(MY, c, false)
			}
			l = append(l, "CONSTRAINT "+dbQuote(MY, c.Name)+" "+x)
		}
	}
	opt := func(k, def string) string {
		if v := t.Options[k]; v != "" {
			return v
		}
		return def
	}
	x := "CREATE TABLE " + dbQuote(MY, t.Name) + " (\n  " + strings.Join(l, ",\n  ") + "\n) ENGINE=" + opt("ENGINE", defaultEngine)
	if len(t.Name)%2 == 0 {
		x += " AUTO_INCREMENT=42"
	}
	x += " DEFAULT CHARSET=" + opt("CHARSET", defaultCharset) + " COLLATE=" + opt("COLLATE", defaultCollate)
	if c := t.Options["COMMENT"]; c != "" {
		x += " COMMENT=" + c
	}
	return x
}

const (
	defaultEngine  = "InnoDB"
	defaultCharset = "utf8mb4"
	defaultCollate = "utf8mb4_0900_ai_ci"
)

func mysqlType(s string) string {
	name, args := s, ""
	if i := strings.IndexByte(s, '('); i >= 0 {
		name, args = s[:i], s[i:]
	}
	name = strings.ToLower(name)
	if name == "integer" {
		name = "int"
	}
	return name + args
}

func crdbShow(s *Schema, t *Tab, fks bool) string {
	var l []string
	for _, c := range t.Cols {
		x := dbQuote(CR, c.Name) + " " + c.Type
		if c.NotVisible {
			x += " NOT VISIBLE"
		}
		if c.NotNull {
			x += " NOT NULL"
		} else {
			x += " NULL"
		}
		if c.Default != "" {
			x += " DEFAULT " + c.Default
		}
		if c.As != "" {
			x += " AS " + c.As + " " + c.AsKind
		}
		l = append(l, x)
	}
	var idx []string
	for _, ix := range s.Idxs {
		if ix.Table != t.Name {
			continue
		}
		x := "INDEX " + dbQuote(CR, ix.Name) + " (" + keyText(CR, ix.Cols, " ASC") + ")"
		if ix.Unique {
			x = "UNIQUE " + x
		}
		if ix.Hash != "" {
			x += " USING " + ix.Hash
			var cols []string
			for _, c := range ix.Cols {
				cols = append(cols, sane(colOf(c)))
			}
			// two indexes on the same columns share the hidden column
			shard := "crdb_internal_" + sane(strings.Join(cols, "_")) + "_shard_" + bucketCount(ix.Hash) + " INT8 NOT VISIBLE NOT NULL AS (mod(fnv32(crdb_internal.datums_to_bytes(" + strings.ReplaceAll(strings.ReplaceAll(keyText(CR, ix.Cols, ""), " DESC", ""), " ASC", "") + ")), 8:::INT8)) VIRTUAL"
			if !slices.Contains(l, shard) {
				l = append(l, shard)
			}
		}
		idx = append(idx, x)
	}
	if p := t.pk(); p != nil {
		l = append(l, "CONSTRAINT "+dbQuote(CR, p.Name)+" PRIMARY KEY ("+keyText(CR, p.Cols, " ASC")+")")
	}
	for _, c := range t.Cons {
		if c.Kind == KFK && fks {
			l = append(l, "CONSTRAINT "+dbQuote(CR, c.Name)+" "+fkText(CR, c, false))
		}
	}
	l = append(l, idx...)
	for _, c := range t.Cons {
		if c.Kind == KCheck {
			l = append(l, "CONSTRAINT "+dbQuote(CR, c.Name)+" CHECK "+c.Expr)
		}
	}
	return "CREATE TABLE " + qualName(CR, t.Name) + " (\n\t" + strings.Join(l, ",\n\t") + "\n)"
}

var bucketDigits = regexp.MustCompile(`[0-9]+`)

// bucketCount is the number of buckets of a hash-sharded index (16 unless it
// says so).
func bucketCount(hash string) string {
	if n := bucketDigits.FindString(hash); n != "" {
		return n
	}
	return "16"
}

// ---------------------------------------------------------------------------
// Catalogs
// ---------------------------------------------------------------------------

type catalogReq struct {
	Key            string             `json:"key"`
	Tables         map[string][][]any `json:"tables,omitempty"`
	Query          string             `json:"query"`
	Args           []any              `json:"args"`
	Dialect        string             `json:"dialect"`
	Database       string             `json:"database"`
	Types          map[string]string  `json:"types"`
	ConstraintDefs map[string]string  `json:"constraintdefs"`
	IndexDefs      map[string]string  `json:"indexdefs"`
	Reserved       []string           `json:"reserved"`
	Bools          []string           `json:"bools"`
}

type catalogRep struct {
	Cols        []string `json:"cols"`
	Rows        [][]any  `json:"rows"`
	Err         string   `json:"err"`
	Need        bool     `json:"need"`
	Unsupported string   `json:"unsupported"`
}

var catalogProc struct {
	mu  sync.Mutex
	in  io.WriteCloser
	out *bufio.Reader
}

func askCatalog(r *catalogReq) *catalogRep {
	p := &catalogProc
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.in == nil {
		f := os.Getenv("ZZ_CATALOG")
		if f == "" {
			harnessf("ZZ_CATALOG is not set")
		}
		cmd := exec.Command("python3", "-I", f)
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		if err != nil {
			harnessf("%v", err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			harnessf("%v", err)
		}
		if err := cmd.Start(); err != nil {
			harnessf("%v", err)
		}
		p.in, p.out = in, bufio.NewReaderSize(out, 1<<20)
	}
	ask := func(r *catalogReq) *catalogRep {
		b, err := json.Marshal(r)
		if err != nil {
			harnessf("%v", err)
		}
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			harnessf("catalog process: %v", err)
		}
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			harnessf("catalog process: %v", err)
		}
		rep := &catalogRep{}
		if err := json.Unmarshal(line, rep); err != nil {
			harnessf("catalog process: %v", err)
		}
		return rep
	}
	short := *r
	short.Tables = nil
	rep := ask(&short)
	if rep.Need {
		rep = ask(r)
	}
	return rep
}

func (db *fakeDB) shuffled(rows [][]any) [][]any {
	h := db.noise
	for i := len(rows) - 1; i > 0; i-- {
		h = mix(h + uint64(i))
		j := int(h % uint64(i+1))
		rows[i], rows[j] = rows[j], rows[i]
	}
	return rows
}

func (db *fakeDB) catalogQuery(s *Schema, c *zzdriver.Call) *zzdriver.Reply {
	r := &catalogReq{Query: c.Query, Args: c.Args, Dialect: db.dialect, Database: appDB, Reserved: pgReserved, Types: map[string]string{}, ConstraintDefs: map[string]string{}, IndexDefs: map[string]string{}}
	switch db.dialect {
	case PG:
		r.Tables = db.pgCatalog(s, r)
	case CR:
		r.Tables = db.crdbCatalog(s)
	case MY:
		r.Tables = db.mysqlCatalog(s)
	case SP:
		r.Tables = db.spannerCatalog(s)
		r.Bools = []string{"IS_UNIQUE", "IS_NULL_FILTERED", "SPANNER_IS_MANAGED"}
	}
	var names []string
	for n := range r.Tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		db.shuffled(r.Tables[n][1:])
	}
	b, err := json.Marshal([]any{r.Tables, r.Types, r.ConstraintDefs, r.IndexDefs})
	if err != nil {
		harnessf("%v", err)
	}
	r.Key = fmt.Sprintf("%s-%x", db.dialect, hashBytes(b))
	rep := askCatalog(r)
	switch {
	case rep.Unsupported != "":
		db.limit = rep.Unsupported
		return &zzdriver.Reply{Err: "zz: beyond the simulation: " + rep.Unsupported}
	case rep.Err != "":
		return &zzdriver.Reply{Err: rep.Err}
	}
	return &zzdriver.Reply{Cols: rep.Cols, Rows: rep.Rows}
}

type ctab struct{ rows [][]any }

func newCtab(cols ...string) *ctab {
	r := []any{}
	for _, c := range cols {
		r = append(r, c)
	}
	return &ctab{rows: [][]any{r}}
}

func (t *ctab) add(v ...any) { t.rows = append(t.rows, v) }

func (db *fakeDB) mysqlCatalog(s *Schema) map[string][][]any {
	tabs := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "ENGINE")
	for _, t := range s.Tabs {
		tabs.add("def", appDB, t.Name, "BASE TABLE", defaultEngine)
		tabs.add("def", "otherdb", t.Name, "BASE TABLE", defaultEngine)
	}
	tabs.add("def", appDB, "v_all", "VIEW", nil)
	tabs.add("def", "otherdb", "t_other", "BASE TABLE", defaultEngine)
	tabs.add("def", "mysql", "user", "BASE TABLE", defaultEngine)
	tabs.add("def", "information_schema", "TABLES", "SYSTEM VIEW", nil)
	tabs.add("def", "performance_schema", "accounts", "BASE TABLE", "PERFORMANCE_SCHEMA")
	tabs.add("def", "sys", "sys_config", "BASE TABLE", defaultEngine)
	return map[string][][]any{"information_schema.TABLES": tabs.rows}
}

func (db *fakeDB) crdbCatalog(s *Schema) map[string][][]any {
	tabs := newCtab("table_catalog", "table_schema", "table_name", "table_type")
	for _, t := range s.Tabs {
		tabs.add(appDB, "public", bare(t.Name), "BASE TABLE")
	}
	tabs.add(appDB, "public", "v_all", "VIEW")
	tabs.add(appDB, "crdb_internal", "node_build_info", "SYSTEM VIEW")
	tabs.add(appDB, "crdb_internal", "tables", "BASE TABLE")
	tabs.add(appDB, "information_schema", "columns", "SYSTEM VIEW")
	tabs.add(appDB, "pg_catalog", "pg_class", "SYSTEM VIEW")
	tabs.add(appDB, "pg_extension", "geometry_columns", "SYSTEM VIEW")
	return map[string][][]any{"information_schema.tables": tabs.rows}
}

var pgReserved = []string{"order", "user", "table", "key", "index", "check", "text", "time", "default", "not", "comment", "unique", "primary", "create", "constraint", "group"}

// pgTypeText is what format_type says.
func pgTypeText(s string) (base, full string) {
	name, args := s, ""
	if i := strings.IndexByte(s, '('); i >= 0 {
		name, args = strings.ToLower(s[:i]), s[i:]
	}
	name = strings.ToLower(name)
	if w, ok := strings.CutPrefix(name, "timestamp"); ok {
		if w == "" {
			w = " without time zone"
		}
		return "timestamp" + w, "timestamp" + args + w
	}
	return name, name + args
}

// modifier is the i-th number in the parentheses of a type, if it is one of
// the kinds, for information_schema.columns.
func modifier(t, kinds string, i int) any {
	name, args, ok := strings.Cut(strings.ToLower(t), "(")
	for _, k := range strings.Split(kinds, ",") {
		if strings.Contains(name, k) {
			if !ok {
				return nil
			}
			args, _, _ = strings.Cut(args, ")")
			if l := strings.Split(args, ","); i < len(l) {
				if n, err := strconv.Atoi(strings.TrimSpace(l[i])); err == nil {
					return n
				}
			}
			return nil
		}
	}
	return nil
}

func (db *fakeDB) pgCatalog(s *Schema, r *catalogReq) map[string][][]any {
	class := newCtab("oid", "relname", "relnamespace", "relkind", "relispartition")
	ns := newCtab("oid", "nspname")
	attr := newCtab("attrelid", "attname", "atttypid", "atttypmod", "attnotnull", "attgenerated", "attidentity", "attnum", "attisdropped", "atthasdef")
	def := newCtab("oid", "adrelid", "adnum", "adbin")
	con := newCtab("oid", "conname", "connamespace", "contype", "conrelid", "confrelid")
	pgtables := newCtab("schemaname", "tablename", "tableowner")
	pgviews := newCtab("schemaname", "viewname")
	pgindexes := newCtab("schemaname", "tablename", "indexname", "indexdef")
	istables := newCtab("table_catalog", "table_schema", "table_name", "table_type")
	iscols := newCtab("table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type", "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "domain_name", "is_identity", "identity_generation", "is_generated", "generation_expression")
	iskcu := newCtab("constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "position_in_unique_constraint")
	isrefs := newCtab("constraint_catalog", "constraint_schema", "constraint_name", "unique_constraint_schema", "unique_constraint_name", "match_option", "update_rule", "delete_rule")
	iscons := newCtab("constraint_schema", "constraint_name", "table_schema", "table_name", "constraint_type")
	ns.add(11, "pg_catalog")
	ns.add(13000, "information_schema")
	ns.add(2200, "public")
	ns.add(16390, "other")
	oid := 16400
	next := func() int { oid += 3; return oid }
	types := map[string]int{}
	mods := map[string]int{}
	typ := func(t string) (int, int) {
		base, full := pgTypeText(t)
		if types[base] == 0 {
			types[base] = 1000 + len(types)
			r.Types[fmt.Sprintf("%d:-1", types[base])] = base
		}
		if base == full {
			return types[base], -1
		}
		if mods[full] == 0 {
			mods[full] = 10 + len(mods)
		}
		r.Types[fmt.Sprintf("%d:%d", types[base], mods[full])] = full
		return types[base], mods[full]
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	// one copy of the tables in the schema, and one that is a little different in another
	qualifiedRefs := db.noise%3 == 0
	for _, schema := range []struct {
		name string
		oid  int
	}{{"public", 2200}, {"other", 16390}} {
		oids := map[string]int{}
		for _, t := range s.Tabs {
			oids[t.Name] = next()
		}
		for _, t := range s.Tabs {
			o, n := oids[t.Name], bare(t.Name)
			class.add(o, n, schema.oid, "r", 0)
			pgtables.add(schema.name, n, "postgres")
			istables.add(appDB, schema.name, n, "BASE TABLE")
			num := 0
			for i, x := range []string{"ctid", "xmin", "cmin", "xmax", "cmax", "tableoid"} {
				ty, _ := typ("XID")
				attr.add(o, x, ty, -1, 1, "", "", -i-1, 0, 0)
			}
			for i, c := range t.Cols {
				if (db.noise>>8)%4 == uint64(i%4) {
					num++
					attr.add(o, fmt.Sprintf("........pg.dropped.%d........", num), 0, -1, 0, "", "", num, 1, 0)
				}
				num++
				ty, mod := typ(c.Type)
				nn := c.NotNull
				if schema.name == "other" {
					nn = !nn
				}
				attr.add(o, c.Name, ty, mod, b2i(nn), "", "", num, 0, b2i(c.Default != ""))
				base, _ := pgTypeText(c.Type)
				var d any
				if c.Default != "" {
					def.add(next(), o, num, "node:"+c.Default)
					d = c.Default
				}
				iscols.add(appDB, schema.name, n, c.Name, num, d, map[bool]string{true: "NO", false: "YES"}[nn], base, modifier(c.Type, "char", 0), modifier(c.Type, "int,numeric,dec,float,double,real,bigint,small", 0), modifier(c.Type, "numeric,dec", 1), modifier(c.Type, "time", 0), nil, "NO", nil, "NEVER", nil)
				if nn {
					k := next()
					con.add(k, n+"_"+c.Name+"_not_null", schema.oid, "n", o, 0)
					r.ConstraintDefs[fmt.Sprint(k)] = "NOT NULL " + dbQuote(PG, c.Name)
					iscons.add(schema.name, fmt.Sprintf("%d_%d_%d_not_null", schema.oid, o, num), schema.name, n, "CHECK")
				}
			}
			addIndex := func(name string, unique bool, method string, cols []string, more string) {
				if schema.name == "other" && name != t.Name {
					more = " WHERE (1 = 1)"
				}
				i := next()
				class.add(i, name, schema.oid, "i", 0)
				for k, c := range cols {
					ty, mod := typ(t.col(colOf(c)).Type)
					attr.add(i, colOf(c), ty, mod, 0, "", "", k+1, 0, 0)
				}
				x := "CREATE INDEX "
				if unique {
					x = "CREATE UNIQUE INDEX "
				}
				x += dbQuote(PG, name) + " ON " + schema.name + "." + dbQuote(PG, n) + " USING " + method + " (" + keyText(PG, cols, "") + ")" + more
				pgindexes.add(schema.name, n, name, x)
				r.IndexDefs[fmt.Sprint(i)] = x
			}
			for _, c := range t.Cons {
				k := next()
				d := ""
				ref := 0
				kind := map[string]string{KPK: "p", KUnique: "u", KFK: "f", KCheck: "c"}[c.Kind]
				switch c.Kind {
				case KPK:
					d = "PRIMARY KEY (" + keyText(PG, c.Cols, "") + ")"
					addIndex(c.Name, true, "btree", c.Cols, "")
				case KUnique:
					d = "UNIQUE (" + keyText(PG, c.Cols, "") + ")"
					addIndex(c.Name, true, "btree", c.Cols, "")
				case KFK:
					d = fkText(PG, c, !qualifiedRefs)
					ref = oids[c.RefTable]
				case KCheck:
					d = "CHECK " + c.Expr
				}
				con.add(k, c.Name, schema.oid, kind, o, ref)
				r.ConstraintDefs[fmt.Sprint(k)] = d
				iscons.add(schema.name, c.Name, schema.name, n, c.Kind)
				if c.Kind != KCheck {
					for i, x := range c.Cols {
						var pos any
						if c.Kind == KFK {
							pos = i + 1
						}
						iskcu.add(appDB, schema.name, c.Name, appDB, schema.name, n, colOf(x), i+1, pos)
					}
				}
				if c.Kind == KFK {
					rule := func(a string) string {
						if a == "" {
							return "NO ACTION"
						}
						return a
					}
					var un any
					if rt := s.tab(c.RefTable); rt != nil {
						for _, k := range rt.Cons {
							if (k.Kind == KPK || k.Kind == KUnique) && len(k.Cols) == len(c.RefCols) {
								un = k.Name
							}
						}
					}
					isrefs.add(appDB, schema.name, c.Name, schema.name, un, "NONE", rule(c.OnUpdate), rule(c.OnDelete))
				}
				if c.Kind == KFK { // the triggers that enforce it
					con.add(next(), "RI_ConstraintTrigger_"+c.Name, schema.oid, "t", o, 0)
				}
			}
			for _, ix := range s.Idxs {
				if ix.Table != t.Name {
					continue
				}
				m := ix.Using
				if m == "" {
					m = "btree"
				}
				addIndex(ix.Name, ix.Unique, m, ix.Cols, "")
				if schema.name == "other" { // a constraint there may have the name of an index here
					iscons.add("other", ix.Name, "other", n, []string{KUnique, KPK, KFK, KCheck}[len(ix.Name)%4])
				}
			}
		}
	}
	// what belongs to nobody's schema definition
	seq, view, mat, sys := next(), next(), next(), next()
	ty, _ := typ("INTEGER")
	class.add(seq, "s_ids", 2200, "S", 0)
	class.add(view, "v_all", 2200, "v", 0)
	class.add(mat, "mv_all", 2200, "m", 0)
	class.add(sys, "pg_type", 11, "r", 0)
	for _, o := range []int{seq, view, mat, sys} {
		attr.add(o, "n", ty, -1, 0, "", "", 1, 0, 0)
	}
	iscols.add(appDB, "public", "v_all", "n", 1, nil, "YES", "integer", nil, 32, 0, nil, nil, "NO", nil, "NEVER", nil)
	iscols.add(appDB, "pg_catalog", "pg_type", "oid", 1, nil, "NO", "oid", nil, nil, nil, nil, nil, "NO", nil, "NEVER", nil)
	istables.add(appDB, "public", "v_all", "VIEW")
	istables.add(appDB, "pg_catalog", "pg_type", "BASE TABLE")
	pgtables.add("pg_catalog", "pg_type", "postgres")
	pgviews.add("public", "v_all")
	pgindexes.add("public", "mv_all", "mv_all_n_idx", "CREATE INDEX mv_all_n_idx ON public.mv_all USING btree (n)")
	pgindexes.add("pg_catalog", "pg_type", "pg_type_oid_index", "CREATE UNIQUE INDEX pg_type_oid_index ON pg_catalog.pg_type USING btree (oid)")
	return map[string][][]any{
		"pg_catalog.pg_class": class.rows, "pg_catalog.pg_namespace": ns.rows, "pg_catalog.pg_attribute": attr.rows, "pg_catalog.pg_attrdef": def.rows,
		"pg_catalog.pg_constraint": con.rows, "pg_catalog.pg_tables": pgtables.rows, "pg_catalog.pg_views": pgviews.rows, "pg_catalog.pg_indexes": pgindexes.rows,
		"information_schema.tables": istables.rows, "information_schema.columns": iscols.rows, "information_schema.table_constraints": iscons.rows,
		"information_schema.key_column_usage": iskcu.rows, "information_schema.referential_constraints": isrefs.rows,
	}
}

func (db *fakeDB) spannerCatalog(s *Schema) map[string][][]any {
	tabs := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "PARENT_TABLE_NAME", "ON_DELETE_ACTION", "TABLE_TYPE", "SPANNER_STATE", "INTERLEAVE_TYPE", "ROW_DELETION_POLICY_EXPRESSION")
	cols := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_DEFAULT", "DATA_TYPE", "IS_NULLABLE", "SPANNER_TYPE")
	opts := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "OPTION_NAME", "OPTION_TYPE", "OPTION_VALUE")
	idx := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "PARENT_TABLE_NAME", "IS_UNIQUE", "IS_NULL_FILTERED", "INDEX_STATE", "SPANNER_IS_MANAGED")
	icols := newCtab("TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_ORDERING", "IS_NULLABLE", "SPANNER_TYPE")
	cons := newCtab("CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "CONSTRAINT_TYPE")
	refs := newCtab("CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "UNIQUE_CONSTRAINT_CATALOG", "UNIQUE_CONSTRAINT_SCHEMA", "UNIQUE_CONSTRAINT_NAME", "MATCH_OPTION", "UPDATE_RULE", "DELETE_RULE", "SPANNER_STATE")
	kcu := newCtab("CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "POSITION_IN_UNIQUE_CONSTRAINT")
	checks := newCtab("CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "CHECK_CLAUSE", "SPANNER_STATE")
	inner := func(x string) string { // what is inside the parentheses
		return strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(x), "("), ")"))
	}
	yes := map[bool]string{true: "NO", false: "YES"}
	managed := map[string]bool{}
	addManaged := func(t *Tab, name string, cs []string, unique int) {
		if managed[name] {
			return
		}
		managed[name] = true
		idx.add("", "", t.Name, name, "INDEX", "", unique, 1, "READ_WRITE", 1)
		for i, n := range cs {
			c := t.col(n)
			icols.add("", "", t.Name, name, "INDEX", n, i+1, "ASC", yes[c.NotNull], c.Type)
		}
		if unique == 1 {
			cons.add("", "", name, "", "", t.Name, "UNIQUE")
			for i, n := range cs {
				kcu.add("", "", name, "", "", t.Name, n, i+1, nil)
			}
		}
	}
	for _, t := range s.Tabs {
		var parent, act, inter, policy any
		if il := t.Options["INTERLEAVE"]; il != "" {
			p, a, ok := strings.Cut(il, " ON DELETE ")
			if !ok {
				a = "NO ACTION"
			}
			parent, act, inter = p, a, "IN PARENT"
		}
		if p := t.Options["ROW DELETION POLICY"]; p != "" {
			policy = inner(p)
		}
		tabs.add("", "", t.Name, parent, act, "BASE TABLE", "COMMITTED", inter, policy)
		for i, c := range t.Cols {
			var d any
			if c.Default != "" {
				d = inner(c.Default)
			}
			cols.add("", "", t.Name, c.Name, i+1, d, nil, yes[c.NotNull], c.Type)
			if c.Options != "" {
				n, v, _ := strings.Cut(inner(c.Options), "=")
				opts.add("", "", t.Name, c.Name, strings.TrimSpace(n), "BOOL", strings.TrimSpace(v))
			}
			if c.NotNull {
				n := "CK_IS_NOT_NULL_" + t.Name + "_" + c.Name
				cons.add("", "", n, "", "", t.Name, "CHECK")
				checks.add("", "", n, dbQuote(SP, c.Name)+" IS NOT NULL", "COMMITTED")
			}
		}
		key := func(name, kind string, l []string) {
			for i, k := range l {
				c := t.col(colOf(k))
				o := "ASC"
				if strings.HasSuffix(k, " DESC") {
					o = "DESC"
				}
				icols.add("", "", t.Name, name, kind, c.Name, i+1, o, yes[c.NotNull], c.Type)
			}
		}
		var pkCols []string
		if p := t.pk(); p != nil {
			idx.add("", "", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", 1, 0, nil, 0)
			key("PRIMARY_KEY", "PRIMARY_KEY", p.Cols)
			cons.add("", "", "PK_"+t.Name, "", "", t.Name, "PRIMARY KEY")
			for i, k := range p.Cols {
				pkCols = append(pkCols, colOf(k))
				kcu.add("", "", "PK_"+t.Name, "", "", t.Name, colOf(k), i+1, nil)
			}
		}
		for _, ix := range s.Idxs {
			if ix.Table == t.Name {
				u := 0
				if ix.Unique {
					u = 1
				}
				idx.add("", "", t.Name, ix.Name, "INDEX", "", u, 0, "READ_WRITE", 0)
				key(ix.Name, "INDEX", ix.Cols)
			}
		}
	}
	for _, t := range s.Tabs {
		for _, c := range t.Cons {
			switch c.Kind {
			case KCheck:
				cons.add("", "", c.Name, "", "", t.Name, "CHECK")
				checks.add("", "", c.Name, inner(c.Expr), "COMMITTED")
			case KFK:
				rt := s.tab(c.RefTable)
				if rt == nil {
					continue
				}
				cons.add("", "", c.Name, "", "", t.Name, "FOREIGN KEY")
				var u []string
				uname := "PK_" + rt.Name
				if p := rt.pk(); p != nil {
					for _, k := range p.Cols {
						u = append(u, colOf(k))
					}
				}
				pos := map[string]int{}
				for i, n := range u {
					pos[n] = i + 1
				}
				same := len(u) == len(c.RefCols)
				for _, n := range c.RefCols {
					same = same && pos[n] > 0
				}
				if !same {
					uname = "IDX_" + rt.Name + "_" + strings.Join(c.RefCols, "_") + "_U_0A1B2C"
					addManaged(rt, uname, c.RefCols, 1)
					pos = map[string]int{}
					for i, n := range c.RefCols {
						pos[n] = i + 1
					}
				}
				addManaged(t, "IDX_"+t.Name+"_"+strings.Join(c.Cols, "_")+"_N_3D4E5F", c.Cols, 0)
				del := c.OnDelete
				if del == "" {
					del = "NO ACTION"
				}
				refs.add("", "", c.Name, "", "", uname, "SIMPLE", "NO ACTION", del, "COMMITTED")
				for i, n := range c.Cols {
					kcu.add("", "", c.Name, "", "", t.Name, n, i+1, pos[c.RefCols[i]])
				}
			}
		}
	}
	tabs.add("", "", "v_all", nil, nil, "VIEW", nil, nil, nil)
	cols.add("", "", "v_all", "n", 1, nil, nil, "YES", "INT64")
	for _, n := range []string{"TABLES", "COLUMNS"} {
		tabs.add("", "INFORMATION_SCHEMA", n, nil, nil, "VIEW", nil, nil, nil)
	}
	tabs.add("", "SPANNER_SYS", "QUERY_STATS_TOP_MINUTE", nil, nil, "VIEW", nil, nil, nil)
	if len(s.Tabs) > 0 { // named schemas hold objects of the same names
		t := s.Tabs[0]
		tabs.add("", "other", t.Name, nil, nil, "BASE TABLE", "COMMITTED", nil, nil)
		cols.add("", "other", t.Name, "zz_other", 1, nil, nil, "YES", "INT64")
		opts.add("", "other", t.Name, t.Cols[0].Name, "zz_option", "BOOL", "TRUE")
		idx.add("", "other", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", 1, 0, nil, 0)
		icols.add("", "other", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "zz_other", 1, "ASC", "YES", "INT64")
		idx.add("", "other", t.Name, "zz_other_idx", "INDEX", "", 0, 0, "READ_WRITE", 0)
		icols.add("", "other", t.Name, "zz_other_idx", "INDEX", "zz_other", 1, "ASC", "YES", "INT64")
		cons.add("", "other", "zz_other_ck", "", "other", t.Name, "CHECK")
		checks.add("", "other", "zz_other_ck", "zz_other > 0", "COMMITTED")
	}
	return map[string][][]any{
		"information_schema.TABLES": tabs.rows, "information_schema.COLUMNS": cols.rows, "information_schema.COLUMN_OPTIONS": opts.rows,
		"information_schema.INDEXES": idx.rows, "information_schema.INDEX_COLUMNS": icols.rows, "information_schema.TABLE_CONSTRAINTS": cons.rows,
		"information_schema.REFERENTIAL_CONSTRAINTS": refs.rows, "information_schema.KEY_COLUMN_USAGE": kcu.rows, "information_schema.CHECK_CONSTRAINTS": checks.rows,
	}
}
