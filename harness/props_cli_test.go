package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
	"github.com/kunitsucom/ddlctl/pkg/zzverif/zzdriver"
)

// ---------------------------------------------------------------------------
// C18: wrong command lines. C19: what generate writes.
// ---------------------------------------------------------------------------

// recordDB is an empty database that notes what is executed.
type recordDB struct {
	mu    sync.Mutex
	execs []string
	opens int
}

const goodDSN = "zz-db"

func (r *recordDB) Call(c *zzdriver.Call) *zzdriver.Reply {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch c.Op {
	case "open":
		if c.DSN != goodDSN {
			return &zzdriver.Reply{Err: "no such database: " + c.DSN}
		}
		r.opens++
	case "exec":
		r.execs = append(r.execs, c.Query)
	case "begin", "commit":
		r.execs = append(r.execs, c.Op)
	}
	return &zzdriver.Reply{Conn: 1}
}

// invocation is one command line with the files around it.
type invocation struct {
	Files map[string]string `json:"files"`
	Links map[string]string `json:"links,omitempty"`
	Args  []string          `json:"args"`
	Env   []string          `json:"env,omitempty"`
	Stdin string            `json:"stdin,omitempty"`
	Why   string            `json:"why"`
	Dst   string            `json:"dst,omitempty"`
	DstIs string            `json:"dst_is,omitempty"`
}

func (in *Input) invocation() *invocation {
	v := &invocation{}
	if err := json.Unmarshal(in.Any, v); err != nil {
		harnessf("%v", err)
	}
	return v
}

func (v *invocation) input(d string) *Input {
	in := &Input{Dialect: d}
	in.Any, _ = json.Marshal(v)
	return in
}

func (v *invocation) place(dir string) {
	writeFiles(dir, v.Files)
	for n, to := range v.Links {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
			harnessf("%v", err)
		}
		if err := os.Symlink(to, filepath.Join(dir, n)); err != nil {
			harnessf("%v", err)
		}
	}
}

const goodGo = "package a\n\n// T is a table.\n//\n//ddlctl:table: t\ntype T struct {\n\tID string `db:\"id\" ddlctl:\"%s\" pk:\"true\"`\n}\n"

func textType(d string) string {
	if d == SP {
		return "STRING(36) NOT NULL"
	}
	return "VARCHAR(36) NOT NULL"
}

// badSQL lists texts that no dialect reads.
func badSQL(g *G) string {
	ty := "INTEGER"
	if g.d == SP {
		ty = "INT64"
	}
	pk := func(s string) string {
		if g.d == SP {
			return s + " PRIMARY KEY (id)"
		}
		return s
	}
	good := pk("CREATE TABLE zz (id "+ty+" NOT NULL)") + ";\n"
	bad := g.pick([]string{
		"CREATE TABLE t (",
		"CREATE TABLE t (id " + ty,
		"CREATE TABLE t (id " + ty + ",",
		"CREATE TABLE (id " + ty + ");",
		"CREATE TABLE t id " + ty + ");",
		pk("CREATE TABLE t (id)") + ";",
		pk("CREATE TABLE t (id "+ty+" NOT)") + ";",
		pk("CREATE TABLE t (id "+ty+" DEFAULT)") + ";",
		pk("CREATE TABLE t (id "+ty+", CONSTRAINT)") + ";",
		pk("CREATE TABLE t (id "+ty+", CONSTRAINT c)") + ";",
		pk("CREATE TABLE t (id "+ty+", CONSTRAINT c FOREIGN KEY (id))") + ";",
		pk("CREATE TABLE t (id "+ty+", CONSTRAINT c FOREIGN KEY (id) REFERENCES)") + ";",
		pk("CREATE TABLE t (id "+ty+", CONSTRAINT c CHECK)") + ";",
		"CREATE INDEX ON;",
		"CREATE INDEX i ON t;",
		"CREATE INDEX i ON t (",
		"CREATE INDEX i ON t (id",
		"CREATE INDEX i t (id);",
		"CREATE INDEX i ON t ((id);",
		"CREATE INDEX i ON t (id id2);",
		"CREATE INDEX i ON t (,id);",
		"CREATE INDEX i ON t (id,);",
		"CREATE INDEX i ON t ();",
		"CREATE INDEX i ON t (lower(id));",
		"CREATE INDEX i ON t (id) garbage;",
		"CREATE INDEX i ON t (id) WHERE id > 0;",
		pk("CREATE TABLE t (id "+ty+" NOT NULL, CONSTRAINT c UNIQUE (id id))") + ";",
		pk("CREATE TABLE t (id "+ty+" NOT NULL, CONSTRAINT c UNIQUE ())") + ";",
		pk("CREATE TABLE t (id "+ty+" NOT NULL, CONSTRAINT c FOREIGN KEY (id,) REFERENCES u (id))") + ";",
		pk("CREATE TABLE t (id "+ty+" NOT NULL))") + ";",
		"CREATE UNIQUE TABLE t (id " + ty + ");",
		"CREATE",
		"CREATE zz;",
		"DROP TABLE t;",
		"SELECT 1;",
		"hello",
		"{\"a\": 1}",
		")",
		"CREATE TABLE t (name 'abc",
		"package a\n\ntype T struct{}\n",
	})
	if g.p(60) {
		bad = g.pick(malformed[g.d]) + ";"
	}
	switch g.n(0, 3) {
	case 0:
		return bad
	case 1:
		return good + bad
	case 2:
		return good + bad + "\n" + good
	}
	return "-- comment\n" + bad
}

func badGo(g *G, good string) string {
	switch g.n(0, 6) {
	case 0:
		return strings.Replace(good, "struct {", "struct ", 1)
	case 1:
		return strings.TrimRight(good, "}\n")
	case 2:
		return strings.Replace(good, "package a", "packag a", 1)
	case 3:
		return good + "\nfunc f( {\n"
	case 4:
		return good + "\n\"abc\n"
	case 5:
		return strings.Replace(good, "type T", "typ T", 1)
	}
	return good + "}\n"
}

func wrongInvocation(g *G) *Input {
	cmd := g.pick([]string{"diff", "apply", "generate", "show"})
	good := fmt.Sprintf(goodGo, textType(g.d))
	ty := textType(g.d)
	pk := ""
	if g.d == SP {
		pk = " PRIMARY KEY (id)"
	}
	v := &invocation{Files: map[string]string{
		"a.sql": "CREATE TABLE t (id " + ty + ")" + pk + ";\n", "b.sql": "CREATE TABLE u (id " + ty + ")" + pk + ";\n", "e.sql": "",
		"src/a.go": good, "old.sql": "-- old content\nCREATE TABLE keep (id " + ty + ")" + pk + ";\n",
	}}
	src := func(l ...string) string { return g.pick(l) }
	opts := [][]string{{"--dialect", g.d}}
	var pos []string
	switch cmd {
	case "generate":
		pos = []string{src("src", "src/a.go"), src("old.sql", "new.sql", ".")}
	case "show":
		pos = []string{goodDSN}
	case "diff":
		pos = []string{src("a.sql", "src", goodDSN, "e.sql"), "b.sql"}
	case "apply":
		pos = []string{goodDSN, src("a.sql", "b.sql", "src")}
		if g.p(60) {
			opts = append(opts, []string{"--auto-approve"})
		} else {
			v.Stdin = "yes\n"
		}
	}
	if cmd != "show" && g.p(30) {
		opts = append(opts, []string{"--lang", "go"})
	}
	if cmd != "show" && g.p(20) {
		opts = append(opts, []string{"--go-pk-tag=pk"})
	}
	global := []string{}
	if g.p(15) {
		global = append(global, g.pick([]string{"--trace", "--debug", "--trace=true"}))
	}
	kinds := []string{"count", "count", "dialect", "option", "value", "command", "input", "input", "input"}
	if cmd != "show" {
		kinds = append(kinds, "lang")
	}
	kind := g.pick(kinds)
	switch kind {
	case "count":
		want := len(pos)
		n := g.n(0, want+2)
		if n >= want {
			n++
		}
		for len(pos) < n {
			pos = append(pos, src("a.sql", "b.sql", "src", "x", "old.sql", ""))
		}
		if n < want && g.p(50) {
			pos = pos[len(pos)-n:]
		}
		pos = pos[:n]
	case "dialect":
		w := g.pick([]string{"", "oracle", "sqlite", strings.ToUpper(g.d), g.d + " ", " " + g.d, g.d + ",mysql", "postgresql", "pg", "mysql8", "x"})
		switch g.n(0, 3) {
		case 0:
			opts[0] = []string{"--dialect", w}
		case 1:
			opts[0] = []string{"--dialect=" + w}
		case 2:
			opts = opts[1:]
			if w != "" {
				v.Env = append(v.Env, "DDLCTL_DIALECT="+w)
			}
		case 3:
			opts[0] = []string{"--dialect", w}
			v.Env = append(v.Env, "DDLCTL_DIALECT="+g.d)
		}
	case "lang":
		// the language only matters where there is source code to read
		if cmd == "generate" {
			pos[0] = src("src", "src/a.go")
		} else {
			pos[1] = "src"
		}
		var keep [][]string
		for _, o := range opts {
			if o[0] != "--lang" {
				keep = append(keep, o)
			}
		}
		opts = keep
		w := g.pick([]string{"rust", "Go", "golang", "c", "go "})
		if g.p(50) {
			opts = append(opts, []string{"--lang", w})
		} else {
			v.Env = append(v.Env, "DDLCTL_LANGUAGE="+w)
		}
	case "option":
		l := []string{"--nosuch", "--nosuch=1", "-x", "--dialec", "--Dialect=mysql", "-dialect", "--verbose", "--dry-run", "--auto-approved"}
		if cmd != "apply" {
			l = append(l, "--auto-approve")
		}
		if cmd == "show" {
			l = append(l, "--lang=go", "--go-ddl-tag=x")
		}
		o := []string{g.pick(l)}
		at := g.n(0, len(opts))
		opts = append(append(append([][]string{}, opts[:at]...), o), opts[at:]...)
	case "value":
		switch g.n(0, 3) {
		case 0, 1:
			// a value is missing at the end of the line
			o := g.pick([]string{"--dialect", "--lang", "--go-ddl-tag"})
			if cmd == "show" {
				o = "--dialect"
			}
			pos = append(pos, o)
		case 2:
			global = []string{g.pick([]string{"--trace=maybe", "--debug=2", "--trace="})}
		case 3:
			if cmd == "apply" {
				opts = append(opts[:1:1], []string{"--auto-approve=" + g.pick([]string{"maybe", "yes", "no", ""})})
			} else {
				v.Env = append(v.Env, g.pick([]string{"DDLCTL_TRACE=maybe", "DDLCTL_DEBUG=yes"}))
			}
		}
	case "command":
		cmd = g.pick([]string{"Diff", "diffs", "shows", "create", "drop", "migrate", "appl", "gene", "GENERATE", "apply.", " diff"})
		if g.p(70) {
			opts = nil // otherwise the option is unknown as well
		}
	case "input":
		bad := "bad.sql"
		i := 0
		switch cmd {
		case "diff":
			i = g.n(0, 1)
		case "apply":
			i = 1
		}
		switch {
		case cmd == "generate":
			pos[0] = "bad"
			switch g.n(0, 4) {
			case 0:
				pos[0] = g.pick([]string{"nosuch", "nosuch.go", "src/nosuch.go", "a.sql", goodDSN})
			case 1:
				v.Files["bad/a.go"] = badGo(g, good)
			case 2:
				v.Files["bad/a.go"] = good
				v.Files["bad/b/c.go"] = badGo(g, strings.ReplaceAll(good, "t", "t"))
			case 3:
				v.Files["bad.go"] = badGo(g, good)
				pos[0] = "bad.go"
			case 4:
				v.Files["bad/x.go"] = good
				v.Links = map[string]string{"bad/a.go": "nowhere.go"}
			}
		case cmd == "show":
			pos[0] = g.pick([]string{"nosuch", "a.sql", "src", "nosuch://x", ""})
		default:
			switch g.n(0, 4) {
			case 0, 1, 2:
				v.Files["bad.sql"] = badSQL(g)
			case 3:
				bad = g.pick([]string{"nosuch.sql", "nosuch", "nosuch://x", "src/nosuch"})
			case 4:
				v.Files["bad/a.go"] = badGo(g, good)
				bad = "bad"
			}
			pos[i] = bad
		}
	}
	v.Why = kind
	// options may stand anywhere behind the command
	args := append([]string{}, global...)
	args = append(args, cmd)
	rest := [][]string{}
	for _, p := range pos {
		rest = append(rest, []string{p})
	}
	if kind != "value" || len(pos) == 0 {
		for _, o := range opts {
			at := g.n(0, len(rest))
			rest = append(append(append([][]string{}, rest[:at]...), o), rest[at:]...)
		}
		for _, r := range rest {
			args = append(args, r...)
		}
	} else {
		for _, o := range opts {
			args = append(args, o...)
		}
		for _, r := range rest {
			args = append(args, r...)
		}
	}
	v.Args = args
	return v.input(g.d)
}

func checkWrong(in *Input) *Result {
	v := in.invocation()
	return scratch(func(dir string) *Result {
		v.place(dir)
		before := tree(dir)
		db := &recordDB{}
		o := runCLI(&cliRun{Dir: dir, Args: v.Args, Env: v.Env, Stdin: v.Stdin, DB: db})
		say := func(w string) *Result {
			return failf("%s (%s)\nddlctl %q env %q\n%v", w, v.Why, v.Args, v.Env, o)
		}
		if w := o.broken(); w != "" {
			return say(w)
		}
		if fi, err := os.Lstat(filepath.Join(dir, "full")); err == nil && o.Code == 0 && fi.Mode().IsRegular() {
			return &Result{Excluded: "the link to the full device was replaced by a file"}
		}
		if o.Code == 0 {
			return say("a wrong invocation ended with status 0")
		}
		if !o.refused() {
			return say("a wrong invocation gave no error message")
		}
		if o.Stdout != "" {
			return say("a wrong invocation printed a result")
		}
		if len(db.execs) > 0 {
			return say(fmt.Sprintf("a wrong invocation executed %q", db.execs))
		}
		if d := treeDiff(before, tree(dir)); len(d) > 0 {
			return say(fmt.Sprintf("a wrong invocation changed files: %v", d))
		}
		cmd := ""
		for _, a := range v.Args {
			if !strings.HasPrefix(a, "-") {
				cmd = a
				break
			}
		}
		return &Result{Nontrivial: true, Classes: []string{"wrong-" + v.Why, "cmd-" + cmd}}
	})
}

// ---------------------------------------------------------------------------

// choice is a setting given by flag, environment or neither.
type choice struct {
	Flag string `json:"flag"`
	Env  string `json:"env"`
	How  int    `json:"how"` // bit 0: flag, bit 1: environment
	Form int    `json:"form"`
}

func (c choice) eff(def string) string {
	switch {
	case c.How&1 != 0:
		return c.Flag
	case c.How&2 != 0:
		return c.Env
	}
	return def
}

type precedence struct {
	Dialect, Col, DDL, PK, Lang choice
	Cmd                         string
}

var dialectTypes = map[string]string{PG: "JSONB", CR: "STRING", MY: "DATETIME(6)", SP: "STRING(MAX)"}

func precedenceInput(t *rapid.T) *Input {
	g := newG(t, PG)
	mk := func(l []string, must bool) choice {
		c := choice{Flag: g.pick(l), Env: g.pick(l), How: g.n(0, 3), Form: g.n(0, 1)}
		if must && c.How == 0 {
			c.How = 1 + g.n(0, 2)
		}
		return c
	}
	p := precedence{
		Dialect: mk(allDialects, true),
		Col:     mk([]string{"db", "col", "dbx"}, false),
		DDL:     mk([]string{"ddlctl", "ddlx", "other"}, false),
		PK:      mk([]string{"pk", "key", "key3"}, false),
		Lang:    mk([]string{"go"}, false),
		Cmd:     g.pick([]string{"generate", "diff", "diff2"}),
	}
	if p.Lang.How == 3 {
		p.Lang.Env = g.pick([]string{"rust", "go"})
	}
	in := &Input{Dialect: PG}
	in.Any, _ = json.Marshal(p)
	return in
}

// checkPrecedence: flag before environment before default.
func checkPrecedence(in *Input) *Result {
	p := precedence{}
	if err := json.Unmarshal(in.Any, &p); err != nil {
		harnessf("%v", err)
	}
	// every combination of tags gives another table
	src := "package a\n\n"
	for _, ddl := range []string{"ddlctl", "ddlx", "other"} {
		src += "// T_" + ddl + "\n//\n//" + ddl + ":table: t_" + ddl + "\n"
		src += "type T_" + ddl + " struct {\n"
		for i, f := range []string{"A", "B", "C"} {
			src += fmt.Sprintf("\t%s string `", f)
			for _, col := range []string{"db", "col"} {
				src += fmt.Sprintf(`%s:"%s_%d" `, col, col, i)
			}
			src += fmt.Sprintf(`ddlctl:"%%TYPE%% NOT NULL" ddlx:"%%TYPE%% NOT NULL" other:"%%TYPE%% NOT NULL" `)
			// each key tag marks another field
			switch i {
			case 0:
				src += `pk:"true" `
			case 1:
				src += `key:"true" `
			case 2:
				src += `key3:"true" `
			}
			src += fmt.Sprintf(`dbx:"dbx_%d"`, i)
			src += "`\n"
		}
		src += "}\n\n"
	}
	d := p.Dialect.eff("")
	ty := map[string]string{PG: "INTEGER", CR: "INT8", MY: "BIGINT", SP: "INT64"}[d]
	src = strings.ReplaceAll(src, "%TYPE%", ty)
	col, ddl, pk := p.Col.eff("db"), p.DDL.eff("ddlctl"), p.PK.eff("pk")
	run := func(dir string, flags, env []string) (string, *Result) {
		args := []string{"generate"}
		pos := []string{"src", "out.sql"}
		switch p.Cmd {
		case "diff":
			args, pos = []string{"diff"}, []string{"empty.sql", "src"}
		case "diff2":
			args, pos = []string{"diff"}, []string{"src", "empty.sql"}
		}
		args = append(append(args, flags...), pos...)
		o := runCLI(&cliRun{Dir: dir, Args: args, Env: env})
		if w := o.broken(); w != "" {
			return "", failf("%s\n%v", w, o)
		}
		if o.Code != 0 {
			return "", failf("failed: ddlctl %q env %q\n%v", args, env, o)
		}
		if p.Cmd != "generate" {
			return o.Stdout, nil
		}
		b, err := os.ReadFile(dir + "/out.sql")
		if err != nil {
			return "", failf("no output: %v", err)
		}
		return string(b), nil
	}
	return scratch(func(dir string) *Result {
		writeFiles(dir, map[string]string{"src/a.go": src, "empty.sql": ""})
		var flags, env []string
		for _, c := range []struct {
			c        choice
			flag, ev string
		}{{p.Dialect, "--dialect", "DDLCTL_DIALECT"}, {p.Col, "--go-column-tag", "DDLCTL_GO_COLUMN_TAG"}, {p.DDL, "--go-ddl-tag", "DDLCTL_GO_DDL_TAG"}, {p.PK, "--go-pk-tag", "DDLCTL_GO_PK_TAG"}, {p.Lang, "--lang", "DDLCTL_LANGUAGE"}} {
			if c.c.How&1 != 0 {
				if c.c.Form == 0 {
					flags = append(flags, c.flag, c.c.Flag)
				} else {
					flags = append(flags, c.flag+"="+c.c.Flag)
				}
			}
			if c.c.How&2 != 0 {
				env = append(env, c.ev+"="+c.c.Env)
			}
		}
		got, res := run(dir, flags, env)
		if res != nil {
			return res
		}
		if p.Cmd != "diff2" {
			s, err := readSchema(d, got)
			if err != nil {
				return failf("the output cannot be executed: %v\nflags %q env %q\n%s", err, flags, env, got)
			}
			var names []string
			for _, t := range s.Tabs {
				names = append(names, t.Name)
			}
			if len(names) != 1 || names[0] != "t_"+ddl {
				return failf("tables %v instead of t_%s\nflags %q env %q\n%s", names, ddl, flags, env, got)
			}
			t := s.Tabs[0]
			for i, c := range t.Cols {
				if c.Name != fmt.Sprintf("%s_%d", col, i) {
					return failf("column %s, but the column tag is %s\nflags %q env %q\n%s", c.Name, col, flags, env, got)
				}
			}
			wantPK := map[string][]int{"pk": {0}, "key": {1}, "key3": {2}}[pk]
			var cols []string
			for _, c := range t.Cons {
				if c.Kind == KPK {
					cols = c.Cols
				}
			}
			if len(cols) != len(wantPK) || len(cols) == 1 && !strings.HasPrefix(cols[0], fmt.Sprintf("%s_%d", col, wantPK[0])) {
				return failf("primary key %v, but the key tag is %s\nflags %q env %q\n%s", cols, pk, flags, env, got)
			}
		}
		again, res := run(dir, []string{"--dialect", d, "--go-column-tag", col, "--go-ddl-tag", ddl, "--go-pk-tag", pk, "--lang", "go"}, nil)
		if res != nil {
			return res
		}
		if got != again {
			return failf("flags %q env %q give another result than the settings they amount to:\n%s\n=====\n%s", flags, env, got, again)
		}
		return &Result{Nontrivial: len(env) > 0, Classes: []string{"env-" + fmt.Sprint(len(env)), "flags-" + fmt.Sprint(len(flags) > 0), "cmd-" + p.Cmd}}
	})
}

// ---------------------------------------------------------------------------

// goodWrite: generate into all kinds of destinations.
func goodWrite(g *G) *Input {
	in := goInput(g)
	v := &invocation{Files: map[string]string{"old.sql": "-- old\n" + strings.Repeat("CREATE TABLE x (id INTEGER);\n", g.n(0, 400)), "keep.sql": "-- keep me\n", "d/keep.txt": "x", "d/sub/y.sql": "y"}}
	kind := g.pick([]string{"new", "existing", "empty", "directory", "within", "directory-existing", "dotted", "link-directory", "link-file"})
	switch kind {
	case "new":
		v.Dst, v.DstIs = g.pick([]string{"new.sql", "d/new", "d/sub/new.ddl", "./new.sql"}), ""
	case "existing":
		v.Dst = "old.sql"
	case "empty":
		v.Files["zero"] = ""
		v.Dst = "zero"
	case "directory":
		v.Dst = g.pick([]string{"d", "d/sub", "d/", "."})
		v.DstIs = filepath.Join(v.Dst, "ddlctl.gen.sql")
	case "directory-existing":
		v.Files["d/ddlctl.gen.sql"] = v.Files["old.sql"]
		v.Dst, v.DstIs = "d", "d/ddlctl.gen.sql"
	case "within":
		v.Dst = g.pick([]string{"src/schema.sql", "src/gen_sql"})
	case "dotted":
		v.Dst = "d/../dotted.sql"
	case "link-directory":
		v.Links = map[string]string{"lnk": "d"}
		v.Dst, v.DstIs = g.pick([]string{"lnk", "lnk/"}), "d/ddlctl.gen.sql"
	case "link-file":
		v.Links = map[string]string{"lnk": "old.sql"}
		v.Dst, v.DstIs = "lnk", "old.sql"
	}
	if v.DstIs == "" {
		v.DstIs = filepath.Clean(v.Dst)
	}
	v.Why = kind
	m, _ := json.Marshal(struct {
		Stray map[string]string
		V     *invocation
	}{in.stray(), v})
	in.Any = m
	return in
}

func checkGoodWrite(in *Input) *Result {
	var x struct {
		Stray map[string]string
		V     *invocation
	}
	if err := json.Unmarshal(in.Any, &x); err != nil {
		harnessf("%v", err)
	}
	v := x.V
	return scratch(func(dir string) *Result {
		writeFiles(dir, v.Files)
		writeFiles(dir+"/src", in.Kv)
		writeFiles(dir+"/src", x.Stray)
		// what is to be written, from a copy of the source
		ref := filepath.Join(dir, "ref")
		writeFiles(ref+"/src", in.Kv)
		writeFiles(ref+"/src", x.Stray)
		o := runCLI(&cliRun{Dir: ref, Args: append(append([]string{"generate"}, in.Strs...), "src", "ref.sql")})
		if w := o.broken(); w != "" || o.Code != 0 {
			return failf("generate failed on a good source: %s\n%v", w, o)
		}
		want, err := os.ReadFile(ref + "/ref.sql")
		if err != nil {
			return failf("generate left no output: %v", err)
		}
		for as, to := range v.Links {
			if err := os.Symlink(to, filepath.Join(dir, as)); err != nil {
				harnessf("%v", err)
			}
		}
		before := tree(dir)
		for i := 0; i < 1+in.N%2; i++ {
			o = runCLI(&cliRun{Dir: dir, Args: append(append([]string{"generate"}, in.Strs...), "src", v.Dst)})
			if w := o.broken(); w != "" || o.Code != 0 {
				return failf("generate into %s (%s) failed: %s\n%v", v.Dst, v.Why, w, o)
			}
			after := tree(dir)
			if after[v.DstIs] != string(want) {
				return failf("generate into %s (%s) left\n%s\ninstead of\n%s", v.Dst, v.Why, clip(after[v.DstIs], 2000), clip(string(want), 2000))
			}
			if d := treeDiff(before, after, v.DstIs); len(d) > 0 {
				return failf("generate into %s (%s) changed other files: %v", v.Dst, v.Why, d)
			}
		}
		s, err := readSchema(in.Dialect, string(want))
		if err != nil {
			return failf("the DDL written is not complete: %v\n%s", err, clip(string(want), 2000))
		}
		if len(s.Tabs) != len(in.M1.Tabs) {
			return failf("%d tables written instead of %d", len(s.Tabs), len(in.M1.Tabs))
		}
		return &Result{Nontrivial: v.Why != "new", Classes: []string{"dst-" + v.Why}}
	})
}

// badWrite: generate runs that must fail and leave everything as it is.
func badWrite(g *G) *Input {
	good := fmt.Sprintf(goodGo, textType(g.d))
	long := good + strings.ReplaceAll(strings.Replace(good, "package a", "", 1), " T ", " T2 ")
	v := &invocation{Files: map[string]string{
		"src/a.go": good, "src/z/z.go": long, "old.sql": "-- old content\n" + strings.Repeat("x", g.n(0, 5000)), "d/ddlctl.gen.sql": "-- older content\n", "keep": "k",
	}}
	dst := g.pick([]string{"old.sql", "d", "new.sql", "src/new.sql"})
	args := []string{"generate", "--dialect", g.d, "src", dst}
	kind := g.pick([]string{"syntax", "syntax", "missing", "dialect", "nodialect", "lang", "full", "nodir", "link", "nothing", "surplus", "bad-annotation", "nested"})
	switch kind {
	case "syntax":
		v.Files[g.pick([]string{"src/b.go", "src/z/a.go", "src/zz/y.go", "src/a.go", "src/0.go"})] = badGo(g, good)
	case "nested":
		v.Files["src/q/q/q/q.go"] = badGo(g, good)
	case "missing":
		args[3] = g.pick([]string{"nosuch", "nosuch.go", "src/nosuch.go"})
	case "dialect":
		args[2] = g.pick([]string{"oracle", "MYSQL", "x"})
	case "nodialect":
		args = append(args[:1:1], args[3:]...)
	case "lang":
		args = append(args, "--lang=rust")
	case "full":
		args[4] = "full"
		v.Links = map[string]string{"full": "/dev/full"}
	case "nodir":
		args[4] = g.pick([]string{"nodir/x.sql", "keep/x.sql", "old.sql/x"})
	case "link":
		v.Links = map[string]string{"src/b.go": "nowhere"}
	case "nothing":
		v.Files["src/plain.go"] = "package a\n\n// Plain is no table.\ntype Plain struct{ A int }\n"
		args[3] = "src/plain.go"
	case "surplus":
		args = append(args, "extra")
	case "bad-annotation":
		args[3] = "old.sql"
	}
	v.Args, v.Why = args, kind
	return v.input(g.d)
}

func init() {
	perDialect(func(d string) {
		register(&Sub{Prop: "C18", Name: "wrong_" + d, Quick: 700, Thorough: 12000, External: true,
			Rule:  "the command line is wrong in exactly one way (count of arguments, dialect, language, option, value, command or input)",
			Gen:   func(t *rapid.T) *Input { return wrongInvocation(newG(t, d)) },
			Check: checkWrong})
		register(&Sub{Prop: "C19", Name: "writes_" + d, Quick: 250, Thorough: 4000, External: true,
			Rule:  "the destination exists already, is a directory or lies within the source",
			Gen:   func(t *rapid.T) *Input { return goodWrite(newG(t, d)) },
			Check: checkGoodWrite})
		register(&Sub{Prop: "C19", Name: "fails_" + d, Quick: 250, Thorough: 4000, External: true,
			Rule:  "a generate run that must fail, with a destination that may exist already",
			Gen:   func(t *rapid.T) *Input { return badWrite(newG(t, d)) },
			Check: checkWrong})
	})
	register(&Sub{Prop: "C18", Name: "precedence", Quick: 1200, Thorough: 20000, External: true,
		Rule:  "at least one setting comes from the environment",
		Gen:   precedenceInput,
		Check: checkPrecedence})
}
