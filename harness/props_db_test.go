package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// ---------------------------------------------------------------------------
// C12 to C17: the command and a database
// ---------------------------------------------------------------------------

const (
	dsnA = "zz-db-a"
	dsnB = "zz-db-b"
)

// dbCase is what a case of these properties holds besides the schemas.
type dbCase struct {
	Noise  int               `json:"noise"`
	LPlace int               `json:"lplace,omitempty"`
	RPlace int               `json:"rplace,omitempty"`
	Left   string            `json:"left,omitempty"`  // file, dir, db
	Right  string            `json:"right,omitempty"` // file, dir, db
	LFile  string            `json:"lfile,omitempty"`
	RFile  string            `json:"rfile,omitempty"`
	LDir   map[string]string `json:"ldir,omitempty"`
	RDir   map[string]string `json:"rdir,omitempty"`
	Args   []string          `json:"args,omitempty"`
	Env    []string          `json:"env,omitempty"`
	Stdin  string            `json:"stdin,omitempty"`
	Faults []fault           `json:"faults,omitempty"`
	Hist   []*Schema         `json:"hist,omitempty"`
	Texts  []string          `json:"texts,omitempty"`
	Why    string            `json:"why,omitempty"`
}

func (x *dbCase) put(in *Input) *Input {
	b, err := json.Marshal(x)
	if err != nil {
		harnessf("%v", err)
	}
	in.Any = b
	return in
}

func getCase(in *Input) *dbCase {
	x := &dbCase{}
	if err := json.Unmarshal(in.Any, x); err != nil {
		harnessf("%v", err)
	}
	for _, m := range append([]*Schema{in.M1, in.M2}, x.Hist...) {
		if m != nil {
			if err := validModel(m); err != nil {
				harnessf("%v", err)
			}
		}
	}
	return x
}

func (g *G) noise() int { return int(rapid.Uint32().Draw(g.t, "noise") >> 1) }

func (g *G) anyText(s *Schema) string {
	if g.p(50) {
		return plainText(s)
	}
	return g.sqlText(s)
}

func limited(db *fakeDB) *Result { return &Result{Excluded: "beyond the simulation: " + db.limit} }

func (db *fakeDB) log() string {
	var l []string
	for _, c := range db.calls {
		q := c.Query
		if c.Op == "query" {
			q = clip(strings.Join(strings.Fields(q), " "), 60)
		}
		e := ""
		if c.Err != "" {
			e = " => " + c.Err
		}
		l = append(l, fmt.Sprintf("%s %s %s%s", c.Op, c.DSN, q, e))
	}
	return clip(strings.Join(l, "\n"), 3000)
}

// wrongExec tells about executed text when there should be none.
func (db *fakeDB) wrongExec() string {
	for _, c := range db.calls {
		if c.Op == "exec" {
			return fmt.Sprintf("%q was executed on %s", c.Query, c.DSN)
		}
	}
	return ""
}

// readShown reads DDL whose foreign keys may point forwards.
func readShown(d, text string) (*Schema, error) {
	e := NewEngine(d)
	e.Deferred = true
	if _, err := e.Exec(text); err != nil {
		return nil, err
	}
	e.Deferred = false
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				se, ok := r.(sqlErr)
				if !ok {
					panic(r)
				}
				err = se
			}
		}()
		for _, t := range e.S.Tabs {
			for _, c := range t.Cons {
				e.checkCon(t, c)
			}
			if p, _, _ := strings.Cut(t.Options["INTERLEAVE"], " ON DELETE "); p != "" && (e.S.tab(p) == nil || p == t.Name) {
				e.fail("parent table %q does not exist", p)
			}
		}
	}()
	return e.S, err
}

// --- C12 -----------------------------------------------------------------------

// side gives one side of a diff as a file, a directory or a database.
func (g *G) side(kind string, s *Schema, tg goTags, left bool, x *dbCase) {
	switch kind {
	case "file":
		f := g.anyText(s)
		if left {
			x.LFile = f
		} else {
			x.RFile = f
		}
	case "dir":
		f := g.goFiles(s, tg)
		if left {
			x.LDir = f
		} else {
			x.RDir = f
		}
	}
}

func sourcesInput(g *G) *Input {
	a, b, how := g.dbPair()
	if g.p(25) {
		b, how = a, "the same"
	}
	if g.p(20) && how != "the same" {
		b = a.clone()
		if len(b.Tabs) > 0 {
			g.reorder(b)
		}
		how = "reordered"
	}
	tg := g.goTags()
	x := &dbCase{Noise: g.noise(), LPlace: g.place(), RPlace: g.place(), Args: tg.args(g)}
	kinds := []string{"db", "file", "dir", "db"}
	x.Left, x.Right = g.pick(kinds), g.pick(kinds)
	ok := func(s *Schema) bool {
		return len(s.Tabs) > 0 && len(diffDump(goable(s).dump(true), s.dump(true))) == 0
	}
	if x.Left == "dir" && !ok(a) {
		x.Left = "file"
	}
	if x.Right == "dir" && !ok(b) {
		x.Right = "file"
	}
	g.side(x.Left, a, tg, true, x)
	g.side(x.Right, b, tg, false, x)
	return x.put(&Input{Dialect: g.d, M1: a, M2: b, C: how})
}

// place puts a source into the directory of the run and tells how it is given
// on the command line: neither the name of a file nor how it is spelled matters.
func place(dir, side, kind string, how int, file string, srcs map[string]string, dsn string) string {
	link := func(to, as string) string {
		if err := os.Symlink(to, filepath.Join(dir, as)); err != nil {
			harnessf("%v", err)
		}
		return as
	}
	switch kind {
	case "file":
		names := []string{side + ".sql", side, side + ".ddl", "my dir/" + side + ".sql", side + ".go", side + ".SQL", side + ".d/x.txt", side + ".sql"}
		n := names[how%len(names)]
		writeFiles(dir, map[string]string{n: file})
		switch how / len(names) % 5 {
		case 1:
			return filepath.Join(dir, n)
		case 2:
			return "./" + n
		case 3:
			return link(n, side+".link")
		}
		return n
	case "dir":
		names := []string{side, side + ".go", "my src/" + side, side + ".sql"}
		n := names[how%len(names)]
		writeFiles(dir+"/"+n, srcs)
		if len(srcs) == 0 {
			if err := os.MkdirAll(dir+"/"+n, 0o755); err != nil {
				harnessf("%v", err)
			}
		}
		switch how / len(names) % 6 {
		case 1:
			return n + "/"
		case 2:
			return "./" + n
		case 3:
			return filepath.Join(dir, n)
		case 4:
			return link(n, side+".link")
		case 5:
			return n + "/../" + filepath.Base(n)
		}
		return n
	}
	return dsn
}

func (g *G) place() int {
	if g.p(50) {
		return 0
	}
	return g.n(0, 39)
}

func checkSources(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := newFakeDB(in.Dialect, x.Noise, map[string]*Schema{dsnA: in.M1, dsnB: in.M2})
		args := append([]string{"diff", "--dialect", in.Dialect}, x.Args...)
		args = append(args, place(dir, "l", x.Left, x.LPlace, x.LFile, x.LDir, dsnA), place(dir, "r", x.Right, x.RPlace, x.RFile, x.RDir, dsnB))
		o := runCLI(&cliRun{Dir: dir, Args: args, DB: db})
		if db.limit != "" {
			return limited(db)
		}
		what := fmt.Sprintf("diff of %s and %s", x.Left, x.Right)
		if w := o.broken(); w != "" || o.Code != 0 {
			return failf("%s failed: %s\n%v\n%s\n%s", what, w, o, describe(in.M1, in.M2), db.log())
		}
		if w := db.wrongExec(); w != "" {
			return failf("%s: %s", what, w)
		}
		e := NewEngineFrom(dbForm(in.M1))
		e.LenientDropIndex = true
		if _, err := e.Exec(o.Stdout); err != nil {
			return failf("%s: the result does not run: %v\n%v\n%s", what, err, o, describe(in.M1, in.M2))
		}
		want := facts(in.M2, false)
		if d := diffDump(facts(e.S, false), want); len(d) > 0 {
			return failf("%s: the result does not give the second schema:\n%s\n%v\n%s", what, strings.Join(d, "\n"), o, describe(in.M1, in.M2))
		}
		same := len(diffDump(facts(in.M1, false), want)) == 0
		if same && o.Stdout != "" {
			return failf("%s: equal schemas differ:\n%v\n%s", what, o, describe(in.M1, in.M2))
		}
		return &Result{Nontrivial: x.Left != "file" || x.Right != "file", Classes: []string{x.Left + "-" + x.Right, fmt.Sprintf("same=%v", same)}}
	})
}

// --- C13 -----------------------------------------------------------------------

func showInput(g *G) *Input {
	s := g.dbSchema()
	return (&dbCase{Noise: g.noise()}).put(&Input{Dialect: g.d, M1: s})
}

func checkShow(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := newFakeDB(in.Dialect, x.Noise, map[string]*Schema{dsnA: in.M1})
		o := runCLI(&cliRun{Dir: dir, Args: []string{"show", "--dialect", in.Dialect, dsnA}, DB: db})
		if db.limit != "" {
			return limited(db)
		}
		if w := o.broken(); w != "" || o.Code != 0 {
			return failf("show failed: %s\n%v\n%s", w, o, plainText(in.M1))
		}
		if w := db.wrongExec(); w != "" {
			return failf("show: %s", w)
		}
		got, err := readShown(in.Dialect, o.Stdout)
		if err != nil {
			return failf("what show prints cannot be read: %v\n%v\n%s", err, o, plainText(in.M1))
		}
		if d := diffDump(facts(in.M1, true), facts(got, true)); len(d) > 0 {
			return failf("show does not print the schema of the database:\n%s\n%v\n%s", strings.Join(d, "\n"), o, plainText(in.M1))
		}
		if len(in.M1.Tabs) > 0 {
			if _, err := toolParse(in.Dialect, o.Stdout); err != nil {
				return failf("ddlctl does not accept what show prints: %v\n%v", err, o)
			}
		}
		n := 0
		for _, t := range in.M1.Tabs {
			n += len(t.Cols) + 2*len(t.Cons)
		}
		return &Result{Nontrivial: len(in.M1.Tabs) > 1 || n > 5, Classes: []string{fmt.Sprintf("tables=%d", len(in.M1.Tabs))}}
	})
}

// readFaults draws faults that hit the reading of a database.
func (g *G) readFault(noRetry bool) fault {
	f := fault{Op: g.pick([]string{"query", "rows", "query", "rows", "ping", "open"})}
	switch f.Op {
	case "query", "rows":
		f.Nth = g.n(1, 6)
		if g.p(30) {
			f.Nth = 0
		}
	}
	return f
}

func showFaultInput(g *G) *Input {
	s := g.dbSchema()
	return (&dbCase{Noise: g.noise(), Faults: []fault{g.readFault(true)}}).put(&Input{Dialect: g.d, M1: s})
}

func (db *fakeDB) hit() bool {
	for _, f := range db.faults {
		if f.Hit > 0 {
			return true
		}
	}
	return false
}

func checkShowFault(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := newFakeDB(in.Dialect, x.Noise, map[string]*Schema{dsnA: in.M1})
		db.faults = x.Faults
		o := runCLI(&cliRun{Dir: dir, Args: []string{"show", "--dialect", in.Dialect, dsnA}, DB: db})
		if db.limit != "" {
			return limited(db)
		}
		if w := o.broken(); w != "" {
			return failf("show: %s\n%v", w, o)
		}
		if !db.hit() {
			return &Result{Classes: []string{"not hit"}}
		}
		if !o.refused() {
			return failf("show did not report %q as an error\n%v\n%s", faultText+" "+x.Faults[0].Op, o, db.log())
		}
		if !strings.Contains(o.Stderr, faultText) {
			return failf("show does not tell the cause %q\n%v", faultText, o)
		}
		if strings.TrimSpace(o.Stdout) != "" {
			return failf("show printed a schema although reading it failed\n%v\n%s", o, db.log())
		}
		return &Result{Nontrivial: true, Classes: []string{"fault-" + x.Faults[0].Op}}
	})
}

// --- apply ---------------------------------------------------------------------

const (
	cutBegin = "-- 8< --"
	cutEnd   = "-- >8 --"
	noDiff   = "no difference"
)

// displayed is the migration apply shows.
func displayed(out string) (string, bool) {
	i := strings.Index(out, cutBegin)
	j := strings.LastIndex(out, cutEnd)
	if i < 0 || j < i {
		return "", false
	}
	return out[i+len(cutBegin) : j], true
}

// applyInput draws a database and the source to apply.
func applyInput(g *G, pair func() (*Schema, *Schema, string)) (*Input, *dbCase) {
	a, b, how := pair()
	in := &Input{Dialect: g.d, M1: a, M2: b, C: how}
	x := &dbCase{Noise: g.noise(), RPlace: g.place(), Right: g.pick([]string{"file", "file", "file", "dir", "db"})}
	tg := goTags{"db", "ddl", "pk"}
	if x.Right == "dir" {
		tg = g.goTags()
		x.Args = tg.args(g)
		if len(b.Tabs) == 0 || len(diffDump(goable(b).dump(true), b.dump(true))) > 0 {
			x.Right, x.Args = "file", nil
		}
	}
	g.side(x.Right, b, tg, false, x)
	return in, x
}

// runApply runs the command of a case.
func (x *dbCase) runApply(in *Input, dir string, db *fakeDB, more ...string) *cliOut {
	right := place(dir, "r", x.Right, x.RPlace, x.RFile, x.RDir, dsnB)
	args := append([]string{"apply", "--dialect", in.Dialect}, x.Args...)
	args = append(append(args, more...), dsnA, right)
	return runCLI(&cliRun{Dir: dir, Args: args, Env: x.Env, Stdin: x.Stdin, DB: db})
}

func (x *dbCase) database(in *Input) *fakeDB {
	db := newFakeDB(in.Dialect, x.Noise, map[string]*Schema{dsnA: in.M1, dsnB: in.M2})
	db.faults = x.Faults
	return db
}

// approve makes the run an approved one.
func (g *G) approve(x *dbCase) {
	switch g.n(0, 3) {
	case 0:
		x.Args = append(x.Args, g.pick([]string{"--auto-approve", "--auto-approve=true"}))
	case 1:
		x.Stdin = g.pick([]string{"yes\n", "yes", "yes\r\n", "yes\nno\n"})
	case 2:
		x.Env = []string{"DDLCTL_AUTO_APPROVE=true"}
	default:
		x.Args, x.Stdin = append(x.Args, "--auto-approve"), "no\n"
	}
}

// batchOrder tells what is wrong with the batch of a Spanner run.
func (db *fakeDB) batchOrder() string {
	if db.dialect != SP {
		return ""
	}
	state := "out"
	n := 0
	for _, c := range db.calls {
		if c.Op != "exec" {
			continue
		}
		switch w := strings.ToUpper(strings.TrimSpace(c.Query)); {
		case strings.HasPrefix(w, "START BATCH DDL"):
			state = "in"
			n++
		case strings.HasPrefix(w, "RUN BATCH"):
			state = "out"
		default:
			if state != "in" {
				return "a statement was executed outside of the batch"
			}
		}
	}
	if state == "in" {
		return "the batch was never run"
	}
	return ""
}

func checkApply(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := x.database(in)
		o := x.runApply(in, dir, db)
		if db.limit != "" {
			return limited(db)
		}
		same := len(diffDump(facts(in.M1, false), facts(in.M2, false))) == 0
		if w := o.broken(); w != "" || o.Code != 0 {
			return failf("apply failed: %s\n%v\n%s\n%s", w, o, describe(in.M1, in.M2), db.log())
		}
		show, ok := displayed(o.Stdout)
		want := stmtTexts(in.Dialect, show)
		if same {
			if ok && len(want) > 0 {
				return failf("apply has something to do for equal schemas\n%v\n%s", o, describe(in.M1, in.M2))
			}
			if w := db.wrongExec(); w != "" {
				return failf("apply of equal schemas: %s", w)
			}
			return &Result{Classes: []string{"same"}}
		}
		if !ok {
			return failf("apply shows no migration\n%v\n%s", o, describe(in.M1, in.M2))
		}
		got := db.executed(true)
		if fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
			return failf("apply executed\n%s\ninstead of what it displayed\n%s\n%s\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), db.log(), describe(in.M1, in.M2))
		}
		if w := db.batchOrder(); w != "" {
			return failf("%s\n%s", w, db.log())
		}
		for _, c := range db.calls {
			if c.Op == "exec" && c.DSN != dsnA {
				return failf("%q was executed on %s", c.Query, c.DSN)
			}
		}
		if d := diffDump(facts(db.dsns[dsnA].S, false), facts(in.M2, false)); len(d) > 0 {
			return failf("apply left another schema:\n%s\n%s\n%s", strings.Join(d, "\n"), db.log(), describe(in.M1, in.M2))
		}
		cl := []string{"right-" + x.Right, fmt.Sprintf("statements>=%d", min(len(want), 5))}
		if strings.Contains(show, ";\n") && strings.Count(show, ";") > len(want) {
			cl = append(cl, "semicolon inside")
		}
		return &Result{Nontrivial: len(want) >= 2, Classes: cl}
	})
}

// --- C15 -----------------------------------------------------------------------

func approvalInput(g *G) *Input {
	in, x := applyInput(g, g.dbPair)
	x.Why = g.pick([]string{"answer", "answer", "answer", "same", "fault", "source", "off", "right-fault"})
	switch x.Why {
	case "answer":
		x.Stdin = g.pick([]string{"", "\n", "no\n", "y\n", "Yes\n", "YES\n", " yes\n", "yes \n", "yes.\n", "yesyes\n", "no\nyes\n", "\nyes\n", "ye\n", "ok\n", "yes\x00\n", "y\ne\ns\n", "yes\t\n", "true\n", "'yes'\n", "はい\n", "yes!\n", "eyes\n", "yes yes\n", "yes, please\n", strings.Repeat("yes", 30000) + "\n", strings.Repeat("a", 70000) + "\nyes\n"})
		switch g.n(0, 3) {
		case 1:
			x.Env = []string{"DDLCTL_AUTO_APPROVE=false"}
		case 2:
			x.Args = append(x.Args, "--auto-approve=false")
		}
	case "off":
		x.Args = append(x.Args, "--auto-approve=false")
		x.Env = []string{"DDLCTL_AUTO_APPROVE=true"}
		x.Stdin = g.pick([]string{"", "no\n", "y\n"})
	case "same":
		in.M2 = in.M1
		x.Right = "file"
		x.RFile = g.anyText(in.M1)
		g.approve(x)
	case "fault":
		x.Faults = []fault{g.readFault(false)}
		g.approve(x)
	case "right-fault":
		x.Right = "db"
		f := g.readFault(false)
		f.Op = g.pick([]string{"query", "rows"})
		f.Nth += g.n(1, 8)
		x.Faults = []fault{f}
		g.approve(x)
	case "source":
		// what the source holds cannot be read
		x.Right = "file"
		x.RFile = plainText(in.M2) + g.pick([]string{"\nCREATE TABLE (a INT);\n", "\nCREATE TABLE zz (", "\nCREATE TABLE zz (a ;\n", "\n);\n", "\nCREATE INDEX ON;\n", "\nDROP;\n", "\nSELECT 'x\n"})
		g.approve(x)
	}
	return x.put(in)
}

func checkApproval(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := x.database(in)
		o := x.runApply(in, dir, db)
		if db.limit != "" {
			return limited(db)
		}
		if w := o.broken(); w != "" {
			return failf("apply: %s\n%v", w, o)
		}
		if (x.Why == "fault" || x.Why == "right-fault") && !db.hit() {
			return &Result{Classes: []string{"not hit"}}
		}
		// a fault when the database is opened again after the approval does
		// not concern this property, but nothing can be executed then either
		if w := db.wrongExec(); w != "" {
			return failf("nothing was approved (%s, answer %q, %v, %v), but %s\n%v\n%s", x.Why, clip(x.Stdin, 60), x.Args, x.Env, w, o, db.log())
		}
		same := len(diffDump(facts(in.M1, false), facts(in.M2, false))) == 0
		if x.Why != "same" && (!same || x.Why == "source" || x.Why == "fault" || x.Why == "right-fault") && o.Code == 0 {
			return failf("apply that executed nothing (%s, answer %q) claims success\n%v\n%s", x.Why, clip(x.Stdin, 60), o, db.log())
		}
		return &Result{Nontrivial: !same || x.Why == "same" || x.Why == "source", Classes: []string{x.Why}}
	})
}

// --- C16 -----------------------------------------------------------------------

func faultInput(g *G) *Input {
	in, x := applyInput(g, func() (*Schema, *Schema, string) {
		a := g.dbSchema()
		b, ops := g.mutate(a, g.n(1, 3))
		b = g.toDB(b)
		align(a, b)
		if validModel(b) != nil {
			b = g.dbSchema()
		}
		return a, b, strings.Join(ops, ", ")
	})
	x.Args = append(x.Args, "--auto-approve")
	f := fault{Op: g.pick([]string{"exec", "exec", "exec", "batch", "open", "ping", "query", "rows", "close"})}
	switch f.Op {
	case "exec":
		if f.Nth = g.n(0, 4); f.Nth > 0 && g.p(50) {
			f.Times = g.pickN([]int{1, 1000})
		}
		if g.d == SP && g.p(30) {
			f.Match, f.Nth = g.pick([]string{"START BATCH", "RUN BATCH"}), 0
		}
		f.Bad = g.p(15)
		if g.p(40) { // what the program might look for
			f.Say = g.pick([]string{"Error 1215 (HY000): Cannot add foreign key constraint", "Cannot add foreign key constraint", "pq: duplicate key", "already exists", "does not exist", "EOF", "context canceled", "no difference"})
			if g.p(50) {
				f.Nth, f.Match = 0, g.pick([]string{"FOREIGN KEY", "CREATE", "ALTER", "DROP"})
			}
		}
	case "open", "ping":
		f.Nth = g.n(1, 4)
		f.Times = g.pickN([]int{0, 1000})
	case "query", "rows":
		f.Nth = g.n(1, 6)
	}
	x.Faults = []fault{f}
	return x.put(in)
}

func (g *G) pickN(l []int) int { return l[g.n(0, len(l)-1)] }

func checkApplyFault(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := x.database(in)
		o := x.runApply(in, dir, db)
		if db.limit != "" {
			return limited(db)
		}
		if w := o.broken(); w != "" {
			return failf("apply: %s\n%v", w, o)
		}
		hit := db.hit()
		d := diffDump(facts(db.dsns[dsnA].S, false), facts(in.M2, false))
		if o.Code == 0 && len(d) > 0 {
			return failf("apply claims success, but the database is not as the source:\n%s\n%v\n%s", strings.Join(d, "\n"), o, db.log())
		}
		if o.Code == 0 {
			// every displayed statement was executed without error
			show, _ := displayed(o.Stdout)
			ok := map[string]int{}
			for _, q := range db.executed(false) {
				ok[q]++
			}
			for _, q := range stmtTexts(in.Dialect, show) {
				if ok[q]--; ok[q] < 0 {
					return failf("apply claims success, but %q was never executed without error\n%v\n%s", q, o, db.log())
				}
			}
			for q, n := range ok {
				if n > 0 {
					return failf("%q was executed again after success\n%v\n%s", q, o, db.log())
				}
			}
		}
		if !hit {
			if o.Code != 0 {
				return failf("apply failed by itself\n%v\n%s\n%s", o, db.log(), describe(in.M1, in.M2))
			}
			return &Result{Classes: []string{"not hit"}}
		}
		f := x.Faults[0]
		if o.Code != 0 {
			if !o.refused() || f.Op != "close" && !f.Bad && !strings.Contains(o.Stderr, faultText) {
				return failf("apply does not tell the cause %q\n%v\n%s", faultText, o, db.log())
			}
			if strings.Contains(o.Stdout, "\ndone\n") {
				return failf("apply says done and fails\n%v", o)
			}
			return &Result{Nontrivial: true, Classes: []string{"fault-" + f.Op, "failed"}}
		}
		return &Result{Nontrivial: true, Classes: []string{"fault-" + f.Op, "recovered"}}
	})
}

// --- C17 -----------------------------------------------------------------------

func historyInput(g *G) *Input {
	x := &dbCase{Noise: g.noise()}
	cur := &Schema{Dialect: g.d}
	k := g.n(2, 4)
	in := &Input{Dialect: g.d, M1: cur}
	if g.p(30) {
		cur = g.dbSchema()
		in.M1 = cur
	}
	for i := 0; i < k; i++ {
		var b *Schema
		switch {
		case len(cur.Tabs) == 0 || g.p(15):
			b = g.dbSchema()
		default:
			b, _ = g.mutate(cur, g.n(1, 4))
			b = g.toDB(b)
			if validModel(b) != nil {
				b = g.dbSchema()
			}
			if i > 0 && g.p(15) {
				b = x.Hist[g.n(0, len(x.Hist)-1)].clone() // back to an earlier version
			}
		}
		align(cur, b)
		if g.p(30) && len(b.Tabs) > 0 {
			g.reorder(b)
		}
		if validModel(b) != nil {
			continue
		}
		x.Hist = append(x.Hist, b)
		x.Texts = append(x.Texts, g.anyText(b))
		cur = b
	}
	return x.put(in)
}

func checkHistory(in *Input) *Result {
	x := getCase(in)
	return scratch(func(dir string) *Result {
		db := newFakeDB(in.Dialect, x.Noise, map[string]*Schema{dsnA: in.M1})
		steps := 0
		for i, b := range x.Hist {
			file := dir + fmt.Sprintf("/v%d.sql", i)
			if err := os.WriteFile(file, []byte(x.Texts[i]), 0o600); err != nil {
				harnessf("%v", err)
			}
			from := db.dsns[dsnA].S.clone()
			same := len(diffDump(facts(from, false), facts(b, false))) == 0
			run := func(args ...string) (*cliOut, *Result) {
				o := runCLI(&cliRun{Dir: dir, Args: append(append([]string{args[0], "--dialect", in.Dialect}, args[1:]...), dsnA, file), DB: db})
				if db.limit != "" {
					return nil, limited(db)
				}
				if w := o.broken(); w != "" || o.Code != 0 {
					return nil, failf("version %d: %v failed: %s\n%v\n%s\n%s", i, args, w, o, describe(from, b), db.log())
				}
				return o, nil
			}
			if _, r := run("apply", "--auto-approve"); r != nil {
				return r
			}
			if d := diffDump(facts(db.dsns[dsnA].S, false), facts(b, false)); len(d) > 0 {
				return failf("version %d: the database is not as the source:\n%s\n%s\n%s", i, strings.Join(d, "\n"), db.log(), describe(from, b))
			}
			db.calls = nil
			o, r := run("diff")
			if r != nil {
				return r
			}
			if strings.TrimSpace(o.Stdout) != "" {
				return failf("version %d: diff finds something to do after apply:\n%v\n%s", i, o, describe(from, b))
			}
			o, r = run("apply", "--auto-approve")
			if r != nil {
				return r
			}
			if w := db.wrongExec(); w != "" || !strings.Contains(o.Stdout, noDiff) {
				return failf("version %d: apply finds something to do after apply: %s\n%v\n%s", i, w, o, describe(from, b))
			}
			if !same {
				steps++
			}
		}
		return &Result{Nontrivial: steps >= 2, Classes: []string{fmt.Sprintf("steps=%d", steps)}}
	})
}

func init() {
	perDialect(func(d string) {
		reg := func(prop, name string, quick, thorough int, rule string, gen func(*G) *Input, check func(*Input) *Result) {
			register(&Sub{Prop: prop, Name: name + "_" + d, Quick: quick, Thorough: thorough, External: true, Rule: rule,
				Gen: func(t *rapid.T) *Input { return gen(newG(t, d)) }, Check: check})
		}
		reg("C12", "sources", 2000, 16000, "at least one side is a database or a directory", sourcesInput, checkSources)
		reg("C13", "show", 2000, 16000, "two or more tables, or one of some size", showInput, checkShow)
		reg("C13", "show_fault", 600, 5000, "the injected failure was met", showFaultInput, checkShowFault)
		reg("C14", "apply", 2000, 16000, "two or more statements were executed", func(g *G) *Input {
			in, x := applyInput(g, g.dbPair)
			g.approve(x)
			return x.put(in)
		}, checkApply)
		reg("C15", "approval", 2000, 12000, "there is something to do, or something is wrong before the approval", approvalInput, checkApproval)
		reg("C16", "faults", 400, 3000, "the injected failure was met", faultInput, checkApplyFault)
		reg("C17", "history", 600, 6000, "two or more versions that change something", historyInput, checkHistory)
	})
}
