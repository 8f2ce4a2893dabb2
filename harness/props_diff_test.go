package zzverif

import (
	"fmt"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// pair draws two schemas of one dialect and says how they are related.
func (g *G) pair() (*Schema, *Schema, string) {
	switch g.n(0, 11) {
	case 0:
		return &Schema{Dialect: g.d}, g.schema(), "from nothing"
	case 1:
		return g.schema(), &Schema{Dialect: g.d}, "to nothing"
	case 2, 3:
		a, b := g.schema(), g.schema()
		align(a, b)
		if g.p(20) {
			g.moveIndexes(b)
		}
		return a, b, "independent"
	case 4, 5, 6:
		a := g.schema()
		b, ops := g.mutate(a, 1)
		align(a, b)
		if g.p(20) {
			g.moveIndexes(b)
		}
		return a, b, "1 change: " + strings.Join(ops, ", ")
	default:
		a := g.schema()
		b, ops := g.mutate(a, g.n(2, 5))
		align(a, b)
		if g.p(20) {
			g.moveIndexes(b)
		}
		return a, b, fmt.Sprintf("%d changes", len(ops))
	}
}

// strictDropIndex as Input.N makes the engine insist on DROP INDEX ... ON for MySQL.
const strictDropIndex = 77

func pairInput(g *G) *Input {
	a, b, how := g.pair()
	in := &Input{Dialect: g.d, M1: a, M2: b, C: how}
	if g.p(25) {
		in.A, in.B = g.sqlText(a), g.sqlText(b)
	} else {
		in.A, in.B = plainText(a), plainText(b)
	}
	return in
}

func checkPairModels(in *Input) {
	for _, m := range []*Schema{in.M1, in.M2} {
		if err := validModel(m); err != nil {
			harnessf("%v", err)
		}
	}
}

func migration(in *Input) (out string, same bool, res *Result) {
	a, b, err := parseBoth(in.Dialect, in.A, in.B)
	if err != nil {
		return "", false, failf("valid DDL rejected: %v\n%s\n---\n%s", err, in.A, in.B)
	}
	out, same, err = toolDiff(in.Dialect, a, b)
	if err != nil {
		return "", false, failf("no difference computed: %v\nbefore:\n%s\nafter:\n%s", err, in.A, in.B)
	}
	return out, same, nil
}

func pairClasses(in *Input) []string {
	c := []string{in.C}
	return c
}

func checkMigrates(in *Input) *Result {
	checkPairModels(in)
	out, _, bad := migration(in)
	if bad != nil {
		return bad
	}
	e := NewEngineFrom(in.M1)
	e.LenientDropIndex = in.N != strictDropIndex // known finding: MySQL's DROP INDEX is emitted without ON table
	if _, err := e.Exec(out); err != nil {
		return failf("the migration fails: %v\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", err, in.A, in.B, out)
	}
	if d := diffDump(in.M2.dump(false), e.S.dump(false)); len(d) > 0 {
		return failf("the migrated schema is not the second one (- wanted, + got):\n%s\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", strings.Join(d, "\n"), in.A, in.B, out)
	}
	return &Result{Nontrivial: len(diffDump(in.M1.dump(false), in.M2.dump(false))) > 0, Classes: pairClasses(in)}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{
			Prop: "C05", Name: "migrate_" + d, Quick: 12000, Thorough: 400000,
			Rule:  "a pair of schemas (one empty, independent, or related by 1 to 5 changes); non-trivial: they differ",
			Gen:   func(t *rapid.T) *Input { return pairInput(newG(t, d)) },
			Check: checkMigrates,
		})
	})
}

// ---- C06 ----

func checkExecutable(in *Input) *Result {
	checkPairModels(in)
	out, _, bad := migration(in)
	if bad != nil {
		return bad
	}
	stmts, err := splitSQL(in.Dialect, out)
	if err != nil {
		return failf("the migration is malformed: %v\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", err, in.A, in.B, out)
	}
	e := NewEngineFrom(in.M1)
	e.LenientDropIndex = in.N != strictDropIndex
	for i, st := range stmts {
		if err := e.ExecToks(st); err != nil {
			return failf("statement %d of the migration cannot be executed: %v\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", i+1, err, in.A, in.B, out)
		}
	}
	// what ddlctl prints must be readable by ddlctl when it creates everything
	return &Result{Nontrivial: len(stmts) > 1, Classes: []string{fmt.Sprintf("%d statements", min(len(stmts)/3*3, 12))}}
}

// ---- C07 ----

func checkEqual(in *Input) *Result {
	if in.M1 == nil || len(diffDump(in.M1.dumpAs(true, true), in.M2.dumpAs(true, true))) > 0 {
		harnessf("the two models are not equal")
	}
	a, b, err := parseBoth(in.Dialect, in.A, in.B)
	if err != nil {
		return failf("valid DDL rejected: %v\n%s\n---\n%s", err, in.A, in.B)
	}
	for i, pair := range [][2]DDL{{a, b}, {b, a}, {a, a}} {
		out, same, err := toolDiff(in.Dialect, pair[0], pair[1])
		if err != nil || !same {
			return failf("a difference is reported between two writings of one schema (%d): %v\nfirst:\n%s\nsecond:\n%s\ndifference:\n%s", i, err, in.A, in.B, out)
		}
	}
	return &Result{Nontrivial: in.A != in.B && richness(in.M1) > 0, Classes: schemaClasses(in.M1)}
}

// restate says or leaves out what makes no difference: NOT NULL on a primary
// key column and DEFAULT NULL.
func (g *G) restate(s *Schema) {
	if g.d == SP {
		for _, t := range s.Tabs {
			if il := t.Options["INTERLEAVE"]; il != "" && g.p(50) {
				if x := strings.TrimSuffix(il, " ON DELETE NO ACTION"); x != il {
					t.Options["INTERLEAVE"] = x
				} else if !strings.Contains(il, " ON DELETE ") {
					t.Options["INTERLEAVE"] = il + " ON DELETE NO ACTION"
				}
			}
		}
		return
	}
	for _, t := range s.Tabs {
		for _, c := range t.Cons {
			if c.Kind == KFK && g.p(30) {
				if c.OnDelete == "NO ACTION" {
					c.OnDelete = ""
				} else if c.OnDelete == "" && (g.d == MY || c.OnUpdate == "") {
					c.OnDelete = "NO ACTION"
				}
			}
		}
		for _, c := range t.Cols {
			if c.As != "" || c.AutoInc {
				continue
			}
			pk := t.pk() != nil && contains(t.pk().Cols, c.Name)
			if pk && c.Default != "NULL" && g.p(30) {
				c.NotNull = !c.NotNull
			}
			if !pk && !c.NotNull && (c.Default == "NULL" || c.Default == "") && g.p(30) {
				c.Default = map[string]string{"": "NULL", "NULL": ""}[c.Default]
			}
		}
	}
}

func checkDiffers(in *Input) *Result {
	checkPairModels(in)
	facts := diffDump(in.M1.dump(false), in.M2.dump(false))
	if len(facts) == 0 {
		return &Result{Classes: []string{"equal after all"}}
	}
	for i, x := range [][2]string{{in.A, in.B}, {in.B, in.A}} {
		a, b, err := parseBoth(in.Dialect, x[0], x[1])
		if err != nil {
			return failf("valid DDL rejected: %v\n%s\n---\n%s", err, in.A, in.B)
		}
		if i == 1 && in.Dialect == MY && onlyOptionsRemoved(in.M2, in.M1) {
			continue // an option that is no longer written is left alone
		}
		out, same, err := toolDiff(in.Dialect, a, b)
		if err != nil {
			return failf("no difference computed: %v\n%s\n---\n%s", err, in.A, in.B)
		}
		if same {
			return failf("no difference is reported (%d), but these facts differ:\n%s\nfirst:\n%s\nsecond:\n%s", i, strings.Join(facts, "\n"), in.A, in.B)
		}
		for _, f := range facts {
			name := factSubject(f)
			if !strings.Contains(unquote(out), unquote(name)) && !goneTable(in.M1, in.M2, name, out) {
				return failf("the difference does not name %q:\n%s\nfirst:\n%s\nsecond:\n%s\ndifference:\n%s", name, f, in.A, in.B, out)
			}
		}
	}
	return &Result{Nontrivial: true, Classes: []string{in.C}}
}

// onlyOptionsRemoved: the only difference is options that b no longer has.
func onlyOptionsRemoved(a, b *Schema) bool {
	for _, f := range diffDump(a.dump(false), b.dump(false)) {
		if !strings.Contains(f, " option ") || !strings.HasPrefix(f, "- ") || strings.Contains(f, " option COMMENT=") {
			return false
		}
	}
	return true
}

// factSubject is the name of the table or index a differing fact is about.
func factSubject(f string) string {
	f = f[2:]
	var kind, name string
	if _, err := fmt.Sscanf(f, "%s %q", &kind, &name); err != nil {
		harnessf("odd fact %q: %v", f, err)
	}
	return bare(name)
}

// unquote leaves the quotes of names out.
func unquote(s string) string { return strings.NewReplacer(`"`, "", "`", "").Replace(s) }

// goneTable: the index belongs to a table that is created or dropped as a whole,
// and goes with it.
func goneTable(a, b *Schema, idx, out string) bool {
	for _, x := range append(append([]*Idx(nil), a.Idxs...), b.Idxs...) {
		if x.Name == idx && (a.tab(x.Table) == nil) != (b.tab(x.Table) == nil) && strings.Contains(unquote(out), unquote(bare(x.Table))) {
			return true
		}
	}
	return false
}

// ---- C08 ----

// mayTouch lists what a migration may create, drop or alter: everything that
// is not identical in both schemas, and what depends on a Spanner table that
// cannot be changed in place.
func mayTouch(a, b *Schema) map[string]bool {
	ok := map[string]bool{}
	recreated := map[string]bool{}
	if a.Dialect == SP {
		for again := true; again; {
			again = false
			for _, t := range a.Tabs {
				u := b.tab(t.Name)
				if u == nil || recreated[t.Name] {
					continue
				}
				parent, _, _ := strings.Cut(t.Options["INTERLEAVE"], " ON DELETE ")
				if t.Options["INTERLEAVE"] != u.Options["INTERLEAVE"] || fmt.Sprint(t.pk().Cols) != fmt.Sprint(u.pk().Cols) || recreated[parent] {
					recreated[t.Name] = true
					ok["table "+t.Name] = true
					again = true
				}
			}
		}
	}
	both := func(x, y *Schema) {
		for _, t := range x.Tabs {
			u := y.tab(t.Name)
			if u == nil {
				ok["table "+t.Name] = true
				continue
			}
			for _, c := range t.Cols {
				d := u.col(c.Name)
				if d == nil || c.fact(x.Dialect) != d.fact(x.Dialect) || (c.NotNull || t.inPK(c.Name)) != (d.NotNull || u.inPK(c.Name)) {
					ok["column "+t.Name+"."+c.Name] = true
				}
			}
			for _, c := range t.Cons {
				d := u.con(c.Name)
				if d == nil || c.fact(x.Dialect) != d.fact(x.Dialect) || c.Kind == KFK && recreated[c.RefTable] {
					ok["constraint "+t.Name+"."+c.Name] = true
				}
			}
			for k, v := range t.Options {
				if u.Options[k] != v {
					ok["option "+t.Name+"."+k] = true
					if k == "ROW DELETION POLICY" {
						ok["policy "+t.Name] = true
					}
				}
			}
		}
		for _, i := range x.Idxs {
			j := y.idxOn(i.Table, i.Name)
			if j == nil || i.fact() != j.fact() || recreated[i.Table] {
				ok["index "+i.Name] = true
			}
		}
	}
	both(a, b)
	both(b, a)
	return ok
}

func checkTouches(in *Input) *Result {
	checkPairModels(in)
	out, _, bad := migration(in)
	if bad != nil {
		return bad
	}
	e := NewEngineFrom(in.M1)
	e.LenientDropIndex = true
	if _, err := e.Exec(out); err != nil {
		return failf("the migration fails: %v\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", err, in.A, in.B, out)
	}
	may := mayTouch(in.M1, in.M2)
	seen := map[string]int{}
	for _, x := range e.Touched {
		seen[x]++
		if !may[x] {
			return failf("the migration touches %s, which both schemas declare alike\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", x, in.A, in.B, out)
		}
	}
	// a surviving table keeps its identity, and so do its surviving columns
	old := NewEngineFrom(in.M1).S
	kept := 0
	for _, t := range old.Tabs {
		u := e.S.tab(t.Name)
		if u == nil || may["table "+t.Name] {
			continue
		}
		if u.ID != t.ID {
			return failf("the migration recreates table %q\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", t.Name, in.A, in.B, out)
		}
		kept++
		for _, c := range t.Cols {
			d := u.col(c.Name)
			if d == nil || d.ID == c.ID {
				continue
			}
			if x := in.M2.tab(t.Name).col(c.Name); x.As == c.As && x.AsKind == c.AsKind {
				return failf("the migration recreates column %q of %q\nbefore:\n%s\nafter:\n%s\nmigration:\n%s", c.Name, t.Name, in.A, in.B, out)
			}
		}
	}
	return &Result{Nontrivial: kept > 0 && len(e.Touched) > 0, Classes: []string{in.C}}
}

// ---- C09 ----

func checkPure(in *Input) *Result {
	a, b, err := parseBoth(in.Dialect, in.A, in.B)
	if err != nil {
		return failf("valid DDL rejected: %v\n%s\n---\n%s", err, in.A, in.B)
	}
	pa, pb := a.String(), b.String()
	ga, gb := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)
	first, same, err := toolDiff(in.Dialect, a, b)
	if err != nil {
		return failf("no difference computed: %v\n%s\n---\n%s", err, in.A, in.B)
	}
	unchanged := func(when string) *Result {
		if x := a.String(); x != pa {
			return failf("the first schema prints differently %s:\n%s\nwas:\n%s", when, x, pa)
		}
		if x := b.String(); x != pb {
			return failf("the second schema prints differently %s:\n%s\nwas:\n%s", when, x, pb)
		}
		if x := fmt.Sprintf("%#v", a); x != ga {
			return failf("the first schema has changed %s:\n%s\nwas:\n%s", when, x, ga)
		}
		if x := fmt.Sprintf("%#v", b); x != gb {
			return failf("the second schema has changed %s:\n%s\nwas:\n%s", when, x, gb)
		}
		return nil
	}
	if r := unchanged("after comparing"); r != nil {
		return r
	}
	// something else in between: the reverse, and each with itself
	for _, p := range [][2]DDL{{b, a}, {a, a}, {b, b}} {
		if _, _, err := toolDiff(in.Dialect, p[0], p[1]); err != nil {
			return failf("no difference computed: %v\n%s\n---\n%s", err, in.A, in.B)
		}
	}
	if r := unchanged("after comparing the other way round"); r != nil {
		return r
	}
	for i := 0; i < 3; i++ {
		again, same2, _ := toolDiff(in.Dialect, a, b)
		if again != first || same2 != same {
			return failf("comparing again gives another result:\n%s\nwas:\n%s\nfirst:\n%s\nsecond:\n%s", again, first, in.A, in.B)
		}
	}
	// a fresh reading of the same texts, with another comparison before it
	a2, b2, err := parseBoth(in.Dialect, in.A, in.B)
	if err != nil {
		return failf("valid DDL rejected the second time: %v\n%s\n---\n%s", err, in.A, in.B)
	}
	if a2.String() != pa || b2.String() != pb {
		return failf("reading the same text again gives another schema\n%s\n---\n%s", in.A, in.B)
	}
	again, _, _ := toolDiff(in.Dialect, a2, b2)
	if again != first {
		return failf("comparing fresh readings gives another result:\n%s\nwas:\n%s\nfirst:\n%s\nsecond:\n%s", again, first, in.A, in.B)
	}
	return &Result{Nontrivial: !same, Classes: []string{in.C}}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{
			Prop: "C06", Name: "steps_" + d, Quick: 12000, Thorough: 400000,
			Rule: "a pair of schemas related by 2 to 6 changes to what other objects depend on; non-trivial: at least two statements",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				g.Refs, g.Size = true, 4
				if g.p(20) {
					return pairInput(g)
				}
				a := g.schema()
				b, ops := g.mutate(a, g.n(2, 6))
				if g.p(20) {
					g.moveIndexes(b)
				}
				if d != SP && g.p(25) {
					g.refBack(a, b)
				}
				align(a, b)
				if g.p(50) { // both directions
					a, b = b, a
					align(a, b)
				}
				return &Input{Dialect: d, M1: a, M2: b, C: fmt.Sprintf("%d changes", len(ops)), A: g.shuffledText(a), B: g.shuffledText(b)}
			},
			Check: checkExecutable,
		})
		register(&Sub{
			Prop: "C07", Name: "equal_" + d, Quick: 8000, Thorough: 300000,
			Rule: "two random writings (statement and constraint order, spelling, implicit names) of one schema; non-trivial: the texts differ and hold a constraint, index, option or default",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				a := g.schema()
				b := a.clone()
				g.reorder(b)
				g.restate(b)
				return &Input{Dialect: d, M1: a, M2: b, A: g.sqlText(a), B: g.sqlText(b)}
			},
			Check: checkEqual,
		})
		register(&Sub{
			Prop: "C07", Name: "differ_" + d, Quick: 12000, Thorough: 400000,
			Rule: "a schema and the same with one change (in random writings); non-trivial: the change is a real one",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				a := g.schema()
				b, ops := g.mutate(a, 1)
				align(a, b)
				in := &Input{Dialect: d, M1: a, M2: b, C: strings.Join(ops, ","), A: plainText(a), B: plainText(b)}
				if g.p(50) {
					in.A, in.B = g.sqlText(a), g.sqlText(b)
				}
				return in
			},
			Check: checkDiffers,
		})
		register(&Sub{
			Prop: "C08", Name: "touch_" + d, Quick: 12000, Thorough: 400000,
			Rule: "a pair of schemas in random writings; non-trivial: at least one table survives and at least one object is changed",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				in := pairInput(g)
				if g.p(50) {
					g.reorder(in.M2)
					in.A, in.B = g.sqlText(in.M1), g.sqlText(in.M2)
				}
				return in
			},
			Check: checkTouches,
		})
		register(&Sub{
			Prop: "C09", Name: "pure_" + d, Quick: 8000, Thorough: 300000,
			Rule: "a pair of schemas in random writings; non-trivial: they differ",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				in := pairInput(g)
				in.A, in.B = g.sqlText(in.M1), g.sqlText(in.M2)
				return in
			},
			Check: checkPure,
		})
	})
}

// shuffledText writes the statements in an order in which they need not be
// executable (the tables of a source need not be sorted by reference).
// refBack lets a table of b refer to a later one, which may refer to it: both
// exist on both sides (tables that refer to each other and are created or
// dropped together are a known finding).
func (g *G) refBack(a, b *Schema) {
	for i, x := range b.Tabs {
		for _, y := range b.Tabs[i+1:] {
			name := "back_" + bare(x.Name)
			if a.tab(x.Name) == nil || a.tab(y.Name) == nil || x.con(name) != nil || relUsed(b, name) || !g.p(50) {
				continue
			}
			xc, yc := plainCols(x), plainCols(y)
			if len(xc) == 0 || len(yc) == 0 {
				continue
			}
			x.Cons = append(x.Cons, &Con{Kind: KFK, Name: name, Cols: []string{g.pick(xc)}, RefTable: y.Name, RefCols: []string{g.pick(yc)}})
		}
	}
}

func (g *G) shuffledText(m *Schema) string {
	if !g.p(40) {
		return plainText(m)
	}
	n := m.clone()
	for i := len(n.Tabs) - 1; i > 0; i-- {
		j := g.n(0, i)
		n.Tabs[i], n.Tabs[j] = n.Tabs[j], n.Tabs[i]
	}
	return plainText(n)
}
