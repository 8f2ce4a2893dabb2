package zzverif

import (
	"fmt"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// Several constraints without a name on one table: each is kept, under a name
// of its own.

// unnamedText declares one table with constraints that are mostly unnamed, and
// lists them without their names, in order.
func unnamedText(g *G) (text string, want []string, unnamed int) {
	d := g.d
	num := map[string]string{PG: "INTEGER", CR: "INT8", MY: "BIGINT", SP: "INT64"}[d]
	var b strings.Builder
	fmt.Fprintf(&b, "CREATE TABLE p (id %s NOT NULL", num)
	if d == SP {
		b.WriteString(") PRIMARY KEY (id);\n")
	} else {
		b.WriteString(", PRIMARY KEY (id));\n")
	}
	cols := []string{"a", "b", "c"}[:g.n(1, 3)]
	check := func(c string) string {
		e := fmt.Sprintf("%s %s %d", c, g.pick([]string{">", "<", ">=", "<=", "<>"}), g.n(0, 99))
		want = append(want, "CHECK "+mustCanonExpr(d, "("+e+")"))
		return "CHECK (" + e + ")"
	}
	fk := func(c string, table bool) string {
		act := ""
		if d != SP && g.p(30) {
			act = " ON DELETE CASCADE"
		}
		want = append(want, "FOREIGN KEY "+c+" p id"+act)
		if table {
			return "FOREIGN KEY (" + c + ") REFERENCES p (id)" + act
		}
		return "REFERENCES p (id)" + act
	}
	var elems []string
	for _, c := range cols {
		e := c + " " + num
		if d != SP {
			for i := g.n(0, 2); i > 0; i-- {
				switch {
				case d == MY || g.p(60): // REFERENCES on a MySQL column is ignored by MySQL itself
					e += " " + check(c)
				default:
					e += " " + fk(c, false)
				}
				unnamed++
			}
		}
		elems = append(elems, e)
	}
	first := g.n(0, 4)
	for i := first; i > 0; i-- {
		name := ""
		if g.p(30) { // perhaps a name that an unnamed constraint would be given afterwards
			name = "k"
			if i == first {
				name = g.pick([]string{"k", "t_check", "t_check1", "t_chk"})
			}
			if strings.Contains(strings.Join(elems, ","), "CONSTRAINT "+name+" ") {
				name = ""
			}
		}
		pre := ""
		if name != "" {
			pre = "CONSTRAINT " + name + " "
		} else {
			unnamed++
		}
		c := g.pick(cols)
		at := len(want)
		if g.p(60) {
			elems = append(elems, pre+check(c))
		} else {
			elems = append(elems, pre+fk(c, true))
		}
		if name != "" {
			want[at] = name + ": " + want[at]
		}
	}
	fmt.Fprintf(&b, "CREATE TABLE t (%s)", strings.Join(elems, ", "))
	if d == SP {
		b.WriteString(" PRIMARY KEY (a)")
	}
	b.WriteString(";\n")
	return b.String(), want, unnamed
}

func checkUnnamed(in *Input) *Result {
	d, err := toolParse(in.Dialect, in.A)
	if err != nil {
		return failf("valid DDL rejected: %v\n%s", err, in.A)
	}
	printed := d.String()
	got, err := readSchema(in.Dialect, printed)
	if err != nil {
		return failf("the schema read cannot be executed as printed: %v\ntext:\n%s\nprinted:\n%s", err, in.A, printed)
	}
	named := map[string]string{}
	var want, have []string
	for _, w := range in.Strs {
		if n, body, ok := strings.Cut(w, ": "); ok {
			named[n] = body
		}
		want = append(want, w)
	}
	for _, k := range got.tab("t").Cons {
		var body string
		switch k.Kind {
		case KCheck:
			body = "CHECK " + k.Expr
		case KFK:
			body = "FOREIGN KEY " + strings.Join(k.Cols, ",") + " " + k.RefTable + " " + strings.Join(k.RefCols, ",")
			if k.OnDelete == "CASCADE" {
				body += " ON DELETE CASCADE"
			}
		default:
			continue
		}
		if named[k.Name] == body {
			body = k.Name + ": " + body
			delete(named, k.Name)
		}
		have = append(have, body)
	}
	sort.Strings(want)
	sort.Strings(have)
	if df := diffDump(want, have); len(df) > 0 {
		return failf("constraints are lost, merged or changed (- declared, + read):\n%s\ntext:\n%s\nprinted:\n%s", strings.Join(df, "\n"), in.A, printed)
	}
	if _, same, err := toolDiff(in.Dialect, d, d); err != nil || !same {
		return failf("the schema differs from itself: %v\n%s", err, in.A)
	}
	return &Result{Nontrivial: in.N > 1, Classes: []string{fmt.Sprintf("%d unnamed", in.N)}}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{
			Prop: "C03", Name: "unnamed_" + d, Quick: 4000, Thorough: 60000,
			Rule: "one table with several CHECK and FOREIGN KEY constraints, mostly without names; non-trivial: at least two have no name",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				text, want, n := unnamedText(g)
				return &Input{Dialect: d, A: text, Strs: want, N: n}
			},
			Check: checkUnnamed,
		})
	})
}
