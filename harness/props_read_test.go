package zzverif

import (
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

func newG(t *rapid.T, d string) *G { return &G{t: t, d: d} }

func perDialect(f func(d string)) {
	for _, d := range allDialects {
		f(d)
	}
}

func init() {
	perDialect(func(d string) {
		// C03: generated text -> tool -> printed text -> independent reader == generated model
		register(&Sub{
			Prop: "C03", Name: "model_" + d, Quick: 12000, Thorough: 400000,
			Rule: "a random schema written in random equivalent ways; non-trivial: it has a constraint, an index, an option or a default",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				m := g.schema()
				return &Input{Dialect: d, M1: m, A: g.sqlText(m)}
			},
			Check: checkReadModel,
		})
		register(&Sub{
			Prop: "C02", Name: "reprint_" + d, Quick: 8000, Thorough: 300000,
			Rule: "a random schema written in random equivalent ways; non-trivial: accepted, with a constraint, index, option or default",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				m := g.schema()
				return &Input{Dialect: d, A: g.sqlText(m), N: richness(m)}
			},
			Check: checkReprint,
		})
		register(&Sub{
			Prop: "C04", Name: "layout_" + d, Quick: 8000, Thorough: 300000,
			Rule: "one token sequence laid out in two styles; non-trivial: the two texts differ and hold at least one constraint, index, option or default",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				m := g.schema()
				toks := g.render(m, false)
				return &Input{Dialect: d, A: g.text(toks, g.style()), B: g.text(toks, g.style()), N: richness(m)}
			},
			Check: checkLayout,
		})
	})
}

// richness counts the parts of a schema beyond bare columns.
func richness(m *Schema) int {
	n := len(m.Idxs)
	for _, t := range m.Tabs {
		n += len(t.Cons) + len(t.Options)
		for _, c := range t.Cols {
			if c.Default != "" || c.As != "" || c.Comment != "" || c.Options != "" || c.CharSet != "" || c.Collate != "" || c.NotVisible || c.OnUpdate != "" {
				n++
			}
		}
	}
	return n
}

func schemaClasses(m *Schema) []string {
	set := map[string]bool{}
	for _, t := range m.Tabs {
		for _, c := range t.Cons {
			set[c.Kind] = true
			if c.OnDelete+c.OnUpdate != "" {
				set["FK action"] = true
			}
		}
		for k := range t.Options {
			set["option "+k] = true
		}
		for _, c := range t.Cols {
			if c.Default != "" {
				set["default"] = true
			}
			if mustQuote(c.Name) {
				set["quoted column"] = true
			}
		}
		if mustQuote(t.Name) {
			set["quoted table"] = true
		}
	}
	for _, i := range m.Idxs {
		if i.Inline {
			set["inline index"] = true
		} else {
			set["index"] = true
		}
	}
	if len(m.Tabs) > 1 {
		set["several tables"] = true
	}
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	return out
}

// selfRead guards the harness: the independent reader must read the generated
// text back as the generated model.
func selfRead(in *Input) {
	got, err := readSchema(in.Dialect, in.A)
	if err != nil {
		harnessf("own reader rejects own text: %v\n%s", err, in.A)
	}
	if d := diffDump(in.M1.dump(true), got.dump(true)); len(d) > 0 {
		harnessf("own reader misreads own text:\n%s\n%s", strings.Join(d, "\n"), in.A)
	}
}

func checkReadModel(in *Input) *Result {
	selfRead(in)
	d, err := toolParse(in.Dialect, in.A)
	if err != nil {
		return failf("valid DDL rejected: %v\n%s", err, in.A)
	}
	printed := d.String()
	got, err := readSchema(in.Dialect, printed)
	if err != nil {
		return failf("the schema read cannot be executed as printed: %v\ntext:\n%s\nprinted:\n%s", err, in.A, printed)
	}
	if df := diffDump(in.M1.dump(true), got.dump(true)); len(df) > 0 {
		return failf("the schema read differs from the one declared (- declared, + read):\n%s\ntext:\n%s\nprinted:\n%s", strings.Join(df, "\n"), in.A, printed)
	}
	return &Result{Nontrivial: richness(in.M1) > 0, Classes: schemaClasses(in.M1)}
}

func checkReprint(in *Input) *Result {
	d, err := toolParse(in.Dialect, in.A)
	if err != nil {
		return &Result{Classes: []string{"rejected"}}
	}
	p1 := d.String()
	d2, err := toolParse(in.Dialect, p1)
	if err != nil {
		return failf("printed DDL is rejected: %v\ntext:\n%s\nprinted:\n%s", err, in.A, p1)
	}
	if p2 := d2.String(); p2 != p1 {
		return failf("printing is not stable\ntext:\n%s\nfirst:\n%s\nsecond:\n%s", in.A, p1, p2)
	}
	for i, pair := range [][2]DDL{{d, d2}, {d2, d}} {
		out, same, err := toolDiff(in.Dialect, pair[0], pair[1])
		if err != nil {
			return failf("comparing with the re-read schema (%d): %v\n%s", i, err, in.A)
		}
		if !same {
			return failf("the re-read schema differs (%d):\n%s\ntext:\n%s\nprinted:\n%s", i, out, in.A, p1)
		}
	}
	return &Result{Nontrivial: in.N > 0, Classes: []string{"accepted"}}
}

func checkLayout(in *Input) *Result {
	a, errA := toolParse(in.Dialect, in.A)
	b, errB := toolParse(in.Dialect, in.B)
	if (errA == nil) != (errB == nil) {
		return failf("one layout is accepted and the other is not: %v / %v\nfirst:\n%s\nsecond:\n%s", errA, errB, in.A, in.B)
	}
	if errA != nil {
		return &Result{Classes: []string{"both rejected"}}
	}
	for i, pair := range [][2]DDL{{a, b}, {b, a}} {
		out, same, err := toolDiff(in.Dialect, pair[0], pair[1])
		if err != nil || !same {
			return failf("two layouts of the same tokens differ (%d): %v %s\nfirst:\n%s\nsecond:\n%s", i, err, out, in.A, in.B)
		}
	}
	return &Result{Nontrivial: in.N > 0 && in.A != in.B, Classes: []string{"accepted"}}
}
