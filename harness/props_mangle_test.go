package zzverif

import (
	"slices"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// mangle changes one token of a text: what comes out is often still DDL, but
// says something else.
func (g *G) mangle(s string) string {
	toks := roughTokens(s)
	var at []int
	for i, t := range toks {
		if strings.TrimSpace(t) != "" {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	pick := func() int { return at[g.n(0, len(at)-1)] }
	i := pick()
	switch g.n(0, 4) {
	case 0:
		toks[i] = ""
	case 1:
		toks[i] += " " + toks[i]
	case 2:
		j := pick()
		toks[i], toks[j] = toks[j], toks[i]
	case 3:
		toks[i] = toks[pick()]
	case 4:
		toks[i] = toks[pick()] + " " + toks[i]
	}
	return strings.Join(toks, "")
}

// recorded as Input.N is the input of a known finding.
const recorded = 77

func indexNamedLikeConstraint(s *Schema) bool {
	for _, ix := range s.Idxs {
		if t := s.tab(ix.Table); t != nil && t.con(ix.Name) != nil {
			return true
		}
	}
	return false
}

func checkMangled(in *Input) *Result {
	want, err := readSchema(in.Dialect, in.A)
	if err != nil {
		return &Result{Classes: []string{"not DDL"}}
	}
	if in.N != recorded && indexNamedLikeConstraint(want) {
		return &Result{Excluded: "an index has the name of a constraint of its table"}
	}
	if toks, _ := tokenizeSQL(in.Dialect, in.A); slices.ContainsFunc(toks, func(x sqlTok) bool { return x.kind == tQIdent && strings.Contains(x.val, ".") }) {
		return &Result{Excluded: "a quoted name holds a dot, which the model takes for the end of the name of the schema"}
	}
	d, err := toolParse(in.Dialect, in.A)
	if err != nil {
		return &Result{Classes: []string{"refused"}}
	}
	printed := d.String()
	got, err := readSchema(in.Dialect, printed)
	if err != nil {
		return failf("what ddlctl prints is not DDL: %v\nsource:\n%s\nprinted:\n%s", err, in.A, printed)
	}
	if l := diffDump(want.dump(true), got.dump(true)); len(l) > 0 {
		return failf("read differently:\n%s\nsource:\n%s\nprinted:\n%s", strings.Join(l, "\n"), in.A, printed)
	}
	return &Result{Nontrivial: true, Classes: []string{"read"}}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{Prop: "C03", Name: "mangled_" + d, Quick: 12000, Thorough: 400000, Rule: "ddlctl and the independent reader both accept the text",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				g.Size = 3
				m := g.schema()
				text := plainText(m)
				if g.p(50) {
					text = g.sqlText(m)
				}
				for k := g.n(1, 2); k > 0; k-- {
					text = g.mangle(text)
				}
				return &Input{Dialect: d, A: text}
			}, Check: checkMangled})
	})
}
