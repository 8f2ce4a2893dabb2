package zzverif

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

func goInput(g *G) *Input {
	m := goable(g.schema())
	tg := g.goTags()
	files := g.goFiles(m, tg)
	stray := g.strayFiles(tg)
	in := &Input{Dialect: g.d, M1: m, Kv: files, Strs: append(tg.args(g), "--dialect", g.d)}
	in.Any, _ = json.Marshal(stray)
	in.N = g.n(0, 3)
	return in
}

func (in *Input) stray() map[string]string {
	m := map[string]string{}
	if len(in.Any) > 0 {
		if err := json.Unmarshal(in.Any, &m); err != nil {
			harnessf("%v", err)
		}
	}
	return m
}

func goClasses(in *Input) []string {
	cl := schemaClasses(in.M1)
	if len(in.Kv) > 1 {
		cl = append(cl, "several-files")
	}
	all := ""
	for _, s := range in.Kv {
		all += s
	}
	for k, w := range map[string]string{"block-comment": "/*", "type-group": "type (", "skipped-field": "Skip", "embedded-field": "Base", "escaped-tag": `\x60`, "quoted-tag": "\" \"", "plain-struct": "Plain", "other-tag": "otherddl"} {
		if strings.Contains(all, w) {
			cl = append(cl, k)
		}
	}
	sort.Strings(cl)
	return cl
}

// checkGenerate: the generated DDL declares exactly the annotated schema.
func checkGenerate(in *Input) *Result {
	return scratch(func(dir string) *Result {
		writeFiles(dir+"/src", in.Kv)
		writeFiles(dir+"/src", in.stray())
		src := "src"
		if len(in.Kv) == 1 && in.N == 1 {
			for n := range in.Kv {
				src = "src/" + n
			}
		}
		args := append(append([]string{"generate"}, in.Strs...), src, "out.sql")
		o := runCLI(&cliRun{Dir: dir, Args: args})
		if w := o.broken(); w != "" {
			return failf("%s\n%v", w, o)
		}
		if o.Code != 0 {
			return failf("generate failed on a good source\n%v", o)
		}
		b, err := os.ReadFile(dir + "/out.sql")
		if err != nil {
			return failf("generate left no output: %v", err)
		}
		got, err := readSchema(in.Dialect, string(b))
		if err != nil {
			return failf("the generated DDL cannot be executed: %v\n%s", err, clip(string(b), 3000))
		}
		if d := diffDump(in.M1.dump(true), got.dump(true)); len(d) > 0 {
			return failf("the generated DDL differs from the annotations:\n%s\n%s", strings.Join(d, "\n"), clip(string(b), 3000))
		}
		res := &Result{Nontrivial: richness(in.M1) >= 2, Classes: goClasses(in)}
		return res
	})
}

// checkGenerated: the tool accepts what it generates and sees no difference to
// the source; generating again gives the same bytes; a directory is the union
// of its files.
func checkGenerated(in *Input) *Result {
	return scratch(func(dir string) *Result {
		writeFiles(dir+"/src", in.Kv)
		writeFiles(dir+"/src", in.stray())
		gen := func(src, dst string) (string, *Result) {
			o := runCLI(&cliRun{Dir: dir, Args: append(append([]string{"generate"}, in.Strs...), src, dst)})
			if w := o.broken(); w != "" {
				return "", failf("%s\n%v", w, o)
			}
			if o.Code != 0 {
				return "", failf("generate %s failed\n%v", src, o)
			}
			b, err := os.ReadFile(filepath.Join(dir, dst))
			if err != nil {
				return "", failf("generate left no output: %v", err)
			}
			return string(b), nil
		}
		one, res := gen("src", "one.sql")
		if res != nil {
			return res
		}
		two, res := gen("src", "two.sql")
		if res != nil {
			return res
		}
		if one != two {
			return failf("generating twice gives different texts:\n%s\n=====\n%s", clip(one, 2000), clip(two, 2000))
		}
		if err := os.Symlink("src", dir+"/lnk"); err != nil {
			harnessf("%v", err)
		}
		linked, res := gen("lnk", "three.sql")
		if res != nil {
			return res
		}
		if sqlOnly(one) != sqlOnly(linked) {
			return failf("a link to the source gives another text:\n%s\n=====\n%s", clip(one, 2000), clip(linked, 2000))
		}
		for _, args := range [][]string{{"one.sql", "src"}, {"src", "one.sql"}} {
			o := runCLI(&cliRun{Dir: dir, Args: append(append([]string{"diff"}, in.Strs...), args...)})
			if w := o.broken(); w != "" {
				return failf("%s\n%v", w, o)
			}
			if o.Code != 0 {
				return failf("diff %v failed\n%v\n%s", args, o, clip(one, 2000))
			}
			if strings.TrimSpace(o.Stdout) != "" {
				return failf("diff %v between a source and what it generates is not empty\n%v\n%s", args, o, clip(one, 2000))
			}
		}
		// union, statement by statement
		stmts := func(s string) []string {
			l, err := splitSQL(in.Dialect, s)
			if err != nil {
				harnessf("cannot split the generated text: %v\n%s", err, s)
			}
			var out []string
			for _, st := range l {
				var w []string
				for _, t := range st {
					w = append(w, t.text)
				}
				out = append(out, strings.Join(w, " "))
			}
			return out
		}
		var names []string
		for n := range in.Kv {
			names = append(names, n)
		}
		sort.Strings(names)
		var parts []string
		for _, n := range names {
			s, res := gen("src/"+n, "part.sql")
			if res != nil {
				return res
			}
			parts = append(parts, stmts(s)...)
		}
		whole := stmts(one)
		if d := diffDump(parts, whole); len(d) > 0 {
			return failf("a directory does not give the union of its files:\n%s", strings.Join(d, "\n"))
		}
		return &Result{Nontrivial: richness(in.M1) >= 2, Classes: goClasses(in)}
	})
}

func init() {
	perDialect(func(d string) {
		register(&Sub{Prop: "C10", Name: "declares_" + d, Quick: 700, Thorough: 12000, External: true,
			Rule:  "the annotated schema has at least two keys, constraints, indexes, options or special column attributes",
			Gen:   func(t *rapid.T) *Input { return goInput(newG(t, d)) },
			Check: checkGenerate})
		register(&Sub{Prop: "C11", Name: "stable_" + d, Quick: 250, Thorough: 4000, External: true,
			Rule:  "the annotated schema has at least two keys, constraints, indexes, options or special column attributes",
			Gen:   func(t *rapid.T) *Input { return goInput(newG(t, d)) },
			Check: checkGenerated})
	})
}

// sqlOnly leaves out lines that are comments (they name files).
func sqlOnly(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "--") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
