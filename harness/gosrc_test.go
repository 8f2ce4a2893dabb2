package zzverif

import (
	"fmt"
	"go/format"
	"go/token"
	"slices"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------------------
// Annotated Go sources that declare a given schema.
// ---------------------------------------------------------------------------

// goTags are the names of the struct tag keys and of the annotation.
type goTags struct{ col, ddl, pk string }

func (t goTags) args(g *G) []string {
	var a []string
	add := func(opt, v, def string) {
		if v == def && g.p(70) {
			return
		}
		if g.p(50) {
			a = append(a, "--"+opt+"="+v)
		} else {
			a = append(a, "--"+opt, v)
		}
	}
	add("go-column-tag", t.col, "db")
	add("go-ddl-tag", t.ddl, "ddlctl")
	add("go-pk-tag", t.pk, "pk")
	return a
}

func (g *G) goTags() goTags {
	t := goTags{"db", "ddlctl", "pk"}
	if g.p(40) {
		t.col = g.pick([]string{"db", "json", "sql_col", "database"})
	}
	if g.p(40) {
		t.ddl = g.pick([]string{"pgddl", "ddl", "spanddl", "my-ddl", "ddl.v1", "table"})
	}
	if g.p(40) {
		t.pk = g.pick([]string{"pk", "key", "primary_key"})
	}
	return t
}

// oneLine renders tokens on one line without comments.
func (g *G) oneLine(toks []rtok) string {
	st := Style{KW: g.n(0, 2), Quote: g.n(0, 2)}
	return strings.TrimSpace(g.text(toks, st))
}

// goField is a struct tag in source form.
func (g *G) goTag(pairs [][2]string) string {
	var parts []string
	for _, kv := range pairs {
		parts = append(parts, kv[0]+":"+strconv.Quote(kv[1]))
	}
	tag := strings.Join(parts, strings.Repeat(" ", g.n(1, 2)))
	if strings.Contains(tag, "`") && g.p(50) || g.p(10) {
		return strconv.Quote(tag)
	}
	return "`" + strings.ReplaceAll(tag, "`", `\x60`) + "`"
}

var goProse = []string{
	"is a model.", "It has a list of things; see below (really).", "TODO: fix the index of this table.", "Note: table names are plural.", "see also: constraint handling", "CREATE TABLE nope (id INT);",
	"it's \"quoted\" `text` -- here", "日本語", "http://example.com/index.html: index of pages", "100% sure, %d %s", "other: option: nothing", "", "  indented", "Deprecated: index is gone.", "NOTE(x): table: fake",
}

// prose is a comment line that is no annotation.
func (g *G) prose(t goTags) string {
	if g.p(20) { // an annotation for some other tool or dialect
		o := g.pick([]string{"otherddl", "x" + t.ddl, t.ddl + "x", "gorm"})
		return o + ":" + g.pick([]string{"table", "index", "constraint", "option"}) + g.pick([]string{" ", ": "}) + g.pick([]string{"elsewhere", "CREATE INDEX nope ON nope (nope)", "CHECK (FALSE)"})
	}
	return g.pick(goProse)
}

// annotation writes one annotation without the comment marker.
func (g *G) annotation(t goTags, key, rest string) string {
	if g.p(20) {
		key += map[string]string{"index": "es"}[key]
		if key != "indexes" {
			key += "s"
		}
	}
	sep := g.pick([]string{" ", ": ", ":", "  ", " : ", "      "})
	return t.ddl + g.pick([]string{":", ": ", " : ", ":     "}) + key + sep + rest
}

// commentGroup lays out comment lines as one group of comments.
func (g *G) commentGroup(lines []string, indent string) string {
	var b strings.Builder
	for i := 0; i < len(lines); {
		l := lines[i]
		safe := func(s string) bool { return !strings.Contains(s, "*/") && !strings.Contains(s, "/*") }
		switch k := g.n(0, 9); {
		case k == 9 && safe(l):
			b.WriteString(indent + "/* " + l + " */\n")
			i++
		case k == 8 && safe(l):
			b.WriteString(indent + "/*" + l + "*/\n")
			i++
		case k == 7 && g.p(60):
			n := g.n(1, len(lines)-i)
			for _, x := range lines[i : i+n] {
				if !safe(x) {
					n = 0
				}
			}
			if n == 0 {
				b.WriteString(indent + "// " + l + "\n")
				i++
				break
			}
			in := g.pick([]string{"", "  ", "\t"})
			b.WriteString(indent + "/*")
			if g.p(50) {
				b.WriteString("\n" + in)
			} else {
				b.WriteString(" ")
			}
			b.WriteString(strings.Join(lines[i:i+n], "\n"+in))
			if g.p(50) {
				b.WriteString("\n")
			}
			b.WriteString("*/\n")
			i += n
		case k == 6:
			b.WriteString(indent + "//" + l + "\n")
			i++
		case k == 5:
			b.WriteString(indent + "//   " + l + "\n")
			i++
		case k == 4:
			b.WriteString(indent + "//\t" + l + "\n")
			i++
		default:
			b.WriteString(indent + "// " + l + "\n")
			i++
		}
	}
	return b.String()
}

// sameOrder is false where gofmt moved lines: it takes //ddlctl:option for a
// directive, and puts these after all other lines of the comment.
func sameOrder(a, b string) bool {
	squash := func(s string) (out []string) {
		for _, l := range strings.Split(s, "\n") {
			l = strings.Map(func(r rune) rune {
				if unicode.IsLetter(r) || unicode.IsDigit(r) {
					return r
				}
				return -1
			}, l)
			if l != "" {
				out = append(out, l)
			}
		}
		return out
	}
	return slices.Equal(squash(a), squash(b))
}

func isGoName(n string) bool {
	if n == "" || n[0] >= '0' && n[0] <= '9' || token.IsKeyword(n) || n == "time" {
		return false
	}
	for _, r := range n {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return true
}

var goTypes = []string{"string", "int64", "time.Time", "*string", "[]byte", "float64", "bool", "struct{ X int `db:\"nope\" ddlctl:\"TEXT\"` }", "map[string]struct{}", "func(a, b int) error"}

// goStruct writes the type declaration of a table, without the keyword type.
// dangling are groups of comments which the caller places after it.
func (g *G) goStruct(s *Schema, t *Tab, tg goTags, ident, indent string, n *int) (doc, body, after string) {
	inlined := map[*Con]bool{}
	inl := map[string][]*Con{}
	var pkTag []string
	for _, c := range t.Cons {
		// the key by tags: unnamed, in field order
		if c.Kind == KPK && g.p(70) && (c.Name == autoName(g.d, t, c) || g.d == MY || g.d == SP) {
			k := 0
			for _, col := range t.Cols {
				if k < len(c.Cols) && col.Name == c.Cols[k] {
					k++
				}
			}
			if k == len(c.Cols) {
				pkTag = c.Cols
				inlined[c] = true
				continue
			}
		}
		if n := inlineCol(g.d, t, c); n != "" && t.col(n) != nil && g.p(60) {
			inlined[c] = true
			inl[n] = append(inl[n], c)
		}
	}
	var notes []string
	add := func(key, rest string) { notes = append(notes, g.annotation(tg, key, rest)) }
	// table
	nameToks := func() string {
		x := &R{g: g}
		x.id(t.Name)
		return g.oneLine(x.out)
	}
	byIdent := t.Name == ident && !mustQuote(t.Name) && g.p(70)
	if !byIdent {
		switch g.n(0, 3) {
		case 0:
			add("table", g.pick([]string{"CREATE TABLE ", "CREATE TABLE ", "create table ", "Create  Table\t"})+nameToks())
		case 1:
			add("table", g.pick([]string{"CREATE TABLE IF NOT EXISTS ", "CREATE TABLE IF NOT EXISTS ", "create table if not exists "})+nameToks())
		default:
			add("table", nameToks())
		}
	}
	var cons, opts []string
	for _, c := range t.Cons {
		if inlined[c] || g.d == SP && c.Kind == KPK {
			continue
		}
		x := &R{g: g}
		x.constraint(t, c)
		cons = append(cons, g.oneLine(x.out))
	}
	for _, ix := range s.Idxs {
		if ix.Table == t.Name && ix.Inline {
			x := &R{g: g}
			x.inlineIndex(ix)
			cons = append(cons, g.oneLine(x.out))
		}
	}
	for _, o := range (&R{g: g}).optionList(t, len(pkTag) > 0) {
		opts = append(opts, g.oneLine(o))
	}
	var idxs []string
	for _, ix := range s.Idxs {
		if ix.Table != t.Name || ix.Inline {
			continue
		}
		x := &R{g: g}
		x.index(ix)
		toks := x.out[:len(x.out)-1] // no semicolon
		if !ix.Unique && g.p(50) {
			toks = toks[2:] // CREATE INDEX is added
		}
		idxs = append(idxs, g.oneLine(toks))
	}
	for _, c := range cons {
		add("constraint", c)
	}
	for _, o := range opts {
		add("option", o)
	}
	var late []string
	for _, i := range idxs {
		if g.p(75) {
			add("index", i)
		} else {
			late = append(late, g.annotation(tg, "index", i))
		}
	}
	if len(notes) == 0 {
		notes = append(notes, tg.ddl+":"+g.pick([]string{"", " ", "table:", " see the README"}))
	} else if g.p(30) {
		// the order of different kinds of annotations is free
		var m []string
		for _, k := range []string{"index", "table", "constraint", "option"} {
			for _, x := range notes {
				_, rest, _ := strings.Cut(x, ":")
				if strings.HasPrefix(strings.TrimSpace(rest), k) {
					m = append(m, x)
				}
			}
		}
		notes = m
	}
	// prose in between
	var lines []string
	if g.p(60) {
		lines = append(lines, ident+" "+g.prose(tg), "")
	}
	for i, x := range notes {
		for g.p(15) {
			lines = append(lines, g.prose(tg))
		}
		_ = i
		lines = append(lines, x)
	}
	for g.p(15) {
		lines = append(lines, g.prose(tg))
	}
	doc = g.commentGroup(lines, indent)
	// fields
	var b strings.Builder
	b.WriteString(ident + " struct {\n")
	fieldNames := map[string]bool{}
	noise := func() {
		for g.p(15) {
			*n++
			f := fmt.Sprintf("Skip%d", *n)
			ty := g.pick(goTypes)
			switch g.n(0, 6) {
			case 0:
				fmt.Fprintf(&b, "%s\t%s %s\n", indent, f, ty)
			case 1:
				fmt.Fprintf(&b, "%s\t%s %s %s\n", indent, f, ty, g.goTag([][2]string{{tg.col, "skipped"}}))
			case 2:
				fmt.Fprintf(&b, "%s\t%s %s %s\n", indent, f, ty, g.goTag([][2]string{{tg.col, "-"}, {tg.ddl, "TEXT"}}))
			case 3:
				fmt.Fprintf(&b, "%s\t%s %s %s\n", indent, f, ty, g.goTag([][2]string{{tg.col, "skipped"}, {tg.ddl, "-"}, {tg.pk, "true"}}))
			case 4:
				fmt.Fprintf(&b, "%s\t%s, %sb %s\n", indent, f, f, ty)
			case 5:
				fmt.Fprintf(&b, "%s\tBase%d\n", indent, *n) // embedded
			case 6:
				fmt.Fprintf(&b, "%s\t*pkg.Base%d %s\n", indent, *n, g.goTag([][2]string{{"yaml", ",inline"}}))
			}
		}
	}
	for _, c := range t.Cols {
		noise()
		if g.p(40) {
			lines := []string{g.prose(tg)}
			for g.p(30) {
				lines = append(lines, g.prose(tg))
			}
			b.WriteString(g.commentGroup(lines, indent+"\t"))
		}
		x := &R{g: g}
		x.column(s, t, c, inl[c.Name], nil)
		var pairs [][2]string
		f := "F_" + sane(c.Name)
		for i := 2; fieldNames[f]; i++ {
			f = fmt.Sprintf("F_%s%d", sane(c.Name), i)
		}
		if isGoName(c.Name) && !fieldNames[c.Name] && g.p(60) {
			f = c.Name
			if g.p(20) {
				pairs = append(pairs, [2]string{tg.col, ""})
			}
		} else {
			pairs = append(pairs, [2]string{tg.col, c.Name})
		}
		fieldNames[f] = true
		pairs = append(pairs, [2]string{tg.ddl, g.oneLine(x.out[1:])})
		switch {
		case contains(pkTag, c.Name):
			pairs = append(pairs, [2]string{tg.pk, g.pick([]string{"true", "true", "1"})})
		case g.p(10):
			pairs = append(pairs, [2]string{tg.pk, g.pick([]string{"-", "false", "no"})})
		}
		if g.p(30) {
			pairs = append(pairs, [2]string{"yaml", g.pick([]string{"x", "x,omitempty", "it's"})})
		}
		if g.p(40) {
			i, j := g.n(0, len(pairs)-1), g.n(0, len(pairs)-1)
			pairs[i], pairs[j] = pairs[j], pairs[i]
		}
		fmt.Fprintf(&b, "%s\t%s %s %s", indent, f, g.pick(goTypes), g.goTag(pairs))
		if g.p(20) {
			b.WriteString(" // " + g.pick(goProse))
		}
		b.WriteString("\n")
	}
	noise()
	b.WriteString(indent + "}\n")
	for _, l := range late {
		after += "\n" + g.commentGroup([]string{l}, "") + "\n"
	}
	return doc, b.String(), after
}

// inlineIndex renders an index as an element of a table.
func (r *R) inlineIndex(ix *Idx) {
	if ix.Unique {
		r.kw("UNIQUE")
	}
	if r.g.d == MY && r.chance(50) {
		r.kw("KEY")
	} else {
		r.kw("INDEX")
	}
	r.id(ix.Name)
	r.keyList(ix.Cols, true)
	r.hash(ix)
}

// goable leaves out what cannot be written on one line of a comment.
func goable(s *Schema) *Schema {
	s = s.clone()
	bad := func(x string) bool { return strings.ContainsAny(x, "\n\r") }
	for _, t := range s.Tabs {
		t.Cons = filter(t.Cons, func(c *Con) bool { return !bad(c.Expr) })
		for k, v := range t.Options {
			if bad(v) {
				delete(t.Options, k)
			}
		}
	}
	return s
}

// goFiles writes a schema as a tree of Go sources. The paths sort in the order
// of the tables.
func (g *G) goFiles(s *Schema, tg goTags) map[string]string {
	files := map[string]string{}
	n := 0
	pos := 0
	used := map[string]bool{}
	header := func(pkg string) string {
		h := ""
		if g.p(20) {
			h += g.commentGroup([]string{"Package " + pkg + " " + g.prose(tg)}, "")
		}
		h += "package " + pkg + "\n\n"
		if g.p(30) {
			h += "import \"time\"\n\n"
		}
		return h
	}
	path := func(test bool) string {
		pos++
		p := ""
		for i := g.n(0, 2); i > 0; i-- {
			p += g.pick([]string{"models", "vendor", "a.go", "x_test", "internal"}) + "/"
		}
		return fmt.Sprintf("p%02d/%sf.go", pos, p)
	}
	noiseDecl := func() string {
		n++
		switch g.n(0, 6) {
		case 0:
			return fmt.Sprintf("// Plain%d %s\ntype Plain%d struct {\n\tID string %s\n}\n\n", n, g.pick(goProse), n, g.goTag([][2]string{{tg.col, "id"}, {tg.ddl, "TEXT NOT NULL"}, {tg.pk, "true"}}))
		case 1:
			return fmt.Sprintf("func F%d() string {\n\t// %s\n\treturn \"// %s:table: nope\"\n}\n\n", n, g.pick(goProse), tg.ddl)
		case 2:
			return fmt.Sprintf("const C%d = `\n// %s:index: CREATE INDEX nope ON nope (nope)\n`\n\n", n, tg.ddl)
		case 3:
			return fmt.Sprintf("type L%d []*Plain\n\n", n)
		case 4:
			return g.commentGroup([]string{g.prose(tg), g.prose(tg)}, "") + "\n"
		case 5:
			return fmt.Sprintf("// %s\nvar V%d = struct {\n\tX int %s\n}{1}\n\n", g.pick(goProse), n, g.goTag([][2]string{{tg.ddl, "TEXT"}}))
		default:
			return fmt.Sprintf("func (x *T%d) M(a, b int) { // %s\n}\n\n", n, g.pick(goProse))
		}
	}
	noise := func() string {
		x := ""
		for g.p(25) {
			x += noiseDecl()
		}
		return x
	}
	cur, curPath := "", ""
	flush := func() {
		if cur != "" {
			src := cur
			if g.p(30) {
				if f, err := format.Source([]byte(src)); err == nil && !strings.ContainsAny(string(f), "”“") && sameOrder(src, string(f)) { // gofmt turns '' into ” in comments
					src = string(f)
				}
			}
			files[curPath] = src
		}
		cur = ""
	}
	i := 0
	for i < len(s.Tabs) {
		if cur == "" || g.p(50) {
			flush()
			curPath = path(false)
			cur = header("models")
		}
		cur += noise()
		group := 1
		if g.p(30) {
			group = g.n(1, len(s.Tabs)-i)
		}
		ident := func(t *Tab) string {
			id := t.Name
			if !isGoName(id) {
				id = "T_" + sane(bare(t.Name))
			}
			for k := 2; used[id]; k++ {
				id = fmt.Sprintf("T_%s%d", sane(bare(t.Name)), k)
			}
			used[id] = true
			return id
		}
		if group == 1 && g.p(70) {
			doc, body, after := g.goStruct(s, s.Tabs[i], tg, ident(s.Tabs[i]), "", &n)
			cur += doc + "type " + body + "\n" + after
			i++
		} else {
			var a string
			if g.p(30) {
				cur += "// " + g.pick(goProse) + "\n"
			}
			cur += "type (\n"
			for k := 0; k < group; k++ {
				doc, body, after := g.goStruct(s, s.Tabs[i], tg, ident(s.Tabs[i]), "\t", &n)
				cur += doc + "\t" + body + "\n"
				a += after
				if g.p(20) {
					n++
					cur += fmt.Sprintf("\t// Other%d %s\n\tOther%d struct {\n\t\tX int %s\n\t}\n\n", n, g.pick(goProse), n, g.goTag([][2]string{{tg.ddl, "TEXT"}}))
				}
				i++
			}
			cur += ")\n\n" + a
		}
		cur += noise()
	}
	flush()
	return files
}

// strayFiles are files a directory may hold which declare nothing.
func (g *G) strayFiles(tg goTags) map[string]string {
	files := map[string]string{}
	bogus := fmt.Sprintf("package x\n\n// %s:table: stray_table\ntype Stray struct {\n\tID string %s\n}\n", tg.ddl, g.goTag([][2]string{{tg.col, "id"}, {tg.ddl, "TEXT"}}))
	for g.p(40) {
		switch g.n(0, 4) {
		case 0:
			files["p00_test.go"] = bogus
		case 1:
			files["p01/model_test.go"] = bogus
		case 2:
			files["p01/model.go.txt"] = bogus
		case 3:
			files["README.md"] = "// " + tg.ddl + ":table: stray_table\n"
		case 4:
			files["p99/plain.go"] = "package plain\n\ntype Plain struct {\n\tID string\n}\n"
		}
	}
	return files
}
