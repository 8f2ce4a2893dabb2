package zzverif

import (
	"fmt"
	"strings"
)

type rkind int

const (
	rKW    rkind = iota // keyword: letter case is free
	rIdent              // identifier: quoting may be free
	rRaw                // literal, number, function name, operator: fixed
	rPunct              // ( ) , ;
)

type rtok struct {
	K rkind  `json:"k"`
	S string `json:"s"`
	// Q: the identifier must be quoted; N: it must not be
	Q bool `json:"q,omitempty"`
	N bool `json:"n,omitempty"`
	// G: glue to the previous token (no white space before it when laid out plainly)
	G bool `json:"g,omitempty"`
}

// R renders a schema into tokens, drawing how to write it from G.
type R struct {
	g   *G
	out []rtok
	// canonicalForm renders everything in the plainest way
	plain bool
}

func (r *R) kw(words ...string) {
	for _, w := range words {
		for _, x := range strings.Fields(w) {
			r.out = append(r.out, rtok{K: rKW, S: x})
		}
	}
}
func (r *R) raw(s string) { r.out = append(r.out, rtok{K: rRaw, S: s}) }
func (r *R) p(s string) {
	r.out = append(r.out, rtok{K: rPunct, S: s})
}
func (r *R) id(n string) {
	q := mustQuote(n)
	if r.g.d == MY && n == "time" {
		q = true
	}
	qual := qualified(r.g.d, n)
	r.out = append(r.out, rtok{K: rIdent, S: n, Q: q && !qual, N: qual || !q && strings.Contains(n, ".")})
}

// qualified tells whether a name is the schema's and the object's.
func qualified(d, n string) bool {
	return (d == PG || d == CR) && strings.HasPrefix(n, "public.")
}

func (r *R) chance(pct int) bool {
	if r.plain {
		return false
	}
	return r.g.p(pct)
}

// expr emits canonical expression text as tokens.
func (r *R) expr(s string) {
	toks, err := tokenizeSQL(r.g.d, s)
	if err != nil {
		panic(err)
	}
	for i, t := range toks {
		switch {
		case t.kind == tOp && (t.text == "(" || t.text == ")" || t.text == ","):
			r.p(t.text)
		case t.kind == tQIdent:
			r.out = append(r.out, rtok{K: rIdent, S: t.val, Q: true})
		case t.kind == tWord && (t.up() == "NULL" || t.up() == "TRUE" || t.up() == "FALSE"):
			r.kw(t.text)
		case t.kind == tWord && i > 0 && (toks[i-1].text == "::" || toks[i-1].text == ":::"):
			r.raw(t.text)
		default:
			r.raw(t.text)
		}
	}
}

// typ emits a type, possibly in an equivalent spelling.
func (r *R) typ(s string) {
	name, args := s, ""
	if i := strings.IndexByte(s, '('); i >= 0 {
		name, args = s[:i], s[i:]
	}
	alts := map[string][]string{}
	switch r.g.d {
	case PG:
		alts = map[string][]string{"INTEGER": {"INT"}, "CHARACTER VARYING": {"VARCHAR"}, "TIMESTAMP WITH TIME ZONE": {"TIMESTAMPTZ"}, "NUMERIC": {"DECIMAL"}}
	case CR:
		alts = map[string][]string{"BOOL": {"BOOLEAN"}, "INT2": {"SMALLINT"}, "INT4": {"INTEGER", "INT"}, "INT8": {"BIGINT"}, "FLOAT8": {"DOUBLE PRECISION"}, "VARCHAR": {"CHARACTER VARYING"}, "STRING": {"TEXT"}, "TIMESTAMPTZ": {"TIMESTAMP WITH TIME ZONE"}, "DECIMAL": {"NUMERIC"}, "FLOAT4": {"REAL"}}
	case MY:
		alts = map[string][]string{"INTEGER": {"INT"}, "VARCHAR": {"CHARACTER VARYING"}, "DOUBLE": {"DOUBLE PRECISION", "REAL"}, "DECIMAL": {"NUMERIC"}}
		if s == "TINYINT(1)" && r.chance(50) {
			r.kw("BOOLEAN")
			return
		}
	}
	if a := alts[name]; len(a) > 0 && r.chance(35) {
		name = r.g.pick(a)
	}
	tail := ""
	if r.g.d == PG || r.g.d == CR {
		if name == "TIMESTAMP WITH TIME ZONE" && args != "" {
			name, tail = "TIMESTAMP", "WITH TIME ZONE"
		}
		if name == "TIMESTAMP" && tail == "" && r.chance(30) {
			tail = "WITHOUT TIME ZONE"
		}
	}
	defer func() {
		if tail != "" {
			r.kw(tail)
		}
	}()
	r.kw(name)
	if args != "" {
		toks, _ := tokenizeSQL(r.g.d, args)
		for i, t := range toks {
			if t.kind == tOp {
				r.p(t.text)
				if i == 0 {
					r.out[len(r.out)-1].G = true
				}
			} else {
				r.raw(t.text)
			}
		}
	}
}

func (r *R) idList(l []string) {
	r.p("(")
	for i, n := range l {
		if i > 0 {
			r.p(",")
		}
		r.id(n)
	}
	r.p(")")
}

func (r *R) keyList(l []string, order bool) {
	r.p("(")
	for i, n := range l {
		if i > 0 {
			r.p(",")
		}
		r.id(colOf(n))
		if strings.HasSuffix(n, " DESC") {
			r.kw("DESC")
		} else if order && r.chance(30) {
			r.kw("ASC")
		}
	}
	r.p(")")
}

func (r *R) refs(c *Con) {
	r.kw("REFERENCES")
	r.id(c.RefTable)
	r.idList(c.RefCols)
	del := func() {
		if c.OnDelete != "" {
			r.kw("ON DELETE", c.OnDelete)
		}
	}
	upd := func() {
		if c.OnUpdate != "" {
			r.kw("ON UPDATE", c.OnUpdate)
		}
	}
	del()
	upd()
}

func (r *R) constraint(t *Tab, c *Con) {
	auto := autoName(r.g.d, t, c)
	switch {
	case r.g.d == MY && c.Kind == KPK:
	case auto != "" && auto == c.Name && r.chance(50):
	default:
		r.kw("CONSTRAINT")
		r.id(c.Name)
	}
	switch c.Kind {
	case KPK:
		r.kw("PRIMARY KEY")
		r.keyList(c.Cols, r.g.d == CR || r.g.d == MY)
	case KUnique:
		r.kw("UNIQUE")
		r.idList(c.Cols)
	case KFK:
		r.kw("FOREIGN KEY")
		r.idList(c.Cols)
		r.refs(c)
	case KCheck:
		r.kw("CHECK")
		r.expr(c.Expr)
	}
}

func (r *R) using(ix *Idx) {
	if ix.Using != "" {
		r.kw("USING")
		r.raw(ix.Using)
	}
}

func (r *R) hash(ix *Idx) {
	if ix.Hash != "" {
		r.kw("USING")
		r.raw("HASH")
		rest := strings.TrimPrefix(ix.Hash, "HASH WITH ")
		rest = strings.TrimPrefix(rest, "HASH ")
		r.kw("WITH")
		r.expr(rest)
	}
}

func (r *R) column(s *Schema, t *Tab, c *Col, inline []*Con, inlineIdx []*Idx) {
	r.id(c.Name)
	r.typ(c.Type)
	d := r.g.d
	type attr func()
	var as []attr
	late := false // a NULL that follows the DEFAULT of a MySQL column
	if c.NotNull {
		as = append(as, func() { r.kw("NOT NULL") })
	} else if d == MY && r.chance(15) {
		late = true
	} else if d != SP && r.chance(20) {
		as = append(as, func() { r.kw("NULL") })
	}
	def := func() { r.kw("DEFAULT"); r.expr(c.Default) }
	switch d {
	case MY:
		if c.CharSet != "" {
			as = append(as, func() { r.kw("CHARACTER SET"); r.word(c.CharSet) })
		}
		if c.Collate != "" {
			as = append(as, func() { r.kw("COLLATE"); r.word(c.Collate) })
		}
		if c.AutoInc {
			as = append(as, func() { r.kw("AUTO_INCREMENT") })
		}
		if r.chance(30) {
			r.shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		}
		if c.Default != "" {
			as = append(as, def)
		}
		if late {
			as = append(as, func() { r.kw("NULL") })
		}
		if c.OnUpdate != "" {
			as = append(as, func() { r.kw("ON UPDATE"); r.raw(c.OnUpdate) })
		}
	case CR:
		if c.NotVisible {
			as = append(as, func() { r.kw("NOT VISIBLE") })
		}
		if c.Default != "" {
			as = append(as, def)
		}
		if c.As != "" {
			as = append(as, func() { r.kw("AS"); r.expr(c.As); r.kw(c.AsKind) })
		}
	case SP:
		// Spanner fixes the order: NOT NULL, DEFAULT, OPTIONS
		if c.Default != "" {
			as = append(as, def)
		}
		if c.Options != "" {
			as = append(as, func() { r.kw("OPTIONS"); r.expr(c.Options) })
		}
	default:
		if c.Default != "" {
			as = append(as, def)
		}
	}
	if (d == PG || d == CR) && r.chance(40) {
		r.shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	for _, a := range as {
		a()
	}
	var cs []attr
	for _, k := range inline {
		k := k
		switch k.Kind {
		case KPK:
			cs = append(cs, func() { r.kw("PRIMARY KEY") })
		case KFK:
			cs = append(cs, func() { r.refs(k) })
		case KUnique:
			cs = append(cs, func() { r.kw("UNIQUE") })
		case KCheck:
			cs = append(cs, func() { r.kw("CHECK"); r.expr(k.Expr) })
		}
	}
	for range inlineIdx {
		cs = append(cs, func() { r.kw("UNIQUE") })
	}
	if r.chance(50) {
		r.shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	}
	if d == MY && c.Comment != "" {
		at := len(cs)
		if r.chance(50) {
			at = r.g.n(0, len(cs))
		}
		cs = append(cs[:at:at], append([]attr{func() { r.kw("COMMENT"); r.raw(c.Comment) }}, cs[at:]...)...)
	}
	for _, a := range cs {
		a()
	}
}

func (r *R) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.g.n(0, i))
	}
}

// inlineCol tells whether a constraint can be written on its column, and which.
func inlineCol(d string, t *Tab, c *Con) string {
	if d == SP {
		return ""
	}
	switch c.Kind {
	case KPK, KFK, KUnique:
		if len(c.Cols) != 1 || strings.HasSuffix(c.Cols[0], " DESC") || autoName(d, t, c) != c.Name {
			return ""
		}
		if c.Kind == KUnique && d != PG {
			return ""
		}
		return c.Cols[0]
	case KCheck:
		for _, x := range t.Cols {
			if bare(t.Name)+"_"+x.Name+"_check" == c.Name {
				return x.Name
			}
		}
	}
	return ""
}

func (r *R) table(s *Schema, t *Tab) {
	d := r.g.d
	r.kw("CREATE TABLE")
	if r.chance(15) {
		r.kw("IF NOT EXISTS")
	}
	r.id(t.Name)
	r.p("(")
	inlined := map[*Con]bool{}
	inl := map[string][]*Con{}
	for _, c := range t.Cons {
		if n := inlineCol(d, t, c); n != "" && t.col(n) != nil && r.chance(60) {
			inlined[c] = true
			inl[n] = append(inl[n], c)
		}
	}
	inlinedIdx := map[*Idx]bool{}
	inlIdx := map[string][]*Idx{}
	for _, ix := range s.Idxs {
		if ix.Table == t.Name && ix.Inline && ix.Unique && len(ix.Cols) == 1 && ix.Name == bare(t.Name)+"_unique_"+ix.Cols[0] && r.chance(70) {
			inlinedIdx[ix] = true
			inlIdx[ix.Cols[0]] = append(inlIdx[ix.Cols[0]], ix)
		}
	}
	type elem func()
	var cols, cons []elem
	for _, c := range t.Cols {
		c := c
		cols = append(cols, func() { r.column(s, t, c, inl[c.Name], inlIdx[c.Name]) })
	}
	for _, c := range t.Cons {
		c := c
		if inlined[c] || d == SP && c.Kind == KPK {
			continue
		}
		cons = append(cons, func() { r.constraint(t, c) })
	}
	for _, ix := range s.Idxs {
		ix := ix
		if ix.Table != t.Name || !ix.Inline || inlinedIdx[ix] {
			continue
		}
		cons = append(cons, func() {
			r.inlineIndex(ix)
		})
	}
	if r.chance(40) {
		r.shuffle(len(cons), func(i, j int) { cons[i], cons[j] = cons[j], cons[i] })
	}
	all := append(append([]elem{}, cols...), cons...)
	for i, e := range all {
		if i > 0 {
			r.p(",")
		}
		e()
	}
	r.p(")")
	for i, o := range r.optionList(t, false) {
		if i > 0 && (d == SP || r.chance(15)) {
			r.p(",")
		}
		r.out = append(r.out, o...)
	}
	r.p(";")
}

// word renders the name of a character set or of a collation of MySQL, which
// may be quoted like any other name.
func (r *R) word(s string) {
	if r.chance(20) {
		s = "`" + s + "`"
	}
	r.raw(s)
}

// optionList renders what follows the parentheses of CREATE TABLE.
func (r *R) optionList(t *Tab, noPK bool) (out [][]rtok) {
	save := r.out
	r.out = nil
	cut := func() {
		out = append(out, r.out)
		r.out = nil
	}
	switch r.g.d {
	case MY:
		keys := []string{}
		for _, k := range []string{"ENGINE", "AUTO_INCREMENT", "CHARSET", "COLLATE", "COMMENT"} {
			if t.Options[k] != "" {
				keys = append(keys, k)
			}
		}
		if r.chance(30) {
			r.shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		for _, k := range keys {
			if k == "CHARSET" {
				r.kw("DEFAULT")
			}
			r.kw(k)
			r.p("=")
			if k == "CHARSET" || k == "COLLATE" {
				r.word(t.Options[k])
			} else {
				r.raw(t.Options[k])
			}
			cut()
		}
	case SP:
		if !noPK {
			r.kw("PRIMARY KEY")
			r.keyList(t.pk().Cols, true)
			cut()
		}
		if il := t.Options["INTERLEAVE"]; il != "" {
			r.kw("INTERLEAVE IN PARENT")
			p, act, _ := strings.Cut(il, " ON DELETE ")
			r.id(p)
			if act != "" {
				r.kw("ON DELETE", act)
			}
			cut()
		}
		if pol := t.Options["ROW DELETION POLICY"]; pol != "" {
			r.kw("ROW DELETION POLICY")
			toks, _ := tokenizeSQL(SP, pol)
			for _, x := range toks {
				switch {
				case x.kind == tOp:
					r.p(x.text)
				case x.kind == tQIdent:
					r.id(x.val)
				case x.up() == "OLDER_THAN" || x.up() == "INTERVAL" || x.up() == "DAY":
					r.kw(x.text)
				case x.text[0] >= '0' && x.text[0] <= '9':
					r.raw(x.text)
				default:
					r.id(x.text)
				}
			}
			cut()
		}
	}
	r.out = save
	return out
}

func (r *R) index(ix *Idx) {
	r.kw("CREATE")
	if ix.Unique {
		r.kw("UNIQUE")
	}
	r.kw("INDEX")
	if r.chance(15) {
		r.kw("IF NOT EXISTS")
	}
	r.id(ix.Name)
	r.kw("ON")
	r.id(ix.Table)
	r.using(ix)
	r.keyList(ix.Cols, r.g.d != PG)
	r.hash(ix)
	r.p(";")
}

// render writes the schema as tokens. Tables come in model order (which keeps
// FK targets first); each index comes somewhere after its table.
func (g *G) render(s *Schema, plain bool) []rtok {
	r := &R{g: g, plain: plain}
	late := r.chance(40)
	for _, t := range s.Tabs {
		r.table(s, t)
		if !late {
			for _, ix := range s.Idxs {
				if ix.Table == t.Name && !ix.Inline {
					r.index(ix)
				}
			}
		}
	}
	if late {
		for _, ix := range s.Idxs {
			if !ix.Inline {
				r.index(ix)
			}
		}
	}
	return r.out
}

// Style says how tokens are laid out as text.
type Style struct {
	KW      int  // 0 upper, 1 lower, 2 mixed
	Quote   int  // 0 only when needed, 1 always, 2 mixed
	Space   int  // 0 plain, 1 noisy
	Comment bool // sprinkle comments
	Extra   bool // surplus semicolons
}

func (g *G) style() Style {
	return Style{KW: g.n(0, 2), Quote: g.n(0, 2), Space: g.n(0, 1), Comment: g.p(40), Extra: g.p(20)}
}

var commentTexts = []string{"-- a comment", "--", "-- it's \"quoted\" `text`", "-- CREATE TABLE nope (id INT);", "-- ; , ( )", "--x--y", "-- 日本語", "---- ----"}

// text lays the tokens out.
func (g *G) text(toks []rtok, st Style) string {
	var b strings.Builder
	prev := rtok{K: rPunct, S: ";"}
	for _, t := range toks {
		s := t.S
		switch t.K {
		case rKW:
			switch st.KW {
			case 0:
			case 1:
				s = strings.ToLower(s)
			case 2:
				switch g.n(0, 2) {
				case 1:
					s = strings.ToLower(s)
				case 2:
					s = s[:1] + strings.ToLower(s[1:])
				}
			}
		case rIdent:
			q := t.Q
			if sch, n, ok := strings.Cut(s, "."); ok && t.N {
				// a qualified name: each part may be quoted
				qs, qn := false, mustQuote(n)
				switch st.Quote {
				case 1:
					qs, qn = true, true
				case 2:
					qs, qn = g.p(30), qn || g.p(30)
				}
				s = quoteIdent(g.d, sch, qs) + "." + quoteIdent(g.d, n, qn)
				b.WriteString(sepFor(g, st, t, prev, &b))
				b.WriteString(s)
				prev = t
				continue
			}
			if !q && !t.N {
				switch st.Quote {
				case 1:
					q = true
				case 2:
					q = g.p(50)
				}
			}
			s = quoteIdent(g.d, s, q)
		}
		b.WriteString(sepFor(g, st, t, prev, &b))
		b.WriteString(s)
		prev = t
	}
	b.WriteString("\n")
	return b.String()
}

// sepFor draws what comes before a token.
func sepFor(g *G, st Style, t, prev rtok, b *strings.Builder) string {
	needSpace := !(t.K == rPunct || prev.K == rPunct)
	sep := ""
	switch {
	case prev.S == ";" && prev.K == rPunct:
		sep = "\n"
		if b.Len() == 0 {
			sep = ""
		}
	case t.G || t.K == rPunct && (t.S == ")" || t.S == "," || t.S == ";") || prev.K == rPunct && prev.S == "(":
		sep = ""
	default:
		sep = " "
	}
	if st.Space == 1 && !(prev.S == ";" && b.Len() == 0) {
		switch g.n(0, 9) {
		case 0:
			sep += "\n"
		case 1:
			sep += "\t"
		case 2:
			sep += "   "
		case 3:
			sep += "\r\n"
		case 4:
			if !needSpace && !(prev.S == ";") {
				sep = ""
			}
		}
	}
	if st.Comment && g.p(6) {
		sep += g.pick(commentTexts) + "\n"
		if sep[0] == '-' && b.Len() > 0 {
			sep = " " + sep
		}
	}
	if st.Extra && prev.S == ";" && prev.K == rPunct && g.p(30) {
		sep += ";\n"
	}
	return sep
}

// sqlText renders and lays out a schema in one go with random writing.
func (g *G) sqlText(s *Schema) string { return g.text(g.render(s, false), g.style()) }

// plainText renders a schema in the plainest way, without drawing.
func plainText(s *Schema) string {
	g := &G{d: s.Dialect}
	return g.text(g.render(s, true), Style{})
}

var _ = fmt.Sprint
