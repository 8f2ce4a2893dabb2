package zzverif

import (
	"fmt"
	"sort"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// G draws random choices from rapid for one dialect.
type G struct {
	t *rapid.T
	d string
	// opts
	Size int // upper bound on tables
	// Refs makes mutations prefer what other objects depend on.
	Refs bool
	// Plain avoids names that need quotes and other exotic spellings (used by
	// end-to-end properties whose other stages have a narrower input language).
	Plain bool
}

func (g *G) n(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "n")
}

// p is true with probability about pct/100 and shrinks to false.
func (g *G) p(pct int) bool {
	return rapid.IntRange(0, 99).Draw(g.t, "p") >= 100-pct
}

func (g *G) pick(l []string) string { return l[g.n(0, len(l)-1)] }

var tableNames = []string{"users", "groups", "posts", "t1", "user_items", "order_lines", "a1"}
var schemaNames = []string{"public"}
var colNames = []string{"id", "name", "age", "created_at", "user_id", "group_id", "c1", "c2", "note_text", "is_ok", "amount"}

// names that are only valid when quoted, because they are keywords, contain
// upper-case letters, or contain characters outside the identifier alphabet
var quotedTableNames = []string{"order", "Group", "user", "Table", "key", "index"}
var quotedColNames = []string{"order", "UserName", "key", "index", "check", "text", "time", "Default", "not", "comment", "unique", "primary", "create", "constraint"}
var weirdNames = []string{"my-col", "with space", "a--b", "semi;colon", "par(en", "naïve", "日本", "it's", "x,y", "1st", "a.b.c"}

var weirdTableNames = []string{"my-table", "two words", "semi;colon", "t--x", "it's", "日本", "1st", "par(en", "a,b", "/*c"}

func (g *G) weird(l []string) []string {
	switch g.d {
	case PG, CR:
		return append([]string{`a"b`, "back`tick"}, l...)
	case MY:
		return append([]string{"a`b", `do"ble`}, l...)
	}
	return l
}

func mustQuote(n string) bool {
	for _, r := range n {
		if !(r == '_' || r == '.' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r >= 0x80) {
			return true
		}
	}
	if n == "" || n[0] >= '0' && n[0] <= '9' || strings.Count(n, ".") > 1 {
		return true
	}
	switch strings.ToUpper(n) {
	case "ORDER", "USER", "TABLE", "KEY", "INDEX", "CHECK", "TEXT", "TIME", "DEFAULT", "NOT", "COMMENT", "UNIQUE", "PRIMARY", "CREATE", "CONSTRAINT", "GROUP":
		return true
	}
	return false
}

func (g *G) freshName(used map[string]bool, pool []string, label string) string {
	n := g.pick(pool)
	base := n
	for i := 2; used[strings.ToLower(n)]; i++ {
		n = fmt.Sprintf("%s%d", base, i)
	}
	used[strings.ToLower(n)] = true
	used["="+n] = true
	return n
}

// caseVariant is a name that differs from a used one in the case of its
// letters only (postgres, cockroachdb: with quotation marks they are two names).
func (g *G) caseVariant(used map[string]bool) string {
	if g.Plain || g.d != PG && g.d != CR || !g.p(6) {
		return ""
	}
	var l []string
	for k := range used {
		n := strings.TrimPrefix(k, "=")
		if n == k || strings.HasPrefix(n, "public.") || n[0] >= 0x80 {
			continue
		}
		for _, v := range []string{strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:]} {
			if !used["="+v] && v != n {
				l = append(l, v)
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	sort.Strings(l)
	n := g.pick(l)
	used["="+n] = true
	return n
}

func (g *G) tableName(used map[string]bool) string {
	if n := g.caseVariant(used); n != "" {
		return n
	}
	if !g.Plain && g.p(10) {
		l := quotedTableNames
		if g.d != SP && g.p(40) {
			l = g.weird(weirdTableNames)
		}
		n := g.freshName(used, l, "qtable")
		if (g.d == PG || g.d == CR) && g.p(30) && !used[strings.ToLower("public."+n)] {
			return "public." + n
		}
		return n
	}
	n := g.freshName(used, tableNames, "table")
	if !g.Plain && (g.d == PG || g.d == CR) && g.p(15) {
		if !used["public."+n] {
			return "public." + n
		}
	}
	return n
}

func (g *G) colName(used map[string]bool) string {
	if n := g.caseVariant(used); n != "" {
		return n
	}
	if !g.Plain {
		k := g.n(0, 19)
		if k == 19 {
			return g.freshName(used, g.weird(weirdNames), "wcol")
		}
		if k >= 17 {
			return g.freshName(used, quotedColNames, "qcol")
		}
	}
	return g.freshName(used, colNames, "col")
}

// type classes: n numeric, s string, b bool, t time, j json, u uuid, e enum, S serial
func (g *G) colType() (string, byte) {
	type ty struct {
		name string
		cl   byte
	}
	var l []ty
	switch g.d {
	case PG:
		l = []ty{{"INTEGER", 'n'}, {"TEXT", 's'}, {"CHARACTER VARYING(10)", 's'}, {"CHARACTER VARYING(255)", 's'}, {"BOOLEAN", 'b'}, {"SMALLINT", 'n'}, {"BIGINT", 'n'}, {"NUMERIC", 'n'}, {"NUMERIC(10,2)", 'n'},
			{"NUMERIC(12,2)", 'n'}, {"REAL", 'n'}, {"DOUBLE PRECISION", 'n'}, {"UUID", 'u'}, {"JSONB", 'j'}, {"TIMESTAMP", 't'}, {"TIMESTAMP WITH TIME ZONE", 't'}, {"TIMESTAMP(3)", 't'}, {"TIMESTAMP WITH TIME ZONE(3)", 't'}, {"SERIAL", 'S'}, {"BIGSERIAL", 'S'}, {"SMALLSERIAL", 'S'}, {"CHARACTER VARYING", 's'}}
	case CR:
		l = []ty{{"INT8", 'n'}, {"STRING", 's'}, {"VARCHAR(10)", 's'}, {"VARCHAR(255)", 's'}, {"STRING(64)", 's'}, {"BOOL", 'b'}, {"INT2", 'n'}, {"INT4", 'n'}, {"DECIMAL(10,2)", 'n'}, {"DECIMAL", 'n'}, {"DECIMAL(12,2)", 'n'},
			{"FLOAT4", 'n'}, {"FLOAT8", 'n'}, {"UUID", 'u'}, {"JSONB", 'j'}, {"TIMESTAMP", 't'}, {"TIMESTAMPTZ", 't'}, {"TIMESTAMP(6)", 't'}, {"TIMESTAMPTZ(3)", 't'}, {"SERIAL", 'S'}, {"BIGSERIAL", 'S'}, {"VARCHAR", 's'}}
	case MY:
		l = []ty{{"INTEGER", 'n'}, {"VARCHAR(10)", 's'}, {"VARCHAR(255)", 's'}, {"BIGINT", 'n'}, {"TINYINT(1)", 'b'}, {"TINYINT", 'n'}, {"BIT(8)", 'x'}, {"SMALLINT", 'n'}, {"INTEGER(11)", 'n'}, {"DECIMAL(10,2)", 'n'}, {"DECIMAL(12,2)", 'n'}, {"DOUBLE", 'n'},
			{"JSON", 'x'}, {"CHAR(3)", 's'}, {"TEXT", 'x'}, {"MEDIUMTEXT", 'x'}, {"LONGTEXT", 'x'}, {"DATETIME", 't'}, {"DATETIME(6)", 'x'}, {"TIMESTAMP", 't'}, {"DATE", 'x'}, {"TIME", 'x'}, {"ENUM('a','b')", 'e'}, {"ENUM('a','b','c d')", 'e'}}
	case SP:
		l = []ty{{"INT64", 'n'}, {"STRING(36)", 's'}, {"STRING(MAX)", 's'}, {"BOOL", 'b'}, {"NUMERIC", 'n'}, {"FLOAT64", 'n'}, {"JSON", 'x'}, {"TIMESTAMP", 't'}}
	}
	x := l[g.n(0, len(l)-1)]
	return x.name, x.cl
}

func (g *G) strLit() string {
	l := []string{"'a'", "''", "'abc'", "'a b'", "'semi;colon'", "'x -- y'", "'c,d(e)'", "'é日本'", "'NULL'", "'it''s'", "'a;\nb'", "'  '", "'\"q\"'", "'DEFAULT 1'"}
	if g.Plain {
		l = l[:4]
	}
	if g.d == SP {
		l = append(l, `"dq"`)
		for i, x := range l {
			if x == "'it''s'" {
				l[i] = `'it\'s'`
			}
			if strings.Contains(x, "\n") {
				l[i] = "'a;b'"
			}
		}
	}
	if g.d == MY && !g.Plain {
		l = append(l, `'it\'s'`, `'back\\slash'`)
	}
	if !g.Plain && g.p(15) {
		return g.pick(map[string][]string{
			PG: {`E'it\'s;a'`, `E'a\nb; -- '`, `E'\\'`, `e''`},
			CR: {`E'it\'s;a'`, `E'a\nb; -- '`, `E'\\'`, `b'\x41'`},
			MY: {`x'41'`, `X'0aFF'`, `N'abc'`, `b'0101'`},
			SP: {`r'a\d'`, `R"x -- y"`, `r'it\'s'`},
		}[g.d])
	}
	return g.pick(l)
}

func (g *G) defaultFor(cl byte) string {
	var l []string
	switch g.d {
	case PG, CR:
		cast := "::"
		switch cl {
		case 'n':
			l = []string{"0", "42", "-1", "1.5", "(1 + 2)", "1 + 2 * 3", "1e5", "1e-5", "2.5E+3", "1 - -1", "'0'" + cast + "INTEGER", "(10 - 3)", "length('abc')"}
		case 's':
			s := g.strLit()
			ty := []string{"TEXT", "CHARACTER VARYING", "VARCHAR(10)"}
			if g.d == CR {
				ty = []string{"STRING", "VARCHAR", "VARCHAR(10)"}
			}
			l = []string{s, s, s + cast + g.pick(ty), "NULL", "'a' || 'b'", "lower(" + s + ")", "NULL" + cast + g.pick(ty), "(" + s + ")"}
			if g.d == CR {
				l = append(l, s+":::STRING")
			}
		case 'b':
			l = []string{"TRUE", "FALSE"}
		case 't':
			l = []string{"now()", "CURRENT_TIMESTAMP", "'2020-01-01 00:00:00'" + cast + "TIMESTAMP", "timezone('utc', now())"}
		case 'u':
			l = []string{"gen_random_uuid()", "'00000000-0000-0000-0000-000000000000'" + cast + "UUID"}
		case 'j':
			l = []string{"'{}'" + cast + "JSONB", "'[1,2]'"}
		default:
			return ""
		}
	case MY:
		switch cl {
		case 'n':
			l = []string{"0", "42", "'0'", "1.5", "(1 + 2)", "1e5", "1e-5", "(2.5E+3 - -1)", "b'0'", "0x41"}
		case 's', 'e':
			l = []string{g.strLit(), g.strLit(), "NULL"}
			if cl == 'e' {
				l = []string{"'a'", "'b'"}
			}
		case 'b':
			l = []string{"TRUE", "FALSE", "'0'", "1"}
		case 't':
			l = []string{"CURRENT_TIMESTAMP", "NULL", "'2020-01-01 00:00:00'"}
		default:
			return ""
		}
	case SP:
		switch cl {
		case 'n':
			l = []string{"(0)", "(42)", "(1 + 2)", "(-1)", "(1e-5)", "(1 - -1)"}
		case 's':
			l = []string{"(" + g.strLit() + ")", "(" + g.strLit() + ")", "(GENERATE_UUID())", "(NULL)"}
		case 'b':
			l = []string{"(TRUE)", "(FALSE)"}
		case 't':
			l = []string{"(CURRENT_TIMESTAMP())"}
		default:
			return ""
		}
	}
	return mustCanonExpr(g.d, g.pick(l))
}

func (g *G) checkExpr(cols []*Col) string {
	c := cols[g.n(0, len(cols)-1)]
	n := g.q(c.Name)
	o := g.q(cols[g.n(0, len(cols)-1)].Name)
	l := []string{
		n + " > 0", n + " >= 0", n + " <> 3", "(" + n + " > 0) AND (" + n + " < 10)", n + " IS NOT NULL", n + " = " + o,
		n + " IN (1, 2, 3)", "length(" + n + ") > 3", n + " > 0 OR " + o + " IS NULL", n + " <= " + o, n + " = 'x'", n + " <> " + g.strLit(), n + " + 1 > " + o + " * 2", n + " LIKE 'a%'", n + " BETWEEN 1 AND 9",
		"NOT (" + n + " = 1)", n + " != 5", n + " - -1 > 0", n + " > 1e-5", n + " * 2.5E+3 <= - - " + o, n + " - 1 > -1", n + "-1<>" + o + "-1", "CASE WHEN " + n + " > 0 THEN 1 ELSE 0 END = 1", n + " % 2 = 0 AND (" + o + " / 2 > 1 OR " + o + " < .5)",
		n + " << 1 >= 4", n + " & 3 = 1", "-" + n + " < 0", "coalesce(" + n + ", " + o + ") IS NOT NULL", n + " NOT IN (1, 2)", "CAST(" + n + " AS " + map[string]string{PG: "TEXT", CR: "STRING", MY: "CHAR", SP: "STRING"}[g.d] + ") <> 'x'",
	}
	switch g.d {
	case PG:
		l = append(l, n+" ~* '^a'", n+" !~ 'b'", n+" ->> 'k' = 'v'", n+" @> "+o, n+" <@ "+o, n+" <-> "+o+" < 5", n+" <<= "+o, n+" && "+o, n+" @@ "+o)
	case CR:
		l = append(l, n+" ~* '^a'", n+" !~ 'b'", n+" ->> 'k' = 'v'", n+" @> "+o, n+" <@ "+o, n+" // 2 = 1", n+" <<= "+o, n+" && "+o)
	case MY:
		l = append(l, n+" <=> "+o, n+" ->> '$.k' = 'v'", n+" && "+o, n+" || "+o, n+" REGEXP '^a'")
	}
	if g.d == PG || g.d == CR {
		l = append(l, n+"::TEXT = 'a'", n+" || 'x' = 'yx'", n+" = ANY (ARRAY['a'::TEXT])")
		l = l[:len(l)-1] // ARRAY[...] is outside the supported expression grammar
	}
	return mustCanonExpr(g.d, "("+g.pick(l)+")")
}

// q quotes a name for use in raw expression text when it must be quoted.
func (g *G) q(n string) string { return quoteIdent(g.d, n, mustQuote(n)) }

func quoteIdent(d, n string, quote bool) string {
	if !quote {
		return n
	}
	if d == MY || d == SP {
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

// indexable columns
func keyCols(t *Tab) []string {
	var out []string
	for _, c := range t.Cols {
		if strings.HasPrefix(c.Type, "JSON") || c.As != "" || strings.HasSuffix(c.Type, "TEXT") && c.Type != "TEXT" {
			continue
		}
		out = append(out, c.Name)
	}
	return out
}

func (g *G) subset(l []string, max int) []string {
	if len(l) == 0 {
		return nil
	}
	k := g.n(1, min(max, len(l)))
	perm := append([]string(nil), l...)
	var out []string
	for i := 0; i < k; i++ {
		j := g.n(0, len(perm)-1)
		out = append(out, perm[j])
		perm = append(perm[:j:j], perm[j+1:]...)
	}
	return out
}

func (g *G) ordered(l []string) []string {
	out := make([]string, len(l))
	for i, c := range l {
		out[i] = c
		if g.d != PG && g.p(25) {
			out[i] = c + " DESC"
		}
	}
	return out
}

func (g *G) col(used map[string]bool) *Col {
	c := &Col{Name: g.colName(used)}
	var cl byte
	c.Type, cl = g.colType()
	c.NotNull = g.p(50)
	g.colExtras(c, cl)
	return c
}

func (g *G) colExtras(c *Col, cl byte) {
	if g.p(45) {
		c.Default = g.defaultFor(cl)
		if c.NotNull && strings.HasPrefix(c.Default, "NULL") {
			c.Default = ""
		}
	}
	switch g.d {
	case CR:
		if g.p(8) {
			c.NotVisible = true
		}
	case MY:
		if cl == 's' {
			if g.p(20) {
				c.CharSet = g.pick([]string{"utf8mb4", "latin1"})
			}
			if g.p(20) {
				c.Collate = g.pick([]string{"utf8mb4_bin", "utf8mb4_general_ci"})
			}
		}
		if cl == 't' && g.p(30) {
			c.OnUpdate = "CURRENT_TIMESTAMP"
		}
		if g.p(20) {
			c.Comment = g.strLit()
		}
	case SP:
		if cl == 't' && g.p(30) {
			c.Options = mustCanonExpr(g.d, "(allow_commit_timestamp = "+g.pick([]string{"TRUE", "NULL"})+")")
		}
	}
}

// schema draws a whole valid schema.
func (g *G) schema() *Schema {
	s := &Schema{Dialect: g.d}
	max := g.Size
	if max == 0 {
		max = 3
	}
	k := g.n(1, max)
	for i := 0; i < k; i++ {
		g.addTable(s)
	}
	return s
}

func usedTables(s *Schema) map[string]bool {
	used := map[string]bool{}
	for _, t := range s.Tabs {
		used[strings.ToLower(t.Name)] = true
		used[strings.ToLower(bare(t.Name))] = true
		used["="+bare(t.Name)] = true
	}
	return used
}

func usedCols(t *Tab) map[string]bool {
	used := map[string]bool{}
	for _, c := range t.Cols {
		used[strings.ToLower(c.Name)] = true
		used["="+c.Name] = true
	}
	return used
}

func (g *G) addTable(s *Schema) *Tab {
	t := &Tab{Name: g.tableName(usedTables(s))}
	used := map[string]bool{}
	k := g.n(1, 6)
	for i := 0; i < k; i++ {
		t.Cols = append(t.Cols, g.col(used))
	}
	s.Tabs = append(s.Tabs, t)
	g.addPK(s, t)
	if g.d == CR && g.p(10) {
		g.addComputed(t)
	}
	for i := g.n(0, 2); i > 0; i-- {
		g.addConstraint(s, t)
	}
	for i := g.n(0, 2); i > 0; i-- {
		g.addIndex(s, t)
	}
	switch g.d {
	case MY:
		g.mysqlOptions(t)
		if pk := t.pk(); pk != nil && len(pk.Cols) == 1 {
			if c := t.col(colOf(pk.Cols[0])); c != nil && (c.Type == "INTEGER" || c.Type == "BIGINT") && c.Default == "" && g.p(30) {
				c.AutoInc = true
				c.NotNull = true
			}
		}
	case SP:
		g.spannerOptions(s, t)
	}
	return t
}

func (g *G) addComputed(t *Tab) {
	used := usedCols(t)
	var base *Col
	for _, c := range t.Cols {
		if c.As == "" && !mustQuote(c.Name) {
			base = c
		}
	}
	if base == nil {
		return
	}
	c := &Col{Name: g.freshName(used, []string{"calc", "calc_hash"}, "calc"), Type: "INT8", NotNull: g.p(50)}
	c.As = mustCanonExpr(g.d, g.pick([]string{"(" + base.Name + " + 1)", "(mod(fnv32(" + base.Name + "), 8:::INT8))", "(length(" + base.Name + "))"}))
	// a NOT VISIBLE VIRTUAL column belongs to a hash-sharded index and is
	// deliberately left alone by ddlctl; user-declared ones are visible or stored
	c.AsKind = g.pick([]string{"STORED", "VIRTUAL"})
	t.Cols = append(t.Cols, c)
}

func (g *G) addPK(s *Schema, t *Tab) {
	if t.pk() != nil {
		return
	}
	if g.d != SP && !g.p(75) {
		return
	}
	kc := keyCols(t)
	if len(kc) == 0 {
		if g.d != SP {
			return
		}
		t.Cols = append(t.Cols, &Col{Name: "pk0", Type: "INT64", NotNull: true})
		kc = []string{"pk0"}
	}
	c := &Con{Kind: KPK, Cols: g.subset(kc, 2)}
	if g.d == CR || g.d == SP || g.d == MY {
		c.Cols = g.ordered(c.Cols)
	}
	c.Name = autoName(g.d, t, c)
	if (g.d == PG || g.d == CR) && (g.p(20) || unsafeImplicit(c.Name)) {
		c.Name = conName(t, "pk")
	}
	for _, n := range c.Cols {
		if g.p(70) {
			t.col(colOf(n)).NotNull = true
		}
		if cc := t.col(colOf(n)); cc.NotNull && strings.HasPrefix(cc.Default, "NULL") {
			cc.Default = ""
		}
	}
	t.Cons = append(t.Cons, c)
}

// unsafeImplicit tells whether a name cannot be one that is derived from a
// table and its columns.
func unsafeImplicit(n string) bool { return n == "" || n[0] >= '0' && n[0] <= '9' }

func sane(n string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(n) {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// saneOrWeird keeps the characters that need quotes.
func saneOrWeird(n string) string {
	if strings.ContainsAny(n, "-; '(,/`\"") {
		return n
	}
	return sane(n)
}

func conName(t *Tab, suffix string) string {
	base := "k_" + saneOrWeird(bare(t.Name)) + "_" + suffix
	n := base
	for i := 2; t.con(n) != nil; i++ {
		n = fmt.Sprintf("%s%d", base, i)
	}
	return n
}

func autoName(d string, t *Tab, c *Con) string {
	e := &Engine{dialect: d}
	return e.autoConName(t, c)
}

// addConstraint adds a random FK, UNIQUE or CHECK.
func (g *G) addConstraint(s *Schema, t *Tab) {
	kinds := []string{KFK, KCheck}
	if g.d == PG {
		kinds = append(kinds, KUnique)
	}
	switch g.pick(kinds) {
	case KFK:
		g.addFK(s, t)
	case KUnique:
		c := &Con{Kind: KUnique, Cols: g.subset(keyCols(t), 3)}
		if len(c.Cols) == 0 {
			return
		}
		c.Name = autoName(g.d, t, c)
		if g.p(50) || unsafeImplicit(c.Name) || relUsed(s, c.Name) || t.con(c.Name) != nil {
			c.Name = conName(t, "uq")
		}
		if relUsed(s, c.Name) || t.con(c.Name) != nil {
			return
		}
		t.Cons = append(t.Cons, c)
	case KCheck:
		c := &Con{Kind: KCheck, Expr: g.checkExpr(t.Cols)}
		// inline form: named after the column
		cols := exprCols(g.d, c.Expr)
		c.Name = conName(t, "ck")
		if len(cols) > 0 && (g.d == PG || g.d == CR || g.d == MY) && g.p(50) {
			n := bare(t.Name) + "_" + cols[0] + "_check"
			if t.con(n) == nil && !unsafeImplicit(n) {
				c.Name = n
			}
		}
		t.Cons = append(t.Cons, c)
	}
}

func relUsed(s *Schema, n string) bool {
	if s.tab(n) != nil || s.idx(n) != nil {
		return true
	}
	for _, t := range s.Tabs {
		if c := t.con(n); c != nil {
			return true
		}
	}
	return false
}

func (g *G) addFK(s *Schema, t *Tab) {
	// only tables declared earlier, or the table itself
	var cands []*Tab
	for _, x := range s.Tabs {
		cands = append(cands, x)
		if x == t {
			break
		}
	}
	r := cands[g.n(0, len(cands)-1)]
	k := 1
	if g.p(25) && len(t.Cols) > 1 && len(r.Cols) > 1 {
		k = 2
	}
	tc, rc := g.subset(plainCols(t), k), g.subset(plainCols(r), k)
	k = min(len(tc), len(rc))
	if k == 0 {
		return
	}
	c := &Con{Kind: KFK, Cols: tc[:k], RefTable: r.Name, RefCols: rc[:k]}
	if g.d == SP {
		// the tool's Spanner grammar has no actions
	} else if g.p(40) {
		c.OnDelete = g.pick([]string{"CASCADE", "CASCADE", "NO ACTION"})
	} else if g.p(20) {
		c.OnUpdate = g.pick([]string{"CASCADE", "CASCADE", "NO ACTION"})
	}
	if g.d == MY && c.OnUpdate == "" && g.p(20) {
		c.OnUpdate = "CASCADE"
	}
	c.Name = autoName(g.d, t, c)
	if g.p(50) || unsafeImplicit(c.Name) || t.con(c.Name) != nil {
		c.Name = conName(t, "fk")
	}
	t.Cons = append(t.Cons, c)
}

func plainCols(t *Tab) []string {
	var out []string
	for _, c := range t.Cols {
		if c.As == "" {
			out = append(out, c.Name)
		}
	}
	return out
}

func (g *G) idxName(s *Schema, t *Tab) string {
	base := "idx_" + saneOrWeird(bare(t.Name))
	n := base
	for i := 1; s.idx(n) != nil; i++ {
		n = fmt.Sprintf("%s_%d", base, i)
	}
	return n
}

func (g *G) addIndex(s *Schema, t *Tab) { g.addIndexOn(s, t, g.subset(keyCols(t), 3)) }

func (g *G) addIndexOn(s *Schema, t *Tab, cols []string) {
	if len(cols) == 0 {
		return
	}
	ix := &Idx{Name: g.idxName(s, t), Table: t.Name, Unique: g.p(35), Cols: g.ordered(cols)}
	switch g.d {
	case PG:
		if g.p(20) {
			ix.Using = g.pick([]string{"btree", "hash", "gin"})
		}
	case CR:
		ix.Inline = g.p(50)
		if g.p(15) {
			ix.Hash = mustCanonExpr(g.d, g.pick([]string{"HASH WITH (bucket_count=8)", "HASH WITH (bucket_count=16)"}))
		}
		if ix.Inline && ix.Unique && len(cols) == 1 && ix.Hash == "" && !strings.HasSuffix(ix.Cols[0], " DESC") && g.p(50) {
			n := bare(t.Name) + "_unique_" + cols[0]
			if !unsafeImplicit(n) && s.idx(n) == nil {
				ix.Name = n
			}
		}
	case MY:
		ix.Inline = g.p(50)
		if ix.Inline && ix.Unique && len(cols) == 1 && !strings.HasSuffix(ix.Cols[0], " DESC") && g.p(50) {
			n := bare(t.Name) + "_unique_" + cols[0]
			if !unsafeImplicit(n) && s.idx(n) == nil {
				ix.Name = n
			}
		}
	}
	s.Idxs = append(s.Idxs, ix)
}

func (g *G) mysqlOptions(t *Tab) {
	t.Options = map[string]string{}
	if g.p(40) {
		t.Options["ENGINE"] = g.pick([]string{"InnoDB", "MyISAM"})
	}
	if g.p(40) {
		t.Options["CHARSET"] = g.pick([]string{"utf8mb4", "latin1"})
	}
	if g.p(40) {
		t.Options["COLLATE"] = g.pick([]string{"utf8mb4_bin", "utf8mb4_general_ci"})
	}
	if g.p(30) {
		if t.Options["COMMENT"] = g.strLit(); t.Options["COMMENT"] == "''" {
			delete(t.Options, "COMMENT")
		}
	}
}

func (g *G) spannerOptions(s *Schema, t *Tab) {
	t.Options = map[string]string{}
	if g.p(25) {
		g.setPolicy(t)
	}
	if len(s.Tabs) > 1 && g.p(20) {
		p := s.Tabs[g.n(0, len(s.Tabs)-2)]
		if p != t {
			g.interleave(t, p)
		}
	}
}

func (g *G) setPolicy(t *Tab) {
	for _, c := range t.Cols {
		if c.Type == "TIMESTAMP" {
			t.Options["ROW DELETION POLICY"] = mustCanonExpr(SP, fmt.Sprintf("(OLDER_THAN(%s, INTERVAL %d DAY))", g.q(c.Name), g.n(0, 3)))
			return
		}
	}
}

// interleave makes t a child of p: its key starts with p's key.
func (g *G) interleave(t, p *Tab) {
	pk, ck := p.pk(), t.pk()
	if pk == nil || ck == nil || len(pk.Cols) == 0 || p.Options["INTERLEAVE"] != "" {
		return
	}
	var prefix []string
	for _, k := range pk.Cols {
		n := colOf(k)
		pc := p.col(n)
		c := t.col(n)
		if c == nil {
			c = &Col{Name: n}
			t.Cols = append(t.Cols, c)
		}
		c.Type, c.NotNull = pc.Type, pc.NotNull
		c.Default, c.Options = "", ""
		prefix = append(prefix, k)
	}
	if pol := t.Options["ROW DELETION POLICY"]; pol != "" {
		for _, n := range exprCols(SP, pol) {
			if t.col(n) == nil || t.col(n).Type != "TIMESTAMP" {
				delete(t.Options, "ROW DELETION POLICY")
			}
		}
	}
	for _, k := range ck.Cols {
		if !contains(prefix, colOf(k)) {
			prefix = append(prefix, k)
		}
	}
	ck.Cols = prefix
	t.Options["INTERLEAVE"] = p.Name
	if g.p(50) {
		t.Options["INTERLEAVE"] += " ON DELETE " + g.pick([]string{"CASCADE", "CASCADE", "NO ACTION"})
	}
}
