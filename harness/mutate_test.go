package zzverif

import (
	"fmt"
	"regexp"
	"strings"
)

// mutate returns a copy of s after k random changes, and what was changed.
// Every result is a valid schema of its own: what depends on a removed object
// goes with it.
func (g *G) mutate(s *Schema, k int) (*Schema, []string) {
	m := s.clone()
	var ops []string
	for i := 0; i < k; i++ {
		if op := g.mutateOnce(m); op != "" {
			ops = append(ops, op)
		}
	}
	return m, ops
}

func (g *G) anyTab(m *Schema) *Tab {
	if len(m.Tabs) == 0 {
		return nil
	}
	return m.Tabs[g.n(0, len(m.Tabs)-1)]
}

var mutOps = []string{
	"add column", "drop column", "alter column", "alter column", "toggle null", "change default",
	"add constraint", "drop constraint", "change constraint",
	"add index", "drop index", "change index",
	"add table", "drop table", "options", "primary key", "reorder", "replace column", "drop table deep", "tweak", "tweak", "tweak", "tweak",
}

// refOps are the changes that make statements depend on each other.
var refOps = []string{
	"add column", "drop column", "drop column", "replace column", "replace column", "add constraint", "change constraint", "drop constraint", "primary key",
	"add index", "drop index", "change index", "change index", "add table", "drop table", "drop table deep", "drop table deep",
}

func (g *G) mutateOnce(m *Schema) string {
	ops := mutOps
	if g.Refs {
		ops = refOps
	}
	op := ops[g.n(0, len(ops)-1)]
	if len(m.Tabs) == 0 {
		op = "add table"
	}
	t := g.anyTab(m)
	switch op {
	case "add column":
		c := g.col(usedCols(t))
		at := len(t.Cols)
		if g.p(30) {
			at = g.n(0, len(t.Cols))
		}
		t.Cols = append(t.Cols[:at:at], append([]*Col{c}, t.Cols[at:]...)...)
		switch g.n(0, 5) { // often something uses the new column at once
		case 0:
			if contains(keyCols(t), c.Name) {
				ix := &Idx{Name: g.idxName(m, t), Table: t.Name, Unique: g.p(30), Cols: []string{c.Name}}
				m.Idxs = append(m.Idxs, ix)
			}
		case 1:
			if len(m.Idxs) > 0 && contains(keyCols(t), c.Name) {
				ix := m.Idxs[g.n(0, len(m.Idxs)-1)]
				if ix.Table == t.Name && !isAutoIdx(t, ix) {
					ix.Cols = append(ix.Cols, c.Name)
				}
			}
		case 2:
			if c.As == "" {
				k := &Con{Kind: KFK, Cols: []string{c.Name}, RefTable: t.Name, RefCols: []string{plainCols(t)[0]}}
				k.Name = autoName(g.d, t, k)
				if unsafeImplicit(k.Name) || t.con(k.Name) != nil {
					k.Name = conName(t, "fk")
				}
				t.Cons = append(t.Cons, k)
			}
		}
		return op
	case "replace column":
		if len(t.Cols) < 2 {
			return ""
		}
		c := t.Cols[g.n(0, len(t.Cols)-1)]
		if !g.removeCol(m, t, c) {
			return ""
		}
		t.Cols = append(t.Cols, g.col(usedCols(t)))
		return op
	case "drop column":
		if len(t.Cols) < 2 {
			return ""
		}
		if !g.removeCol(m, t, t.Cols[g.n(0, len(t.Cols)-1)]) {
			return ""
		}
		return op
	case "alter column":
		c := t.Cols[g.n(0, len(t.Cols)-1)]
		if c.As != "" || g.colPinned(m, t, c) {
			return ""
		}
		n := &Col{Name: c.Name}
		var cl byte
		n.Type, cl = g.colType()
		n.NotNull = c.NotNull
		if g.p(30) {
			n.NotNull = !n.NotNull
		}
		g.colExtras(n, cl)
		keyed := contains(keyCols(t), c.Name)
		*c = *n
		if keyed && !contains(keyCols(t), c.Name) {
			g.unkey(m, t, c)
		}
		g.fixCol(m, t, c)
		return op
	case "toggle null":
		c := t.Cols[g.n(0, len(t.Cols)-1)]
		if g.colPinned(m, t, c) {
			return ""
		}
		c.NotNull = !c.NotNull
		g.fixCol(m, t, c)
		return op
	case "change default":
		c := t.Cols[g.n(0, len(t.Cols)-1)]
		if c.As != "" || c.AutoInc || g.colPinned(m, t, c) {
			return ""
		}
		if c.Default != "" && g.p(50) {
			c.Default = ""
		} else {
			c.Default = g.defaultFor(typeClass(g.d, c.Type))
		}
		g.fixCol(m, t, c)
		return op
	case "add constraint":
		n := len(t.Cons)
		g.addConstraint(m, t)
		if g.Refs && len(t.Cons) > n && t.Cons[n].Kind == KFK && g.p(50) { // and an index for the foreign key
			g.addIndexOn(m, t, t.Cons[n].Cols)
		}
		return op
	case "drop constraint":
		if len(t.Cons) == 0 {
			return ""
		}
		i := g.n(0, len(t.Cons)-1)
		if t.Cons[i].Kind == KPK {
			return g.dropPK(m, t)
		}
		t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
		return op
	case "change constraint":
		if len(t.Cons) == 0 {
			return ""
		}
		c := t.Cons[g.n(0, len(t.Cons)-1)]
		switch c.Kind {
		case KPK:
			return g.changePK(m, t)
		case KFK:
			if strings.HasSuffix(c.Name, "_fkey") && inlineCol(g.d, t, c) != "" && g.p(50) {
				return ""
			}
			if g.d != SP {
				c.OnUpdate = ""
				c.OnDelete = g.pick([]string{"", "CASCADE", "NO ACTION"})
			}
			if g.p(40) && c.RefTable == t.Name {
				pc := plainCols(t)
				c.RefCols[0] = pc[g.n(0, len(pc)-1)]
				if len(c.RefCols) > 1 {
					c.RefCols = c.RefCols[:1]
					c.Cols = c.Cols[:1]
					if strings.HasSuffix(c.Name, "_fkey") {
						c.Name = conName(t, "fk")
					}
				}
			}
		case KUnique:
			if autoName(g.d, t, c) == c.Name {
				return ""
			}
			if kc := g.subset(keyCols(t), 3); len(kc) > 0 {
				c.Cols = kc
			}
		case KCheck:
			e := g.checkExpr(t.Cols)
			if in := inlineCol(g.d, t, c); in != "" {
				if cols := exprCols(g.d, e); len(cols) == 0 || cols[0] != in {
					return ""
				}
			}
			c.Expr = e
		}
		return op
	case "add index":
		g.addIndex(m, t)
		return op
	case "drop index":
		if len(m.Idxs) == 0 {
			return ""
		}
		i := g.n(0, len(m.Idxs)-1)
		m.Idxs = append(m.Idxs[:i:i], m.Idxs[i+1:]...)
		return op
	case "change index":
		if len(m.Idxs) == 0 {
			return ""
		}
		ix := m.Idxs[g.n(0, len(m.Idxs)-1)]
		it := m.tab(ix.Table)
		if isAutoIdx(it, ix) {
			return ""
		}
		switch g.n(0, 3) {
		case 0:
			ix.Unique = !ix.Unique
		case 1:
			if g.d == PG {
				ix.Using = g.pick([]string{"", "btree", "hash", "gin"})
			} else if kc := g.subset(keyCols(it), 3); len(kc) > 0 {
				ix.Cols = g.ordered(kc)
			}
		case 2:
			if kc := g.subset(keyCols(it), 3); len(kc) > 0 {
				ix.Cols = g.ordered(kc)
			}
		case 3: // the same name on another table
			if g.d == PG || g.d == SP {
				if kc := g.subset(keyCols(t), 3); len(kc) > 0 {
					ix.Table, ix.Cols = t.Name, g.ordered(kc)
				}
			}
		}
		return op
	case "add table":
		nt := g.addTable(m)
		// the new table may come first unless it refers to others
		free := true
		for _, c := range nt.Cons {
			if c.Kind == KFK && c.RefTable != nt.Name {
				free = false
			}
		}
		if nt.Options["INTERLEAVE"] != "" {
			free = false
		}
		if free && g.p(40) {
			at := g.n(0, len(m.Tabs)-1)
			copy(m.Tabs[at+1:], m.Tabs[at:len(m.Tabs)-1])
			m.Tabs[at] = nt
		}
		return op
	case "drop table":
		g.removeTable(m, t)
		return op
	case "drop table deep": // prefer one that others refer to
		for _, x := range m.Tabs {
			if len(referrers(m, x)) > 0 {
				t = x
			}
		}
		g.removeTable(m, t)
		return op
	case "options":
		switch g.d {
		case MY:
			g.mysqlOptions(t)
		case SP:
			if t.Options == nil {
				t.Options = map[string]string{}
			}
			if t.Options["ROW DELETION POLICY"] != "" && g.p(50) {
				delete(t.Options, "ROW DELETION POLICY")
			} else {
				g.setPolicy(t)
			}
		case CR:
			c := t.Cols[g.n(0, len(t.Cols)-1)]
			if c.As == "" {
				c.NotVisible = !c.NotVisible
			}
		default:
			return ""
		}
		return op
	case "primary key":
		if t.pk() == nil {
			g.addPK(m, t)
			return "add primary key"
		}
		if g.p(50) {
			return g.changePK(m, t)
		}
		return g.dropPK(m, t)
	case "reorder":
		g.reorder(m)
		return op
	case "tweak":
		return g.tweak(m)
	}
	panic("unknown op " + op)
}

var (
	reStrLit = regexp.MustCompile(`'[^'\\]*'`)
	reNumLit = regexp.MustCompile(`\b[0-9]+\b`)
	reTypNum = regexp.MustCompile(`[0-9]+(\)|,)`)
)

// tweakText makes the smallest change of an expression: one literal, by one
// character.
func (g *G) tweakText(s string) string {
	if strings.ContainsAny(s, "`\"") || strings.IndexFunc(s, func(r rune) bool { return r >= 0x80 }) >= 0 { // a quoted name may hold anything
		return s
	}
	if loc := reStrLit.FindStringIndex(s); loc != nil {
		lit := s[loc[0]+1 : loc[1]-1]
		if strings.ContainsAny(lit, "{}[]-") { // JSON, UUID and time literals keep their form
			return s
		}
		switch g.n(0, 3) {
		case 0:
			lit += "z"
		case 1:
			lit = lit + " "
		case 2:
			lit = " " + lit
		case 3:
			if up := strings.ToUpper(lit); up != lit {
				lit = up
			} else {
				lit = strings.ToLower(lit) + "y"
			}
		}
		return s[:loc[0]+1] + lit + s[loc[1]-1:]
	}
	if loc := reNumLit.FindStringIndex(s); loc != nil {
		return s[:loc[1]] + "1" + s[loc[1]:]
	}
	return s
}

// tweak changes one attribute of one object as little as possible.
func (g *G) tweak(m *Schema) string {
	type site struct {
		what string
		do   func()
	}
	var l []site
	for _, t := range m.Tabs {
		for _, c := range t.Cols {
			if c.Default != "" && c.Type != "UUID" && !strings.HasPrefix(c.Type, "ENUM") && typeClass(g.d, c.Type) != 't' && !g.colPinned(m, t, c) {
				l = append(l, site{"tweak default", func() { c.Default = g.tweakText(c.Default) }})
			}
			if loc := reTypNum.FindStringIndex(c.Type); loc != nil && !strings.HasPrefix(c.Type, "TINYINT") && !strings.HasPrefix(c.Type, "DATETIME") && !strings.HasPrefix(c.Type, "BIT") && !strings.HasPrefix(c.Type, "INT") && !g.colPinned(m, t, c) {
				l = append(l, site{"tweak type", func() {
					c.Type = c.Type[:loc[0]] + fmt.Sprint(g.n(11, 99)) + c.Type[loc[1]-1:]
				}})
			}
			if c.Comment != "" {
				l = append(l, site{"tweak comment", func() { c.Comment = g.tweakText(c.Comment) }})
			}
		}
		for _, k := range t.Cons {
			switch k.Kind {
			case KCheck:
				l = append(l, site{"tweak check", func() { k.Expr = g.tweakText(k.Expr) }})
			case KFK:
				if len(k.RefCols) > 1 {
					l = append(l, site{"swap referenced columns", func() { k.RefCols[0], k.RefCols[1] = k.RefCols[1], k.RefCols[0] }})
				}
			case KUnique:
				if len(k.Cols) > 1 && autoName(g.d, t, k) != k.Name {
					l = append(l, site{"swap unique columns", func() { k.Cols[0], k.Cols[1] = k.Cols[1], k.Cols[0] }})
				}
			case KPK:
				if len(k.Cols) > 1 && !g.keyPinned(m, t) {
					l = append(l, site{"swap key columns", func() { k.Cols[0], k.Cols[1] = k.Cols[1], k.Cols[0] }})
				}
			}
		}
		if v := t.Options["COMMENT"]; v != "" {
			l = append(l, site{"tweak table comment", func() { t.Options["COMMENT"] = g.tweakText(v) }})
		}
		if v := t.Options["ROW DELETION POLICY"]; v != "" {
			l = append(l, site{"tweak policy", func() { t.Options["ROW DELETION POLICY"] = g.tweakText(v) }})
		}
	}
	for _, ix := range m.Idxs {
		if isAutoIdx(m.tab(ix.Table), ix) {
			continue
		}
		if len(ix.Cols) > 1 {
			l = append(l, site{"swap index columns", func() { ix.Cols[0], ix.Cols[1] = ix.Cols[1], ix.Cols[0] }})
		}
		if g.d != PG {
			l = append(l, site{"toggle index order", func() {
				i := g.n(0, len(ix.Cols)-1)
				if c := colOf(ix.Cols[i]); c != ix.Cols[i] {
					ix.Cols[i] = c
				} else {
					ix.Cols[i] += " DESC"
				}
			}})
		}
	}
	if len(l) == 0 {
		return ""
	}
	s := l[g.n(0, len(l)-1)]
	s.do()
	return s.what
}

// isAutoIdx: an index whose name is derived from its column, so that it can be
// written on the column.
func isAutoIdx(t *Tab, ix *Idx) bool {
	return strings.HasPrefix(ix.Name, bare(t.Name)+"_unique_")
}

func typeClass(d, typ string) byte {
	switch {
	case strings.HasPrefix(typ, "INT"), strings.HasPrefix(typ, "BIGINT"), strings.HasPrefix(typ, "SMALLINT"), strings.HasPrefix(typ, "DEC"), strings.HasPrefix(typ, "NUM"), strings.HasPrefix(typ, "REAL"), strings.HasPrefix(typ, "FLOAT"), strings.HasPrefix(typ, "DOUBLE"):
		return 'n'
	case strings.HasPrefix(typ, "TINYINT(1)"), strings.HasPrefix(typ, "BOOL"):
		return 'b'
	case strings.HasPrefix(typ, "TINYINT"):
		return 'n'
	case strings.HasPrefix(typ, "VARCHAR"), strings.HasPrefix(typ, "CHAR"), strings.HasPrefix(typ, "STRING"):
		return 's'
	case typ == "TEXT" && d == PG:
		return 's'
	case strings.HasPrefix(typ, "DATETIME("):
		return 'x'
	case strings.HasPrefix(typ, "TIMESTAMP"), typ == "DATETIME":
		return 't'
	case typ == "UUID":
		return 'u'
	case strings.HasPrefix(typ, "JSON") && d != MY && d != SP:
		return 'j'
	case strings.HasPrefix(typ, "ENUM"):
		return 'e'
	case strings.Contains(typ, "SERIAL"):
		return 'S'
	}
	return 'x'
}

// colPinned: changing the column would change what an interleaved table needs.
func (g *G) colPinned(m *Schema, t *Tab, c *Col) bool {
	if g.d != SP {
		return false
	}
	pk := t.pk()
	if pk == nil || !contains(pk.Cols, c.Name) {
		return false
	}
	if t.Options["INTERLEAVE"] != "" {
		return true
	}
	for _, o := range m.Tabs {
		if p, _, _ := strings.Cut(o.Options["INTERLEAVE"], " ON DELETE "); p == t.Name {
			return true
		}
	}
	return false
}

// fixCol restores the validity of a changed column.
func (g *G) fixCol(m *Schema, t *Tab, c *Col) {
	if c.AutoInc && (t.pk() == nil || !contains(t.pk().Cols, c.Name) || c.Type != "INTEGER" && c.Type != "BIGINT") {
		c.AutoInc = false
	}
	if c.AutoInc {
		c.NotNull = true
	}
	if c.NotNull && strings.HasPrefix(c.Default, "NULL") {
		c.Default = ""
	}
	if p := t.Options["ROW DELETION POLICY"]; p != "" && c.Type != "TIMESTAMP" && contains(exprCols(g.d, p), c.Name) {
		delete(t.Options, "ROW DELETION POLICY")
	}
}

// unkey removes the keys and indexes that use a column that can no longer be
// indexed.
func (g *G) unkey(m *Schema, t *Tab, c *Col) {
	var cons []*Con
	for _, k := range t.Cons {
		if (k.Kind == KPK || k.Kind == KUnique) && contains(k.Cols, c.Name) {
			if k.Kind == KPK && g.d == SP {
				c.Type, c.Default, c.Options = "INT64", "", ""
				return
			}
			continue
		}
		cons = append(cons, k)
	}
	t.Cons = cons
	m.Idxs = filter(m.Idxs, func(ix *Idx) bool { return ix.Table != t.Name || !contains(ix.Cols, c.Name) })
	for _, x := range t.Cols {
		g.fixCol(m, t, x)
	}
}

func filter[T any](l []T, keep func(T) bool) []T {
	var out []T
	for _, x := range l {
		if keep(x) {
			out = append(out, x)
		}
	}
	return out
}

// removeCol removes the column and everything that needs it.
func (g *G) removeCol(m *Schema, t *Tab, c *Col) bool {
	if g.colPinned(m, t, c) {
		return false
	}
	if pk := t.pk(); g.d == SP && pk != nil && contains(pk.Cols, c.Name) {
		if len(pk.Cols) == 1 {
			return false
		}
		pk.Cols = without(pk.Cols, c.Name)
	}
	left := 0
	for _, x := range t.Cols {
		if x != c && !(x.As != "" && contains(exprCols(g.d, x.As), c.Name)) {
			left++
		}
	}
	if left == 0 {
		return false
	}
	uses := func(k *Con) bool {
		return contains(k.Cols, c.Name) || k.Kind == KCheck && contains(exprCols(g.d, k.Expr), c.Name)
	}
	t.Cons = filter(t.Cons, func(k *Con) bool { return !uses(k) })
	for _, o := range m.Tabs {
		o.Cons = filter(o.Cons, func(k *Con) bool {
			return !(k.Kind == KFK && k.RefTable == t.Name && contains(k.RefCols, c.Name))
		})
	}
	m.Idxs = filter(m.Idxs, func(ix *Idx) bool {
		if ix.Table != t.Name || !contains(ix.Cols, c.Name) {
			return true
		}
		if len(ix.Cols) > 1 && g.p(50) { // keep the index on the remaining columns
			ix.Cols = without(ix.Cols, c.Name)
			return true
		}
		return false
	})
	t.Cols = filter(t.Cols, func(x *Col) bool {
		return x != c && !(x.As != "" && contains(exprCols(g.d, x.As), c.Name))
	})
	if p := t.Options["ROW DELETION POLICY"]; p != "" && contains(exprCols(g.d, p), c.Name) {
		delete(t.Options, "ROW DELETION POLICY")
	}
	for _, x := range t.Cols {
		g.fixCol(m, t, x)
	}
	// a computed column that went may have been used, too
	t.Cons = filter(t.Cons, func(k *Con) bool {
		for _, n := range k.Cols {
			if t.col(colOf(n)) == nil {
				return false
			}
		}
		if k.Kind == KCheck {
			for _, n := range exprCols(g.d, k.Expr) {
				if t.col(n) == nil {
					return false
				}
			}
		}
		return true
	})
	m.Idxs = filter(m.Idxs, func(ix *Idx) bool {
		if ix.Table == t.Name {
			for _, n := range ix.Cols {
				if t.col(colOf(n)) == nil {
					return false
				}
			}
		}
		return true
	})
	return true
}

func referrers(m *Schema, t *Tab) []*Tab {
	var out []*Tab
	for _, o := range m.Tabs {
		if o == t {
			continue
		}
		if p, _, _ := strings.Cut(o.Options["INTERLEAVE"], " ON DELETE "); p == t.Name {
			out = append(out, o)
			continue
		}
		for _, k := range o.Cons {
			if k.Kind == KFK && k.RefTable == t.Name {
				out = append(out, o)
				break
			}
		}
	}
	return out
}

func (g *G) removeTable(m *Schema, t *Tab) {
	m.Tabs = filter(m.Tabs, func(x *Tab) bool { return x != t })
	m.Idxs = filter(m.Idxs, func(ix *Idx) bool { return ix.Table != t.Name })
	for _, o := range m.Tabs {
		o.Cons = filter(o.Cons, func(k *Con) bool { return !(k.Kind == KFK && k.RefTable == t.Name) })
		if p, _, _ := strings.Cut(o.Options["INTERLEAVE"], " ON DELETE "); p == t.Name {
			delete(o.Options, "INTERLEAVE")
		}
	}
}

func (g *G) keyPinned(m *Schema, t *Tab) bool {
	if g.d != SP {
		return false
	}
	if t.Options["INTERLEAVE"] != "" {
		return true
	}
	for _, o := range m.Tabs {
		if p, _, _ := strings.Cut(o.Options["INTERLEAVE"], " ON DELETE "); p == t.Name {
			return true
		}
	}
	return false
}

func (g *G) dropPK(m *Schema, t *Tab) string {
	if g.d == SP {
		return ""
	}
	t.Cons = filter(t.Cons, func(k *Con) bool { return k.Kind != KPK })
	for _, c := range t.Cols {
		g.fixCol(m, t, c)
	}
	return "drop primary key"
}

func (g *G) changePK(m *Schema, t *Tab) string {
	pk := t.pk()
	if pk == nil || g.keyPinned(m, t) {
		return ""
	}
	kc := g.subset(keyCols(t), 2)
	if len(kc) == 0 {
		return ""
	}
	pk.Cols = kc
	if g.d != PG {
		pk.Cols = g.ordered(kc)
	}
	for _, n := range pk.Cols {
		c := t.col(colOf(n))
		if c.NotNull && strings.HasPrefix(c.Default, "NULL") {
			c.Default = ""
		}
	}
	for _, c := range t.Cols {
		g.fixCol(m, t, c)
	}
	return "change primary key"
}

// reorder permutes what has no order: tables (targets of references stay
// first), constraints and indexes.
func (g *G) reorder(m *Schema) {
	g.moveIndexes(m)
	shuffle := func(n int, swap func(i, j int)) {
		for i := n - 1; i > 0; i-- {
			swap(i, g.n(0, i))
		}
	}
	perm := append([]*Tab(nil), m.Tabs...)
	shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	m.Tabs = topo(perm)
	for _, t := range m.Tabs {
		shuffle(len(t.Cons), func(i, j int) { t.Cons[i], t.Cons[j] = t.Cons[j], t.Cons[i] })
	}
	shuffle(len(m.Idxs), func(i, j int) { m.Idxs[i], m.Idxs[j] = m.Idxs[j], m.Idxs[i] })
}

// moveIndexes changes between the two forms in which an index can be declared:
// inside CREATE TABLE and as CREATE INDEX.
func (g *G) moveIndexes(m *Schema) {
	if m.Dialect != MY && m.Dialect != CR {
		return
	}
	for _, x := range m.Idxs {
		if g.p(30) {
			x.Inline = !x.Inline
		}
	}
}

// topo orders tables so that referenced ones come first, otherwise keeping the
// given order.
func topo(tabs []*Tab) []*Tab {
	byName := map[string]*Tab{}
	for _, t := range tabs {
		byName[t.Name] = t
	}
	var out []*Tab
	state := map[*Tab]int{}
	var visit func(t *Tab)
	visit = func(t *Tab) {
		if t == nil || state[t] != 0 {
			return
		}
		state[t] = 1
		for _, k := range t.Cons {
			if k.Kind == KFK {
				visit(byName[k.RefTable])
			}
		}
		p, _, _ := strings.Cut(t.Options["INTERLEAVE"], " ON DELETE ")
		visit(byName[p])
		out = append(out, t)
	}
	for _, t := range tabs {
		visit(t)
	}
	return out
}

// align: // A MySQL table option other than COMMENT that is removed from the source is
// left as it is by ddlctl (there is no statement to unset it); an option that
// is not written is not specified, so the second schema inherits it.
func align(a, b *Schema) {
	for _, x := range b.Tabs {
		if y := a.tab(x.Name); y != nil && b.Dialect == MY {
			for k, v := range y.Options {
				if _, ok := x.Options[k]; !ok && k != "COMMENT" {
					if x.Options == nil {
						x.Options = map[string]string{}
					}
					x.Options[k] = v
				}
			}
		}
	}
}

// validModel checks a generated schema with the engine.
func validModel(m *Schema) error {
	got, err := readShown(m.Dialect, plainText(m))
	if err != nil {
		return fmt.Errorf("generated schema is invalid: %w\n%s", err, plainText(m))
	}
	if d := diffDump(m.dump(true), got.dump(true)); len(d) > 0 {
		return fmt.Errorf("generated schema is misread:\n%s\n%s", strings.Join(d, "\n"), plainText(m))
	}
	return nil
}
