package zzverif

import (
	"fmt"
	"regexp"
	"strings"
)

// dbForm is a schema as a database keeps it: what is left unsaid has been
// filled in.
func dbForm(s *Schema) *Schema {
	n := s.cloneKeepIDs()
	for _, t := range n.Tabs {
		if n.Dialect == SP {
			if il := t.Options["INTERLEAVE"]; il != "" {
				t.Options["INTERLEAVE"] = strings.TrimSuffix(il, " ON DELETE NO ACTION")
			}
			continue
		}
		if p := t.pk(); p != nil {
			for _, k := range p.Cols {
				t.col(colOf(k)).NotNull = true
			}
		}
		for _, c := range t.Cols {
			if c.Default == "NULL" {
				c.Default = ""
			}
			if c.AutoInc {
				c.NotNull = true
			}
		}
		for _, c := range t.Cons {
			if c.Kind != KFK {
				continue
			}
			if c.OnDelete == "NO ACTION" {
				c.OnDelete = ""
			}
			if c.OnUpdate == "NO ACTION" {
				c.OnUpdate = ""
			}
		}
		if n.Dialect == MY {
			if t.Options == nil {
				t.Options = map[string]string{}
			}
			for k, v := range map[string]string{"ENGINE": defaultEngine, "CHARSET": defaultCharset, "COLLATE": defaultCollate} {
				if t.Options[k] == "" {
					t.Options[k] = v
				}
			}
		}
	}
	return n
}

var bracketArgs = regexp.MustCompile(`\([0-9]+\)$`)

// mysqlLit writes a literal the way SHOW CREATE TABLE does.
func mysqlLit(s string) string {
	if !strings.HasPrefix(s, "'") {
		return s
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, `\'`, `''`), "\n", `\n`)
}

// toDB makes of a schema one that a database can give back as it was written.
func (g *G) toDB(s *Schema) *Schema {
	n := s.clone()
	switch g.d {
	case PG, CR:
		names := map[string]string{}
		used := map[string]bool{}
		for _, t := range n.Tabs {
			if !strings.HasPrefix(t.Name, "public.") {
				names[t.Name] = "public." + t.Name
				used[strings.ToLower("public."+t.Name)] = true
			}
		}
		for _, t := range n.Tabs {
			if names[t.Name] == "" {
				m := t.Name
				for used[strings.ToLower(m)] {
					m += "_q"
				}
				used[strings.ToLower(m)] = true
				names[t.Name] = m
			}
		}
		for _, t := range n.Tabs {
			t.Name = names[t.Name]
			for _, c := range t.Cons {
				if c.Kind == KFK {
					c.RefTable = names[c.RefTable]
				}
			}
		}
		for _, i := range n.Idxs {
			i.Table = names[i.Table]
		}
	}
	for _, t := range n.Tabs {
		for _, c := range t.Cols {
			switch g.d {
			case PG:
				c.Type = map[string]string{"SERIAL": "INTEGER", "BIGSERIAL": "BIGINT", "SMALLSERIAL": "SMALLINT"}[c.Type] + c.Type
				for _, x := range []string{"SMALLSERIAL", "BIGSERIAL", "SERIAL"} {
					c.Type = strings.TrimSuffix(c.Type, x)
				}
			case CR:
				if strings.HasSuffix(c.Type, "SERIAL") {
					c.Type = "INT8"
				}
				if strings.HasPrefix(c.Type, "TIMESTAMP") {
					c.Type = strings.TrimSuffix(c.Type, "(6)")
				}
			case MY:
				switch {
				case c.Default == "TRUE":
					c.Default = "1"
				case c.Default == "FALSE":
					c.Default = "0"
				}
				c.Default = mysqlLit(c.Default)
				if c.Comment = mysqlLit(c.Comment); c.Comment == "''" {
					c.Comment = ""
				}
			case SP:
				if strings.Contains(c.Options, "NULL") {
					c.Options = ""
				}
			}
		}
		if g.d == CR && t.pk() == nil {
			t.Cols = append(t.Cols, &Col{Name: "pk0", Type: "INT8", NotNull: true})
			c := &Con{Kind: KPK, Cols: []string{"pk0"}}
			if c.Name = autoName(g.d, t, c); unsafeImplicit(c.Name) {
				c.Name = conName(t, "pk")
			}
			t.Cons = append(t.Cons, c)
		}
		if g.d != MY {
			continue
		}
		if t.Options == nil {
			t.Options = map[string]string{}
		}
		t.Options["ENGINE"] = defaultEngine
		for k, v := range map[string]string{"CHARSET": defaultCharset, "COLLATE": defaultCollate} {
			if t.Options[k] == "" {
				t.Options[k] = v
			}
		}
		if c := mysqlLit(t.Options["COMMENT"]); c == "" || c == "''" {
			delete(t.Options, "COMMENT")
		} else {
			t.Options["COMMENT"] = c
		}
		// a foreign key comes with an index
		keys := keyCols(t)
		t.Cons = filter(t.Cons, func(c *Con) bool {
			if c.Kind != KFK {
				return true
			}
			if mysqlCovered(n, t, c) {
				return true
			}
			for _, x := range c.Cols {
				if !contains(keys, x) {
					return false
				}
			}
			name := c.Name + "_ix"
			if n.idxOn(t.Name, name) != nil {
				return false
			}
			n.Idxs = append(n.Idxs, &Idx{Name: name, Table: t.Name, Inline: true, Cols: append([]string(nil), c.Cols...)})
			return true
		})
	}
	return n
}

// mysqlCovered tells whether the columns of a foreign key lead an index or the primary key.
func mysqlCovered(s *Schema, t *Tab, c *Con) bool {
	leads := func(l []string) bool {
		if len(l) < len(c.Cols) {
			return false
		}
		for i, x := range c.Cols {
			if colOf(l[i]) != x {
				return false
			}
		}
		return true
	}
	if p := t.pk(); p != nil && leads(p.Cols) {
		return true
	}
	for _, i := range s.Idxs {
		if i.Table == t.Name && leads(i.Cols) {
			return true
		}
	}
	return false
}

// dbSchema draws a schema of a database.
func (g *G) dbSchema() *Schema {
	for i := 0; i < 20; i++ {
		s := g.toDB(g.schema())
		if validModel(s) == nil {
			return s
		}
	}
	return &Schema{Dialect: g.d}
}

// dbPair draws the schema of a database and one to compare it with.
func (g *G) dbPair() (*Schema, *Schema, string) {
	for i := 0; i < 20; i++ {
		a, b, how := g.pair()
		a, b = g.toDB(a), g.toDB(b)
		align(a, b)
		if validModel(a) == nil && validModel(b) == nil {
			return a, b, how
		}
	}
	return &Schema{Dialect: g.d}, &Schema{Dialect: g.d}, "nothing"
}

var shardCol = regexp.MustCompile(`"crdb_internal_[^"]*_shard_`)

// facts lists what a database of the dialect tells apart, leaving out what the
// database adds by itself.
func facts(s *Schema, order bool) []string {
	s = dbForm(s)
	for _, t := range s.Tabs {
		t.Cols = filter(t.Cols, func(c *Col) bool { return !(s.Dialect == CR && shardCol.MatchString(`"`+c.Name)) })
	}
	return s.dumpAs(order, true)
}

func describe(a, b *Schema) string {
	return fmt.Sprintf("--- a\n%s\n--- b\n%s", clip(plainText(a), 3000), clip(plainText(b), 3000))
}
