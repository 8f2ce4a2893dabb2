package zzverif

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Reference model of a database schema. It is independent of ddlctl: it is
// built by the generators, or read from SQL text by the reader in sqlread.go,
// and changed by executing SQL statements (engine.go).
// ---------------------------------------------------------------------------

const (
	PG = "postgres"
	CR = "cockroachdb"
	MY = "mysql"
	SP = "spanner"
)

var allDialects = []string{PG, CR, MY, SP}

// Col is a column. All expressions are canonical token strings.
type Col struct {
	Name       string `json:"name"`
	Type       string `json:"type"`
	NotNull    bool   `json:"not_null,omitempty"`
	Default    string `json:"default,omitempty"`
	CharSet    string `json:"charset,omitempty"`
	Collate    string `json:"collate,omitempty"`
	AutoInc    bool   `json:"auto_inc,omitempty"`
	OnUpdate   string `json:"on_update,omitempty"`
	Comment    string `json:"comment,omitempty"`
	NotVisible bool   `json:"not_visible,omitempty"`
	As         string `json:"as,omitempty"`
	AsKind     string `json:"as_kind,omitempty"`
	Options    string `json:"options,omitempty"`

	ID int `json:"-"` // identity assigned by the engine: a recreated column has a new one
}

const (
	KPK     = "PRIMARY KEY"
	KFK     = "FOREIGN KEY"
	KUnique = "UNIQUE"
	KCheck  = "CHECK"
)

// Con is a table constraint.
type Con struct {
	Kind     string   `json:"kind"`
	Name     string   `json:"name"`
	Cols     []string `json:"cols,omitempty"` // "a" or "a DESC"
	RefTable string   `json:"ref_table,omitempty"`
	RefCols  []string `json:"ref_cols,omitempty"`
	OnDelete string   `json:"on_delete,omitempty"`
	OnUpdate string   `json:"on_update,omitempty"`
	Expr     string   `json:"expr,omitempty"`

	ID int `json:"-"`
}

// Idx is an index, whether declared inline or by CREATE INDEX.
type Idx struct {
	Name   string   `json:"name"`
	Table  string   `json:"table"`
	Unique bool     `json:"unique,omitempty"`
	Using  string   `json:"using,omitempty"`  // USING method
	Hash   string   `json:"hash,omitempty"`   // crdb: USING HASH WITH (...)
	Inline bool     `json:"inline,omitempty"` // declared inside CREATE TABLE (not part of the semantics)
	Cols   []string `json:"cols"`             // "a" or "a DESC"

	ID int `json:"-"`
}

// Tab is a table.
type Tab struct {
	Name    string            `json:"name"`
	Cols    []*Col            `json:"cols"`
	Cons    []*Con            `json:"cons,omitempty"`
	Options map[string]string `json:"options,omitempty"` // mysql ENGINE ..., spanner INTERLEAVE, ROW DELETION POLICY

	ID int `json:"-"`
}

// Schema is a whole database schema.
type Schema struct {
	Dialect string `json:"dialect"`
	Tabs    []*Tab `json:"tabs"`
	Idxs    []*Idx `json:"idxs,omitempty"`
}

func (s *Schema) tab(name string) *Tab {
	for _, t := range s.Tabs {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (s *Schema) idx(name string) *Idx {
	for _, i := range s.Idxs {
		if i.Name == name {
			return i
		}
	}
	return nil
}

func (s *Schema) idxOn(table, name string) *Idx {
	for _, i := range s.Idxs {
		if i.Name == name && i.Table == table {
			return i
		}
	}
	return nil
}

func (t *Tab) col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Tab) con(name string) *Con {
	for _, c := range t.Cons {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Tab) pk() *Con {
	for _, c := range t.Cons {
		if c.Kind == KPK {
			return c
		}
	}
	return nil
}

func colOf(c string) string { // "a DESC" -> "a"
	return strings.TrimSuffix(c, " DESC")
}

func (s *Schema) clone() *Schema {
	n := &Schema{Dialect: s.Dialect}
	for _, t := range s.Tabs {
		n.Tabs = append(n.Tabs, t.clone())
	}
	for _, i := range s.Idxs {
		c := *i
		c.Cols = append([]string(nil), i.Cols...)
		n.Idxs = append(n.Idxs, &c)
	}
	return n
}

func (t *Tab) clone() *Tab {
	n := &Tab{Name: t.Name, ID: t.ID}
	for _, c := range t.Cols {
		cc := *c
		n.Cols = append(n.Cols, &cc)
	}
	for _, c := range t.Cons {
		cc := *c
		cc.Cols = append([]string(nil), c.Cols...)
		cc.RefCols = append([]string(nil), c.RefCols...)
		n.Cons = append(n.Cons, &cc)
	}
	if t.Options != nil {
		n.Options = map[string]string{}
		for k, v := range t.Options {
			n.Options[k] = v
		}
	}
	return n
}

// dump renders the schema as a sorted list of facts; two schemas are equal
// when their facts are equal. With order, the position of each column is part
// of its fact.
// Without order, what two databases cannot differ in is written one way: the
// columns of a primary key are NOT NULL, a missing default is NULL and a missing
// action of a foreign key NO ACTION.
func (s *Schema) dump(order bool) []string { return s.dumpAs(order, !order) }

func (s *Schema) dumpAs(order, same bool) []string {
	var out []string
	for _, t := range s.Tabs {
		var pk []string
		if p := t.pk(); p != nil && same && s.Dialect != SP {
			for _, c := range p.Cols {
				pk = append(pk, colOf(c))
			}
		}
		out = append(out, fmt.Sprintf("table %q", t.Name))
		for i, c := range t.Cols {
			pos := ""
			if same && s.Dialect != SP {
				x := *c
				x.NotNull = c.NotNull || contains(pk, c.Name)
				if x.Default == "NULL" {
					x.Default = ""
				}
				c = &x
			}
			if order {
				pos = fmt.Sprintf("#%d ", i)
			}
			out = append(out, fmt.Sprintf("table %q column %s%s", t.Name, pos, c.fact(s.Dialect)))
		}
		for _, c := range t.Cons {
			if same && s.Dialect != SP && c.Kind == KFK {
				x := *c
				if x.OnDelete == "NO ACTION" {
					x.OnDelete = ""
				}
				if x.OnUpdate == "NO ACTION" {
					x.OnUpdate = ""
				}
				c = &x
			}
			out = append(out, fmt.Sprintf("table %q constraint %s", t.Name, c.fact(s.Dialect)))
		}
		for k, v := range t.Options {
			if s.Dialect == MY && k == "AUTO_INCREMENT" {
				continue // a counter, not schema; ddlctl skips it on purpose
			}
			if s.Dialect == SP && same && k == "INTERLEAVE" {
				v = strings.TrimSuffix(v, " ON DELETE NO ACTION")
			}
			out = append(out, fmt.Sprintf("table %q option %s=%s", t.Name, k, v))
		}
	}
	for _, i := range s.Idxs {
		out = append(out, i.fact())
	}
	sort.Strings(out)
	return out
}

var quotedNumber = regexp.MustCompile(`^'(-?[0-9][0-9.]*)'$`)

func (c *Col) fact(dialect string) string {
	def := c.Default
	if dialect == MY { // MySQL shows every default value in quotes: DEFAULT '0' is DEFAULT 0
		def = quotedNumber.ReplaceAllString(def, "$1")
	}
	return fmt.Sprintf("%q type=%s notnull=%v default=%q charset=%q collate=%q autoinc=%v onupdate=%q comment=%q notvisible=%v as=%q/%s options=%q",
		c.Name, c.Type, c.NotNull, def, c.CharSet, c.Collate, c.AutoInc, c.OnUpdate, c.Comment, c.NotVisible, c.As, c.AsKind, c.Options)
}

func (c *Con) fact(dialect string) string {
	name := c.Name
	if c.Kind == KPK && (dialect == MY || dialect == SP) {
		name = "" // a primary key has no name of its own there
	}
	return fmt.Sprintf("%s %q cols=%v ref=%q%v del=%q upd=%q expr=%q", c.Kind, name, c.Cols, c.RefTable, c.RefCols, c.OnDelete, c.OnUpdate, c.Expr)
}

func (i *Idx) fact() string {
	using := i.Using
	if using == "btree" {
		using = "" // the default method
	}
	return fmt.Sprintf("index %q on %q unique=%v using=%q hash=%q cols=%v", i.Name, i.Table, i.Unique, using, i.Hash, i.Cols)
}

// diffDump lists the facts that are only in a ("-") or only in b ("+").
func diffDump(a, b []string) []string {
	am, bm := map[string]int{}, map[string]int{}
	for _, x := range a {
		am[x]++
	}
	for _, x := range b {
		bm[x]++
	}
	var out []string
	for _, x := range a {
		if bm[x] == 0 {
			out = append(out, "- "+x)
		} else {
			bm[x]--
		}
	}
	for _, x := range b {
		if am[x] == 0 {
			out = append(out, "+ "+x)
		} else {
			am[x]--
		}
	}
	return out
}
