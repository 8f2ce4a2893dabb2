package zzverif

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
)

// Engine executes SQL statements against a Schema as a database of the given
// dialect would, refusing statements that refer to missing objects or create
// existing ones. It shares no code with ddlctl.
type Engine struct {
	Deferred bool // foreign keys may point to what comes later
	// Live makes the columns of a primary key NOT NULL, and leaves them so when
	// the key goes.
	Live   bool
	S      *Schema
	nextID int
	// Touched records the objects each statement created, dropped or altered.
	Touched []string
	// Lenient accepts "DROP INDEX name" without ON in MySQL when the name is
	// unambiguous (known finding).
	LenientDropIndex bool

	needed  map[string]string // foreign keys whose only index was dropped (mysql)
	toks    []sqlTok
	pos     int
	dialect string
}

func NewEngine(dialect string) *Engine {
	return &Engine{S: &Schema{Dialect: dialect}, dialect: dialect, nextID: 1}
}

// NewEngineFrom starts from an existing schema (cloned, fresh identities).
func NewEngineFrom(s *Schema) *Engine {
	e := NewEngine(s.Dialect)
	e.S = s.clone()
	e.Live = s.Dialect != SP
	for _, t := range e.S.Tabs {
		e.impliedNotNull(t)
		t.ID = e.id()
		for _, c := range t.Cols {
			c.ID = e.id()
		}
		for _, c := range t.Cons {
			c.ID = e.id()
		}
	}
	for _, i := range e.S.Idxs {
		i.ID = e.id()
	}
	return e
}

func (e *Engine) impliedNotNull(t *Tab) {
	if p := t.pk(); p != nil && e.Live {
		for _, k := range p.Cols {
			if c := t.col(colOf(k)); c != nil {
				c.NotNull = true
			}
		}
	}
}

func (e *Engine) inPK(t *Tab, c *Col) bool { return t.inPK(c.Name) }

func (t *Tab) inPK(col string) bool {
	if p := t.pk(); p != nil {
		for _, k := range p.Cols {
			if colOf(k) == col {
				return true
			}
		}
	}
	return false
}

func (e *Engine) id() int { e.nextID++; return e.nextID }

func (e *Engine) touch(f string, a ...any) { e.Touched = append(e.Touched, fmt.Sprintf(f, a...)) }

type sqlErr struct{ msg string }

func (e sqlErr) Error() string { return e.msg }

func (e *Engine) fail(f string, a ...any) { panic(sqlErr{fmt.Sprintf(f, a...)}) }

// Exec executes a script and returns the index of the failing statement.
func (e *Engine) Exec(script string) (n int, err error) {
	stmts, err := splitSQL(e.dialect, script)
	if err != nil {
		return 0, err
	}
	for i, st := range stmts {
		if err := e.ExecToks(st); err != nil {
			return i, fmt.Errorf("statement %d %q: %w", i+1, script[st[0].start:st[len(st)-1].end], err)
		}
	}
	return len(stmts), nil
}

func (e *Engine) ExecToks(st []sqlTok) (err error) {
	backup := e.S
	e.S = e.S.cloneKeepIDs()
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(sqlErr); ok {
				err = se
				e.S = backup
				return
			}
			panic(r)
		}
	}()
	e.toks, e.pos = st, 0
	e.stmt()
	if e.pos != len(e.toks) {
		e.fail("unexpected %q", e.peek().text)
	}
	return nil
}

func (s *Schema) cloneKeepIDs() *Schema {
	n := s.clone()
	for i, t := range s.Tabs {
		n.Tabs[i].ID = t.ID
		for j, c := range t.Cols {
			n.Tabs[i].Cols[j].ID = c.ID
		}
		for j, c := range t.Cons {
			n.Tabs[i].Cons[j].ID = c.ID
		}
	}
	for i, x := range s.Idxs {
		n.Idxs[i].ID = x.ID
	}
	return n
}

// readSchema reads a script of CREATE statements. FK targets may be missing
// when allowDangling is set.
func readSchema(dialect, script string) (*Schema, error) {
	e := NewEngine(dialect)
	if _, err := e.Exec(script); err != nil {
		return nil, err
	}
	return e.S, nil
}

// --- token helpers ----------------------------------------------------------

func (e *Engine) peek() sqlTok {
	if e.pos < len(e.toks) {
		return e.toks[e.pos]
	}
	return sqlTok{kind: tEOF}
}

func (e *Engine) peekAt(n int) sqlTok {
	if e.pos+n < len(e.toks) {
		return e.toks[e.pos+n]
	}
	return sqlTok{kind: tEOF}
}

func (e *Engine) is(words ...string) bool {
	for i, w := range words {
		if e.peekAt(i).up() != w {
			return false
		}
	}
	return true
}

func (e *Engine) accept(words ...string) bool {
	if e.is(words...) {
		e.pos += len(words)
		return true
	}
	return false
}

func (e *Engine) expect(words ...string) {
	if !e.accept(words...) {
		e.fail("expected %s but got %q", strings.Join(words, " "), e.peek().text)
	}
}

func (e *Engine) next() sqlTok { t := e.peek(); e.pos++; return t }

func (e *Engine) ident() string {
	t := e.peek()
	if t.kind == tWord && !isSQLReserved(t.up()) || t.kind == tQIdent {
		e.pos++
		return t.val
	}
	e.fail("expected an identifier but got %q", t.text)
	return ""
}

// conIdent is an identifier that names a constraint. Letters that are not in
// quotes are folded. (Other names are not folded here: ddlctl takes them as
// they are written, which its users know from the generated DDL.)
func (e *Engine) conIdent() string {
	t := e.peek()
	n := e.ident()
	if t.kind == tWord && (e.dialect == PG || e.dialect == CR) {
		n = strings.ToLower(n)
	}
	return n
}

var sqlReserved = map[string]bool{
	"CREATE": true, "TABLE": true, "CONSTRAINT": true, "PRIMARY": true, "FOREIGN": true, "UNIQUE": true, "CHECK": true,
	"REFERENCES": true, "NOT": true, "NULL": true, "DEFAULT": true, "ON": true, "DROP": true, "ALTER": true,
}

func isSQLReserved(w string) bool { return sqlReserved[w] }

// parenRaw consumes a balanced parenthesised group and returns its tokens
// including the parentheses.
func (e *Engine) parenRaw() []sqlTok {
	st := e.pos
	e.expect("(")
	depth := 1
	for depth > 0 {
		t := e.next()
		switch {
		case t.kind == tEOF:
			e.fail("unbalanced parentheses")
		case t.kind == tOp && t.text == "(":
			depth++
		case t.kind == tOp && t.text == ")":
			depth--
		}
	}
	return e.toks[st:e.pos]
}

var goodNumber = regexp.MustCompile(`^(0[xX][0-9a-fA-F]+|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)$`)

// literals refuses numbers and literals that have come apart.
func (e *Engine) literals(raw []sqlTok) {
	for i, t := range raw {
		switch {
		case t.kind == tWord && (t.text[0] >= '0' && t.text[0] <= '9' || t.text[0] == '.') && !goodNumber.MatchString(t.text):
			e.fail("bad number %q", t.text)
		case t.kind == tString && i > 0 && raw[i-1].kind == tWord && slices.Contains(litPrefixes[e.dialect], raw[i-1].up()):
			e.fail("a space between %s and %s", raw[i-1].text, t.text)
		}
	}
}

// exprRaw is a parenthesised expression, refused where no SQL grammar would
// take it: operators side by side, or none between an operand and an operator.
func (e *Engine) exprRaw() []sqlTok {
	raw := e.parenRaw()
	open := func(t sqlTok) bool { return t.kind == tOp && (t.text == "(" || t.text == ",") }
	shut := func(t sqlTok) bool { return t.kind == tOp && (t.text == ")" || t.text == ",") }
	oper := func(t sqlTok) bool { return t.kind == tOp && !open(t) && !shut(t) }
	e.literals(raw)
	for i := 1; i < len(raw); i++ {
		a, b := raw[i-1], raw[i]
		switch {
		case oper(b) && b.text != "-" && (oper(a) || open(a)), oper(a) && shut(b),
			oper(a) && oper(b) && a.text == "-" && b.text != "-", open(a) && a.text == "," && shut(b), open(a) && b.text == ",":
			e.fail("bad expression at %q %q", a.text, b.text)
		case oper(b) && e.dialect == SP && (b.text == "->" || b.text == "->>"):
			e.fail("bad expression at %q", b.text)
		case oper(b) && (b.text == ":" || b.text == "." || b.text == ";" || b.text == "!"):
			e.fail("bad expression at %q", b.text)
		}
	}
	return raw
}

func (e *Engine) identList() []string {
	e.expect("(")
	var out []string
	for {
		out = append(out, e.ident())
		if e.accept(",") {
			continue
		}
		e.expect(")")
		return out
	}
}

func (e *Engine) keyList(order bool) []string {
	e.expect("(")
	var out []string
	for {
		n := e.ident()
		if order {
			if e.accept("DESC") {
				n += " DESC"
			} else {
				e.accept("ASC")
			}
		}
		out = append(out, n)
		if e.accept(",") {
			continue
		}
		e.expect(")")
		return out
	}
}

// --- expressions ------------------------------------------------------------

var typeArgs = regexp.MustCompile(`(?is)^\(([0-9]+(,[0-9]+)?|max|'.*'(,'.*')*)\)$`)

func (e *Engine) typeText() string {
	t := e.next()
	if t.kind != tWord || isSQLReserved(t.up()) {
		e.fail("expected a type but got %q", t.text)
	}
	w := t.up()
	switch w {
	case "DOUBLE":
		if e.accept("PRECISION") {
			w = "DOUBLE PRECISION"
		}
	case "CHARACTER":
		e.expect("VARYING")
		w = "CHARACTER VARYING"
	}
	args := ""
	if e.is("(") {
		raw := e.parenRaw()
		for _, t := range raw {
			args += t.text
		}
		if !typeArgs.MatchString(args) {
			e.fail("bad arguments of a type: %s", args)
		}
	}
	switch w {
	case "TIMESTAMP":
		if e.accept("WITH", "TIME", "ZONE") {
			w = "TIMESTAMP WITH TIME ZONE"
		} else if e.dialect == PG || e.dialect == CR {
			e.accept("WITHOUT", "TIME", "ZONE") // the default
		}
	}
	return canonType(e.dialect, w, args)
}

func canonType(d, w, args string) string {
	switch d {
	case PG:
		switch w {
		case "INT":
			w = "INTEGER"
		case "VARCHAR":
			w = "CHARACTER VARYING"
		case "TIMESTAMPTZ":
			w = "TIMESTAMP WITH TIME ZONE"
		case "DECIMAL":
			w = "NUMERIC"
		}
	case CR:
		switch w {
		case "BOOLEAN":
			w = "BOOL"
		case "SMALLINT":
			w = "INT2"
		case "INTEGER", "INT":
			w = "INT4"
		case "BIGINT":
			w = "INT8"
		case "DOUBLE PRECISION":
			w = "FLOAT8"
		case "CHARACTER VARYING":
			w = "VARCHAR"
		case "TEXT":
			w = "STRING"
		case "TIMESTAMP WITH TIME ZONE":
			w = "TIMESTAMPTZ"
		case "NUMERIC":
			w = "DECIMAL"
		case "REAL":
			w = "FLOAT4"
		}
	case MY:
		switch w {
		case "BOOLEAN":
			w = "TINYINT"
			if args == "" {
				args = "(1)"
			}
		case "INT":
			w = "INTEGER"
		case "CHARACTER VARYING":
			w = "VARCHAR"
		case "DOUBLE PRECISION", "REAL":
			w = "DOUBLE"
		case "NUMERIC":
			w = "DECIMAL"
		}
	}
	return w + args
}

func isBinaryOp(t sqlTok) bool {
	if t.kind != tOp {
		return false
	}
	switch t.text {
	case "(", ")", ",", ";":
		return false
	}
	return true
}

// defaultExpr consumes one value expression and returns its tokens.
func (e *Engine) defaultExpr() []sqlTok {
	st := e.pos
	var operand func()
	operand = func() {
		t := e.next()
		switch {
		case t.kind == tOp && t.text == "-":
			operand()
		case t.kind == tOp && t.text == "(":
			e.pos--
			e.exprRaw()
		case t.kind == tWord || t.kind == tString || t.kind == tQIdent:
			if t.kind == tWord && t.up() != "NULL" && isSQLReserved(t.up()) {
				e.fail("expected a value but got %q", t.text)
			}
			if e.is("(") {
				e.exprRaw()
			}
		default:
			e.fail("expected a value but got %q", t.text)
		}
	}
	operand()
	for isBinaryOp(e.peek()) {
		op := e.next()
		if op.text == "::" || op.text == ":::" {
			e.typeText()
			continue
		}
		operand()
	}
	e.literals(e.toks[st:e.pos])
	return e.toks[st:e.pos]
}

// --- statements -------------------------------------------------------------

func (e *Engine) stmt() {
	switch {
	case e.accept("CREATE", "TABLE"):
		e.createTable()
	case e.is("CREATE", "UNIQUE", "INDEX"), e.is("CREATE", "INDEX"):
		e.createIndex()
	case e.accept("DROP", "TABLE"):
		e.dropTable()
	case e.accept("DROP", "INDEX"):
		e.dropIndex()
	case e.accept("ALTER", "TABLE"):
		e.alterTable()
	default:
		e.fail("not a known statement: %q", e.peek().text)
	}
}

func (e *Engine) relationExists(name string) bool {
	if e.S.tab(name) != nil {
		return true
	}
	return e.dialect == PG && e.S.idx(name) != nil
}

func (e *Engine) createTable() {
	ifNot := e.accept("IF", "NOT", "EXISTS")
	name := e.ident()
	if e.relationExists(name) {
		if ifNot {
			e.pos = len(e.toks)
			return
		}
		e.fail("relation %q already exists", name)
	}
	t := &Tab{Name: name, ID: e.id()}
	e.S.Tabs = append(e.S.Tabs, t)
	e.expect("(")
	for {
		e.tableElem(t)
		if e.accept(",") {
			continue
		}
		e.expect(")")
		break
	}
	switch e.dialect {
	case MY:
		for e.peek().kind != tEOF {
			e.mysqlOption(t, false)
			e.accept(",")
		}
	case SP:
		e.spannerTail(t)
	}
	for _, c := range t.Cons {
		e.checkCon(t, c)
	}
	e.impliedNotNull(t)
	if len(t.Cols) == 0 {
		e.fail("table %q has no columns", name)
	}
	for _, c := range t.Cols {
		e.checkColAs(t, c)
	}
	e.touch("table %s", name)
}

func (e *Engine) mysqlOption(t *Tab, alter bool) {
	if t.Options == nil {
		t.Options = map[string]string{}
	}
	e.accept("DEFAULT")
	var k string
	switch {
	case e.accept("ENGINE"):
		k = "ENGINE"
	case e.accept("AUTO_INCREMENT"):
		k = "AUTO_INCREMENT"
	case e.accept("CHARSET"), e.accept("CHARACTER", "SET"):
		k = "CHARSET"
	case e.accept("COLLATE"):
		k = "COLLATE"
	case e.accept("COMMENT"):
		k = "COMMENT"
	default:
		e.fail("unknown table option %q", e.peek().text)
	}
	e.accept("=")
	v := e.next()
	if k == "COMMENT" && v.kind != tString {
		e.fail("COMMENT needs a string, got %q", v.text)
	}
	word := v.text
	switch {
	case v.kind == tQIdent && (k == "CHARSET" || k == "COLLATE" || k == "ENGINE"):
		word = v.val
	case v.kind != tWord && v.kind != tString:
		e.fail("bad value %q of option %s", v.text, k)
	}
	t.Options[k] = word
	if alter {
		e.touch("option %s.%s", t.Name, k)
	}
	if k == "AUTO_INCREMENT" || k == "COMMENT" && v.text == "''" {
		delete(t.Options, k)
	}
}

func (e *Engine) spannerTail(t *Tab) {
	if t.Options == nil {
		t.Options = map[string]string{}
	}
	e.accept(",")
	e.expect("PRIMARY", "KEY")
	pk := &Con{Kind: KPK, Name: "PRIMARY KEY", ID: e.id()}
	if e.is("(", ")") {
		e.pos += 2
	} else {
		pk.Cols = e.keyList(true)
	}
	if t.pk() != nil {
		e.fail("two primary keys on %q", t.Name)
	}
	t.Cons = append(t.Cons, pk)
	for e.accept(",") {
		switch {
		case e.accept("INTERLEAVE", "IN", "PARENT"):
			p := e.ident()
			act := ""
			if e.accept("ON", "DELETE") {
				switch {
				case e.accept("CASCADE"):
					act = " ON DELETE CASCADE"
				case e.accept("NO", "ACTION"):
					act = " ON DELETE NO ACTION"
				default:
					e.fail("bad INTERLEAVE action %q", e.peek().text)
				}
			}
			pt := e.S.tab(p)
			if (pt == nil || pt == t) && !e.Deferred {
				e.fail("parent table %q does not exist", p)
			}
			t.Options["INTERLEAVE"] = p + act
		case e.accept("ROW", "DELETION", "POLICY"):
			t.Options["ROW DELETION POLICY"] = e.policy(t)
		default:
			e.fail("unknown table clause %q", e.peek().text)
		}
	}
}

func (e *Engine) policy(t *Tab) string {
	raw := e.parenRaw()
	ok := len(raw) >= 4 && raw[1].up() == "OLDER_THAN"
	if !ok {
		e.fail("bad ROW DELETION POLICY")
	}
	col := raw[3].val
	c := t.col(col)
	if c == nil {
		e.fail("ROW DELETION POLICY column %q does not exist", col)
	}
	for i := range raw {
		if w := raw[i].up(); raw[i].kind == tWord && i != 3 && (w == "OLDER_THAN" || w == "INTERVAL" || w == "DAY") {
			raw[i].text, raw[i].val = w, w
		}
	}
	return canonExpr(raw)
}

// autoConName gives an implicit constraint name the way ddlctl documents them
// by its printed output; they are the names PostgreSQL uses too.
func (e *Engine) autoConName(t *Tab, c *Con) string {
	switch c.Kind {
	case KPK:
		if e.dialect == MY || e.dialect == SP {
			return "PRIMARY KEY"
		}
		return bare(t.Name) + "_pkey"
	case KFK:
		return bare(t.Name) + "_" + strings.Join(c.Cols, "_") + "_fkey"
	case KUnique:
		return bare(t.Name) + "_unique_" + strings.Join(c.Cols, "_")
	}
	return ""
}

// bare strips the schema qualifier.
func bare(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (e *Engine) tableElem(t *Tab) {
	switch {
	case e.is("CONSTRAINT"), e.is("PRIMARY", "KEY"), e.is("FOREIGN", "KEY"), e.is("CHECK", "("), e.is("UNIQUE", "("):
		c := e.constraint(t)
		e.addCon(t, c)
	case e.dialect == CR && (e.is("UNIQUE", "INDEX") || e.is("INDEX") && e.peekAt(2).text == "("):
		ix := &Idx{Table: t.Name, ID: e.id(), Inline: true}
		ix.Unique = e.accept("UNIQUE")
		e.expect("INDEX")
		ix.Name = e.ident()
		e.indexTail(ix)
		e.addIdx(ix)
	case e.dialect == MY && (e.is("UNIQUE", "KEY") || e.is("UNIQUE", "INDEX") || (e.is("KEY") || e.is("INDEX")) && e.peekAt(2).text == "("):
		ix := &Idx{Table: t.Name, ID: e.id(), Inline: true}
		ix.Unique = e.accept("UNIQUE")
		e.next()
		ix.Name = e.ident()
		e.indexTail(ix)
		e.addIdx(ix)
	default:
		e.column(t)
	}
}

func (e *Engine) constraint(t *Tab) *Con {
	c := &Con{ID: e.id()}
	if e.accept("CONSTRAINT") {
		c.Name = e.conIdent()
	}
	switch {
	case e.accept("PRIMARY", "KEY"):
		c.Kind = KPK
		c.Cols = e.keyList(e.dialect == CR || e.dialect == MY)
		if e.dialect == MY {
			c.Name = "PRIMARY KEY"
		}
	case e.accept("UNIQUE"):
		if e.dialect != PG {
			e.fail("UNIQUE constraint not used in %s", e.dialect)
		}
		c.Kind = KUnique
		c.Cols = e.identList()
	case e.accept("FOREIGN", "KEY"):
		c.Kind = KFK
		c.Cols = e.identList()
		e.references(c)
	case e.accept("CHECK"):
		c.Kind = KCheck
		c.Expr = canonExpr(e.exprRaw())
	default:
		e.fail("unknown constraint %q", e.peek().text)
	}
	if c.Name == "" {
		c.Name = e.autoConName(t, c)
	}
	return c
}

func (e *Engine) references(c *Con) {
	e.expect("REFERENCES")
	c.RefTable = e.ident()
	c.RefCols = e.identList()
	seen := map[bool]bool{}
	for e.accept("ON") {
		del := false
		switch {
		case e.accept("DELETE"):
			del = true
		case e.accept("UPDATE"):
		default:
			e.fail("bad ON %q", e.peek().text)
		}
		if seen[del] {
			e.fail("referential action given twice")
		}
		seen[del] = true
		act := ""
		switch {
		case e.accept("CASCADE"):
			act = "CASCADE"
		case e.accept("NO", "ACTION"):
			act = "NO ACTION"
		default:
			e.fail("bad referential action %q", e.peek().text)
		}
		if del {
			c.OnDelete = act
		} else {
			c.OnUpdate = act
		}
	}
}

func (e *Engine) column(t *Tab) {
	c := &Col{Name: e.ident(), ID: e.id()}
	if t.col(c.Name) != nil {
		e.fail("column %q of %q specified twice", c.Name, t.Name)
	}
	c.Type = e.typeText()
	t.Cols = append(t.Cols, c)
	e.columnAttrs(t, c, true)
}

func (e *Engine) columnAttrs(t *Tab, c *Col, constraints bool) {
	seen := map[string]bool{}
	once := func(what string) {
		if seen[what] {
			e.fail("%s of column %q given twice", what, c.Name)
		}
		seen[what] = true
	}
	for {
		switch {
		case e.accept("NOT", "NULL"):
			once("NULL")
			c.NotNull = true
		case e.dialect != SP && e.accept("NULL"):
			once("NULL")
		case e.accept("DEFAULT"):
			once("DEFAULT")
			c.Default = canonExpr(e.defaultExpr())
		case e.dialect == CR && e.accept("NOT", "VISIBLE"):
			once("VISIBLE")
			c.NotVisible = true
		case e.dialect == CR && e.accept("AS"):
			once("AS")
			c.As = canonExpr(e.exprRaw())
			switch {
			case e.accept("STORED"):
				c.AsKind = "STORED"
			case e.accept("VIRTUAL"):
				c.AsKind = "VIRTUAL"
			default:
				e.fail("computed column needs STORED or VIRTUAL")
			}
		case e.dialect == MY && e.accept("CHARACTER", "SET"):
			once("CHARACTER SET")
			c.CharSet = e.ident()
		case e.dialect == MY && e.accept("COLLATE"):
			once("COLLATE")
			c.Collate = e.ident()
		case e.dialect == MY && e.accept("AUTO_INCREMENT"):
			once("AUTO_INCREMENT")
			c.AutoInc = true
		case e.dialect == MY && e.accept("ON", "UPDATE"):
			once("ON UPDATE")
			c.OnUpdate = canonExpr(e.defaultExpr())
		case e.dialect == MY && e.accept("COMMENT"):
			once("COMMENT")
			v := e.next()
			if v.kind != tString {
				e.fail("COMMENT needs a string, got %q", v.text)
			}
			c.Comment = v.text
		case e.dialect == SP && e.accept("OPTIONS"):
			once("OPTIONS")
			c.Options = canonExpr(e.exprRaw())
		case constraints && !seen["OPTIONS"] && e.is("CHECK", "("):
			e.expect("CHECK")
			e.addCon(t, &Con{Kind: KCheck, Name: bare(t.Name) + "_" + c.Name + "_check", Expr: canonExpr(e.exprRaw()), ID: e.id()})
		case constraints && e.is("PRIMARY", "KEY"):
			once("PRIMARY KEY")
			e.pos += 2
			k := &Con{Kind: KPK, Cols: []string{c.Name}, ID: e.id()}
			k.Name = e.autoConName(t, k)
			e.addCon(t, k)
		case constraints && e.is("REFERENCES"):
			k := &Con{Kind: KFK, Cols: []string{c.Name}, ID: e.id()}
			e.references(k)
			k.Name = e.autoConName(t, k)
			e.addCon(t, k)
		case constraints && e.accept("UNIQUE"):
			once("UNIQUE")
			name := bare(t.Name) + "_unique_" + c.Name
			if e.dialect == PG {
				e.addCon(t, &Con{Kind: KUnique, Name: name, Cols: []string{c.Name}, ID: e.id()})
			} else {
				e.accept("KEY")
				e.addIdx(&Idx{Name: name, Table: t.Name, Unique: true, Inline: true, Cols: []string{c.Name}, ID: e.id()})
			}
		default:
			return
		}
	}
}

func (e *Engine) addCon(t *Tab, c *Con) {
	if c.Name == "" {
		// an unnamed CHECK: the database picks a name; the model keeps ""
		c.Name = e.defaultCheckName(t)
	}
	if c.Kind == KPK && t.pk() != nil {
		e.fail("two primary keys on %q", t.Name)
	}
	for _, x := range t.Cons {
		if x.Name == c.Name {
			e.fail("constraint %q already exists on %q", c.Name, t.Name)
		}
	}
	if (e.dialect == PG) && (c.Kind == KPK || c.Kind == KUnique) && (e.S.idx(c.Name) != nil || e.S.tab(c.Name) != nil) {
		e.fail("relation %q already exists", c.Name)
	}
	t.Cons = append(t.Cons, c)
	e.impliedNotNull(t)
}

func (e *Engine) defaultCheckName(t *Tab) string {
	if e.dialect == MY {
		return bare(t.Name) + "_chk"
	}
	return bare(t.Name) + "_check"
}

// checkCon verifies the references of a constraint.
func (e *Engine) checkCon(t *Tab, c *Con) {
	for _, n := range c.Cols {
		if t.col(colOf(n)) == nil {
			e.fail("constraint %q: column %q does not exist in %q", c.Name, colOf(n), t.Name)
		}
	}
	if c.Kind == KFK && !e.Deferred {
		r := e.S.tab(c.RefTable)
		if r == nil {
			e.fail("constraint %q: table %q does not exist", c.Name, c.RefTable)
		}
		for _, n := range c.RefCols {
			if r.col(n) == nil {
				e.fail("constraint %q: column %q does not exist in %q", c.Name, n, c.RefTable)
			}
		}
		if len(c.Cols) != len(c.RefCols) {
			e.fail("constraint %q: column counts differ", c.Name)
		}
	}
	if c.Kind == KCheck {
		for _, n := range exprCols(e.dialect, c.Expr) {
			if t.col(n) == nil {
				e.fail("constraint %q: column %q does not exist in %q", c.Name, n, t.Name)
			}
		}
	}
}

func (e *Engine) checkColAs(t *Tab, c *Col) {
	if c.As != "" {
		for _, n := range exprCols(e.dialect, c.As) {
			if t.col(n) == nil {
				e.fail("computed column %q: column %q does not exist in %q", c.Name, n, t.Name)
			}
		}
	}
}

// exprCols lists the column names an expression refers to: words that are not
// numbers, keywords, function names or type names after a cast. Column names
// in generated schemas never collide with those.
// otherWords are keywords that ddlctl does not know.
var otherWords = map[string]bool{"AS": true, "CHAR": true, "REGEXP": true}

func exprCols(dialect, expr string) []string {
	toks, err := tokenizeSQL(dialect, expr)
	if err != nil {
		return nil
	}
	var out []string
	for i, t := range toks {
		if t.kind != tWord && t.kind != tQIdent {
			continue
		}
		if t.kind == tWord && (exprKeywords[t.up()] || t.text[0] >= '0' && t.text[0] <= '9' || t.text[0] == '.' || typeWords[t.up()] || otherWords[t.up()]) {
			continue
		}
		if i+1 < len(toks) && toks[i+1].text == "(" {
			continue
		}
		if i > 0 && (toks[i-1].text == "::" || toks[i-1].text == ":::") {
			continue
		}
		out = append(out, t.val)
	}
	return out
}

func (e *Engine) indexTail(ix *Idx) {
	if e.accept("USING") {
		w := e.ident()
		if strings.EqualFold(w, "HASH") && e.dialect == CR {
			ix.Hash = "HASH"
			if e.accept("WITH") {
				ix.Hash += " WITH " + canonExpr(e.exprRaw())
			}
		} else {
			ix.Using = strings.ToLower(w)
		}
	}
	ix.Cols = e.keyList(e.dialect != PG)
	if e.dialect == CR && e.accept("USING") {
		e.expect("HASH")
		ix.Hash = "HASH"
		if e.accept("WITH") {
			ix.Hash += " WITH " + canonExpr(e.exprRaw())
		}
	}
}

func (e *Engine) addIdx(ix *Idx) {
	if e.dialect == MY {
		if e.S.idxOn(ix.Table, ix.Name) != nil {
			e.fail("index %q already exists on %q", ix.Name, ix.Table)
		}
	} else if e.dialect == CR {
		if e.S.idxOn(ix.Table, ix.Name) != nil {
			e.fail("index %q already exists on %q", ix.Name, ix.Table)
		}
	} else {
		if e.S.idx(ix.Name) != nil || e.S.tab(ix.Name) != nil {
			e.fail("relation %q already exists", ix.Name)
		}
		for _, t := range e.S.Tabs {
			if c := t.con(ix.Name); c != nil && (c.Kind == KPK || c.Kind == KUnique) {
				e.fail("relation %q already exists", ix.Name)
			}
		}
	}
	e.S.Idxs = append(e.S.Idxs, ix)
	e.touch("index %s", ix.Name)
}

func (e *Engine) createIndex() {
	e.expect("CREATE")
	ix := &Idx{ID: e.id()}
	ix.Unique = e.accept("UNIQUE")
	e.expect("INDEX")
	ifNot := e.accept("IF", "NOT", "EXISTS")
	quoted := e.peek().kind == tQIdent
	ix.Name = e.ident()
	if e.dialect == PG || e.dialect == MY {
		if strings.Contains(ix.Name, ".") && !quoted {
			e.fail("an index name cannot be qualified: %q", ix.Name)
		}
	}
	e.expect("ON")
	ix.Table = e.ident()
	e.indexTail(ix)
	t := e.S.tab(ix.Table)
	if t == nil {
		e.fail("index %q: table %q does not exist", ix.Name, ix.Table)
	}
	for _, c := range ix.Cols {
		if t.col(colOf(c)) == nil {
			e.fail("index %q: column %q does not exist in %q", ix.Name, colOf(c), ix.Table)
		}
	}
	if ifNot && e.S.idx(ix.Name) != nil {
		return
	}
	e.addIdx(ix)
}

func (e *Engine) dropTable() {
	e.accept("IF", "EXISTS")
	name := e.ident()
	t := e.S.tab(name)
	if t == nil {
		e.fail("table %q does not exist", name)
	}
	for _, o := range e.S.Tabs {
		if o == t {
			continue
		}
		for _, c := range o.Cons {
			if c.Kind == KFK && c.RefTable == name {
				e.fail("cannot drop table %q: constraint %q on %q refers to it", name, c.Name, o.Name)
			}
		}
		if il := o.Options["INTERLEAVE"]; il == name || strings.HasPrefix(il, name+" ") {
			e.fail("cannot drop table %q: %q is interleaved in it", name, o.Name)
		}
	}
	var rest []*Idx
	for _, ix := range e.S.Idxs {
		if ix.Table == name {
			if e.dialect == SP {
				e.fail("cannot drop table %q with index %q", name, ix.Name)
			}
			continue
		}
		rest = append(rest, ix)
	}
	e.S.Idxs = rest
	for i, x := range e.S.Tabs {
		if x == t {
			e.S.Tabs = append(e.S.Tabs[:i], e.S.Tabs[i+1:]...)
			break
		}
	}
	e.touch("table %s", name)
}

func (e *Engine) dropIndex() {
	e.accept("IF", "EXISTS")
	name := e.ident()
	if e.dialect == CR && e.accept("@") {
		tn := name
		name = e.ident()
		_ = tn
	}
	table := ""
	if e.accept("ON") {
		table = e.ident()
	}
	e.accept("CASCADE")
	if e.dialect == MY {
		if table == "" && !e.LenientDropIndex {
			e.fail("DROP INDEX needs ON table")
		}
	} else if table != "" {
		e.fail("DROP INDEX ... ON is not %s", e.dialect)
	}
	n, found := -1, 0
	for i, ix := range e.S.Idxs {
		if (ix.Name == name || e.LenientDropIndex && bare(name) == ix.Name && strings.Contains(name, ".")) && (table == "" || ix.Table == table) {
			n = i
			found++
		}
	}
	if found == 0 {
		e.fail("index %q does not exist", name)
	}
	if found > 1 {
		e.fail("index name %q is ambiguous", name)
	}
	gone := e.S.Idxs[n]
	var fks []*Con
	t := e.S.tab(gone.Table)
	if e.dialect == MY && t != nil {
		for _, c := range t.Cons {
			if c.Kind == KFK && mysqlCovered(e.S, t, c) {
				fks = append(fks, c)
			}
		}
	}
	e.S.Idxs = append(e.S.Idxs[:n:n], e.S.Idxs[n+1:]...)
	for _, c := range fks {
		if !mysqlCovered(e.S, t, c) {
			if e.needed == nil {
				e.needed = map[string]string{}
			}
			e.needed[t.Name+"\x00"+c.Name] = gone.Name
		}
	}
	e.touch("index %s", name)
}

func (e *Engine) alterTable() {
	name := e.ident()
	t := e.S.tab(name)
	if t == nil {
		e.fail("table %q does not exist", name)
	}
	needCol := func() *Col {
		n := e.ident()
		c := t.col(n)
		if c == nil {
			e.fail("column %q of %q does not exist", n, name)
		}
		e.touch("column %s.%s", name, n)
		return c
	}
	switch {
	case e.accept("RENAME", "TO"):
		nn := e.ident()
		if e.relationExists(nn) {
			e.fail("relation %q already exists", nn)
		}
		for _, o := range e.S.Tabs {
			for _, c := range o.Cons {
				if c.RefTable == name {
					c.RefTable = nn
				}
			}
		}
		for _, ix := range e.S.Idxs {
			if ix.Table == name {
				ix.Table = nn
			}
		}
		t.Name = nn
		e.touch("table %s", name)
	case e.accept("ADD", "COLUMN"):
		n := e.peek().val
		if t.col(n) != nil {
			e.fail("column %q of %q already exists", n, name)
		}
		e.column(t)
		c := t.Cols[len(t.Cols)-1]
		e.checkColAs(t, c)
		for _, k := range t.Cons {
			e.checkCon(t, k)
		}
		e.touch("column %s.%s", name, c.Name)
	case e.accept("DROP", "COLUMN"):
		c := needCol()
		e.dropColumn(t, c)
	case e.dialect == MY && e.accept("MODIFY"):
		e.accept("COLUMN")
		c := needCol()
		n := &Col{Name: c.Name, ID: c.ID}
		n.Type = e.typeText()
		from := e.pos
		e.columnAttrs(t, n, false)
		if e.inPK(t, c) && !n.NotNull {
			for i := from; i < e.pos; i++ {
				if e.toks[i].kind == tWord && e.toks[i].up() == "NULL" && e.toks[i-1].up() != "DEFAULT" {
					e.fail("column %q is in a primary key: it cannot be NULL", c.Name)
				}
			}
		}
		*c = *n
		e.impliedNotNull(t)
	case e.dialect == MY && e.is("ALTER") && e.peekAt(1).up() != "COLUMN" || e.is("ALTER", "COLUMN"):
		e.expect("ALTER")
		e.accept("COLUMN")
		c := needCol()
		e.alterColumn(t, c)
	case e.accept("ADD", "ROW", "DELETION", "POLICY"):
		if t.Options["ROW DELETION POLICY"] != "" {
			e.fail("%q already has a row deletion policy", name)
		}
		if t.Options == nil {
			t.Options = map[string]string{}
		}
		t.Options["ROW DELETION POLICY"] = e.policy(t)
		e.touch("policy %s", name)
	case e.accept("REPLACE", "ROW", "DELETION", "POLICY"):
		if t.Options["ROW DELETION POLICY"] == "" {
			e.fail("%q has no row deletion policy", name)
		}
		t.Options["ROW DELETION POLICY"] = e.policy(t)
		e.touch("policy %s", name)
	case e.accept("DROP", "ROW", "DELETION", "POLICY"):
		if t.Options["ROW DELETION POLICY"] == "" {
			e.fail("%q has no row deletion policy", name)
		}
		delete(t.Options, "ROW DELETION POLICY")
		e.touch("policy %s", name)
	case e.accept("ADD"):
		c := e.constraint(t)
		e.checkCon(t, c)
		e.addCon(t, c)
		if e.accept("NOT", "VALID") && e.dialect != PG && e.dialect != CR {
			e.fail("NOT VALID is not %s", e.dialect)
		}
		e.touch("constraint %s.%s", name, c.Name)
	case e.accept("DROP", "PRIMARY", "KEY"):
		k := t.pk()
		if k == nil || e.dialect != MY {
			e.fail("no primary key on %q", name)
		}
		e.removeCon(t, k)
	case e.accept("DROP", "CONSTRAINT"):
		n := e.conIdent()
		k := t.con(n)
		if k == nil {
			e.fail("constraint %q of %q does not exist", n, name)
		}
		e.removeCon(t, k)
	default:
		if e.dialect == MY {
			e.mysqlOption(t, true)
			return
		}
		e.fail("unknown ALTER action %q", e.peek().text)
	}
}

func (e *Engine) removeCon(t *Tab, k *Con) {
	if i := e.needed[t.Name+"\x00"+k.Name]; i != "" && !mysqlCovered(e.S, t, k) {
		e.fail("index %q was dropped before foreign key %q of %q, which needs it", i, k.Name, t.Name)
	}
	for i, x := range t.Cons {
		if x == k {
			t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
		}
	}
	e.touch("constraint %s.%s", t.Name, k.Name)
}

func (e *Engine) alterColumn(t *Tab, c *Col) {
	switch {
	case (e.dialect == PG || e.dialect == CR) && (e.accept("SET", "DATA", "TYPE") || e.accept("TYPE")):
		c.Type = e.typeText()
	case e.accept("SET", "DEFAULT"):
		c.Default = canonExpr(e.defaultExpr())
	case e.accept("DROP", "DEFAULT"):
		c.Default = ""
	case (e.dialect == PG || e.dialect == CR) && e.accept("SET", "NOT", "NULL"):
		c.NotNull = true
	case (e.dialect == PG || e.dialect == CR) && e.accept("DROP", "NOT", "NULL"):
		if e.inPK(t, c) {
			e.fail("column %q is in a primary key", c.Name)
		}
		c.NotNull = false
	case e.dialect == CR && e.accept("SET", "NOT", "VISIBLE"):
		c.NotVisible = true
	case e.dialect == CR && e.accept("SET", "VISIBLE"):
		c.NotVisible = false
	case e.dialect == SP && e.accept("SET", "OPTIONS"):
		c.Options = canonExpr(e.exprRaw())
	case e.dialect == SP && e.accept("DROP", "OPTIONS"):
		c.Options = ""
	case e.dialect == SP:
		c.Type = e.typeText()
		c.NotNull = e.accept("NOT", "NULL")
	default:
		e.fail("unknown ALTER COLUMN action %q", e.peek().text)
	}
}

func contains(l []string, n string) bool {
	for _, x := range l {
		if colOf(x) == n {
			return true
		}
	}
	return false
}

func (e *Engine) dropColumn(t *Tab, c *Col) {
	if len(t.Cols) == 1 && (e.dialect == MY || e.dialect == SP) {
		e.fail("cannot drop the only column of %q", t.Name)
	}
	for _, o := range e.S.Tabs {
		for _, k := range o.Cons {
			if k.Kind == KFK && k.RefTable == t.Name && contains(k.RefCols, c.Name) && !(o == t && e.dialect != SP && contains(k.Cols, c.Name)) {
				e.fail("cannot drop column %q of %q: constraint %q on %q refers to it", c.Name, t.Name, k.Name, o.Name)
			}
		}
	}
	for _, o := range t.Cols {
		if o != c && o.As != "" && contains(exprCols(e.dialect, o.As), c.Name) {
			e.fail("cannot drop column %q of %q: computed column %q refers to it", c.Name, t.Name, o.Name)
		}
	}
	if p := t.Options["ROW DELETION POLICY"]; p != "" && contains(exprCols(e.dialect, p), c.Name) {
		e.fail("cannot drop column %q of %q: the row deletion policy uses it", c.Name, t.Name)
	}
	var cons []*Con
	for _, k := range t.Cons {
		uses := contains(k.Cols, c.Name) || k.Kind == KCheck && contains(exprCols(e.dialect, k.Expr), c.Name)
		if !uses {
			cons = append(cons, k)
			continue
		}
		switch e.dialect {
		case SP:
			e.fail("cannot drop column %q of %q: constraint %q uses it", c.Name, t.Name, k.Name)
		case MY:
			if k.Kind == KFK || k.Kind == KCheck && !onlyCol(exprCols(e.dialect, k.Expr), c.Name) {
				e.fail("cannot drop column %q of %q: constraint %q uses it", c.Name, t.Name, k.Name)
			}
			if k.Kind == KPK {
				k.Cols = without(k.Cols, c.Name)
				if len(k.Cols) > 0 {
					cons = append(cons, k)
				}
			}
		case CR:
			if k.Kind == KPK {
				e.fail("cannot drop column %q of %q: it is part of the primary key", c.Name, t.Name)
			}
		}
	}
	t.Cons = cons
	var idxs []*Idx
	for _, ix := range e.S.Idxs {
		if ix.Table != t.Name || !contains(ix.Cols, c.Name) {
			idxs = append(idxs, ix)
			continue
		}
		switch e.dialect {
		case SP:
			e.fail("cannot drop column %q of %q: index %q uses it", c.Name, t.Name, ix.Name)
		case MY:
			ix.Cols = without(ix.Cols, c.Name)
			if len(ix.Cols) > 0 {
				idxs = append(idxs, ix)
			}
		}
	}
	e.S.Idxs = idxs
	for i, x := range t.Cols {
		if x == c {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			break
		}
	}
}

func onlyCol(l []string, n string) bool {
	for _, x := range l {
		if x != n {
			return false
		}
	}
	return true
}

func without(l []string, n string) []string {
	var out []string
	for _, x := range l {
		if colOf(x) != n {
			out = append(out, x)
		}
	}
	return out
}
