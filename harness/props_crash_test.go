package zzverif

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// C01: any text ends in a schema or an error.

var dialectWords = map[string][]string{
	PG: strings.Fields(`CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK DEFAULT NOT NULL ON DELETE UPDATE CASCADE NO ACTION IF EXISTS USING btree gin INTEGER TEXT VARCHAR CHARACTER VARYING TIMESTAMP WITH TIME ZONE DOUBLE PRECISION NUMERIC BOOLEAN SERIAL UUID JSONB ASC DESC ALTER DROP ADD COLUMN RENAME TO SET TYPE DATA CURRENT_TIMESTAMP TRUE FALSE AND OR IN`),
	CR: strings.Fields(`CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK DEFAULT NOT NULL VISIBLE AS VIRTUAL STORED ON DELETE UPDATE CASCADE NO ACTION IF EXISTS USING HASH WITH bucket_count INT8 STRING BOOL UUID TIMESTAMPTZ DECIMAL CHARACTER VARYING DOUBLE PRECISION TIMESTAMP TIME ZONE ASC DESC ALTER DROP ADD COLUMN RENAME TO SET TYPE FAMILY CURRENT_TIMESTAMP`),
	MY: strings.Fields("CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK DEFAULT NOT NULL AUTO_INCREMENT COMMENT CHARSET CHARACTER SET COLLATE ENGINE ON DELETE UPDATE CASCADE NO ACTION IF EXISTS INTEGER VARCHAR TINYINT BOOLEAN ENUM DATETIME TIMESTAMP DECIMAL DOUBLE PRECISION UNSIGNED ASC DESC ALTER DROP ADD COLUMN CURRENT_TIMESTAMP TRUE FALSE BIT JSON"),
	SP: strings.Fields("CREATE TABLE INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK DEFAULT NOT NULL INTERLEAVE IN PARENT ON DELETE CASCADE NO ACTION ROW DELETION POLICY OLDER_THAN INTERVAL DAY OPTIONS allow_commit_timestamp INT64 STRING MAX BOOL BYTES TIMESTAMP NUMERIC FLOAT64 JSON ARRAY ASC DESC ALTER DROP ADD COLUMN IF EXISTS true false null CURRENT_TIMESTAMP AS STORED"),
}

var soupBits = []string{"(", ")", "(", ")", ",", ",", ";", ";\n", "'", "\"", "`", "''", "'a'", "\"q\"", "`q`", "\\", "\\'", "--", "-- c\n", "/*", "*/", "\n", "\t", "\x00", "\xff", "é", "=", "<", ">", "<=", "!=", "::", ":::", "||", "-", "+", "*", "/", ".", "..", "@", "#", "0", "1", "36", "1.5", "id", "t", "users", "a.b", "_", "$1", "[", "]", "{", "}", "|", ":", "&", "%", "?", "~", "!"}

func (g *G) soup(n int) string {
	var b strings.Builder
	words := dialectWords[g.d]
	for i := 0; i < n; i++ {
		if g.p(60) {
			w := words[g.n(0, len(words)-1)]
			if g.p(20) {
				w = strings.ToLower(w)
			}
			b.WriteString(w)
		} else {
			b.WriteString(soupBits[g.n(0, len(soupBits)-1)])
		}
		if g.p(85) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// roughTokens splits a text into words, quotes and single characters, losing
// nothing.
func roughTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		if isWordByte(s[i]) {
			for j < len(s) && isWordByte(s[j]) {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// damage makes k changes to a text at the level of tokens and bytes.
func (g *G) damage(s string, k int) string {
	for ; k > 0; k-- {
		toks := roughTokens(s)
		if len(toks) == 0 {
			return g.soup(3)
		}
		i := g.n(0, len(toks)-1)
		switch g.n(0, 9) {
		case 0, 1: // delete
			j := min(len(toks), i+1+g.n(0, 2))
			toks = append(toks[:i:i], toks[j:]...)
		case 2: // duplicate
			j := min(len(toks), i+1+g.n(0, 5))
			toks = append(toks[:j:j], append(append([]string(nil), toks[i:j]...), toks[j:]...)...)
		case 3: // swap
			j := g.n(0, len(toks)-1)
			toks[i], toks[j] = toks[j], toks[i]
		case 4, 5: // insert
			toks = append(toks[:i:i], append([]string{g.soup(1)}, toks[i:]...)...)
		case 6, 7: // replace
			toks[i] = g.soup(1)
		case 8: // cut off
			toks = toks[:i]
		case 9: // a byte
			b := []byte(toks[i])
			b[g.n(0, len(b)-1)] = byte(g.n(0, 255))
			toks[i] = string(b)
		}
		s = strings.Join(toks, "")
	}
	return s
}

func checkNoCrash(in *Input) *Result {
	text := string(in.Raw)
	d, err := toolParse(in.Dialect, text)
	res := &Result{Nontrivial: len(strings.TrimSpace(text)) > 3}
	if err != nil {
		if err.Error() == "" {
			return failf("an error without a message for %q", text)
		}
		res.Classes = append(res.Classes, "error")
		return res
	}
	res.Classes = append(res.Classes, "schema")
	printed := d.String()
	_ = fmt.Sprintf("%#v", d)
	nothing := emptyDDL(in.Dialect)
	other := otherDDL(in.Dialect)
	for _, p := range [][2]DDL{{d, d}, {nothing, d}, {d, nothing}, {other, d}, {d, other}, {nilDDL(in.Dialect), d}, {d, nilDDL(in.Dialect)}} {
		out, same, err := toolDiff(in.Dialect, p[0], p[1])
		if err == nil && !same && out == "" && printed != "" {
			return failf("a difference without any statement\n%q", text)
		}
	}
	if _, same, err := toolDiff(in.Dialect, d, d); err != nil || !same {
		return failf("the schema differs from itself: %v\n%q", err, text)
	}
	_, _ = toolParse(in.Dialect, printed)
	return res
}

var others sync.Map

// otherDDL is a fixed schema to compare with.
func otherDDL(d string) DDL {
	if x, ok := others.Load(d); ok {
		return x.(DDL)
	}
	text := map[string]string{
		PG: "CREATE TABLE users (id INTEGER PRIMARY KEY, t TEXT NOT NULL DEFAULT 'a', CONSTRAINT k CHECK (id > 0)); CREATE INDEX i ON users (t);",
		CR: "CREATE TABLE users (id INT8 PRIMARY KEY, t STRING NOT NULL DEFAULT 'a', CONSTRAINT k CHECK (id > 0)); CREATE INDEX i ON users (t);",
		MY: "CREATE TABLE users (id INTEGER PRIMARY KEY, t VARCHAR(9) NOT NULL DEFAULT 'a', CONSTRAINT k CHECK (id > 0)) ENGINE=InnoDB COMMENT='c'; CREATE INDEX i ON users (t);",
		SP: "CREATE TABLE users (id INT64, t STRING(MAX) NOT NULL DEFAULT ('a'), CONSTRAINT k CHECK (id > 0)) PRIMARY KEY (id); CREATE INDEX i ON users (t);",
	}[d]
	x, err := toolParse(d, text)
	if err != nil {
		// reported by other properties; here any schema will do
		return emptyDDL(d)
	}
	others.Store(d, x)
	return x
}

func init() {
	perDialect(func(d string) {
		register(&Sub{
			Prop: "C01", Name: "bytes_" + d, Quick: 6000, Thorough: 400000,
			Rule: "random bytes and random Unicode text up to 200 characters; non-trivial: more than blanks",
			Gen: func(t *rapid.T) *Input {
				if rapid.Bool().Draw(t, "unicode") {
					return &Input{Dialect: d, Raw: []byte(rapid.StringN(0, 100, -1).Draw(t, "text"))}
				}
				return &Input{Dialect: d, Raw: rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw")}
			},
			Check: checkNoCrash,
		})
		register(&Sub{
			Prop: "C01", Name: "tokens_" + d, Quick: 12000, Thorough: 800000,
			Rule: "random sequences of keywords, quotes, operators and punctuation, often after a plausible beginning; non-trivial: more than blanks",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				pre := g.pick([]string{"", "", "CREATE TABLE t (", "CREATE TABLE t (id ", "CREATE TABLE t (id INT64, ", "CREATE TABLE t (id INTEGER NOT NULL DEFAULT ", "CREATE INDEX i ON t (", "CREATE UNIQUE INDEX ", "CREATE TABLE t (id INT64) PRIMARY KEY (id), ", "CREATE TABLE t (id INTEGER, CONSTRAINT ", "CREATE TABLE t (id INTEGER, CHECK (", "CREATE TABLE t (id INTEGER REFERENCES ", "CREATE TABLE t (id INTEGER) "})
				post := g.pick([]string{"", "", ");", ";", "))", ") PRIMARY KEY (id);"})
				return &Input{Dialect: d, Raw: []byte(pre + g.soup(g.n(1, 25)) + post)}
			},
			Check: checkNoCrash,
		})
		register(&Sub{
			Prop: "C01", Name: "damaged_" + d, Quick: 16000, Thorough: 1000000,
			Rule: "valid DDL with 1 to 4 tokens or bytes deleted, repeated, swapped, inserted, replaced or cut off; non-trivial: more than blanks",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				g.Size = 2
				s := g.schema()
				var text string
				if g.p(50) {
					text = plainText(s)
				} else {
					text = g.sqlText(s)
				}
				return &Input{Dialect: d, Raw: []byte(g.damage(text, max(1, g.n(-3, 4))))}
			},
			Check: checkNoCrash,
		})
		register(&Sub{
			Prop: "C01", Name: "large_" + d, Quick: 40, Thorough: 800,
			Rule: "very long or deeply nested texts (up to 100 kB); all non-trivial",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				n := g.n(1, 50000)
				unit := g.pick([]string{"(", "((a ", "'", "''", "\"a\"", "-", "--\n", "CREATE ", "a,", "(a,(", ")", "a ", ";", "-- x\n", "\\", "\x00", "' '", "é", "CHECK (", "DEFAULT (", "1", "a.", "::", "CREATE TABLE t (a INTEGER);\n", "CREATE INDEX i ON t (a);"})
				for n*len(unit) > 100000 {
					n /= 2
				}
				if strings.ContainsAny(unit, "(") {
					n = min(n, 1500) // an error in a nest of n parentheses is n wrapped messages long
				}
				if strings.HasPrefix(unit, "CREATE ") && len(unit) > 10 {
					n = min(n, 300) // the comparison is quadratic in the number of statements
				}
				pre := g.pick([]string{"", "CREATE TABLE t (a INTEGER, b TEXT DEFAULT ", "CREATE TABLE t (a INT64 NOT NULL, CONSTRAINT k CHECK (", "CREATE TABLE t (", "CREATE INDEX i ON t (", "CREATE TABLE "})
				post := g.pick([]string{"", ")", "));", ") PRIMARY KEY (a);", strings.Repeat(")", n) + ";", strings.Repeat(")", n) + ");"})
				return &Input{Dialect: d, Raw: []byte(pre + strings.Repeat(unit, n) + post)}
			},
			Check: func(in *Input) *Result {
				r := checkNoCrash(in)
				r.Nontrivial = true
				return r
			},
		})
	})
}

// C02 on texts nobody would write: whatever is accepted prints as something
// that reads back alike.
// colonRun matches operators of colons in a row ("::" next to ":"): no dialect
// has an expression with them, and printing would have to keep white space.
var colonRun = regexp.MustCompile(`:\s+:|::::`)

func checkReprintAny(in *Input) *Result {
	if colonRun.Match(in.Raw) {
		return &Result{Excluded: "colons in a row: not an expression of any dialect"}
	}
	text := string(in.Raw)
	d, err := toolParse(in.Dialect, text)
	if err != nil {
		return &Result{Classes: []string{"error"}}
	}
	printed := d.String()
	d2, err := toolParse(in.Dialect, printed)
	if err != nil {
		return failf("what is printed is not accepted: %v\ntext:\n%s\nprinted:\n%s", err, text, printed)
	}
	if again := d2.String(); again != printed {
		return failf("printing again gives another text\ntext:\n%s\nprinted:\n%s\nagain:\n%s", text, printed, again)
	}
	for _, p := range [][2]DDL{{d, d2}, {d2, d}} {
		if out, same, err := toolDiff(in.Dialect, p[0], p[1]); err != nil || !same {
			return failf("the re-read schema differs: %v\ntext:\n%s\nprinted:\n%s\ndifference:\n%s", err, text, printed, out)
		}
	}
	return &Result{Nontrivial: len(printed) > 20, Classes: []string{"schema"}}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{
			Prop: "C02", Name: "damaged_" + d, Quick: 16000, Thorough: 1000000,
			Rule: "valid DDL with 1 to 4 tokens or bytes deleted, repeated, swapped, inserted, replaced or cut off; non-trivial: accepted and not empty",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				g.Size = 2
				s := g.schema()
				var text string
				if g.p(50) {
					text = plainText(s)
				} else {
					text = g.sqlText(s)
				}
				return &Input{Dialect: d, Raw: []byte(g.damage(text, max(1, g.n(-3, 4))))}
			},
			Check: checkReprintAny,
		})
	})
}
