package zzverif

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
)

type tokKind int

const (
	tWord   tokKind = iota // keyword, identifier, number
	tQIdent                // quoted identifier
	tString                // string literal
	tOp
	tEOF
)

// sqlTok is a token of the independent SQL reader.
type sqlTok struct {
	kind  tokKind
	text  string // raw text
	val   string // identifier without quotes, or raw text
	start int
	end   int
}

func (t sqlTok) up() string {
	if t.kind == tWord {
		return strings.ToUpper(t.text)
	}
	if t.kind == tOp {
		return t.text
	}
	return ""
}

var sqlOps = map[string][]string{
	PG: {"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "<->", "<<=", ">>=", "::", "||", "<=", ">=", "<>", "!=", "->", "#>", "@>", "<@", "@@", "@?", "!~", "~*", "~~", "&&", "<<", ">>", "?|", "?&"},
	CR: {":::", "->>", "#>>", "!~*", "<<=", ">>=", "::", "||", "<=", ">=", "<>", "!=", "->", "#>", "@>", "<@", "@@", "!~", "~*", "&&", "<<", ">>", "?|", "?&", "//"},
	MY: {"->>", "<=>", "||", "<=", ">=", "<>", "!=", "->", "&&", "<<", ">>", ":="},
	SP: {"||", "<=", ">=", "<>", "!=", "<<", ">>"},
}

// litPrefixes are the words that are a part of the string literal right behind them.
var litPrefixes = map[string][]string{
	PG: {"E", "B", "X", "N"}, CR: {"E", "B", "X"}, MY: {"B", "X", "N"}, SP: {"B", "R", "BR", "RB"},
}

var (
	expHead = regexp.MustCompile(`^([0-9]+\.?[0-9]*|\.[0-9]+)[eE]$`)
	expTail = regexp.MustCompile(`^[-+][0-9]`)
)

func isWordByte(c byte) bool {
	return c == '_' || c == '.' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// tokenizeSQL splits SQL text as the database would.
func tokenizeSQL(dialect, s string) ([]sqlTok, error) {
	var out []sqlTok
	// join makes one token of the parts of a qualified name: public."users"
	join := func(l []sqlTok) []sqlTok {
		n := len(l)
		if n < 2 {
			return l
		}
		a, b := l[n-2], l[n-1]
		ident := func(t sqlTok) bool { return t.kind == tWord || t.kind == tQIdent }
		if !ident(a) || !ident(b) || a.kind == b.kind && a.kind == tWord || a.end != b.start {
			return l
		}
		if a.kind == tWord && strings.HasSuffix(a.text, ".") || b.kind == tWord && strings.HasPrefix(b.text, ".") || strings.HasSuffix(a.text, ".") {
			l[n-2] = sqlTok{tQIdent, a.text + b.text, a.val + b.val, a.start, b.end}
			return l[:n-1]
		}
		return l
	}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '`' && (dialect == PG || dialect == CR):
			return nil, fmt.Errorf("a backquote at byte %d", i)
		case c == '\'' || c == '"' || c == '`':
			st := i
			bs := dialect == SP || (dialect == MY && c != '`') // backslash escapes
			pre := ""
			if n := len(out); n > 0 && out[n-1].kind == tWord && out[n-1].end == i && (c == '\'' || c == '"' && dialect == SP) && slices.Contains(litPrefixes[dialect], strings.ToUpper(out[n-1].text)) {
				pre = out[n-1].text
				out = out[:n-1]
				bs = bs || strings.EqualFold(pre, "E") || strings.EqualFold(pre, "B")
			}
			if dialect == SP && c == '`' {
				bs = true
			}
			i++
			var val strings.Builder
			closed := false
			for i < len(s) {
				if bs && s[i] == '\\' && i+1 < len(s) {
					val.WriteByte(s[i])
					val.WriteByte(s[i+1])
					i += 2
					continue
				}
				if s[i] == c {
					if dialect != SP && i+1 < len(s) && s[i+1] == c {
						val.WriteByte(c)
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				val.WriteByte(s[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated quote at byte %d", st)
			}
			k := tString
			if c == '`' || c == '"' && (dialect == PG || dialect == CR) {
				k = tQIdent
			}
			st -= len(pre)
			v := s[st:i]
			if k == tQIdent {
				v = val.String()
			}
			out = join(append(out, sqlTok{k, s[st:i], v, st, i}))
		case isWordByte(c):
			st := i
			for i < len(s) && isWordByte(s[i]) {
				i++
			}
			if expHead.MatchString(s[st:i]) && expTail.MatchString(s[i:]) { // 1e-5
				for i++; i < len(s) && isWordByte(s[i]); i++ {
				}
			}
			out = join(append(out, sqlTok{tWord, s[st:i], s[st:i], st, i}))
		default:
			n := 1
			for _, op := range sqlOps[dialect] {
				if strings.HasPrefix(s[i:], op) {
					n = len(op)
					break
				}
			}
			out = append(out, sqlTok{tOp, s[i : i+n], s[i : i+n], i, i + n})
			i += n
		}
	}
	return out, nil
}

// splitSQL splits a script into statements (without the semicolons).
func splitSQL(dialect, s string) ([][]sqlTok, error) {
	toks, err := tokenizeSQL(dialect, s)
	if err != nil {
		return nil, err
	}
	var out [][]sqlTok
	var cur []sqlTok
	for _, t := range toks {
		if t.kind == tOp && t.text == ";" {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out, nil
}

var exprKeywords = map[string]bool{
	"NULL": true, "TRUE": true, "FALSE": true, "AND": true, "OR": true, "NOT": true, "IN": true, "IS": true,
	"LIKE": true, "BETWEEN": true, "CURRENT_TIMESTAMP": true, "INTERVAL": true, "DAY": true, "CASE": true,
	"WHEN": true, "THEN": true, "ELSE": true, "END": true,
}

// canonExpr renders expression tokens canonically: one space between tokens,
// keywords in upper case, identifiers without quotes, literals untouched.
func canonExpr(toks []sqlTok) string {
	parts := make([]string, 0, len(toks))
	for _, t := range toks {
		switch {
		case t.kind == tWord && (exprKeywords[t.up()] || typeWords[t.up()]):
			parts = append(parts, t.up())
		case t.kind == tQIdent && mustQuote(t.val):
			parts = append(parts, t.text)
		default:
			parts = append(parts, t.val)
		}
	}
	return strings.Join(parts, " ")
}

var typeWords = map[string]bool{
	"BOOLEAN": true, "BOOL": true, "SMALLINT": true, "INTEGER": true, "INT": true, "BIGINT": true, "INT2": true, "INT4": true, "INT8": true,
	"DECIMAL": true, "NUMERIC": true, "REAL": true, "DOUBLE": true, "PRECISION": true, "FLOAT4": true, "FLOAT8": true,
	"UUID": true, "JSONB": true, "JSON": true, "CHARACTER": true, "VARYING": true, "VARCHAR": true, "TEXT": true, "STRING": true,
	"TIMESTAMP": true, "TIMESTAMPTZ": true, "WITH": true, "TIME": true, "ZONE": true, "INT64": true, "FLOAT64": true,
}

func mustCanonExpr(dialect, s string) string {
	toks, err := tokenizeSQL(dialect, s)
	if err != nil {
		panic(err)
	}
	return canonExpr(toks)
}
