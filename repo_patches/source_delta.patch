From 1860fe9c94a79e96aad7cb91b62f2b513d205c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 01/62] fix: lex unterminated quotes, escaped quotes and NUL
 bytes without losing text

---
 pkg/ddl/cockroachdb/lexar.go  | 26 +++++++++++++++++++-------
 pkg/ddl/cockroachdb/parser.go |  4 ++--
 pkg/ddl/mysql/lexar.go        | 28 +++++++++++++++++++++-------
 pkg/ddl/mysql/parser.go       |  4 ++--
 pkg/ddl/postgres/lexar.go     | 26 +++++++++++++++++++-------
 pkg/ddl/postgres/parser.go    |  4 ++--
 pkg/ddl/spanner/lexar.go      | 26 +++++++++++++++++++-------
 pkg/ddl/spanner/parser.go     |  4 ++--
 8 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..d4f59fb 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, terminated := l.readQuotedLiteral(l.ch)
+		if !terminated {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -370,6 +374,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// NUL in the input is not the end of the input
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -387,16 +396,19 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		switch {
+		case l.position >= len(l.input):
+			return l.input[position:], false
+		case l.ch == quote && l.peekChar() == quote: // escaped quote
+			l.readChar()
+		case l.ch == quote:
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -438,7 +450,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..03c86fe 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -22,9 +22,9 @@ var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..2618119 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, terminated := l.readQuotedLiteral(l.ch)
+		if !terminated {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -394,6 +398,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// NUL in the input is not the end of the input
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -411,16 +420,21 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		switch {
+		case l.position >= len(l.input):
+			return l.input[position:], false
+		case l.ch == '\\' && quote != '`': // escape sequence
+			l.readChar()
+		case l.ch == quote && l.peekChar() == quote: // escaped quote
+			l.readChar()
+		case l.ch == quote:
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -462,7 +476,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..e3c32c1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -21,9 +21,9 @@ var quotationMarks = []string{`"`, "`", "'"}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..0100ed2 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, terminated := l.readQuotedLiteral(l.ch)
+		if !terminated {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -344,6 +348,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// NUL in the input is not the end of the input
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -361,16 +370,19 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		switch {
+		case l.position >= len(l.input):
+			return l.input[position:], false
+		case l.ch == quote && l.peekChar() == quote: // escaped quote
+			l.readChar()
+		case l.ch == quote:
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -412,7 +424,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..fc15b31 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -22,9 +22,9 @@ var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..5776c2f 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, terminated := l.readQuotedLiteral(l.ch)
+		if !terminated {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -350,6 +354,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// NUL in the input is not the end of the input
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -367,16 +376,19 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		switch {
+		case l.position >= len(l.input):
+			return l.input[position:], false
+		case l.ch == '\\': // escape sequence
+			l.readChar()
+		case l.ch == quote:
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -418,7 +430,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..53439f4 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -21,9 +21,9 @@ var quotationMarks = []string{`"`, "`", "'"}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From 3b3e2d4ac74d88b02026f2fd43c844f10d810d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 02/62] fix: keep NULL, REFERENCES, CHECK and table-level CHECK
 of a column list when parsing (postgres, cockroachdb)

---
 pkg/ddl/cockroachdb/parser.go | 34 +++++++++++++++++++++++++++++-----
 pkg/ddl/postgres/parser.go    | 28 +++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 03c86fe..592b521 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -270,7 +270,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -358,8 +357,15 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	operand := true // whether an operand comes next
+
 LabelDefault:
 	for {
+		if !operand && p.isCurrentToken(TOKEN_NULL) {
+			break LabelDefault // NULL is not a part of the default value but a column attribute
+		}
+		operand = isOperator(p.currentToken.Type)
+
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
@@ -384,7 +390,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -432,7 +438,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -468,7 +474,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_OPEN_PAREN, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
@@ -581,9 +587,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = next token of CASCADE or ACTION
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +612,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
@@ -694,6 +703,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = next token of CASCADE or ACTION
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
@@ -711,6 +721,21 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			OnAction:   onAction,
 		}, nil
 
+	case TOKEN_CHECK:
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	case TOKEN_UNIQUE, TOKEN_INDEX: //diff:ignore-line-postgres-cockroach
 		c := &IndexConstraint{}             //diff:ignore-line-postgres-cockroach
 		if p.isCurrentToken(TOKEN_UNIQUE) { //diff:ignore-line-postgres-cockroach
@@ -741,7 +766,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index fc15b31..15cc6ba 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -331,8 +331,15 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	operand := true // whether an operand comes next
+
 LabelDefault:
 	for {
+		if !operand && p.isCurrentToken(TOKEN_NULL) {
+			break LabelDefault // NULL is not a part of the default value but a column attribute
+		}
+		operand = isOperator(p.currentToken.Type)
+
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
@@ -357,7 +364,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -474,9 +481,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = next token of CASCADE or ACTION
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +505,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
@@ -586,6 +596,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = next token of CASCADE or ACTION
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
@@ -603,6 +614,21 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			OnAction:   onAction,
 		}, nil
 
+	case TOKEN_CHECK:
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	case TOKEN_UNIQUE: //diff:ignore-line-postgres-cockroach
 		c := &UniqueConstraint{} //diff:ignore-line-postgres-cockroach
 		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
-- 
2.43.0


From f41f15532c0adaeeff8d6098af5eaf4ea9f1b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 03/62] fix: lex operators of two or more characters as one
 token

---
 pkg/ddl/cockroachdb/lexar.go  | 23 +++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go |  2 +-
 pkg/ddl/mysql/lexar.go        | 23 +++++++++++++++++++++++
 pkg/ddl/postgres/lexar.go     | 23 +++++++++++++++++++++++
 pkg/ddl/postgres/parser.go    |  2 +-
 pkg/ddl/spanner/lexar.go      | 23 +++++++++++++++++++++++
 6 files changed, 94 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index d4f59fb..5e1424e 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != and other operators of two or more characters
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
 	// VERB.
@@ -322,6 +323,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -395,6 +400,24 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子です。長いものから順に並べます。
+//
+//nolint:gochecknoglobals
+var operators = []string{"->>", "#>>", "!~*", "->", "#>", "@>", "<@", "!~", "~*", "!=", "&&", "<<", ">>", "?|", "?&", "//"}
+
+// readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
+func (l *Lexer) readOperator() string {
+	for _, operator := range operators {
+		if l.position < len(l.input) && strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 592b521..3895cf6 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -891,7 +891,7 @@ func isOperator(tokenType TokenType) bool {
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
 		TOKEN_TYPE_ANNOTATION, //diff:ignore-line-postgres-cockroach
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 2618119..2e8da7f 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != and other operators of two or more characters
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // :::
 
 	// VERB.
@@ -345,6 +346,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -419,6 +424,24 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子です。長いものから順に並べます。
+//
+//nolint:gochecknoglobals
+var operators = []string{"->>", "<=>", "->", "||", "&&", "!=", "<<", ">>", ":="}
+
+// readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
+func (l *Lexer) readOperator() string {
+	for _, operator := range operators {
+		if l.position < len(l.input) && strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 0100ed2..3c14b9a 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH         TokenType = "SLASH"         // /
 	TOKEN_STRING_CONCAT TokenType = "STRING_CONCAT" //nolint:gosec // ||
 	TOKEN_TYPECAST      TokenType = "TYPECAST"      // ::
+	TOKEN_OPERATOR      TokenType = "OPERATOR"      // != and other operators of two or more characters
 
 	// VERB.
 	TOKEN_CREATE   TokenType = "CREATE"
@@ -301,6 +302,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -369,6 +374,24 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子です。長いものから順に並べます。
+//
+//nolint:gochecknoglobals
+var operators = []string{"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "->", "#>", "@>", "<@", "!~", "~*", "~~", "!=", "&&", "<<", ">>", "?|", "?&"}
+
+// readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
+func (l *Lexer) readOperator() string {
+	for _, operator := range operators {
+		if l.position < len(l.input) && strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 15cc6ba..c88d383 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -766,7 +766,7 @@ func isOperator(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 5776c2f..c1fbe84 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != and other operators of two or more characters
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
 	// VERB.
@@ -301,6 +302,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -375,6 +380,24 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子です。長いものから順に並べます。
+//
+//nolint:gochecknoglobals
+var operators = []string{"||", "!=", "<<", ">>"}
+
+// readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
+func (l *Lexer) readOperator() string {
+	for _, operator := range operators {
+		if l.position < len(l.input) && strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
-- 
2.43.0


From 522b945c8006220150d59eab533408ab8db2bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 04/62] fix: keep foreign key actions (mysql) and compare them
 ignoring case

---
 pkg/ddl/cockroachdb/ddl_table.go | 2 +-
 pkg/ddl/mysql/ddl_table.go       | 6 ++++++
 pkg/ddl/mysql/parser.go          | 4 +++-
 pkg/ddl/postgres/ddl_table.go    | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..1075a36 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -132,7 +132,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..e31aaae 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + strings.ToUpper(c.OnAction)
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index e3c32c1..9641cf8 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,11 +566,12 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +592,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..c81dfd2 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -120,7 +120,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
-- 
2.43.0


From 05a5612f5a33af000b31f6a847e619de82876fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 05/62] fix: name implicit constraints after their columns and
 tables only (cockroachdb, mysql, spanner)

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/spanner/parser.go     | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 3895cf6..d346c96 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -708,7 +708,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 9641cf8..1d192f3 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -683,7 +683,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 53439f4..3ea38fe 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +610,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
@@ -664,7 +666,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
@@ -687,6 +689,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From 2d6bd8c9d3485b934edc3976d0fa9dd45c338ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 06/62] fix: do not merge constraints without a name into one

---
 pkg/ddl/cockroachdb/ddl_table.go | 19 +++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    | 12 ++++++------
 pkg/ddl/mysql/ddl_table.go       | 19 +++++++++++++++++++
 pkg/ddl/mysql/parser.go          | 12 ++++++------
 pkg/ddl/postgres/ddl_table.go    | 19 +++++++++++++++++++
 pkg/ddl/postgres/parser.go       | 14 +++++++-------
 pkg/ddl/spanner/ddl_table.go     | 19 +++++++++++++++++++
 pkg/ddl/spanner/parser.go        | 12 ++++++------
 8 files changed, 101 insertions(+), 25 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 1075a36..1147977 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"sort" //diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
+func (constraints Constraints) newName(name string) *Ident {
+	ident := NewRawIdent(name)
+	for i := 1; constraints.hasName(ident.Name); i++ {
+		ident = NewRawIdent(name + strconv.Itoa(i))
+	}
+	return ident
+}
+
+func (constraints Constraints) hasName(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index d346c96..7a4d598 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -556,7 +556,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.newName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -604,7 +604,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.newName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -626,7 +626,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -711,7 +711,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.newName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -731,7 +731,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.newName(tableName.StringForDiff() + "_check")
 		}
 		constraint := &CheckConstraint{Name: constraintName}
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index e31aaae..564f4cb 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"sort"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
+func (constraints Constraints) newName(name string) *Ident {
+	ident := NewRawIdent(name)
+	for i := 1; constraints.hasName(ident.Name); i++ {
+		ident = NewRawIdent(name + strconv.Itoa(i))
+	}
+	return ident
+}
+
+func (constraints Constraints) hasName(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 1d192f3..e58f399 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -544,7 +544,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.newName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -584,7 +584,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.newName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -606,7 +606,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -686,7 +686,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.newName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -733,7 +733,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = constraints.newName(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index c81dfd2..1a764d3 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +30,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
+func (constraints Constraints) newName(name string) *Ident {
+	ident := NewRawIdent(name)
+	for i := 1; constraints.hasName(ident.Name); i++ {
+		ident = NewRawIdent(name + strconv.Itoa(i))
+	}
+	return ident
+}
+
+func (constraints Constraints) hasName(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c88d383..981fcae 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -450,7 +450,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.newName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -497,7 +497,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.newName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -519,7 +519,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -604,7 +604,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.newName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -624,7 +624,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.newName(tableName.StringForDiff() + "_check")
 		}
 		constraint := &CheckConstraint{Name: constraintName}
 		constraint.Expr = constraint.Expr.Append(idents...)
@@ -644,7 +644,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = constraints.newName(name) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..401d473 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -1,6 +1,7 @@
 package spanner
 
 import (
+	"strconv"
 	//diff:ignore-line-postgres-cockroach
 	"strings"
 
@@ -31,6 +32,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
+func (constraints Constraints) newName(name string) *Ident {
+	ident := NewRawIdent(name)
+	for i := 1; constraints.hasName(ident.Name); i++ {
+		ident = NewRawIdent(name + strconv.Itoa(i))
+	}
+	return ident
+}
+
+func (constraints Constraints) hasName(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 3ea38fe..498e711 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -584,7 +584,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.newName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -602,7 +602,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.newName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -624,7 +624,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -669,7 +669,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.newName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -690,7 +690,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.newName(tableName.StringForDiff() + "_check")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From 517fd32c9232e77f024d212c5bb72125e44eb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 07/62] fix: compare spanner primary key order and mysql ON
 UPDATE ignoring case and default order; end a computed column at
 STORED/VIRTUAL

---
 pkg/ddl/cockroachdb/parser.go      |  2 ++
 pkg/ddl/mysql/diff_create_table.go |  2 +-
 pkg/ddl/spanner/ddl_table.go       | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 7a4d598..5165212 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -424,6 +424,8 @@ LabelAs:
 			continue
 		case TOKEN_STORED, TOKEN_VIRTUAL:
 			as.Type = typ
+			p.nextToken() // current = next token of STORED or VIRTUAL
+			break LabelAs
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelAs
 		default:
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..0f37774 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -252,7 +252,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-			beforeColumn.OnAction != afterColumn.OnAction ||
+			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			beforeColumn.Comment != afterColumn.Comment {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 401d473..3be96da 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -321,6 +321,20 @@ func (o *Option) StringForDiff() string {
 	if o == nil || o.Value == nil {
 		return ""
 	}
+	if o.Name == "PRIMARY KEY" {
+		// ASC is the default order
+		value := &Expr{}
+		for _, ident := range o.Value.Idents {
+			switch strings.ToUpper(ident.Raw) {
+			case "ASC":
+				continue
+			case "DESC":
+				ident = NewRawIdent("DESC")
+			}
+			value = value.Append(ident)
+		}
+		return o.Name + " " + value.StringForDiff()
+	}
 	return o.Name + " " + o.Value.StringForDiff()
 }
 
-- 
2.43.0


From c5526c23a0e2ba31c61a2b3ca10f7d01d2f08e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 08/62] fix: read the keywords of ROW DELETION POLICY ignoring
 case (spanner)

---
 pkg/ddl/spanner/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 498e711..68b6819 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -269,7 +269,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_OLDER_THAN); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = `(`
 			if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -293,7 +293,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_INTERVAL); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = 0
 			if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
@@ -305,7 +305,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_DAY); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = `)`
 			if err := p.checkCurrentToken(TOKEN_CLOSE_PAREN); err != nil {
-- 
2.43.0


From 03b0758fa68c549823706e11c0f24ac8070b8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 09/62] fix: accept OPTIONS after DEFAULT (spanner)

---
 pkg/ddl/spanner/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 68b6819..d740613 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -491,7 +491,7 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_OPTIONS:
 			break LabelDefault
 		default:
 			if isReservedValue(p.currentToken.Type) {
-- 
2.43.0


From 40e793947a3a74f645b9f04182b0c9ce31bed118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 10/62] fix: order the statements of a migration so that each
 can be executed

---
 pkg/ddl/cockroachdb/diff.go       |   9 +-
 pkg/ddl/cockroachdb/diff_order.go | 115 +++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go             |   9 +-
 pkg/ddl/mysql/diff_order.go       | 118 ++++++++++++++++++++++++++
 pkg/ddl/postgres/diff.go          |   9 +-
 pkg/ddl/postgres/diff_order.go    | 115 +++++++++++++++++++++++++
 pkg/ddl/spanner/diff.go           |   9 +-
 pkg/ddl/spanner/diff_order.go     | 136 ++++++++++++++++++++++++++++++
 8 files changed, 508 insertions(+), 12 deletions(-)
 create mode 100644 pkg/ddl/cockroachdb/diff_order.go
 create mode 100644 pkg/ddl/mysql/diff_order.go
 create mode 100644 pkg/ddl/postgres/diff_order.go
 create mode 100644 pkg/ddl/spanner/diff_order.go

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..8d3a780 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -20,7 +20,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
+		for _, stmt := range reverse(sortByReference(before.Stmts)) {
 			switch s := stmt.(type) {
 			case *CreateTableStmt:
 				result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -34,13 +34,14 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
 	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -56,7 +57,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range onlyLeftStmt(after, before) {
+	for _, stmt := range sortByReference(onlyLeftStmt(after, before)) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/cockroachdb/diff_order.go b/pkg/ddl/cockroachdb/diff_order.go
new file mode 100644
index 0000000..7ca728b
--- /dev/null
+++ b/pkg/ddl/cockroachdb/diff_order.go
@@ -0,0 +1,115 @@
+package cockroachdb
+
+import "sort"
+
+// sortStmts puts the statements of a migration in an order in which each of them can be executed:
+// what depends on an object goes before it and is created after it.
+//
+//nolint:cyclop
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	const (
+		dropIndex = iota
+		dropForeignKey
+		dropConstraint
+		dropTable
+		alterColumn
+		addConstraint
+		createIndex
+		create
+		addForeignKey
+	)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return dropIndex
+		case *DropTableStmt:
+			return dropTable
+		case *CreateIndexStmt:
+			if findTable(s.TableName, before.Stmts) != nil {
+				return createIndex
+			}
+			return create
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if t := findTable(s.Name, before.Stmts); t != nil {
+					if _, ok := findConstraintByName(a.Name.Name, t.Constraints).(*ForeignKeyConstraint); ok {
+						return dropForeignKey
+					}
+				}
+				return dropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return addForeignKey
+				}
+				return addConstraint
+			}
+			return alterColumn
+		}
+		return create
+	}
+
+	sorted := append([]Stmt(nil), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool { return phase(sorted[i]) < phase(sorted[j]) })
+	return sorted
+}
+
+// sortByReference puts the tables that others refer to first, and otherwise keeps the order.
+func sortByReference(stmts []Stmt) []Stmt {
+	sorted := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visit func(stmt Stmt)
+	visit = func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if t, ok := stmt.(*CreateTableStmt); ok {
+			for _, s := range stmts {
+				if ref, ok := s.(*CreateTableStmt); ok && refersTo(t, ref) {
+					visit(ref)
+				}
+			}
+		}
+		sorted = append(sorted, stmt)
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return sorted
+}
+
+func refersTo(t, ref *CreateTableStmt) bool {
+	for _, constraint := range t.Constraints {
+		if fk, ok := constraint.(*ForeignKeyConstraint); ok && isTableName(fk.Ref.StringForDiff(), ref) {
+			return true
+		}
+	}
+	return false
+}
+
+func isTableName(name string, t *CreateTableStmt) bool {
+	return name == t.Name.StringForDiff() || name == t.Name.Name.StringForDiff()
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && t.Name.StringForDiff() == name.StringForDiff() {
+			return t
+		}
+	}
+	return nil
+}
+
+// reverse returns the statements in reverse order.
+func reverse(stmts []Stmt) []Stmt {
+	reversed := make([]Stmt, 0, len(stmts))
+	for i := len(stmts) - 1; i >= 0; i-- {
+		reversed = append(reversed, stmts[i])
+	}
+	return reversed
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..5b3d9db 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -20,7 +20,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
+		for _, stmt := range reverse(sortByReference(before.Stmts)) {
 			switch s := stmt.(type) {
 			case *CreateTableStmt:
 				result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -34,13 +34,14 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
 	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -56,7 +57,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range onlyLeftStmt(after, before) {
+	for _, stmt := range sortByReference(onlyLeftStmt(after, before)) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
new file mode 100644
index 0000000..feadc9a
--- /dev/null
+++ b/pkg/ddl/mysql/diff_order.go
@@ -0,0 +1,118 @@
+package mysql
+
+import "sort"
+
+// sortStmts puts the statements of a migration in an order in which each of them can be executed:
+// what depends on an object goes before it and is created after it.
+//
+//nolint:cyclop
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	const (
+		dropIndex = iota
+		dropForeignKey
+		dropConstraint
+		dropTable
+		alterColumn
+		dropColumn
+		addConstraint
+		createIndex
+		create
+		addForeignKey
+	)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return dropIndex
+		case *DropTableStmt:
+			return dropTable
+		case *CreateIndexStmt:
+			if findTable(s.TableName, before.Stmts) != nil {
+				return createIndex
+			}
+			return create
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if t := findTable(s.Name, before.Stmts); t != nil {
+					if _, ok := findConstraintByName(a.Name.Name, t.Constraints).(*ForeignKeyConstraint); ok {
+						return dropForeignKey
+					}
+				}
+				return dropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return addForeignKey
+				}
+				return addConstraint
+			case *DropColumn:
+				return dropColumn
+			}
+			return alterColumn
+		}
+		return create
+	}
+
+	sorted := append([]Stmt(nil), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool { return phase(sorted[i]) < phase(sorted[j]) })
+	return sorted
+}
+
+// sortByReference puts the tables that others refer to first, and otherwise keeps the order.
+func sortByReference(stmts []Stmt) []Stmt {
+	sorted := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visit func(stmt Stmt)
+	visit = func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if t, ok := stmt.(*CreateTableStmt); ok {
+			for _, s := range stmts {
+				if ref, ok := s.(*CreateTableStmt); ok && refersTo(t, ref) {
+					visit(ref)
+				}
+			}
+		}
+		sorted = append(sorted, stmt)
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return sorted
+}
+
+func refersTo(t, ref *CreateTableStmt) bool {
+	for _, constraint := range t.Constraints {
+		if fk, ok := constraint.(*ForeignKeyConstraint); ok && isTableName(fk.Ref.StringForDiff(), ref) {
+			return true
+		}
+	}
+	return false
+}
+
+func isTableName(name string, t *CreateTableStmt) bool {
+	return name == t.Name.StringForDiff() || name == t.Name.Name.StringForDiff()
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && t.Name.StringForDiff() == name.StringForDiff() {
+			return t
+		}
+	}
+	return nil
+}
+
+// reverse returns the statements in reverse order.
+func reverse(stmts []Stmt) []Stmt {
+	reversed := make([]Stmt, 0, len(stmts))
+	for i := len(stmts) - 1; i >= 0; i-- {
+		reversed = append(reversed, stmts[i])
+	}
+	return reversed
+}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..40182ac 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -20,7 +20,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
+		for _, stmt := range reverse(sortByReference(before.Stmts)) {
 			switch s := stmt.(type) {
 			case *CreateTableStmt:
 				result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -34,13 +34,14 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
 	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -56,7 +57,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range onlyLeftStmt(after, before) {
+	for _, stmt := range sortByReference(onlyLeftStmt(after, before)) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/postgres/diff_order.go b/pkg/ddl/postgres/diff_order.go
new file mode 100644
index 0000000..590657d
--- /dev/null
+++ b/pkg/ddl/postgres/diff_order.go
@@ -0,0 +1,115 @@
+package postgres
+
+import "sort"
+
+// sortStmts puts the statements of a migration in an order in which each of them can be executed:
+// what depends on an object goes before it and is created after it.
+//
+//nolint:cyclop
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	const (
+		dropIndex = iota
+		dropForeignKey
+		dropConstraint
+		dropTable
+		alterColumn
+		addConstraint
+		createIndex
+		create
+		addForeignKey
+	)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return dropIndex
+		case *DropTableStmt:
+			return dropTable
+		case *CreateIndexStmt:
+			if findTable(s.TableName, before.Stmts) != nil {
+				return createIndex
+			}
+			return create
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if t := findTable(s.Name, before.Stmts); t != nil {
+					if _, ok := findConstraintByName(a.Name.Name, t.Constraints).(*ForeignKeyConstraint); ok {
+						return dropForeignKey
+					}
+				}
+				return dropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return addForeignKey
+				}
+				return addConstraint
+			}
+			return alterColumn
+		}
+		return create
+	}
+
+	sorted := append([]Stmt(nil), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool { return phase(sorted[i]) < phase(sorted[j]) })
+	return sorted
+}
+
+// sortByReference puts the tables that others refer to first, and otherwise keeps the order.
+func sortByReference(stmts []Stmt) []Stmt {
+	sorted := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visit func(stmt Stmt)
+	visit = func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if t, ok := stmt.(*CreateTableStmt); ok {
+			for _, s := range stmts {
+				if ref, ok := s.(*CreateTableStmt); ok && refersTo(t, ref) {
+					visit(ref)
+				}
+			}
+		}
+		sorted = append(sorted, stmt)
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return sorted
+}
+
+func refersTo(t, ref *CreateTableStmt) bool {
+	for _, constraint := range t.Constraints {
+		if fk, ok := constraint.(*ForeignKeyConstraint); ok && isTableName(fk.Ref.StringForDiff(), ref) {
+			return true
+		}
+	}
+	return false
+}
+
+func isTableName(name string, t *CreateTableStmt) bool {
+	return name == t.Name.StringForDiff() || name == t.Name.Name.StringForDiff()
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && t.Name.StringForDiff() == name.StringForDiff() {
+			return t
+		}
+	}
+	return nil
+}
+
+// reverse returns the statements in reverse order.
+func reverse(stmts []Stmt) []Stmt {
+	reversed := make([]Stmt, 0, len(stmts))
+	for i := len(stmts) - 1; i >= 0; i-- {
+		reversed = append(reversed, stmts[i])
+	}
+	return reversed
+}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..f2e1a17 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -20,7 +20,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
+		for _, stmt := range reverse(sortByReference(before.Stmts)) {
 			switch s := stmt.(type) {
 			case *CreateTableStmt:
 				result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -34,13 +34,14 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
 	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, &DropTableStmt{
@@ -56,7 +57,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range onlyLeftStmt(after, before) {
+	for _, stmt := range sortByReference(onlyLeftStmt(after, before)) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/spanner/diff_order.go b/pkg/ddl/spanner/diff_order.go
new file mode 100644
index 0000000..615facb
--- /dev/null
+++ b/pkg/ddl/spanner/diff_order.go
@@ -0,0 +1,136 @@
+package spanner
+
+import "sort"
+
+// sortStmts puts the statements of a migration in an order in which each of them can be executed:
+// what depends on an object goes before it and is created after it.
+//
+//nolint:cyclop
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	const (
+		dropIndex = iota
+		dropForeignKey
+		dropConstraint
+		dropRowDeletionPolicy
+		dropTable
+		alterColumn
+		setRowDeletionPolicy
+		dropColumn
+		addConstraint
+		createIndex
+		create
+		addForeignKey
+	)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return dropIndex
+		case *DropTableStmt:
+			return dropTable
+		case *CreateIndexStmt:
+			if findTable(s.TableName, before.Stmts) != nil {
+				return createIndex
+			}
+			return create
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if t := findTable(s.Name, before.Stmts); t != nil {
+					if _, ok := findConstraintByName(a.Name.Name, t.Constraints).(*ForeignKeyConstraint); ok {
+						return dropForeignKey
+					}
+				}
+				return dropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return addForeignKey
+				}
+				return addConstraint
+			case *DropColumn:
+				return dropColumn
+			case *DropRowDeletionPolicy:
+				return dropRowDeletionPolicy
+			case *AddRowDeletionPolicy, *ReplaceRowDeletionPolicy:
+				return setRowDeletionPolicy
+			}
+			return alterColumn
+		}
+		return create
+	}
+
+	sorted := append([]Stmt(nil), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool { return phase(sorted[i]) < phase(sorted[j]) })
+	return sorted
+}
+
+// sortByReference puts the tables that others refer to first, and otherwise keeps the order.
+func sortByReference(stmts []Stmt) []Stmt {
+	sorted := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visit func(stmt Stmt)
+	visit = func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if t, ok := stmt.(*CreateTableStmt); ok {
+			for _, s := range stmts {
+				if ref, ok := s.(*CreateTableStmt); ok && refersTo(t, ref) {
+					visit(ref)
+				}
+			}
+		}
+		sorted = append(sorted, stmt)
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return sorted
+}
+
+func refersTo(t, ref *CreateTableStmt) bool {
+	for _, constraint := range t.Constraints {
+		if fk, ok := constraint.(*ForeignKeyConstraint); ok && isTableName(fk.Ref.StringForDiff(), ref) {
+			return true
+		}
+	}
+	if parent := interleaveParent(t); parent != "" {
+		return isTableName(parent, ref)
+	}
+	return false
+}
+
+func interleaveParent(t *CreateTableStmt) string {
+	for _, option := range t.Options {
+		if option.Name == "INTERLEAVE IN PARENT" && option.Value != nil && len(option.Value.Idents) > 0 {
+			return option.Value.Idents[0].StringForDiff()
+		}
+	}
+	return ""
+}
+
+func isTableName(name string, t *CreateTableStmt) bool {
+	return name == t.Name.StringForDiff() || name == t.Name.Name.StringForDiff()
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && t.Name.StringForDiff() == name.StringForDiff() {
+			return t
+		}
+	}
+	return nil
+}
+
+// reverse returns the statements in reverse order.
+func reverse(stmts []Stmt) []Stmt {
+	reversed := make([]Stmt, 0, len(stmts))
+	for i := len(stmts) - 1; i >= 0; i-- {
+		reversed = append(reversed, stmts[i])
+	}
+	return reversed
+}
-- 
2.43.0


From c99aca0aff2b704e022c9f7c8abfb9dbe9b95466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 11/62] fix: change the visibility and the expression of a
 column (cockroachdb), keep its character set (mysql)

---
 pkg/ddl/cockroachdb/ddl_table_alter.go   | 16 ++++++++
 pkg/ddl/cockroachdb/diff_create_table.go | 49 +++++++++++++++++++++---
 pkg/ddl/mysql/diff_create_table.go       |  1 +
 3 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table_alter.go b/pkg/ddl/cockroachdb/ddl_table_alter.go
index 144d500..1badfa7 100644
--- a/pkg/ddl/cockroachdb/ddl_table_alter.go
+++ b/pkg/ddl/cockroachdb/ddl_table_alter.go
@@ -58,6 +58,12 @@ func (s *AlterTableStmt) String() string {
 		str += "ALTER COLUMN " + a.Name.String() + " SET NOT NULL"
 	case *AlterColumnDropNotNull:
 		str += "ALTER COLUMN " + a.Name.String() + " DROP NOT NULL"
+	case *AlterColumnSetVisible:
+		str += "ALTER COLUMN " + a.Name.String() + " SET "
+		if a.NotVisible {
+			str += "NOT "
+		}
+		str += "VISIBLE"
 	case *AddConstraint:
 		str += "ADD " + a.Constraint.String()
 		if a.NotValid {
@@ -183,6 +189,16 @@ func (*AlterColumnDropNotNull) isAlterTableAction() {}
 
 func (s *AlterColumnDropNotNull) GoString() string { return internal.GoString(*s) }
 
+// AlterColumnSetVisible represents ALTER TABLE table_name ALTER COLUMN SET [NOT] VISIBLE.
+type AlterColumnSetVisible struct {
+	Name       *Ident
+	NotVisible bool
+}
+
+func (*AlterColumnSetVisible) isAlterTableAction() {}
+
+func (s *AlterColumnSetVisible) GoString() string { return internal.GoString(*s) }
+
 // AddConstraint represents ALTER TABLE table_name ADD CONSTRAINT.
 type AddConstraint struct {
 	Constraint Constraint
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..ceb3b34 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -184,14 +184,31 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
+	// Computed columns go first, because they use other columns, and the expression of a computed column cannot be changed in place.
+	for _, beforeColumn := range before.Columns { //diff:ignore-line-postgres-cockroach
+		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns) //diff:ignore-line-postgres-cockroach
+		if !isComputedColumnRemoved(beforeColumn, afterColumn) {               //diff:ignore-line-postgres-cockroach
+			continue //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		if afterColumn == nil && beforeColumn.NotVisible && beforeColumn.As.Type == TOKEN_VIRTUAL { //diff:ignore-line-postgres-cockroach
+			// ref. https://www.cockroachlabs.com/docs/v24.2/hash-sharded-indexes
+			logs.Debug.Printf("🪲: If the column is a NOT VISIBLE VIRTUAL column, it may be a Hash-sharded Index. SKIP. ref. https://www.cockroachlabs.com/docs/v24.2/hash-sharded-indexes")
+			continue //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		// ALTER TABLE table_name DROP COLUMN column_name; //diff:ignore-line-postgres-cockroach
+		ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{ //diff:ignore-line-postgres-cockroach
+			Comment: simplediff.Diff(beforeColumn.String(), "").String(), //diff:ignore-line-postgres-cockroach
+			Name:    after.Name,                                          //diff:ignore-line-postgres-cockroach
+			Action:  &DropColumn{Name: beforeColumn.Name},                //diff:ignore-line-postgres-cockroach
+		}) //diff:ignore-line-postgres-cockroach
+	} //diff:ignore-line-postgres-cockroach
+
 	for _, beforeColumn := range before.Columns {
 		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns)
+		if isComputedColumnRemoved(beforeColumn, afterColumn) { //diff:ignore-line-postgres-cockroach
+			continue //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
 		if afterColumn == nil {
-			if beforeColumn.NotVisible && beforeColumn.As != nil && beforeColumn.As.Type == TOKEN_VIRTUAL {
-				// ref. https://www.cockroachlabs.com/docs/v24.2/hash-sharded-indexes
-				logs.Debug.Printf("🪲: If the column is a NOT VISIBLE VIRTUAL column, it may be a Hash-sharded Index. SKIP. ref. https://www.cockroachlabs.com/docs/v24.2/hash-sharded-indexes")
-				continue
-			}
 			// ALTER TABLE table_name DROP COLUMN column_name;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), "").String(),
@@ -257,6 +274,18 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				},
 			})
 		}
+
+		if beforeColumn.NotVisible != afterColumn.NotVisible { //diff:ignore-line-postgres-cockroach
+			// ALTER TABLE table_name ALTER COLUMN column_name SET [NOT] VISIBLE; //diff:ignore-line-postgres-cockroach
+			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{ //diff:ignore-line-postgres-cockroach
+				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(), //diff:ignore-line-postgres-cockroach
+				Name:    after.Name,                                                            //diff:ignore-line-postgres-cockroach
+				Action: &AlterColumnSetVisible{ //diff:ignore-line-postgres-cockroach
+					Name:       afterColumn.Name,       //diff:ignore-line-postgres-cockroach
+					NotVisible: afterColumn.NotVisible, //diff:ignore-line-postgres-cockroach
+				}, //diff:ignore-line-postgres-cockroach
+			}) //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
 	}
 
 	for _, afterColumn := range onlyLeftColumn(after.Columns, before.Columns) {
@@ -275,13 +304,21 @@ func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
 		foundColumnByRight := findColumnByName(leftColumn.Name.Name, right)
-		if foundColumnByRight == nil {
+		if foundColumnByRight == nil || isComputedColumnRemoved(foundColumnByRight, leftColumn) {
 			onlyLeftColumns = append(onlyLeftColumns, leftColumn)
 		}
 	}
 	return onlyLeftColumns
 }
 
+// isComputedColumnRemoved tells whether a computed column has to be dropped, because it is not there any more or is computed in another way.
+func isComputedColumnRemoved(before, after *Column) bool { //diff:ignore-line-postgres-cockroach
+	if after == nil { //diff:ignore-line-postgres-cockroach
+		return before.As != nil //diff:ignore-line-postgres-cockroach
+	} //diff:ignore-line-postgres-cockroach
+	return before.As.StringForDiff() != after.As.StringForDiff() //diff:ignore-line-postgres-cockroach
+} //diff:ignore-line-postgres-cockroach
+
 func findColumnByName(name string, columns []*Column) *Column {
 	for _, column := range columns {
 		if column.Name.Name == name {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 0f37774..3049f67 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From 039bbb97a2700930ec2257b6df0d067860392a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 12/62] fix: recreate the indexes, foreign keys and interleaved
 tables of a recreated table (spanner)

---
 pkg/ddl/spanner/diff.go       | 86 ++++++++++++++++++++++++++++++++---
 pkg/ddl/spanner/diff_order.go |  2 +-
 2 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index f2e1a17..a773909 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -40,13 +40,19 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	recreated := recreatedTables(before, after)
+
 	// DROP TABLE table_name;
-	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
+	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after, recreated))) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
+			dropTableStmt := &DropTableStmt{
 				Name: beforeStmt.Name,
-			})
+			}
+			if afterStmt := findTable(beforeStmt.Name, after.Stmts); afterStmt != nil {
+				dropTableStmt.Comment = simplediff.Diff(beforeStmt.Options.String(), afterStmt.Options.String()).String()
+			}
+			result.Stmts = append(result.Stmts, dropTableStmt)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -57,7 +63,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range sortByReference(onlyLeftStmt(after, before)) {
+	for _, stmt := range sortByReference(onlyLeftStmt(after, before, recreated)) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
@@ -73,19 +79,20 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
+			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil && !recreated[beforeStmt.GetNameForDiff()] {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
 				}
+				result.Stmts = append(result.Stmts, recreateForeignKeys(beforeStmt, afterStmt, before, recreated)...)
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
 			}
 		case *CreateIndexStmt:
 			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
 				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
+				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() || recreated[beforeStmt.TableName.StringForDiff()] {
 					result.Stmts = append(result.Stmts,
 						&DropIndexStmt{
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
@@ -107,10 +114,75 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
-func onlyLeftStmt(left, right *DDL) []Stmt {
+// recreatedTables returns the names of the tables that have to be dropped and created again: those whose options
+// (PRIMARY KEY, INTERLEAVE IN PARENT) change, and the tables interleaved in them.
+func recreatedTables(before, after *DDL) map[string]bool {
+	recreated := make(map[string]bool)
+
+	for again := true; again; {
+		again = false
+		for _, stmt := range before.Stmts {
+			beforeStmt, ok := stmt.(*CreateTableStmt)
+			if !ok || recreated[beforeStmt.GetNameForDiff()] {
+				continue
+			}
+			afterStmt := findTable(beforeStmt.Name, after.Stmts)
+			if afterStmt == nil {
+				continue
+			}
+			if beforeStmt.Options.StringForDiff() != afterStmt.Options.StringForDiff() || isRecreated(interleaveParent(beforeStmt), before, recreated) {
+				recreated[beforeStmt.GetNameForDiff()] = true
+				again = true
+			}
+		}
+	}
+
+	return recreated
+}
+
+func isRecreated(name string, before *DDL, recreated map[string]bool) bool {
+	for _, stmt := range before.Stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && recreated[t.GetNameForDiff()] && isTableName(name, t) {
+			return true
+		}
+	}
+	return false
+}
+
+// recreateForeignKeys returns the statements that drop and add again the unchanged foreign keys to recreated tables.
+func recreateForeignKeys(beforeStmt, afterStmt *CreateTableStmt, before *DDL, recreated map[string]bool) []Stmt {
+	var stmts []Stmt
+	for _, constraint := range beforeStmt.Constraints {
+		fk, ok := constraint.(*ForeignKeyConstraint)
+		if !ok || !isRecreated(fk.Ref.StringForDiff(), before, recreated) {
+			continue
+		}
+		afterConstraint := findConstraintByName(fk.GetName().Name, afterStmt.Constraints)
+		if afterConstraint == nil || fk.StringForDiff() != afterConstraint.StringForDiff() {
+			continue
+		}
+		stmts = append(stmts,
+			&AlterTableStmt{
+				Name:   afterStmt.Name,
+				Action: &DropConstraint{Name: fk.GetName()},
+			},
+			&AlterTableStmt{
+				Name:   afterStmt.Name,
+				Action: &AddConstraint{Constraint: afterConstraint},
+			},
+		)
+	}
+	return stmts
+}
+
+func onlyLeftStmt(left, right *DDL, recreated map[string]bool) []Stmt {
 	result := make([]Stmt, 0)
 
 	for _, stmt := range left.Stmts {
+		if t, ok := stmt.(*CreateTableStmt); ok && recreated[t.GetNameForDiff()] {
+			result = append(result, stmt)
+			continue
+		}
 		if findStmtByTypeAndName(stmt, right.Stmts) == nil {
 			result = append(result, stmt)
 		}
diff --git a/pkg/ddl/spanner/diff_order.go b/pkg/ddl/spanner/diff_order.go
index 615facb..7dad8cf 100644
--- a/pkg/ddl/spanner/diff_order.go
+++ b/pkg/ddl/spanner/diff_order.go
@@ -29,7 +29,7 @@ func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 		case *DropTableStmt:
 			return dropTable
 		case *CreateIndexStmt:
-			if findTable(s.TableName, before.Stmts) != nil {
+			if findTable(s.TableName, before.Stmts) != nil && findTable(s.TableName, stmts) == nil {
 				return createIndex
 			}
 			return create
-- 
2.43.0


From e0420dae092ee89b8d14705a83949dbc6a50b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 13/62] fix: tell string literals from names and keywords when
 comparing (mysql, spanner)

---
 pkg/ddl/mysql/ddl.go   | 8 ++++++++
 pkg/ddl/spanner/ddl.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..6e6e208 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,8 @@
 package mysql
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -76,6 +78,12 @@ func (i *Ident) StringForDiff() string {
 	if i == nil {
 		return ""
 	}
+	if i.QuotationMark == "'" {
+		if i.Name == "" || strings.Trim(i.Name, "-.0123456789") != "" {
+			// string literal, except numbers: '0' and 0 are the same default value
+			return i.Raw
+		}
+	}
 	return i.Name
 }
 
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..484f3df 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -76,6 +76,10 @@ func (i *Ident) StringForDiff() string {
 	if i == nil {
 		return ""
 	}
+	if i.QuotationMark == "'" {
+		// string literal
+		return i.Raw
+	}
 	return i.Name
 }
 
-- 
2.43.0


From eb1b1b2efc9ea5d0d2ae2665755bbaeb611f7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 14/62] fix: compare the method of an index (postgres)

---
 pkg/ddl/postgres/ddl_index_create.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index 8790179..40c2a2b 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -60,7 +60,10 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
-	// TODO: add USING
+	if using := stringz.JoinStringers(" ", s.Using...); using != "" && !strings.EqualFold(using, "btree") {
+		// btree is the default method
+		str += " USING " + strings.ToLower(using)
+	}
 	str += " ("
 	for i, c := range s.Columns {
 		if i > 0 {
-- 
2.43.0


From 7e21bcbcf433e43d7a7757fc95484ad4b41d44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 15/62] fix: remove the comment of a table (mysql)

---
 pkg/ddl/mysql/diff_create_table.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 3049f67..701e75d 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -11,6 +11,9 @@ import (
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
 )
 
+// emptyString is an empty string literal.
+const emptyString = "''"
+
 type DiffCreateTableConfig struct {
 	UseAlterTableAddConstraintNotValid bool
 }
@@ -182,7 +185,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		}
 	}
 
-	// TODO: OPTION cannot be deleted?
+	// TODO: OPTION other than COMMENT cannot be deleted?
 
 	for _, beforeOption := range before.Options {
 		if strings.ToUpper(beforeOption.Name) == "AUTO_INCREMENT" {
@@ -202,6 +205,16 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 					},
 				})
 			}
+		} else if strings.ToUpper(beforeOption.Name) == "COMMENT" && beforeOption.Value.String() != emptyString {
+			// ALTER TABLE table_name COMMENT='';
+			result.Stmts = append(result.Stmts, &AlterTableStmt{
+				Comment: simplediff.Diff(beforeOption.String(), "").String(),
+				Name:    after.Name,
+				Action: &AlterTableOption{
+					Name:  beforeOption.Name,
+					Value: &Expr{Idents: []*Ident{NewRawIdent(emptyString)}},
+				},
+			})
 		}
 	}
 
@@ -210,6 +223,10 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			// skip AUTO_INCREMENT
 			continue
 		}
+		if strings.ToUpper(afterOption.Name) == "COMMENT" && afterOption.Value.String() == emptyString {
+			// skip the comment that every table has by default
+			continue
+		}
 		// ALTER TABLE table_name option_name=option_value;
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff("", afterOption.String()).String(),
-- 
2.43.0


From 935298d3161c5012f6e5706b6dbaa54f8fae89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 16/62] fix: compare the spellings of one data type as equal
 (postgres, cockroachdb, mysql)

---
 pkg/ddl/cockroachdb/ddl.go | 11 ++++++++---
 pkg/ddl/mysql/ddl.go       | 13 ++++++++++---
 pkg/ddl/postgres/ddl.go    | 11 ++++++++---
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..cbf10e2 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -132,10 +132,15 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	case TOKEN_NUMERIC: //diff:ignore-line-postgres-cockroach
+		str += string(TOKEN_DECIMAL) //diff:ignore-line-postgres-cockroach
+	case TOKEN_REAL: //diff:ignore-line-postgres-cockroach
+		str += string(TOKEN_FLOAT4) //diff:ignore-line-postgres-cockroach
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index 6e6e208..99117a6 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -144,10 +144,17 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	case TOKEN_BOOLEAN: // BOOLEAN is TINYINT(1)
+		str += string(TOKEN_TINYINT)
+	case TOKEN_DOUBLE_PRECISION, TOKEN_REAL:
+		str += string(TOKEN_DOUBLE)
+	case TOKEN_NUMERIC:
+		str += string(TOKEN_DECIMAL)
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..3702902 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -117,10 +117,15 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	case TOKEN_VARYING: // VARCHAR //diff:ignore-line-postgres-cockroach
+		str += string(TOKEN_CHARACTER_VARYING) //diff:ignore-line-postgres-cockroach
+	case TOKEN_DECIMAL: //diff:ignore-line-postgres-cockroach
+		str += string(TOKEN_NUMERIC) //diff:ignore-line-postgres-cockroach
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
-- 
2.43.0


From fd5ffa38fb6ec19bfe48baffd8f46b99affaa469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 17/62] fix: an index inside CREATE TABLE equals the same
 CREATE INDEX (mysql, cockroachdb)

---
 pkg/ddl/cockroachdb/diff.go       |  2 +
 pkg/ddl/cockroachdb/diff_index.go | 82 +++++++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go             |  2 +
 pkg/ddl/mysql/diff_index.go       | 80 ++++++++++++++++++++++++++++++
 4 files changed, 166 insertions(+)
 create mode 100644 pkg/ddl/cockroachdb/diff_index.go
 create mode 100644 pkg/ddl/mysql/diff_index.go

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 8d3a780..2b4e515 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -40,6 +40,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before = alignIndexes(before, after)
+
 	// DROP TABLE table_name;
 	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
diff --git a/pkg/ddl/cockroachdb/diff_index.go b/pkg/ddl/cockroachdb/diff_index.go
new file mode 100644
index 0000000..9858123
--- /dev/null
+++ b/pkg/ddl/cockroachdb/diff_index.go
@@ -0,0 +1,82 @@
+package cockroachdb
+
+// alignIndexes returns before with each index in the form that it has in after:
+// as a part of CREATE TABLE or as CREATE INDEX. Either form declares the same index.
+//
+//nolint:cyclop,gocognit
+func alignIndexes(before, after *DDL) *DDL {
+	aligned := &DDL{}
+
+	for _, stmt := range before.Stmts {
+		switch s := stmt.(type) {
+		case *CreateTableStmt:
+			table := *s
+			table.Constraints = nil
+			indexes := make([]Stmt, 0)
+			for _, constraint := range s.Constraints {
+				if index, ok := constraint.(*IndexConstraint); ok && findIndex(index.Name, s.Name, before.Stmts) == nil && findIndex(index.Name, s.Name, after.Stmts) != nil {
+					indexes = append(indexes, &CreateIndexStmt{
+						Unique:           index.Unique,
+						Name:             index.Name,
+						TableName:        s.Name,
+						UsingPreColumns:  index.UsingPreColumns,
+						Columns:          index.Columns,
+						UsingPostColumns: index.UsingPostColumns,
+					})
+					continue
+				}
+				table.Constraints = append(table.Constraints, constraint)
+			}
+			for _, stmt := range before.Stmts {
+				if index, ok := stmt.(*CreateIndexStmt); ok && index.becomesConstraintOf(s, after) {
+					table.Constraints = append(table.Constraints, &IndexConstraint{
+						Name:             index.Name,
+						Unique:           index.Unique,
+						UsingPreColumns:  index.UsingPreColumns,
+						Columns:          index.Columns,
+						UsingPostColumns: index.UsingPostColumns,
+					})
+				}
+			}
+			if len(indexes) == 0 && len(table.Constraints) == len(s.Constraints) {
+				aligned.Stmts = append(aligned.Stmts, s)
+				continue
+			}
+			aligned.Stmts = append(append(aligned.Stmts, &table), indexes...)
+		case *CreateIndexStmt:
+			if t := findTable(s.TableName, before.Stmts); t != nil && s.becomesConstraintOf(t, after) {
+				continue
+			}
+			aligned.Stmts = append(aligned.Stmts, s)
+		default:
+			aligned.Stmts = append(aligned.Stmts, s)
+		}
+	}
+
+	return aligned
+}
+
+// becomesConstraintOf returns whether the index is one of the table and a part of its CREATE TABLE in after.
+func (s *CreateIndexStmt) becomesConstraintOf(t *CreateTableStmt, after *DDL) bool {
+	if s.TableName.StringForDiff() != t.Name.StringForDiff() {
+		return false
+	}
+	if findConstraintByName(s.Name.Name, t.Constraints) != nil || findIndex(s.Name, s.TableName, after.Stmts) != nil {
+		return false
+	}
+	afterTable := findTable(s.TableName, after.Stmts)
+	if afterTable == nil {
+		return false
+	}
+	_, ok := findConstraintByName(s.Name.Name, afterTable.Constraints).(*IndexConstraint)
+	return ok
+}
+
+func findIndex(name *Ident, tableName *ObjectName, stmts []Stmt) *CreateIndexStmt {
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateIndexStmt); ok && s.Name.StringForDiff() == name.StringForDiff() && s.TableName.StringForDiff() == tableName.StringForDiff() {
+			return s
+		}
+	}
+	return nil
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5b3d9db..a75c57d 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -40,6 +40,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before = alignIndexes(before, after)
+
 	// DROP TABLE table_name;
 	for _, stmt := range reverse(sortByReference(onlyLeftStmt(before, after))) {
 		switch beforeStmt := stmt.(type) {
diff --git a/pkg/ddl/mysql/diff_index.go b/pkg/ddl/mysql/diff_index.go
new file mode 100644
index 0000000..0f63ee5
--- /dev/null
+++ b/pkg/ddl/mysql/diff_index.go
@@ -0,0 +1,80 @@
+package mysql
+
+// alignIndexes returns before with each index in the form that it has in after:
+// as a part of CREATE TABLE or as CREATE INDEX. Either form declares the same index.
+//
+//nolint:cyclop,gocognit
+func alignIndexes(before, after *DDL) *DDL {
+	aligned := &DDL{}
+
+	for _, stmt := range before.Stmts {
+		switch s := stmt.(type) {
+		case *CreateTableStmt:
+			table := *s
+			table.Constraints = nil
+			indexes := make([]Stmt, 0)
+			for _, constraint := range s.Constraints {
+				if index, ok := constraint.(*IndexConstraint); ok && findIndex(index.Name, s.Name, before.Stmts) == nil {
+					if afterIndex := findIndex(index.Name, s.Name, after.Stmts); afterIndex != nil {
+						indexes = append(indexes, &CreateIndexStmt{
+							Unique:    index.Unique,
+							Name:      afterIndex.Name,
+							TableName: s.Name,
+							Columns:   index.Columns,
+						})
+						continue
+					}
+				}
+				table.Constraints = append(table.Constraints, constraint)
+			}
+			for _, stmt := range before.Stmts {
+				if index, ok := stmt.(*CreateIndexStmt); ok && index.becomesConstraintOf(s, after) {
+					table.Constraints = append(table.Constraints, &IndexConstraint{
+						Name:    index.Name.Name,
+						Unique:  index.Unique,
+						Columns: index.Columns,
+					})
+				}
+			}
+			if len(indexes) == 0 && len(table.Constraints) == len(s.Constraints) {
+				aligned.Stmts = append(aligned.Stmts, s)
+				continue
+			}
+			aligned.Stmts = append(append(aligned.Stmts, &table), indexes...)
+		case *CreateIndexStmt:
+			if t := findTable(s.TableName, before.Stmts); t != nil && s.becomesConstraintOf(t, after) {
+				continue
+			}
+			aligned.Stmts = append(aligned.Stmts, s)
+		default:
+			aligned.Stmts = append(aligned.Stmts, s)
+		}
+	}
+
+	return aligned
+}
+
+// becomesConstraintOf returns whether the index is one of the table and a part of its CREATE TABLE in after.
+func (s *CreateIndexStmt) becomesConstraintOf(t *CreateTableStmt, after *DDL) bool {
+	if len(s.Using) > 0 || s.TableName.StringForDiff() != t.Name.StringForDiff() {
+		return false
+	}
+	if findConstraintByName(s.Name.Name.Name, t.Constraints) != nil || findIndex(s.Name.Name, s.TableName, after.Stmts) != nil {
+		return false
+	}
+	afterTable := findTable(s.TableName, after.Stmts)
+	if afterTable == nil {
+		return false
+	}
+	_, ok := findConstraintByName(s.Name.Name.Name, afterTable.Constraints).(*IndexConstraint)
+	return ok
+}
+
+func findIndex(name *Ident, tableName *ObjectName, stmts []Stmt) *CreateIndexStmt {
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateIndexStmt); ok && s.Name.Name.StringForDiff() == name.StringForDiff() && s.TableName.StringForDiff() == tableName.StringForDiff() {
+			return s
+		}
+	}
+	return nil
+}
-- 
2.43.0


From a3a50ecd36baf9ec84ba063f7ef09944ba17a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:56 +0000
Subject: [PATCH 18/62] fix: lex non-ASCII letters of unquoted names without
 breaking them up

---
 pkg/ddl/cockroachdb/lexar.go | 4 +++-
 pkg/ddl/mysql/lexar.go       | 4 +++-
 pkg/ddl/postgres/lexar.go    | 4 +++-
 pkg/ddl/spanner/lexar.go     | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 5e1424e..8965a01 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -461,7 +462,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 2e8da7f..4fec63c 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://dev.mysql.com/doc/refman/8.0/ja/data-types.html
@@ -487,7 +488,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 3c14b9a..f103ef3 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -435,7 +436,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index c1fbe84..7b4eedb 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -441,7 +442,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
-- 
2.43.0


From bd58499bf3fdb4d1c6cb64b468338722fdf922ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 19/62] fix: quote implicit constraint names where it is
 necessary

---
 pkg/ddl/cockroachdb/ddl_table.go |  4 ++--
 pkg/ddl/cockroachdb/parser.go    | 18 +++++++++++++++---
 pkg/ddl/mysql/ddl_table.go       |  4 ++--
 pkg/ddl/mysql/parser.go          | 14 +++++++++++++-
 pkg/ddl/postgres/ddl_table.go    |  4 ++--
 pkg/ddl/postgres/parser.go       | 18 +++++++++++++++---
 pkg/ddl/spanner/ddl_table.go     |  4 ++--
 pkg/ddl/spanner/parser.go        | 12 ++++++++++++
 8 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 1147977..c8b61d9 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -44,9 +44,9 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 
 // newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
 func (constraints Constraints) newName(name string) *Ident {
-	ident := NewRawIdent(name)
+	ident := newImplicitIdent(name)
 	for i := 1; constraints.hasName(ident.Name); i++ {
-		ident = NewRawIdent(name + strconv.Itoa(i))
+		ident = newImplicitIdent(name + strconv.Itoa(i))
 	}
 	return ident
 }
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 5165212..87ff216 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -46,6 +46,18 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newImplicitIdent returns the identifier of an object that is named after others, which is quoted if necessary.
+func newImplicitIdent(name string) *Ident {
+	const quotationMark = `"`
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -549,7 +561,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newImplicitIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -597,7 +609,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newImplicitIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -654,7 +666,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newImplicitIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 564f4cb..7513ce3 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -44,9 +44,9 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 
 // newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
 func (constraints Constraints) newName(name string) *Ident {
-	ident := NewRawIdent(name)
+	ident := newImplicitIdent(name)
 	for i := 1; constraints.hasName(ident.Name); i++ {
-		ident = NewRawIdent(name + strconv.Itoa(i))
+		ident = newImplicitIdent(name + strconv.Itoa(i))
 	}
 	return ident
 }
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index e58f399..ee8b986 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -45,6 +45,18 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newImplicitIdent returns the identifier of an object that is named after others, which is quoted if necessary.
+func newImplicitIdent(name string) *Ident {
+	const quotationMark = "`"
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -575,7 +587,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newImplicitIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 1a764d3..fd05086 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -32,9 +32,9 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 
 // newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
 func (constraints Constraints) newName(name string) *Ident {
-	ident := NewRawIdent(name)
+	ident := newImplicitIdent(name)
 	for i := 1; constraints.hasName(ident.Name); i++ {
-		ident = NewRawIdent(name + strconv.Itoa(i))
+		ident = newImplicitIdent(name + strconv.Itoa(i))
 	}
 	return ident
 }
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 981fcae..b4aa09d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -46,6 +46,18 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newImplicitIdent returns the identifier of an object that is named after others, which is quoted if necessary.
+func newImplicitIdent(name string) *Ident {
+	const quotationMark = `"`
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -441,7 +453,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newImplicitIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -488,7 +500,7 @@ LabelConstraints:
 			continue
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newImplicitIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -545,7 +557,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newImplicitIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 3be96da..5284905 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -34,9 +34,9 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 
 // newName returns the name for an implicitly named constraint, which is suffixed with a number if the name is already used.
 func (constraints Constraints) newName(name string) *Ident {
-	ident := NewRawIdent(name)
+	ident := newImplicitIdent(name)
 	for i := 1; constraints.hasName(ident.Name); i++ {
-		ident = NewRawIdent(name + strconv.Itoa(i))
+		ident = newImplicitIdent(name + strconv.Itoa(i))
 	}
 	return ident
 }
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index d740613..628a7d9 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -45,6 +45,18 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newImplicitIdent returns the identifier of an object that is named after others, which is quoted if necessary.
+func newImplicitIdent(name string) *Ident {
+	const quotationMark = "`"
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
-- 
2.43.0


From f60ce099cff804c0460cc3dae0ee56ceb75ea04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:52 +0000
Subject: [PATCH 20/62] fix: print AUTO_INCREMENT where it is read; refuse AS
 without an expression

---
 pkg/ddl/cockroachdb/parser.go | 4 ++++
 pkg/ddl/mysql/ddl_table.go    | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 87ff216..ae28d30 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -465,6 +465,10 @@ LabelAs:
 		p.nextToken()
 	}
 
+	if as.Value == nil {
+		return nil, apperr.Errorf("AS without an expression: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return as, nil
 }
 
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 7513ce3..4cf168a 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -376,12 +376,12 @@ func (c *Column) String() string {
 	} else {
 		str += " NULL"
 	}
-	if s := c.Default.String(); s != "" {
-		str += " " + s
-	}
 	if c.AutoIncrement {
 		str += " AUTO_INCREMENT"
 	}
+	if s := c.Default.String(); s != "" {
+		str += " " + s
+	}
 	if c.OnAction != "" {
 		str += " " + c.OnAction
 	}
-- 
2.43.0


From 5cf5c5c32123aade80db389626ede02f354cf6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 21/62] fix: read annotations and prose of Go block comments
 line by line

---
 pkg/internal/lang/go/extract_source.go | 12 +++++++++++-
 pkg/internal/lang/go/parse.go          | 22 ++++++++++++++++++----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..2414d06 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -45,6 +45,16 @@ func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	return _DDLTagGoCommentLineRegex
 }
 
+// containsDDLTagGo reports whether a line of the comment is a DDLTagGo annotation.
+func containsDDLTagGo(comment *ast.Comment) bool {
+	for _, line := range commentLines(comment) {
+		if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(line); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+			return true
+		}
+	}
+	return false
+}
+
 //
 //nolint:cyclop
 func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast.File) ([]*ddlSource, error) {
@@ -56,7 +66,7 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 			for _, commentLine := range commentGroup.List {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
-				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+				if containsDDLTagGo(commentLine) {
 					s := &ddlSource{
 						Position:     fset.Position(commentLine.Pos()),
 						CommentGroup: commentGroup,
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..06bdb76 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -15,7 +15,6 @@ import (
 	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -111,9 +110,10 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
+		comments := make([]string, 0)
+		for _, comment := range r.CommentGroup.List {
+			comments = append(comments, commentLines(comment)...)
+		}
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
@@ -232,6 +232,20 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// commentLines returns the lines of a comment without the comment markers.
+func commentLines(comment *ast.Comment) []string {
+	text, isBlock := strings.CutPrefix(comment.Text, "/*")
+	if !isBlock {
+		return []string{strings.TrimLeftFunc(strings.TrimLeft(comment.Text, "/"), unicode.IsSpace)}
+	}
+
+	lines := strings.Split(strings.TrimSpace(strings.TrimSuffix(text, "*/")), "\n")
+	for i := range lines {
+		lines[i] = strings.TrimSpace(lines[i])
+	}
+	return lines
+}
+
 func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, sub string) *ast.Comment {
 	for _, commentLine := range commentGroup.List {
 		if strings.Contains(commentLine.Text, sub) {
-- 
2.43.0


From 93c4714432d102ba4ff6438b14e025fc2124fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:50 +0000
Subject: [PATCH 22/62] fix: do not take a comment next to a Go type for its
 annotation, print indexes after their table

---
 pkg/internal/lang/go/extract_source.go | 49 ++++++++++++++++++++++++++
 pkg/internal/lang/go/parse.go          |  9 ++---
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 2414d06..c9b3d92 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,12 +6,14 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"sort"
 	"sync"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
+	langutil "github.com/kunitsucom/ddlctl/pkg/internal/lang/util"
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
@@ -55,6 +57,46 @@ func containsDDLTagGo(comment *ast.Comment) bool {
 	return false
 }
 
+// annotates reports whether the comment group is about the type that is declared by the node,
+// as opposed to a comment group which is merely next to it.
+func annotates(commentGroup *ast.CommentGroup, node ast.Node) bool {
+	var doc *ast.CommentGroup
+	switch n := node.(type) {
+	case *ast.DeclStmt:
+		return annotates(commentGroup, n.Decl)
+	case *ast.GenDecl:
+		doc = n.Doc
+	case *ast.TypeSpec:
+		doc = n.Doc
+	default:
+		return false
+	}
+
+	if commentGroup == doc {
+		return true
+	}
+	if doc != nil {
+		for _, comment := range doc.List {
+			if containsDDLTagGo(comment) {
+				return false // NOTE: the type has annotations of its own.
+			}
+		}
+	}
+	return !isCreateIndexOnly(commentGroup)
+}
+
+// isCreateIndexOnly reports whether all the DDLTagGo annotations of the comment group are indexes.
+func isCreateIndexOnly(commentGroup *ast.CommentGroup) bool {
+	for _, comment := range commentGroup.List {
+		for _, line := range commentLines(comment) {
+			if DDLTagGoCommentLineRegex().MatchString(line) && !langutil.StmtRegexCreateIndex.Regex.MatchString(line) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 //
 //nolint:cyclop
 func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast.File) ([]*ddlSource, error) {
@@ -71,6 +113,10 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 						Position:     fset.Position(commentLine.Pos()),
 						CommentGroup: commentGroup,
 					}
+					if !annotates(commentGroup, commentedNode) {
+						ddlSrc = append(ddlSrc, s)
+						break CommentGroupLoop
+					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
 						switch n := node.(type) {
 						case *ast.TypeSpec:
@@ -92,6 +138,9 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 		}
 	}
 
+	// NOTE: ast.CommentMap is not ordered.
+	sort.SliceStable(ddlSrc, func(i, j int) bool { return ddlSrc[i].CommentGroup.Pos() < ddlSrc[j].CommentGroup.Pos() })
+
 	if len(ddlSrc) == 0 {
 		return nil, apperr.Errorf("go-ddl-tag=%s: %w", config.DDLTagGo(), apperr.ErrDDLTagGoAnnotationNotFoundInSource)
 	}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 06bdb76..fc072e9 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -10,7 +10,6 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
-	"sort"
 	"strings"
 	"unicode"
 
@@ -104,6 +103,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	stmts := make([]generator.Stmt, 0)
 	for _, r := range ddlSrc {
 		createTableStmt := &generator.CreateTableStmt{}
+		createIndexStmts := make([]generator.Stmt, 0)
 
 		// source
 		createTableStmt.SourceFile = r.Position.Filename
@@ -127,7 +127,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 					SourceLine: source.Line,
 				}
 				createIndexStmt.SetCreateIndex(matches[langutil.StmtRegexCreateIndex.Index])
-				stmts = append(stmts, createIndexStmt)
+				createIndexStmts = append(createIndexStmts, createIndexStmt)
 				continue
 			}
 
@@ -219,12 +219,9 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		} else {
 			logs.Warn.Printf("parseFile: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, "no columns")
 		}
+		stmts = append(stmts, createIndexStmts...) // NOTE: an index comes after its table
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
-		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
-	})
-
 	for i := range stmts {
 		logs.Trace.Print(fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()))
 	}
-- 
2.43.0


From 20cd2a2c487164f499233fb379ce3483afe3bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:34 +0000
Subject: [PATCH 23/62] fix: obey only the annotations of the given Go DDL tag

---
 pkg/internal/lang/go/extract_source.go | 11 ++++++++---
 pkg/internal/lang/go/parse.go          |  5 +++++
 pkg/internal/lang/util/regex.go        |  8 ++++----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index c9b3d92..15b3d82 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -42,15 +42,20 @@ const (
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, config.DDLTagGo()))
+		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(config.DDLTagGo())))
 	})
 	return _DDLTagGoCommentLineRegex
 }
 
+// isDDLTagGo reports whether the line of a comment is a DDLTagGo annotation.
+func isDDLTagGo(line string) bool {
+	return len(DDLTagGoCommentLineRegex().FindStringSubmatch(line)) > _DDLTagGoCommentLineRegexContentIndex
+}
+
 // containsDDLTagGo reports whether a line of the comment is a DDLTagGo annotation.
 func containsDDLTagGo(comment *ast.Comment) bool {
 	for _, line := range commentLines(comment) {
-		if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(line); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+		if isDDLTagGo(line) {
 			return true
 		}
 	}
@@ -89,7 +94,7 @@ func annotates(commentGroup *ast.CommentGroup, node ast.Node) bool {
 func isCreateIndexOnly(commentGroup *ast.CommentGroup) bool {
 	for _, comment := range commentGroup.List {
 		for _, line := range commentLines(comment) {
-			if DDLTagGoCommentLineRegex().MatchString(line) && !langutil.StmtRegexCreateIndex.Regex.MatchString(line) {
+			if isDDLTagGo(line) && !langutil.StmtRegexCreateIndex.Regex.MatchString(line) {
 				return false
 			}
 		}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index fc072e9..686f80a 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -117,6 +117,11 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			if !isDDLTagGo(comment) {
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
diff --git a/pkg/internal/lang/util/regex.go b/pkg/internal/lang/util/regex.go
index 435e85d..a9598c7 100644
--- a/pkg/internal/lang/util/regex.go
+++ b/pkg/internal/lang/util/regex.go
@@ -10,19 +10,19 @@ type StmtRegex struct {
 //nolint:gochecknoglobals
 var (
 	StmtRegexCreateTable = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*table(s)?\s*[: ]\s*((CREATE\s+TABLE\s+)?\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*table(s)?\s*[: ]\s*((CREATE\s+TABLE\s+)?\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is CREATE TABLE name
 	}
 	StmtRegexCreateTableConstraint = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*constraint(s)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*constraint(s)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is CONSTRAINT
 	}
 	StmtRegexCreateTableOptions = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*option(s)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*option(s)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is OPTION
 	}
 	StmtRegexCreateIndex = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*index(es)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*index(es)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is INDEX name
 	}
 )
-- 
2.43.0


From 802f047f59f8f3409238d9f1cceb6943994204a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 24/62] fix: Go struct fields without tag, embedded, declared
 together or with an interpreted string tag

---
 pkg/internal/lang/go/parse.go | 128 +++++++++++++++++++++++-----------
 1 file changed, 88 insertions(+), 40 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 686f80a..b3c332c 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -162,49 +163,55 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		// columns
 		if r.StructType != nil {
 			for _, field := range r.StructType.Fields.List {
-				column := &generator.CreateTableColumn{}
-
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
-
-				// column name
-				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
-				case "-":
-					createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo()))
-					continue
-				case "":
-					name := field.Names[0].Name
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo(), name))
-					column.ColumnName = name
-				default:
-					column.ColumnName = columnName
+				tag := fieldTag(field)
+				fieldNames := fieldNames(field)
+				if tag.Get(config.ColumnTagGo()) != "" {
+					fieldNames = fieldNames[:1] // NOTE: the tag names only one column
 				}
 
-				// column type and constraint
-				switch columnTypeConstraint := tag.Get(config.DDLTagGo()); columnTypeConstraint {
-				case "", "-":
-					// NOTE: ignore no-annotation fields
-					// column.Comments = append(column.Comments, fmt.Sprintf("ERROR: the \"%s\" struct's \"%s\" field does not have a tag for column type and constraint (`%s:\"<TYPE> [CONSTRAINT]\"`)", r.TypeSpec.Name, field.Names[0], config.DDLTagGo()))
-					// column.TypeConstraint = DDLCTL_ERROR_STRUCT_FIELD_TAG_NOT_FOUND
-					continue
-				default:
-					column.TypeConstraint = columnTypeConstraint
+				for _, fieldName := range fieldNames {
+					column := &generator.CreateTableColumn{}
+
+					// column name
+					switch columnName := tag.Get(config.ColumnTagGo()); columnName {
+					case "-":
+						createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, fieldName, config.ColumnTagGo()))
+						continue
+					case "":
+						name := fieldName
+						column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, fieldName, config.ColumnTagGo(), name))
+						column.ColumnName = name
+					default:
+						column.ColumnName = columnName
+					}
+
+					// column type and constraint
+					switch columnTypeConstraint := tag.Get(config.DDLTagGo()); columnTypeConstraint {
+					case "", "-":
+						// NOTE: ignore no-annotation fields
+						// column.Comments = append(column.Comments, fmt.Sprintf("ERROR: the \"%s\" struct's \"%s\" field does not have a tag for column type and constraint (`%s:\"<TYPE> [CONSTRAINT]\"`)", r.TypeSpec.Name, fieldName, config.DDLTagGo()))
+						// column.TypeConstraint = DDLCTL_ERROR_STRUCT_FIELD_TAG_NOT_FOUND
+						continue
+					default:
+						column.TypeConstraint = columnTypeConstraint
+					}
+
+					// primary key
+					switch primaryKey := tag.Get(config.PKTagGo()); primaryKey {
+					case "true", "1":
+						createTableStmt.PrimaryKey = append(createTableStmt.PrimaryKey, column.ColumnName)
+					case "", "-":
+						// do nothing
+					default:
+						column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", fieldName, config.PKTagGo()))
+					}
+
+					// comments
+					comments := strings.Split(strings.Trim(field.Doc.Text(), "\n"), "\n")
+					column.Comments = append(column.Comments, langutil.TrimCommentElementTailEmpty(langutil.TrimCommentElementHasPrefix(comments, config.DDLTagGo()))...)
+
+					createTableStmt.Columns = append(createTableStmt.Columns, column)
 				}
-
-				// primary key
-				switch primaryKey := tag.Get(config.PKTagGo()); primaryKey {
-				case "true", "1":
-					createTableStmt.PrimaryKey = append(createTableStmt.PrimaryKey, column.ColumnName)
-				case "", "-":
-					// do nothing
-				default:
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", field.Names[0], config.PKTagGo()))
-				}
-
-				// comments
-				comments := strings.Split(strings.Trim(field.Doc.Text(), "\n"), "\n")
-				column.Comments = append(column.Comments, langutil.TrimCommentElementTailEmpty(langutil.TrimCommentElementHasPrefix(comments, config.DDLTagGo()))...)
-
-				createTableStmt.Columns = append(createTableStmt.Columns, column)
 			}
 		}
 
@@ -234,6 +241,47 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// fieldTag returns the tag of the struct field, which is empty if there is none.
+func fieldTag(field *ast.Field) reflect.StructTag {
+	if field.Tag == nil {
+		return ""
+	}
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+	return reflect.StructTag(tag)
+}
+
+// fieldNames returns the names of the struct field. The name of an embedded field is the name of its type.
+func fieldNames(field *ast.Field) []string {
+	names := make([]string, 0)
+	for _, name := range field.Names {
+		names = append(names, name.Name)
+	}
+	if len(names) > 0 {
+		return names
+	}
+
+	expr := field.Type
+	for {
+		switch e := expr.(type) {
+		case *ast.StarExpr:
+			expr = e.X
+		case *ast.IndexExpr:
+			expr = e.X
+		case *ast.IndexListExpr:
+			expr = e.X
+		case *ast.SelectorExpr:
+			return []string{e.Sel.Name}
+		case *ast.Ident:
+			return []string{e.Name}
+		default:
+			return []string{""}
+		}
+	}
+}
+
 // commentLines returns the lines of a comment without the comment markers.
 func commentLines(comment *ast.Comment) []string {
 	text, isBlock := strings.CutPrefix(comment.Text, "/*")
-- 
2.43.0


From 46e840410d3447cf32df214c68734f278e78e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 25/62] fix: mysql table options may be separated by commas

---
 pkg/ddl/mysql/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index ee8b986..0c06fad 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -263,6 +263,13 @@ LabelTableOptions:
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
 			opt.Value = opt.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
+		case TOKEN_COMMA:
+			// NOTE: table options may be separated by a comma
+			if len(createTableStmt.Options) == 0 || p.isPeekToken(TOKEN_COMMA, TOKEN_SEMICOLON, TOKEN_EOF) {
+				return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			p.nextToken() // current = table_option
+			continue
 		case TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelTableOptions
 		default:
-- 
2.43.0


From 1aa3fea1f0c15a3d626c2a0d26e712ab4ef0e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 26/62] fix: generate touches the destination only once the DDL
 is generated, and needs two arguments

---
 pkg/ddlctl/generate/ddlctl_generate.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..02c4c0a 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -22,6 +23,11 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
@@ -36,14 +42,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// NOTE: do not touch the destination unless the DDL is generated.
+	buf := new(bytes.Buffer)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, buf.Bytes(), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From 4301335e7c75afae042c2cd8c0562454a414403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 27/62] fix: show needs exactly one argument

---
 pkg/apperr/errors.go           | 1 +
 pkg/ddlctl/show/ddlctl_show.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..6781e54 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,9 +26,13 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
-		return apperr.Errorf("diff: %w", err)
+		return apperr.Errorf("show: %w", err)
 	}
 
 	if _, err := io.WriteString(os.Stdout, ddl); err != nil {
-- 
2.43.0


From 8b8e5a1ea15f19a33073ca3d0c5f802586d4b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 28/62] fix: refuse an unknown subcommand

---
 pkg/apperr/errors.go | 1 +
 pkg/ddlctl/ddlctl.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index 0a59680..15507cb 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrUnknownSubCommand                  = errors.New("unknown subcommand")
 	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
diff --git a/pkg/ddlctl/ddlctl.go b/pkg/ddlctl/ddlctl.go
index 657c4f7..69e2bb7 100644
--- a/pkg/ddlctl/ddlctl.go
+++ b/pkg/ddlctl/ddlctl.go
@@ -126,7 +126,11 @@ func DDLCtl(ctx context.Context) error {
 				Default:     cliz.Default(false),
 			},
 		},
-		RunFunc: func(ctx context.Context, _ []string) error {
+		RunFunc: func(ctx context.Context, args []string) error {
+			if len(args) > 0 {
+				return apperr.Errorf("args=%v: %w", args, apperr.ErrUnknownSubCommand)
+			}
+
 			cmd, err := cliz.FromContext(ctx)
 			if err != nil {
 				return apperr.Errorf("cliz.FromContext: %w", err)
-- 
2.43.0


From 638002feeed665f44df17440eb0058a54b5e43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:02 +0000
Subject: [PATCH 29/62] fix: refuse a closing parenthesis between statements

---
 pkg/ddl/cockroachdb/parser.go | 2 --
 pkg/ddl/mysql/parser.go       | 2 --
 pkg/ddl/postgres/parser.go    | 2 --
 pkg/ddl/spanner/parser.go     | 2 --
 4 files changed, 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index ae28d30..6afe34a 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -99,8 +99,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 0c06fad..27062fc 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -98,8 +98,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index b4aa09d..09fdf3e 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -99,8 +99,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 628a7d9..30cdb34 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -98,8 +98,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
-- 
2.43.0


From 44b20b0c914986d1c81e8859c45b7743f49a5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:13 +0000
Subject: [PATCH 30/62] fix: refuse DEFAULT without a value

---
 pkg/ddl/cockroachdb/parser.go | 4 ++++
 pkg/ddl/mysql/parser.go       | 4 ++++
 pkg/ddl/postgres/parser.go    | 4 ++++
 pkg/ddl/spanner/parser.go     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6afe34a..07a268e 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -413,6 +413,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("default value is empty: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 27062fc..e8f6bfb 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -488,6 +488,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("default value is empty: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 09fdf3e..cd1a5cf 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -387,6 +387,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("default value is empty: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 30cdb34..34c4ed4 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -530,6 +530,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("default value is empty: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
-- 
2.43.0


From b8cefe320be00769c35967b1c38ffdd928d18c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 31/62] fix: refuse malformed column lists and text behind
 CREATE INDEX

---
 pkg/ddl/cockroachdb/parser.go | 24 +++++++++++++++++++++---
 pkg/ddl/mysql/parser.go       | 24 +++++++++++++++++++++---
 pkg/ddl/postgres/parser.go    | 24 +++++++++++++++++++++---
 pkg/ddl/spanner/parser.go     | 24 +++++++++++++++++++++---
 4 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 07a268e..89b7c09 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -282,6 +282,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		createIndexStmt.UsingPostColumns = using
 	}
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -853,12 +857,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	afterIdent := false // whether a comma or the closing parenthesis comes next
+
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) {
+		p.nextToken() // current = column_name
+	}
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
+			if afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = true
 			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
 			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
 			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
@@ -870,8 +882,14 @@ LabelIdents:
 			} //diff:ignore-line-postgres-cockroach
 			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = false
 		case TOKEN_CLOSE_PAREN:
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			p.nextToken()
 			break LabelIdents
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index e8f6bfb..c45235f 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -343,6 +343,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -824,12 +828,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	afterIdent := false // whether a comma or the closing parenthesis comes next
+
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) {
+		p.nextToken() // current = column_name
+	}
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
+			if afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = true
 			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
 			switch p.peekToken.Type { //nolint:exhaustive
 			case TOKEN_ASC:
@@ -843,8 +855,14 @@ LabelIdents:
 			}
 			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = false
 		case TOKEN_CLOSE_PAREN:
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			p.nextToken()
 			break LabelIdents
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index cd1a5cf..916196d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -269,6 +269,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -731,17 +735,31 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	afterIdent := false // whether a comma or the closing parenthesis comes next
+
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) {
+		p.nextToken() // current = column_name
+	}
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
+			if afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = true
 			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
 			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = false
 		case TOKEN_CLOSE_PAREN:
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			p.nextToken()
 			break LabelIdents
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 34c4ed4..e99cbf4 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -408,6 +408,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -738,12 +742,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	afterIdent := false // whether a comma or the closing parenthesis comes next
+
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) {
+		p.nextToken() // current = column_name
+	}
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
+			if afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = true
 			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
 			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
 			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
@@ -755,8 +767,14 @@ LabelIdents:
 			} //diff:ignore-line-postgres-cockroach
 			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			afterIdent = false
 		case TOKEN_CLOSE_PAREN:
+			if !afterIdent {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			p.nextToken()
 			break LabelIdents
 		default:
-- 
2.43.0


From 21974dfedff621335e875679e282671d12bbc73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:35 +0000
Subject: [PATCH 32/62] fix: DEFAULT NULL is the same as no default

---
 pkg/ddl/cockroachdb/ddl_table.go         | 9 +++++++++
 pkg/ddl/cockroachdb/diff_create_table.go | 4 ++--
 pkg/ddl/mysql/ddl_table.go               | 9 +++++++++
 pkg/ddl/mysql/diff_create_table.go       | 4 ++--
 pkg/ddl/postgres/ddl_table.go            | 9 +++++++++
 pkg/ddl/postgres/diff_create_table.go    | 4 ++--
 6 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index c8b61d9..fa6eaee 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -301,6 +301,15 @@ type Column struct {
 	As         *As //diff:ignore-line-postgres-cockroach
 }
 
+// defaultForDiff returns the default of the column for comparison.
+// DEFAULT NULL is what a column without a DEFAULT clause has, too.
+func (c *Column) defaultForDiff() *Default {
+	if d := c.Default; d != nil && d.Value != nil && len(d.Value.Idents) == 1 && strings.EqualFold(d.Value.Idents[0].Raw, "NULL") {
+		return nil
+	}
+	return c.Default
+}
+
 type Default struct {
 	Value *Expr
 }
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index ceb3b34..b21056a 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -233,7 +233,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.Default != nil && afterColumn.Default == nil:
+		case beforeColumn.defaultForDiff() != nil && afterColumn.Default == nil:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP DEFAULT;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -242,7 +242,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():
+		case beforeColumn.defaultForDiff().StringForDiff() != afterColumn.defaultForDiff().StringForDiff():
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DEFAULT default_value;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 4cf168a..9ab0f7f 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -292,6 +292,15 @@ type Column struct {
 	Comment       string
 }
 
+// defaultForDiff returns the default of the column for comparison.
+// DEFAULT NULL is what a column without a DEFAULT clause has, too.
+func (c *Column) defaultForDiff() *Default {
+	if d := c.Default; d != nil && d.Value != nil && len(d.Value.Idents) == 1 && strings.EqualFold(d.Value.Idents[0].Raw, "NULL") {
+		return nil
+	}
+	return c.Default
+}
+
 type Default struct {
 	Value *Expr
 }
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 701e75d..9ce5666 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,13 +261,13 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
-		dropDefault := beforeColumn.Default != nil && afterColumn.Default == nil
+		dropDefault := beforeColumn.defaultForDiff() != nil && afterColumn.Default == nil
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
 			beforeColumn.NotNull != afterColumn.NotNull ||
-			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
+			(!dropDefault && beforeColumn.defaultForDiff().StringForDiff() != afterColumn.defaultForDiff().StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			beforeColumn.Comment != afterColumn.Comment {
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index fd05086..f7f2fe8 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -268,6 +268,15 @@ type Column struct {
 	NotNull  bool
 }
 
+// defaultForDiff returns the default of the column for comparison.
+// DEFAULT NULL is what a column without a DEFAULT clause has, too.
+func (c *Column) defaultForDiff() *Default {
+	if d := c.Default; d != nil && d.Value != nil && len(d.Value.Idents) == 1 && strings.EqualFold(d.Value.Idents[0].Raw, "NULL") {
+		return nil
+	}
+	return c.Default
+}
+
 type Default struct {
 	Value *Expr
 }
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..ff83597 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -166,7 +166,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.Default != nil && afterColumn.Default == nil:
+		case beforeColumn.defaultForDiff() != nil && afterColumn.Default == nil:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP DEFAULT;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -175,7 +175,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():
+		case beforeColumn.defaultForDiff().StringForDiff() != afterColumn.defaultForDiff().StringForDiff():
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DEFAULT default_value;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
-- 
2.43.0


From b1a0114aaf571de142ac03ec96dbafdf669cfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 33/62] fix: primary key columns are NOT NULL, whether they say
 so or not

---
 pkg/ddl/cockroachdb/ddl_table_create.go  | 13 +++++++++++++
 pkg/ddl/cockroachdb/diff_create_table.go |  2 ++
 pkg/ddl/mysql/ddl_table_create.go        | 13 +++++++++++++
 pkg/ddl/mysql/diff_create_table.go       |  5 ++++-
 pkg/ddl/postgres/ddl_table_create.go     | 13 +++++++++++++
 pkg/ddl/postgres/diff_create_table.go    |  2 ++
 6 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table_create.go b/pkg/ddl/cockroachdb/ddl_table_create.go
index bb1847c..24d5a55 100644
--- a/pkg/ddl/cockroachdb/ddl_table_create.go
+++ b/pkg/ddl/cockroachdb/ddl_table_create.go
@@ -81,3 +81,16 @@ func (s *CreateTableStmt) String() string {
 
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
+
+func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
+	for _, constraint := range s.Constraints {
+		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, c := range pk.Columns {
+				if c.Ident.StringForDiff() == column.Name.StringForDiff() {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b21056a..4caea20 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -255,6 +255,8 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
+		case before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn):
+			// the columns of a primary key are NOT NULL, whether they say so or not
 		case beforeColumn.NotNull && !afterColumn.NotNull:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
diff --git a/pkg/ddl/mysql/ddl_table_create.go b/pkg/ddl/mysql/ddl_table_create.go
index 57ca772..7e82388 100644
--- a/pkg/ddl/mysql/ddl_table_create.go
+++ b/pkg/ddl/mysql/ddl_table_create.go
@@ -74,3 +74,16 @@ func (s *CreateTableStmt) String() string {
 
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
+
+func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
+	for _, constraint := range s.Constraints {
+		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, c := range pk.Columns {
+				if c.Ident.StringForDiff() == column.Name.StringForDiff() {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 9ce5666..5d54709 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,12 +261,15 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
+		// the columns of a primary key are NOT NULL, whether they say so or not
+		bothPrimaryKey := before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn)
+
 		dropDefault := beforeColumn.defaultForDiff() != nil && afterColumn.Default == nil
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
-			beforeColumn.NotNull != afterColumn.NotNull ||
+			(beforeColumn.NotNull != afterColumn.NotNull && !bothPrimaryKey) ||
 			(!dropDefault && beforeColumn.defaultForDiff().StringForDiff() != afterColumn.defaultForDiff().StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
diff --git a/pkg/ddl/postgres/ddl_table_create.go b/pkg/ddl/postgres/ddl_table_create.go
index 3f9d63e..98eb2c5 100644
--- a/pkg/ddl/postgres/ddl_table_create.go
+++ b/pkg/ddl/postgres/ddl_table_create.go
@@ -81,3 +81,16 @@ func (s *CreateTableStmt) String() string {
 
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
+
+func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
+	for _, constraint := range s.Constraints {
+		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, c := range pk.Columns {
+				if c.Ident.StringForDiff() == column.Name.StringForDiff() {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index ff83597..e064efb 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -188,6 +188,8 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
+		case before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn):
+			// the columns of a primary key are NOT NULL, whether they say so or not
 		case beforeColumn.NotNull && !afterColumn.NotNull:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
-- 
2.43.0


From 10f866448684433f71c1f7e98898a0e4919879a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:47 +0000
Subject: [PATCH 34/62] fix: accept TIMESTAMP [(p)] WITH and WITHOUT TIME ZONE

---
 pkg/ddl/cockroachdb/parser.go | 29 ++++++++++++++++++++++++++---
 pkg/ddl/postgres/parser.go    | 29 ++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 89b7c09..cd46cfe 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -804,7 +804,16 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	switch p.currentToken.Type { //nolint:exhaustive
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
-		if p.isPeekToken(TOKEN_WITH) {
+		if p.isPeekToken(TOKEN_OPEN_PAREN) { // TIMESTAMP (precision) [ WITH | WITHOUT TIME ZONE ]
+			p.nextToken() // current = (
+			idents, err := p.parseIdents()
+			if err != nil {
+				return nil, apperr.Errorf("parseIdents: %w", err)
+			}
+			dataType.Expr = dataType.Expr.Append(idents...)
+		}
+		switch {
+		case p.isPeekToken(TOKEN_WITH):
 			p.nextToken() // current = WITH
 			dataType.Name += " " + p.currentToken.Literal.String()
 			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
@@ -818,7 +827,21 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			p.nextToken() // current = ZONE
 			dataType.Name += " " + p.currentToken.Literal.String()
 			dataType.Type = TOKEN_TIMESTAMPTZ //diff:ignore-line-postgres-cockroach
-		} else {
+			if dataType.Expr != nil {
+				dataType.Name = "TIMESTAMPTZ" // the precision is printed behind the name
+			}
+		case p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT"): // the default
+			p.nextToken() // current = WITHOUT
+			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = TIME
+			if err := p.checkPeekToken(TOKEN_ZONE); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = ZONE
+			dataType.Type = TOKEN_TIMESTAMP
+		default:
 			dataType.Type = TOKEN_TIMESTAMP
 		}
 	case TOKEN_DOUBLE:
@@ -842,7 +865,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = p.currentToken.Type
 	}
 
-	if p.isPeekToken(TOKEN_OPEN_PAREN) {
+	if dataType.Expr == nil && p.isPeekToken(TOKEN_OPEN_PAREN) {
 		p.nextToken() // current = (
 		idents, err := p.parseIdents()
 		if err != nil {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 916196d..51f3ea4 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -682,7 +682,16 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE  //diff:ignore-line-postgres-cockroach
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
-		if p.isPeekToken(TOKEN_WITH) {
+		if p.isPeekToken(TOKEN_OPEN_PAREN) { // TIMESTAMP (precision) [ WITH | WITHOUT TIME ZONE ]
+			p.nextToken() // current = (
+			idents, err := p.parseIdents()
+			if err != nil {
+				return nil, apperr.Errorf("parseIdents: %w", err)
+			}
+			dataType.Expr = dataType.Expr.Append(idents...)
+		}
+		switch {
+		case p.isPeekToken(TOKEN_WITH):
 			p.nextToken() // current = WITH
 			dataType.Name += " " + p.currentToken.Literal.String()
 			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
@@ -696,7 +705,21 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			p.nextToken() // current = ZONE
 			dataType.Name += " " + p.currentToken.Literal.String()
 			dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE //diff:ignore-line-postgres-cockroach
-		} else {
+			if dataType.Expr != nil {
+				dataType.Name = "TIMESTAMPTZ" // the precision is printed behind the name
+			}
+		case p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT"): // the default
+			p.nextToken() // current = WITHOUT
+			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = TIME
+			if err := p.checkPeekToken(TOKEN_ZONE); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = ZONE
+			dataType.Type = TOKEN_TIMESTAMP
+		default:
 			dataType.Type = TOKEN_TIMESTAMP
 		}
 	case TOKEN_DOUBLE:
@@ -720,7 +743,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = p.currentToken.Type
 	}
 
-	if p.isPeekToken(TOKEN_OPEN_PAREN) {
+	if dataType.Expr == nil && p.isPeekToken(TOKEN_OPEN_PAREN) {
 		p.nextToken() // current = (
 		idents, err := p.parseIdents()
 		if err != nil {
-- 
2.43.0


From ac6ef0d32b85e330717828462db50a25e976c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:19 +0000
Subject: [PATCH 35/62] fix: NO ACTION is the same as no foreign key action

---
 pkg/ddl/cockroachdb/diff_create_table.go | 17 ++++++++++++++++-
 pkg/ddl/mysql/diff_create_table.go       | 16 +++++++++++++++-
 pkg/ddl/postgres/diff_create_table.go    | 17 ++++++++++++++++-
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 4caea20..51323a8 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -102,7 +103,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
@@ -321,6 +322,20 @@ func isComputedColumnRemoved(before, after *Column) bool { //diff:ignore-line-po
 	return before.As.StringForDiff() != after.As.StringForDiff() //diff:ignore-line-postgres-cockroach
 } //diff:ignore-line-postgres-cockroach
 
+// constraintForDiff returns the constraint as it is compared.
+// NO ACTION is what a foreign key without an action has, too.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		c := *fk
+		onAction := " " + strings.Join(strings.Fields(strings.ToUpper(fk.OnAction)), " ")
+		onAction = strings.ReplaceAll(onAction, " ON DELETE NO ACTION", "")
+		onAction = strings.ReplaceAll(onAction, " ON UPDATE NO ACTION", "")
+		c.OnAction = strings.TrimSpace(onAction)
+		return c.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findColumnByName(name string, columns []*Column) *Column {
 	for _, column := range columns {
 		if column.Name.Name == name {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 5d54709..bd3fbf8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -108,7 +108,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) {
 				case *IndexConstraint:
 					// DROP INDEX index_name;
@@ -327,6 +327,20 @@ func onlyLeftColumn(left, right []*Column) []*Column {
 	return onlyLeftColumns
 }
 
+// constraintForDiff returns the constraint as it is compared.
+// NO ACTION is what a foreign key without an action has, too.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		c := *fk
+		onAction := " " + strings.Join(strings.Fields(strings.ToUpper(fk.OnAction)), " ")
+		onAction = strings.ReplaceAll(onAction, " ON DELETE NO ACTION", "")
+		onAction = strings.ReplaceAll(onAction, " ON UPDATE NO ACTION", "")
+		c.OnAction = strings.TrimSpace(onAction)
+		return c.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findColumnByName(name string, columns []*Column) *Column {
 	for _, column := range columns {
 		if column.Name.Name == name {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index e064efb..e1cfbf8 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -92,7 +93,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
 				result.Stmts = append(
@@ -234,6 +235,20 @@ func onlyLeftColumn(left, right []*Column) []*Column {
 	return onlyLeftColumns
 }
 
+// constraintForDiff returns the constraint as it is compared.
+// NO ACTION is what a foreign key without an action has, too.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		c := *fk
+		onAction := " " + strings.Join(strings.Fields(strings.ToUpper(fk.OnAction)), " ")
+		onAction = strings.ReplaceAll(onAction, " ON DELETE NO ACTION", "")
+		onAction = strings.ReplaceAll(onAction, " ON UPDATE NO ACTION", "")
+		c.OnAction = strings.TrimSpace(onAction)
+		return c.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findColumnByName(name string, columns []*Column) *Column {
 	for _, column := range columns {
 		if column.Name.Name == name {
-- 
2.43.0


From bde0e684863cf6a49bfae5f9441e19ed4bfbf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 36/62] fix: mysql show lists views as if they were tables

---
 pkg/show/mysql/show_create_all_tables.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..24c648e 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
@@ -52,7 +53,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
@@ -66,7 +67,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 	for _, tn := range *tableNames {
 		showCreateTable := new(ShowCreateTable)
-		showCreateTableQuery := fmt.Sprintf("SHOW CREATE TABLE `%s`", tn.TableName)
+		showCreateTableQuery := fmt.Sprintf("SHOW CREATE TABLE `%s`", strings.ReplaceAll(tn.TableName, "`", "``"))
 		if err := dbz.QueryContext(ctx, showCreateTable, showCreateTableQuery); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", showCreateTableQuery, err)
 		}
-- 
2.43.0


From c383ece1a61404a974a9bbc72ad07ddb94e85030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:55 +0000
Subject: [PATCH 37/62] fix: cockroachdb show printed foreign keys as ALTER
 TABLE, which diff cannot read

---
 .../cockroachdb/show_create_all_tables.go     | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pkg/show/cockroachdb/show_create_all_tables.go b/pkg/show/cockroachdb/show_create_all_tables.go
index 1a9919c..1749e0a 100644
--- a/pkg/show/cockroachdb/show_create_all_tables.go
+++ b/pkg/show/cockroachdb/show_create_all_tables.go
@@ -3,6 +3,7 @@ package cockroachdb
 import (
 	"context"
 	"database/sql"
+	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
@@ -13,9 +14,20 @@ type sqlQueryerContext = interface {
 	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
 }
 
+// MEMO: SHOW CREATE ALL TABLES also lists views and sequences, and takes the
+// foreign keys out of CREATE TABLE.
 const (
-	queryShowCreateAllTables = `-- CREATE TABLE
-SHOW CREATE ALL TABLES
+	querySelectTables = `-- TABLES
+SELECT
+    table_schema,
+    table_name
+FROM
+    information_schema.tables
+WHERE
+    table_type = 'BASE TABLE'
+    AND table_schema NOT IN ('crdb_internal', 'information_schema', 'pg_catalog', 'pg_extension')
+ORDER BY
+    table_schema, table_name
 ;
 `
 )
@@ -23,17 +35,31 @@ SHOW CREATE ALL TABLES
 func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext) (query string, err error) {
 	dbz := sqlz.NewDB(db)
 
+	type Table struct {
+		TableSchema string `db:"table_schema"`
+		TableName   string `db:"table_name"`
+	}
 	type CreateStatement struct {
 		CreateStatement string `db:"create_statement"`
 	}
 
-	createTableStmts := new([]*CreateStatement)
-	if err := dbz.QueryContext(ctx, createTableStmts, queryShowCreateAllTables); err != nil {
+	tables := new([]*Table)
+	if err := dbz.QueryContext(ctx, tables, querySelectTables); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: %w", err)
 	}
-	for _, stmt := range *createTableStmts {
-		query += stmt.CreateStatement + "\n"
+
+	for _, table := range *tables {
+		createTableStmt := new(CreateStatement)
+		q := "SHOW CREATE TABLE " + quote(table.TableSchema) + "." + quote(table.TableName)
+		if err := dbz.QueryContext(ctx, createTableStmt, q); err != nil {
+			return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", q, err)
+		}
+		query += createTableStmt.CreateStatement + ";\n"
 	}
 
 	return query, nil
 }
+
+func quote(name string) string {
+	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+}
-- 
2.43.0


From d7dd47ae6350069bbab11f8b197fee5f8785349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:43 +0000
Subject: [PATCH 38/62] fix: postgres show lost foreign key references, checks,
 type modifiers and quotes, and listed views as tables

---
 pkg/show/postgres/show_create_all_tables.go | 85 +++++++++++----------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..7d08fe2 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -17,65 +17,68 @@ type sqlQueryerContext = interface {
 const (
 	formatShowCreateAllTables = `-- CREATE TABLE
 SELECT
-    'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\n' || '  ' ||
+    'CREATE TABLE ' || quote_ident(n.nspname) || '.' || quote_ident(c.relname) || ' (' || E'\n' || '  ' ||
     clmn.column_defs ||
     (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\n' || ');' AS create_statement
 FROM
+    pg_catalog.pg_class c
+JOIN
+    pg_catalog.pg_namespace n ON n.oid = c.relnamespace
+JOIN
     (
         -- COLUMN DEFINITIONS
         SELECT
-            c.table_schema,
-            c.table_name,
+            a.attrelid,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
-                (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
-                (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
-                (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
-                ',' || E'\n' || '  ' ORDER BY c.ordinal_position
+                quote_ident(a.attname) || ' ' || format_type(a.atttypid, a.atttypmod) ||
+                (CASE WHEN a.attnotnull THEN ' NOT NULL' ELSE '' END) ||
+                (CASE
+                    WHEN a.attgenerated <> '' THEN ' GENERATED ALWAYS AS (' || pg_get_expr(ad.adbin, ad.adrelid) || ') STORED'
+                    WHEN a.attidentity = 'a' THEN ' GENERATED ALWAYS AS IDENTITY'
+                    WHEN a.attidentity = 'd' THEN ' GENERATED BY DEFAULT AS IDENTITY'
+                    WHEN ad.adbin IS NOT NULL THEN ' DEFAULT ' || pg_get_expr(ad.adbin, ad.adrelid)
+                    ELSE ''
+                END),
+                ',' || E'\n' || '  ' ORDER BY a.attnum
             ) AS column_defs
         FROM
-            information_schema.columns c
+            pg_catalog.pg_attribute a
+        LEFT JOIN
+            pg_catalog.pg_attrdef ad ON ad.adrelid = a.attrelid AND ad.adnum = a.attnum
         WHERE
-            c.table_schema = '%s'
+            a.attnum > 0 AND NOT a.attisdropped
         GROUP BY
-            c.table_schema, c.table_name
-    ) clmn
+            a.attrelid
+    ) clmn ON clmn.attrelid = c.oid
 LEFT JOIN
     (
         -- CONSTRAINT DEFINITIONS
+        -- MEMO: pg_get_constraintdef leaves out the schema of the referenced table if it is in the search_path
         SELECT
-            tc.table_schema,
-            tc.table_name,
+            con.conrelid,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  '
+                'CONSTRAINT ' || quote_ident(con.conname) || ' ' ||
+                (CASE WHEN con.contype = 'f'
+                    THEN regexp_replace(pg_get_constraintdef(con.oid), ' REFERENCES ("[^"]*"|[^"(])*\(', ' REFERENCES ' || quote_ident(fn.nspname) || '.' || quote_ident(fc.relname) || ' (')
+                    ELSE pg_get_constraintdef(con.oid)
+                END),
+                ',' || E'\n' || '  ' ORDER BY con.conname
             ) AS constraint_defs
         FROM
-            information_schema.table_constraints tc
-        JOIN
-            (
-                -- CONSTRAINT COLUMN NAMES
-                SELECT
-                    kcu.table_schema,
-                    kcu.table_name,
-                    kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
-                FROM
-                    information_schema.key_column_usage kcu
-                GROUP BY
-                    kcu.table_schema, kcu.table_name, kcu.constraint_name
-            ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
+            pg_catalog.pg_constraint con
+        LEFT JOIN
+            pg_catalog.pg_class fc ON fc.oid = con.confrelid
         LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            pg_catalog.pg_namespace fn ON fn.oid = fc.relnamespace
         WHERE
-            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
+            con.contype IN ('p', 'u', 'f', 'c')
         GROUP BY
-            tc.table_schema, tc.table_name
-    ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name
+            con.conrelid
+    ) cnst ON cnst.conrelid = c.oid
+WHERE
+    n.nspname = '%s' AND c.relkind IN ('r', 'p') AND NOT c.relispartition
 ORDER BY
-    clmn.table_schema, clmn.table_name
+    n.nspname, c.relname
 ;
 `
 	// 	formatShowCreateAllIndexes = `-- CREATE INDEX
@@ -101,7 +104,11 @@ WHERE
     schemaname = '%s' AND indexname NOT IN (
         SELECT constraint_name
         FROM information_schema.table_constraints
-        WHERE table_schema = '%s'
+        WHERE constraint_type IN ('PRIMARY KEY', 'UNIQUE') AND table_schema = '%s'
+    ) AND tablename IN (
+        SELECT tablename
+        FROM pg_tables
+        WHERE schemaname = '%s'
     )
 ;
 `
@@ -148,7 +155,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	createIndexStmts := new([]*CreateStatement)
-	if err := dbz.QueryContext(ctx, createIndexStmts, fmt.Sprintf(formatShowCreateAllIndexes, cfg.schema, cfg.schema)); err != nil {
+	if err := dbz.QueryContext(ctx, createIndexStmts, fmt.Sprintf(formatShowCreateAllIndexes, cfg.schema, cfg.schema, cfg.schema)); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: %w", err)
 	}
 	for _, stmt := range *createIndexStmts {
-- 
2.43.0


From 694d72fc667dd66fd508ddb4bd03c995c636ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:47 +0000
Subject: [PATCH 39/62] fix: spanner show gave every index the columns of all
 indexes of its table

---
 pkg/show/spanner/show_create_all_tables.go | 51 ++++++++++++----------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..c3e40eb 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
@@ -106,7 +107,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY" AND NOT SPANNER_IS_MANAGED;`
 )
 
 type informationSchemaIndexName struct {
@@ -118,22 +119,18 @@ const (
 	queryShowIndexes = `-- SHOW INDEXES
 SELECT
     ic.INDEX_NAME,
-    i.INDEX_TYPE,
+    ic.INDEX_TYPE,
     ic.COLUMN_NAME,
     ic.COLUMN_ORDERING,
     ic.ORDINAL_POSITION
 FROM
-    INFORMATION_SCHEMA.INDEXES AS i
-INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
-ON
-    i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ? 
-    AND i.INDEX_TYPE != "PRIMARY_KEY" 
-    AND ic.INDEX_NAME != "PRIMARY_KEY" 
+    ic.TABLE_SCHEMA = ''
+    AND ic.TABLE_NAME = ?
+    AND ic.INDEX_NAME = ?
 ORDER BY
-    i.TABLE_NAME, ic.INDEX_NAME, ic.ORDINAL_POSITION
+    ic.ORDINAL_POSITION
 ;
 `
 )
@@ -141,11 +138,12 @@ ORDER BY
 type informationSchemaIndex struct {
 	// INDEXES https://cloud.google.com/spanner/docs/information-schema?hl=ja#indexes
 	// INDEX_COLUMNS https://cloud.google.com/spanner/docs/information-schema?hl=ja#index_columns
-	IndexName       string `db:"INDEX_NAME"`
-	IndexType       string `db:"INDEX_TYPE"`
-	ColumnName      string `db:"COLUMN_NAME"`
-	ColumnOrdering  string `db:"COLUMN_ORDERING"`
-	OrdinalPosition int    `db:"ORDINAL_POSITION"`
+	IndexName  string `db:"INDEX_NAME"`
+	IndexType  string `db:"INDEX_TYPE"`
+	ColumnName string `db:"COLUMN_NAME"`
+	// ColumnOrdering and OrdinalPosition are NULL for the columns in the STORING clause
+	ColumnOrdering  *string `db:"COLUMN_ORDERING"`
+	OrdinalPosition *int    `db:"ORDINAL_POSITION"`
 }
 
 type showCreateAllTablesConfig struct {
@@ -268,7 +266,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
@@ -278,14 +276,23 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			}
 			d += fmt.Sprintf("INDEX %s ON %s (", indexName.IndexName, tbl.TableName)
 
-			indexesLastIndex := len(indexes) - 1
-			for i, idx := range indexes {
-				d += idx.ColumnName
-				if i != indexesLastIndex {
-					d += ", "
+			keys := make([]string, 0)
+			storing := make([]string, 0)
+			for _, idx := range indexes {
+				switch {
+				case idx.OrdinalPosition == nil:
+					storing = append(storing, idx.ColumnName)
+				case idx.ColumnOrdering != nil && *idx.ColumnOrdering == "DESC":
+					keys = append(keys, idx.ColumnName+" DESC")
+				default:
+					keys = append(keys, idx.ColumnName)
 				}
 			}
-			d += ");\n"
+			d += strings.Join(keys, ", ") + ")"
+			if len(storing) > 0 {
+				d += " STORING (" + strings.Join(storing, ", ") + ")"
+			}
+			d += ";\n"
 
 			// append index
 			query += d
-- 
2.43.0


From 018cd8eb363caabffba13c50898b6bc7293b8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:49 +0000
Subject: [PATCH 40/62] fix: spanner show lost the order of primary key columns

---
 pkg/show/spanner/show_create_all_tables.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index c3e40eb..34a3cc3 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -85,9 +85,11 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ?
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
     AND i.INDEX_TYPE = "PRIMARY_KEY"
     AND ic.INDEX_TYPE = "PRIMARY_KEY"
 ORDER BY
@@ -235,6 +237,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From bb8855406f135c69ffb8f5029908bbda7363b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 41/62] fix: spanner show listed views as tables and printed
 DEFAULT before NOT NULL

---
 pkg/show/spanner/show_create_all_tables.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 34a3cc3..4bfc4eb 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -19,7 +19,7 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
@@ -36,7 +36,7 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 }
 
 const (
-	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
+	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
 
 type informationSchemaColumn struct {
@@ -49,17 +49,17 @@ type informationSchemaColumn struct {
 
 func (c *informationSchemaColumn) String() string {
 	d := fmt.Sprintf("%s %s", c.ColumnName, c.SpannerType)
-	if c.ColumnDefault != nil {
-		d += fmt.Sprintf(" DEFAULT (%s)", *c.ColumnDefault)
-	}
 	if c.IsNullable == "NO" {
 		d += " NOT NULL"
 	}
+	if c.ColumnDefault != nil {
+		d += fmt.Sprintf(" DEFAULT (%s)", *c.ColumnDefault)
+	}
 	return d
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ?;`
 )
 
 type informationSchemaColumnOption struct {
-- 
2.43.0


From febdd759fec9f91c0cf00227d79a52752c0dcb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 42/62] fix: spanner show lost foreign keys, checks and
 INTERLEAVE IN PARENT

---
 pkg/show/spanner/show_create_all_tables.go | 123 ++++++++++++++++++++-
 1 file changed, 120 insertions(+), 3 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 4bfc4eb..fe6d174 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -19,11 +19,13 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
+	querySelectTableName = `SELECT TABLE_NAME, PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
-	TableName string `db:"TABLE_NAME"`
+	TableName       string  `db:"TABLE_NAME"`
+	ParentTableName *string `db:"PARENT_TABLE_NAME"`
+	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
 }
 
 const (
@@ -72,6 +74,73 @@ func (c *informationSchemaColumnOption) String() string {
 	return fmt.Sprintf("%s = %s", c.OptionName, c.OptionValue)
 }
 
+const (
+	queryShowForeignKeys = `-- SHOW FOREIGN KEYS
+SELECT
+    kcu.CONSTRAINT_NAME,
+    kcu.COLUMN_NAME,
+    ref.TABLE_NAME AS REFERENCED_TABLE_NAME,
+    ref.COLUMN_NAME AS REFERENCED_COLUMN_NAME,
+    rc.DELETE_RULE
+FROM
+    INFORMATION_SCHEMA.KEY_COLUMN_USAGE AS kcu
+INNER JOIN
+    INFORMATION_SCHEMA.REFERENTIAL_CONSTRAINTS AS rc
+ON
+    rc.CONSTRAINT_SCHEMA = kcu.CONSTRAINT_SCHEMA
+    AND rc.CONSTRAINT_NAME = kcu.CONSTRAINT_NAME
+INNER JOIN
+    INFORMATION_SCHEMA.KEY_COLUMN_USAGE AS ref
+ON
+    ref.CONSTRAINT_SCHEMA = rc.UNIQUE_CONSTRAINT_SCHEMA
+    AND ref.CONSTRAINT_NAME = rc.UNIQUE_CONSTRAINT_NAME
+    AND ref.ORDINAL_POSITION = kcu.POSITION_IN_UNIQUE_CONSTRAINT
+WHERE
+    kcu.TABLE_SCHEMA = ''
+    AND kcu.TABLE_NAME = ?
+ORDER BY
+    kcu.CONSTRAINT_NAME, kcu.ORDINAL_POSITION
+;
+`
+)
+
+type informationSchemaForeignKey struct {
+	ConstraintName       string `db:"CONSTRAINT_NAME"`
+	ColumnName           string `db:"COLUMN_NAME"`
+	ReferencedTableName  string `db:"REFERENCED_TABLE_NAME"`
+	ReferencedColumnName string `db:"REFERENCED_COLUMN_NAME"`
+	DeleteRule           string `db:"DELETE_RULE"`
+}
+
+const (
+	// MEMO: NOT NULL columns are listed as CHECK constraints named CK_IS_NOT_NULL_{table}_{column}
+	queryShowChecks = `-- SHOW CHECKS
+SELECT
+    tc.CONSTRAINT_NAME,
+    cc.CHECK_CLAUSE
+FROM
+    INFORMATION_SCHEMA.TABLE_CONSTRAINTS AS tc
+INNER JOIN
+    INFORMATION_SCHEMA.CHECK_CONSTRAINTS AS cc
+ON
+    cc.CONSTRAINT_SCHEMA = tc.CONSTRAINT_SCHEMA
+    AND cc.CONSTRAINT_NAME = tc.CONSTRAINT_NAME
+WHERE
+    tc.TABLE_SCHEMA = ''
+    AND tc.TABLE_NAME = ?
+    AND tc.CONSTRAINT_TYPE = 'CHECK'
+    AND tc.CONSTRAINT_NAME NOT LIKE 'CK_IS_NOT_NULL_%'
+ORDER BY
+    tc.CONSTRAINT_NAME
+;
+`
+)
+
+type informationSchemaCheck struct {
+	ConstraintName string `db:"CONSTRAINT_NAME"`
+	CheckClause    string `db:"CHECK_CLAUSE"`
+}
+
 const (
 	queryShowPrimaryKey = `-- SHOW TABLES
 SELECT
@@ -197,6 +266,11 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
 		}
 
+		constraints, err := showConstraints(ctx, dbz, tbl.TableName)
+		if err != nil {
+			return "", apperr.Errorf("showConstraints: %w", err)
+		}
+
 		columnsLastIndex := len(columns) - 1
 		for colIdx, col := range columns {
 			d += fmt.Sprintf("    %s", col)
@@ -218,13 +292,16 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 					d += ")"
 				}
 			}
-			if colIdx != columnsLastIndex {
+			if colIdx != columnsLastIndex || len(constraints) > 0 {
 				d += ","
 			}
 			d += "\n"
 
 			logs.Trace.Printf("table=%s: columns: %s", tbl.TableName, col)
 		}
+		if len(constraints) > 0 {
+			d += "    " + strings.Join(constraints, ",\n    ") + "\n"
+		}
 		d += ")"
 
 		primaryKeyColumns := make([]*informationSchemaPrimaryKey, 0)
@@ -247,6 +324,13 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += ")"
 		}
 
+		if tbl.ParentTableName != nil && *tbl.ParentTableName != "" {
+			d += ",\nINTERLEAVE IN PARENT " + *tbl.ParentTableName
+			if tbl.OnDeleteAction != nil && *tbl.OnDeleteAction != "" {
+				d += " ON DELETE " + *tbl.OnDeleteAction
+			}
+		}
+
 		tableOptionRowDeletionPolicy := make([]*informationSchemaTableOptionRowDeletionPolicy, 0)
 		if err := dbz.QueryContext(ctx, &tableOptionRowDeletionPolicy, querySelectTableOptionRowDeletionPolicy, tbl.TableName); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
@@ -310,3 +394,36 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 	return query, nil
 }
+
+func showConstraints(ctx context.Context, dbz sqlz.QueryerContext, tableName string) (constraints []string, err error) {
+	foreignKeys := make([]*informationSchemaForeignKey, 0)
+	if err := dbz.QueryContext(ctx, &foreignKeys, queryShowForeignKeys, tableName); err != nil {
+		return nil, apperr.Errorf("dbz.QueryContext: %w", err)
+	}
+
+	for i := 0; i < len(foreignKeys); {
+		fk := foreignKeys[i]
+		columns := make([]string, 0)
+		references := make([]string, 0)
+		for ; i < len(foreignKeys) && foreignKeys[i].ConstraintName == fk.ConstraintName; i++ {
+			columns = append(columns, foreignKeys[i].ColumnName)
+			references = append(references, foreignKeys[i].ReferencedColumnName)
+		}
+		d := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", fk.ConstraintName, strings.Join(columns, ", "), fk.ReferencedTableName, strings.Join(references, ", "))
+		if fk.DeleteRule == "CASCADE" {
+			d += " ON DELETE CASCADE"
+		}
+		constraints = append(constraints, d)
+	}
+
+	checks := make([]*informationSchemaCheck, 0)
+	if err := dbz.QueryContext(ctx, &checks, queryShowChecks, tableName); err != nil {
+		return nil, apperr.Errorf("dbz.QueryContext: %w", err)
+	}
+
+	for _, check := range checks {
+		constraints = append(constraints, fmt.Sprintf("CONSTRAINT %s CHECK (%s)", check.ConstraintName, check.CheckClause))
+	}
+
+	return constraints, nil
+}
-- 
2.43.0


From 4ef2116072dc7ea7e7b05451c7c9708a23d3daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 43/62] fix: spanner show did not quote names that need it

---
 pkg/show/spanner/show_create_all_tables.go | 47 ++++++++++++++++------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index fe6d174..aba2c93 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"regexp"
+	"slices"
 	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
@@ -50,7 +52,7 @@ type informationSchemaColumn struct {
 }
 
 func (c *informationSchemaColumn) String() string {
-	d := fmt.Sprintf("%s %s", c.ColumnName, c.SpannerType)
+	d := fmt.Sprintf("%s %s", quote(c.ColumnName), c.SpannerType)
 	if c.IsNullable == "NO" {
 		d += " NOT NULL"
 	}
@@ -254,7 +256,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
 		// TABLE
-		d := fmt.Sprintf("CREATE TABLE %s (\n", tbl.TableName)
+		d := fmt.Sprintf("CREATE TABLE %s (\n", quote(tbl.TableName))
 
 		columns := make([]*informationSchemaColumn, 0)
 		if err := dbz.QueryContext(ctx, &columns, queryShowCreateAllTables, tbl.TableName); err != nil {
@@ -313,7 +315,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += " PRIMARY KEY ("
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
-				d += pk.ColumnName
+				d += quote(pk.ColumnName)
 				if pk.ColumnOrdering == "DESC" {
 					d += " DESC"
 				}
@@ -325,7 +327,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 		}
 
 		if tbl.ParentTableName != nil && *tbl.ParentTableName != "" {
-			d += ",\nINTERLEAVE IN PARENT " + *tbl.ParentTableName
+			d += ",\nINTERLEAVE IN PARENT " + quote(*tbl.ParentTableName)
 			if tbl.OnDeleteAction != nil && *tbl.OnDeleteAction != "" {
 				d += " ON DELETE " + *tbl.OnDeleteAction
 			}
@@ -363,18 +365,18 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			if indexName.IsUnique {
 				d += "UNIQUE "
 			}
-			d += fmt.Sprintf("INDEX %s ON %s (", indexName.IndexName, tbl.TableName)
+			d += fmt.Sprintf("INDEX %s ON %s (", quote(indexName.IndexName), quote(tbl.TableName))
 
 			keys := make([]string, 0)
 			storing := make([]string, 0)
 			for _, idx := range indexes {
 				switch {
 				case idx.OrdinalPosition == nil:
-					storing = append(storing, idx.ColumnName)
+					storing = append(storing, quote(idx.ColumnName))
 				case idx.ColumnOrdering != nil && *idx.ColumnOrdering == "DESC":
-					keys = append(keys, idx.ColumnName+" DESC")
+					keys = append(keys, quote(idx.ColumnName)+" DESC")
 				default:
-					keys = append(keys, idx.ColumnName)
+					keys = append(keys, quote(idx.ColumnName))
 				}
 			}
 			d += strings.Join(keys, ", ") + ")"
@@ -406,10 +408,10 @@ func showConstraints(ctx context.Context, dbz sqlz.QueryerContext, tableName str
 		columns := make([]string, 0)
 		references := make([]string, 0)
 		for ; i < len(foreignKeys) && foreignKeys[i].ConstraintName == fk.ConstraintName; i++ {
-			columns = append(columns, foreignKeys[i].ColumnName)
-			references = append(references, foreignKeys[i].ReferencedColumnName)
+			columns = append(columns, quote(foreignKeys[i].ColumnName))
+			references = append(references, quote(foreignKeys[i].ReferencedColumnName))
 		}
-		d := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", fk.ConstraintName, strings.Join(columns, ", "), fk.ReferencedTableName, strings.Join(references, ", "))
+		d := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", quote(fk.ConstraintName), strings.Join(columns, ", "), quote(fk.ReferencedTableName), strings.Join(references, ", "))
 		if fk.DeleteRule == "CASCADE" {
 			d += " ON DELETE CASCADE"
 		}
@@ -422,8 +424,29 @@ func showConstraints(ctx context.Context, dbz sqlz.QueryerContext, tableName str
 	}
 
 	for _, check := range checks {
-		constraints = append(constraints, fmt.Sprintf("CONSTRAINT %s CHECK (%s)", check.ConstraintName, check.CheckClause))
+		constraints = append(constraints, fmt.Sprintf("CONSTRAINT %s CHECK (%s)", quote(check.ConstraintName), check.CheckClause))
 	}
 
 	return constraints, nil
 }
+
+var (
+	reservedKeywords = strings.Fields(`
+ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE CONTAINS
+CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM ESCAPE EXCEPT EXCLUDE
+EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP GROUPING GROUPS HASH HAVING IF
+IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN LATERAL LEFT LIKE LIMIT LOOKUP MERGE
+NATURAL NEW NO NOT NULL NULLS OF ON OR ORDER OUTER OVER PARTITION PRECEDING PROTO RANGE
+RECURSIVE RESPECT RIGHT ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE
+UNBOUNDED UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN
+`)
+	unquotedName = regexp.MustCompile("^[A-Za-z_][A-Za-z0-9_]*$")
+)
+
+// quote quotes a name if it cannot be written without quotes.
+func quote(name string) string {
+	if unquotedName.MatchString(name) && !slices.Contains(reservedKeywords, strings.ToUpper(name)) {
+		return name
+	}
+	return "`" + name + "`"
+}
-- 
2.43.0


From 4fe65141aafaaa39fff4f0f7f4305514df49225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 44/62] fix: apply executes each statement of the migration
 once, and no part of a literal as a statement

---
 pkg/ddlctl/apply/ddlctl_apply.go | 43 ++++++++--------------------
 pkg/ddlctl/apply/split.go        | 49 ++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 31 deletions(-)
 create mode 100644 pkg/ddlctl/apply/split.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..683684f 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -23,7 +22,6 @@ import (
 	"github.com/kunitsucom/ddlctl/pkg/ddlctl/diff"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
 	"github.com/kunitsucom/ddlctl/pkg/internal/consts"
-	"github.com/kunitsucom/ddlctl/pkg/internal/util"
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
@@ -93,7 +91,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -118,10 +116,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
-			func(err error) bool {
-				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
-			},
+			splitStatements(ddlStr, true),
 			func(err error) bool { return errorz.Contains(err, "Cannot add foreign key constraint") },
 		); err != nil {
 			return apperr.Errorf("splitExec: %w", err)
@@ -130,16 +125,15 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
-			func(_ error) bool { return false }, // TODO: handle error
+			splitStatements(ddlStr, false),
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
 			return apperr.Errorf("splitExec: %w", err)
 		}
 	case ddlspanner.DriverName:
-		conn, err := db.Conn(ctx)
-		if err != nil {
-			return apperr.Errorf("db.Conn: %w", err)
+		conn, connErr := db.Conn(ctx)
+		if connErr != nil {
+			return apperr.Errorf("db.Conn: %w", connErr)
 		}
 		defer func() {
 			if err2 := conn.Close(); err == nil && err2 != nil {
@@ -152,12 +146,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range splitStatements(ddlStr, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -195,37 +184,29 @@ func splitExec(
 	db interface {
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
-	ddlStr string,
-	notErrorNotLogFunc func(err error) bool,
+	ddls []string,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
+		failed := make([]string, 0)
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
-				// If the error is one of the following, do not error and not log. go to the next DDL;
-				if notErrorNotLogFunc(err) {
-					continue
-				}
-
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
 				outerErr = err
+				failed = append(failed, q)
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
 					continue
 				}
 
 				// If the error is not one of the above, error and log. go to the next DDL;
-				logs.Warn.Printf(err.Error())
+				logs.Warn.Print(err.Error())
 			}
 		}
+		ddls = failed // only these are retried
 		if outerErr != nil {
 			return outerErr
 		}
diff --git a/pkg/ddlctl/apply/split.go b/pkg/ddlctl/apply/split.go
new file mode 100644
index 0000000..ec1cd77
--- /dev/null
+++ b/pkg/ddlctl/apply/split.go
@@ -0,0 +1,49 @@
+package apply
+
+import "strings"
+
+// splitStatements splits the DDL queries at the semicolons, and removes the comments.
+// What looks like either inside a string literal or a quoted name is left alone.
+// With backslash, a backslash in a string literal escapes the next character.
+func splitStatements(ddlStr string, backslash bool) []string {
+	stmts := make([]string, 0)
+	b := new(strings.Builder)
+	appendStmt := func() {
+		if stmt := strings.TrimSpace(b.String()); stmt != "" {
+			stmts = append(stmts, stmt)
+		}
+		b.Reset()
+	}
+
+	var quote byte // the quotation mark of the literal or name we are in
+	for i := 0; i < len(ddlStr); i++ {
+		c := ddlStr[i]
+		switch {
+		case quote != 0:
+			b.WriteByte(c)
+			switch {
+			case c == '\\' && backslash && quote != '`' && i+1 < len(ddlStr):
+				i++
+				b.WriteByte(ddlStr[i])
+			case c == quote: // a doubled quotation mark closes and opens again
+				quote = 0
+			}
+		case c == '\'' || c == '"' || c == '`':
+			quote = c
+			b.WriteByte(c)
+		case strings.HasPrefix(ddlStr[i:], "--"):
+			end := strings.IndexByte(ddlStr[i:], '\n')
+			if end < 0 {
+				end = len(ddlStr) - i
+			}
+			i += end - 1 // next is the newline
+		case c == ';':
+			appendStmt()
+		default:
+			b.WriteByte(c)
+		}
+	}
+	appendStmt()
+
+	return stmts
+}
-- 
2.43.0


From b40e3ee7bfa1028dd5d05f03bf5a334b69bd1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 45/62] fix: spanner recreated interleaved tables over an
 explicit NO ACTION

---
 pkg/ddl/spanner/ddl_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 5284905..9b627c0 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -335,6 +335,10 @@ func (o *Option) StringForDiff() string {
 		}
 		return o.Name + " " + value.StringForDiff()
 	}
+	if n := len(o.Value.Idents); o.Name == "INTERLEAVE IN PARENT" && n > 1 && o.Value.Idents[n-1].Raw == "ON DELETE NO ACTION" {
+		// NO ACTION is the default
+		return o.Name + " " + (&Expr{}).Append(o.Value.Idents[:n-1]...).StringForDiff()
+	}
 	return o.Name + " " + o.Value.StringForDiff()
 }
 
-- 
2.43.0


From 0ef32cc283d255813adf5b55e61e1c9547da56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 46/62] fix: read qualified names with quoted parts, quote
 implicit names with upper-case letters

---
 pkg/ddl/cockroachdb/ddl_table.go | 11 +++++++++++
 pkg/ddl/cockroachdb/lexar.go     | 30 ++++++++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    | 34 +++++++++++++++++++++++++++++++-
 pkg/ddl/postgres/ddl_table.go    | 11 +++++++++++
 pkg/ddl/postgres/lexar.go        | 30 ++++++++++++++++++++++++++++
 pkg/ddl/postgres/parser.go       | 34 +++++++++++++++++++++++++++++++-
 6 files changed, 148 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index fa6eaee..3d952b6 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -254,6 +254,13 @@ func NewObjectName(name string) *ObjectName {
 
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
+	if parts := splitQualifiedName(name); len(parts) == hasSchema {
+		// CREATE TABLE schema."table"
+		schema := NewRawIdent(parts[0])
+		objName.Schema = NewIdent(schema.Name, "", schema.Raw)
+		objName.Name = NewRawIdent(parts[1])
+		return objName
+	}
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
@@ -277,6 +284,10 @@ func (t *ObjectName) String() string {
 		return ""
 	}
 	if t.Schema != nil {
+		if t.Schema.QuotationMark != t.Name.QuotationMark || t.Schema.Raw != t.Schema.QuotationMark+t.Schema.Name+t.Schema.QuotationMark {
+			// schema."table"
+			return t.Schema.Raw + "." + t.Name.Raw
+		}
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
 	return t.Name.String()
diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 8965a01..fa563a0 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -334,6 +334,9 @@ func (l *Lexer) NextToken() Token {
 		if !terminated {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
+		if literal[0] == '"' && l.peekChar() == '.' {
+			return l.readQualifiedName(literal)
+		}
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: literal}
 	case '|':
@@ -390,6 +393,9 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '"' && strings.HasSuffix(lit, ".") {
+				return l.readQualifiedName(lit)
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -435,6 +441,30 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool)
 	}
 }
 
+// readQualifiedName reads the rest of a qualified name of which a part is quoted, such as public."users".
+func (l *Lexer) readQualifiedName(literal string) Token {
+	if literal[0] == '"' {
+		l.readChar() // current = `.`
+	}
+	for {
+		switch {
+		case l.ch == '"' && strings.HasSuffix(literal, "."):
+			part, terminated := l.readQuotedLiteral(l.ch)
+			literal += part
+			if !terminated {
+				return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+			}
+			l.readChar()
+		case l.ch == '.' || isLiteral(l.ch) && strings.HasSuffix(literal, "."):
+			literal += l.readIdentifier()
+		case strings.HasSuffix(literal, "."):
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		default:
+			return Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
+		}
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index cd46cfe..8f7919f 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -21,6 +21,14 @@ import (
 var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
+	if parts := splitQualifiedName(raw); len(parts) > 1 {
+		names := make([]string, 0, len(parts))
+		for _, part := range parts {
+			names = append(names, NewRawIdent(part).Name)
+		}
+		return &Ident{Name: strings.Join(names, "."), QuotationMark: "", Raw: raw}
+	}
+
 	for _, q := range quotationMarks {
 		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
@@ -38,6 +46,30 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// splitQualifiedName splits a qualified name of which a part is quoted, such as public."users".
+// It returns nil for any other name.
+func splitQualifiedName(raw string) (parts []string) {
+	if !strings.Contains(raw, `."`) && !strings.Contains(raw, `".`) {
+		return nil
+	}
+
+	position, quoted := 0, false
+	for i := 0; i < len(raw); i++ {
+		switch {
+		case raw[i] == '"':
+			quoted = !quoted
+		case raw[i] == '.' && !quoted:
+			parts = append(parts, raw[position:i])
+			position = i + 1
+		}
+	}
+	if len(parts) == 0 {
+		return nil
+	}
+
+	return append(parts, raw[position:])
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -50,7 +82,7 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 func newImplicitIdent(name string) *Ident {
 	const quotationMark = `"`
 	for i := 0; i < len(name); i++ {
-		if !isLiteral(name[i]) || name[i] == '.' {
+		if !isLiteral(name[i]) || name[i] == '.' || 'A' <= name[i] && name[i] <= 'Z' {
 			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
 		}
 	}
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index f7f2fe8..95a1c58 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -223,6 +223,13 @@ func NewObjectName(name string) *ObjectName {
 
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
+	if parts := splitQualifiedName(name); len(parts) == hasSchema {
+		// CREATE TABLE schema."table"
+		schema := NewRawIdent(parts[0])
+		objName.Schema = NewIdent(schema.Name, "", schema.Raw)
+		objName.Name = NewRawIdent(parts[1])
+		return objName
+	}
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
@@ -246,6 +253,10 @@ func (t *ObjectName) String() string {
 		return ""
 	}
 	if t.Schema != nil {
+		if t.Schema.QuotationMark != t.Name.QuotationMark || t.Schema.Raw != t.Schema.QuotationMark+t.Schema.Name+t.Schema.QuotationMark {
+			// schema."table"
+			return t.Schema.Raw + "." + t.Name.Raw
+		}
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
 	return t.Name.String()
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index f103ef3..781628e 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -313,6 +313,9 @@ func (l *Lexer) NextToken() Token {
 		if !terminated {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
+		if literal[0] == '"' && l.peekChar() == '.' {
+			return l.readQualifiedName(literal)
+		}
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: literal}
 	case '|':
@@ -364,6 +367,9 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '"' && strings.HasSuffix(lit, ".") {
+				return l.readQualifiedName(lit)
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -409,6 +415,30 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool)
 	}
 }
 
+// readQualifiedName reads the rest of a qualified name of which a part is quoted, such as public."users".
+func (l *Lexer) readQualifiedName(literal string) Token {
+	if literal[0] == '"' {
+		l.readChar() // current = `.`
+	}
+	for {
+		switch {
+		case l.ch == '"' && strings.HasSuffix(literal, "."):
+			part, terminated := l.readQuotedLiteral(l.ch)
+			literal += part
+			if !terminated {
+				return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+			}
+			l.readChar()
+		case l.ch == '.' || isLiteral(l.ch) && strings.HasSuffix(literal, "."):
+			literal += l.readIdentifier()
+		case strings.HasSuffix(literal, "."):
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		default:
+			return Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
+		}
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 51f3ea4..99079f0 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -21,6 +21,14 @@ import (
 var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
+	if parts := splitQualifiedName(raw); len(parts) > 1 {
+		names := make([]string, 0, len(parts))
+		for _, part := range parts {
+			names = append(names, NewRawIdent(part).Name)
+		}
+		return &Ident{Name: strings.Join(names, "."), QuotationMark: "", Raw: raw}
+	}
+
 	for _, q := range quotationMarks {
 		if len(raw) >= len(q)+len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
@@ -38,6 +46,30 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// splitQualifiedName splits a qualified name of which a part is quoted, such as public."users".
+// It returns nil for any other name.
+func splitQualifiedName(raw string) (parts []string) {
+	if !strings.Contains(raw, `."`) && !strings.Contains(raw, `".`) {
+		return nil
+	}
+
+	position, quoted := 0, false
+	for i := 0; i < len(raw); i++ {
+		switch {
+		case raw[i] == '"':
+			quoted = !quoted
+		case raw[i] == '.' && !quoted:
+			parts = append(parts, raw[position:i])
+			position = i + 1
+		}
+	}
+	if len(parts) == 0 {
+		return nil
+	}
+
+	return append(parts, raw[position:])
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -50,7 +82,7 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 func newImplicitIdent(name string) *Ident {
 	const quotationMark = `"`
 	for i := 0; i < len(name); i++ {
-		if !isLiteral(name[i]) || name[i] == '.' {
+		if !isLiteral(name[i]) || name[i] == '.' || 'A' <= name[i] && name[i] <= 'Z' {
 			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
 		}
 	}
-- 
2.43.0


From 59ab822616086caf4ef85ce472af01be756ac719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 47/62] fix: spanner show did not quote names that ddlctl reads
 as keywords

---
 pkg/show/spanner/show_create_all_tables.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index aba2c93..054da84 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -11,6 +11,7 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
+	ddlspanner "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
@@ -443,9 +444,10 @@ UNBOUNDED UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN
 	unquotedName = regexp.MustCompile("^[A-Za-z_][A-Za-z0-9_]*$")
 )
 
-// quote quotes a name if it cannot be written without quotes.
+// quote quotes a name if it cannot be written without quotes, or if ddlctl itself reads it as a keyword.
 func quote(name string) string {
-	if unquotedName.MatchString(name) && !slices.Contains(reservedKeywords, strings.ToUpper(name)) {
+	if unquotedName.MatchString(name) && !slices.Contains(reservedKeywords, strings.ToUpper(name)) &&
+		ddlspanner.NewLexer(name).NextToken().Type == ddlspanner.TOKEN_IDENT {
 		return name
 	}
 	return "`" + name + "`"
-- 
2.43.0


From ec0d5acc4a160b3028d8d653e02c587e12b7c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 48/62] fix: cockroachdb show failed on the two columns of SHOW
 CREATE TABLE

---
 pkg/show/cockroachdb/show_create_all_tables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/show/cockroachdb/show_create_all_tables.go b/pkg/show/cockroachdb/show_create_all_tables.go
index 1749e0a..3893c96 100644
--- a/pkg/show/cockroachdb/show_create_all_tables.go
+++ b/pkg/show/cockroachdb/show_create_all_tables.go
@@ -40,6 +40,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext) (query strin
 		TableName   string `db:"table_name"`
 	}
 	type CreateStatement struct {
+		TableName       string `db:"table_name"`
 		CreateStatement string `db:"create_statement"`
 	}
 
-- 
2.43.0


From 5199b616e708c6e4deeec68725816823fb9340ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 49/62] fix: columns of a dropped primary key stay NOT NULL
 unless they are altered

---
 pkg/ddl/cockroachdb/ddl_table_create.go  | 5 +++++
 pkg/ddl/cockroachdb/diff_create_table.go | 6 ++----
 pkg/ddl/mysql/ddl_table_create.go        | 5 +++++
 pkg/ddl/mysql/diff_create_table.go       | 8 +++-----
 pkg/ddl/postgres/ddl_table_create.go     | 5 +++++
 pkg/ddl/postgres/diff_create_table.go    | 6 ++----
 6 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table_create.go b/pkg/ddl/cockroachdb/ddl_table_create.go
index 24d5a55..41f459b 100644
--- a/pkg/ddl/cockroachdb/ddl_table_create.go
+++ b/pkg/ddl/cockroachdb/ddl_table_create.go
@@ -82,6 +82,11 @@ func (s *CreateTableStmt) String() string {
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
 
+// isNotNull returns whether the column is NOT NULL: the columns of a primary key are, whether they say so or not.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	return column.NotNull || s.isPrimaryKeyColumn(column)
+}
+
 func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
 	for _, constraint := range s.Constraints {
 		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 51323a8..ffcd002 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -256,9 +256,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn):
-			// the columns of a primary key are NOT NULL, whether they say so or not
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -267,7 +265,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && afterColumn.NotNull:
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
diff --git a/pkg/ddl/mysql/ddl_table_create.go b/pkg/ddl/mysql/ddl_table_create.go
index 7e82388..f8d18bc 100644
--- a/pkg/ddl/mysql/ddl_table_create.go
+++ b/pkg/ddl/mysql/ddl_table_create.go
@@ -75,6 +75,11 @@ func (s *CreateTableStmt) String() string {
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
 
+// isNotNull returns whether the column is NOT NULL: the columns of a primary key are, whether they say so or not.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	return column.NotNull || s.isPrimaryKeyColumn(column)
+}
+
 func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
 	for _, constraint := range s.Constraints {
 		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index bd3fbf8..bd9837e 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,15 +261,13 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
-		// the columns of a primary key are NOT NULL, whether they say so or not
-		bothPrimaryKey := before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn)
-
 		dropDefault := beforeColumn.defaultForDiff() != nil && afterColumn.Default == nil
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
-			(beforeColumn.NotNull != afterColumn.NotNull && !bothPrimaryKey) ||
+			(before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn)) ||
+			(!before.isNotNull(beforeColumn) && afterColumn.NotNull) ||
 			(!dropDefault && beforeColumn.defaultForDiff().StringForDiff() != afterColumn.defaultForDiff().StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
@@ -283,7 +281,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					DataType:      afterColumn.DataType,
 					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
-					NotNull:       afterColumn.NotNull,
+					NotNull:       after.isNotNull(afterColumn),
 					AutoIncrement: afterColumn.AutoIncrement,
 					Default:       afterColumn.Default,
 					OnAction:      afterColumn.OnAction,
diff --git a/pkg/ddl/postgres/ddl_table_create.go b/pkg/ddl/postgres/ddl_table_create.go
index 98eb2c5..cc681ff 100644
--- a/pkg/ddl/postgres/ddl_table_create.go
+++ b/pkg/ddl/postgres/ddl_table_create.go
@@ -82,6 +82,11 @@ func (s *CreateTableStmt) String() string {
 func (*CreateTableStmt) isStmt()            {}
 func (s *CreateTableStmt) GoString() string { return internal.GoString(*s) }
 
+// isNotNull returns whether the column is NOT NULL: the columns of a primary key are, whether they say so or not.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	return column.NotNull || s.isPrimaryKeyColumn(column)
+}
+
 func (s *CreateTableStmt) isPrimaryKeyColumn(column *Column) bool {
 	for _, constraint := range s.Constraints {
 		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index e1cfbf8..5561c66 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -189,9 +189,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case before.isPrimaryKeyColumn(beforeColumn) && after.isPrimaryKeyColumn(afterColumn):
-			// the columns of a primary key are NOT NULL, whether they say so or not
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -200,7 +198,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && afterColumn.NotNull:
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
-- 
2.43.0


From e088f3a133e0b9ddef33a111ff30e65f52d6db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:38 +0000
Subject: [PATCH 50/62] fix: apply ran statements that come after a failed one
 before retrying it

---
 pkg/ddlctl/apply/ddlctl_apply.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 683684f..5eaa139 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -192,21 +192,23 @@ func splitExec(
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		failed := make([]string, 0)
-		for _, q := range ddls {
+		for i, q := range ddls {
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
 				outerErr = err
-				failed = append(failed, q)
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
+					failed = append(failed, q)
 					continue
 				}
 
-				// If the error is not one of the above, error and log. go to the next DDL;
+				// If the error is not one of the above, error and log. The next DDLs may need this one, they wait for it;
 				logs.Warn.Print(err.Error())
+				failed = append(failed, ddls[i:]...)
+				break
 			}
 		}
-		ddls = failed // only these are retried
+		ddls = failed // only these are run again
 		if outerErr != nil {
 			return outerErr
 		}
-- 
2.43.0


From 4ea6b231fb7a75a804e08a0dbd87cdc27e6f63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 51/62] fix: cockroachdb diff added the hidden column of a
 hash-sharded index

---
 pkg/ddl/cockroachdb/diff_create_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index ffcd002..6d2283c 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -290,6 +290,10 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 
 	for _, afterColumn := range onlyLeftColumn(after.Columns, before.Columns) {
+		if strings.HasPrefix(afterColumn.Name.Name, "crdb_internal_") && afterColumn.NotVisible && afterColumn.As != nil && afterColumn.As.Type == TOKEN_VIRTUAL { //diff:ignore-line-postgres-cockroach
+			// the column of a hash-sharded index, which comes and goes with it //diff:ignore-line-postgres-cockroach
+			continue //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
 		// ALTER TABLE table_name ADD COLUMN column_name data_type;
 		ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff("", afterColumn.String()).String(),
-- 
2.43.0


From 00118970e95fac61c6239e7c1ffb82e685e6efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:23 +0000
Subject: [PATCH 52/62] fix: mysql dropped the index of a foreign key before
 the foreign key

---
 pkg/ddl/mysql/diff_order.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
index feadc9a..2c884fc 100644
--- a/pkg/ddl/mysql/diff_order.go
+++ b/pkg/ddl/mysql/diff_order.go
@@ -8,8 +8,8 @@ import "sort"
 //nolint:cyclop
 func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 	const (
-		dropIndex = iota
-		dropForeignKey
+		dropForeignKey = iota
+		dropIndex      // behind the foreign keys, which need an index
 		dropConstraint
 		dropTable
 		alterColumn
-- 
2.43.0


From da665c6b1531a29301e10f7b3e92fba0cfce0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 53/62] fix: mysql read the NULL that follows DEFAULT as a part
 of the default value

---
 pkg/ddl/mysql/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index c45235f..2ff2706 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -453,6 +453,10 @@ func (p *Parser) parseColumnDefault() (*Default, error) {
 
 LabelDefault:
 	for {
+		if def.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break LabelDefault // NULL is not a part of the default value but a column attribute
+		}
+
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT, TOKEN_CURRENT_TIMESTAMP:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
-- 
2.43.0


From 5ae1c5d5444c2c4a8b065c9ef30afa61546ba92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 54/62] fix: mysql refused or renamed column constraints that
 follow COMMENT

---
 pkg/ddl/mysql/parser.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 2ff2706..06fcad0 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -434,12 +434,6 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				constraints = constraints.Append(c)
 			}
 		}
-
-		if p.isCurrentToken(TOKEN_COMMENT) {
-			p.nextToken() // current = comment_value
-			column.Comment = p.currentToken.Literal.String()
-			p.nextToken() // current = COMMA or CLOSE_PAREN
-		}
 	default:
 		return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
@@ -622,7 +616,10 @@ LabelConstraints:
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
 			continue
-		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
+		case TOKEN_COMMENT:
+			p.nextToken() // current = comment_value
+			column.Comment = p.currentToken.Literal.String()
+		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
-- 
2.43.0


From c167396485a21fbb65a25f97e867eee9e727d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:40 +0000
Subject: [PATCH 55/62] fix: apply hid the failed foreign key behind the
 failures that it led to

---
 pkg/ddlctl/apply/ddlctl_apply.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 5eaa139..c6b2279 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -195,7 +195,9 @@ func splitExec(
 		for i, q := range ddls {
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
-				outerErr = err
+				if outerErr == nil { // the ones after it may be its consequences
+					outerErr = err
+				}
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
 					failed = append(failed, q)
-- 
2.43.0


From 961f2778af565087c26e4bcf0979b04ed4589f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 56/62] fix: a prefixed string literal such as E'...' or b'...'
 was torn apart

---
 pkg/ddl/cockroachdb/lexar.go | 28 +++++++++++++++++++++++++---
 pkg/ddl/mysql/lexar.go       | 19 +++++++++++++++++++
 pkg/ddl/postgres/lexar.go    | 28 +++++++++++++++++++++++++---
 pkg/ddl/spanner/lexar.go     | 19 +++++++++++++++++++
 4 files changed, 88 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index fa563a0..f0537c0 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -330,7 +330,7 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		literal, terminated := l.readQuotedLiteral(l.ch)
+		literal, terminated := l.readQuotedLiteral(l.ch, false)
 		if !terminated {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
@@ -393,6 +393,15 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, terminated := l.readQuotedLiteral(l.ch, strings.ContainsAny(lit, "BbEe"))
+				if !terminated {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok.Type = TOKEN_IDENT
+				tok.Literal = Literal{Str: lit + literal}
+				break
+			}
 			if l.ch == '"' && strings.HasSuffix(lit, ".") {
 				return l.readQualifiedName(lit)
 			}
@@ -426,13 +435,16 @@ func (l *Lexer) readOperator() string {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
+// backslash が true の場合、バックスラッシュは次の文字をエスケープします。
+func (l *Lexer) readQuotedLiteral(quote byte, backslash bool) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
 		switch {
 		case l.position >= len(l.input):
 			return l.input[position:], false
+		case l.ch == '\\' && backslash: // escape sequence
+			l.readChar()
 		case l.ch == quote && l.peekChar() == quote: // escaped quote
 			l.readChar()
 		case l.ch == quote:
@@ -449,7 +461,7 @@ func (l *Lexer) readQualifiedName(literal string) Token {
 	for {
 		switch {
 		case l.ch == '"' && strings.HasSuffix(literal, "."):
-			part, terminated := l.readQuotedLiteral(l.ch)
+			part, terminated := l.readQuotedLiteral(l.ch, false)
 			literal += part
 			if !terminated {
 				return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
@@ -465,6 +477,16 @@ func (l *Lexer) readQualifiedName(literal string) Token {
 	}
 }
 
+// isLiteralPrefix は E'...' のように、直後の文字列リテラルの一部となるものかどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "E", "X":
+		return true
+	default:
+		return false
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 4fec63c..524df25 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -414,6 +414,15 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, terminated := l.readQuotedLiteral(l.ch)
+				if !terminated {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok.Type = TOKEN_IDENT
+				tok.Literal = Literal{Str: lit + literal}
+				break
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -461,6 +470,16 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool)
 	}
 }
 
+// isLiteralPrefix は E'...' のように、直後の文字列リテラルの一部となるものかどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "N", "X":
+		return true
+	default:
+		return false
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 781628e..927a77f 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -309,7 +309,7 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		literal, terminated := l.readQuotedLiteral(l.ch)
+		literal, terminated := l.readQuotedLiteral(l.ch, false)
 		if !terminated {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
@@ -367,6 +367,15 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, terminated := l.readQuotedLiteral(l.ch, strings.ContainsAny(lit, "BbEe"))
+				if !terminated {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok.Type = TOKEN_IDENT
+				tok.Literal = Literal{Str: lit + literal}
+				break
+			}
 			if l.ch == '"' && strings.HasSuffix(lit, ".") {
 				return l.readQualifiedName(lit)
 			}
@@ -400,13 +409,16 @@ func (l *Lexer) readOperator() string {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
+// backslash が true の場合、バックスラッシュは次の文字をエスケープします。
+func (l *Lexer) readQuotedLiteral(quote byte, backslash bool) (literal string, terminated bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
 		switch {
 		case l.position >= len(l.input):
 			return l.input[position:], false
+		case l.ch == '\\' && backslash: // escape sequence
+			l.readChar()
 		case l.ch == quote && l.peekChar() == quote: // escaped quote
 			l.readChar()
 		case l.ch == quote:
@@ -423,7 +435,7 @@ func (l *Lexer) readQualifiedName(literal string) Token {
 	for {
 		switch {
 		case l.ch == '"' && strings.HasSuffix(literal, "."):
-			part, terminated := l.readQuotedLiteral(l.ch)
+			part, terminated := l.readQuotedLiteral(l.ch, false)
 			literal += part
 			if !terminated {
 				return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
@@ -439,6 +451,16 @@ func (l *Lexer) readQualifiedName(literal string) Token {
 	}
 }
 
+// isLiteralPrefix は E'...' のように、直後の文字列リテラルの一部となるものかどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "E", "N", "X":
+		return true
+	default:
+		return false
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 7b4eedb..3d48c57 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -370,6 +370,15 @@ func (l *Lexer) NextToken() Token {
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if (l.ch == '\'' || l.ch == '"') && isLiteralPrefix(lit) {
+				literal, terminated := l.readQuotedLiteral(l.ch)
+				if !terminated {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok.Type = TOKEN_IDENT
+				tok.Literal = Literal{Str: lit + literal}
+				break
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -415,6 +424,16 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool)
 	}
 }
 
+// isLiteralPrefix は E'...' のように、直後の文字列リテラルの一部となるものかどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "R", "BR", "RB":
+		return true
+	default:
+		return false
+	}
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
-- 
2.43.0


From ef3e1f5041260db72a9e951cd843464cf74b7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:45 +0000
Subject: [PATCH 57/62] fix: apply split a statement inside an E'...' literal
 with an escaped quotation mark (cockroachdb)

---
 pkg/ddlctl/apply/split.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/ddlctl/apply/split.go b/pkg/ddlctl/apply/split.go
index ec1cd77..12a9429 100644
--- a/pkg/ddlctl/apply/split.go
+++ b/pkg/ddlctl/apply/split.go
@@ -1,6 +1,9 @@
 package apply
 
-import "strings"
+import (
+	"strings"
+	"unicode"
+)
 
 // splitStatements splits the DDL queries at the semicolons, and removes the comments.
 // What looks like either inside a string literal or a quoted name is left alone.
@@ -15,14 +18,15 @@ func splitStatements(ddlStr string, backslash bool) []string {
 		b.Reset()
 	}
 
-	var quote byte // the quotation mark of the literal or name we are in
+	var quote byte  // the quotation mark of the literal or name we are in
+	var escape bool // it is a literal such as E'...', in which a backslash always escapes
 	for i := 0; i < len(ddlStr); i++ {
 		c := ddlStr[i]
 		switch {
 		case quote != 0:
 			b.WriteByte(c)
 			switch {
-			case c == '\\' && backslash && quote != '`' && i+1 < len(ddlStr):
+			case c == '\\' && (backslash && quote != '`' || escape) && i+1 < len(ddlStr):
 				i++
 				b.WriteByte(ddlStr[i])
 			case c == quote: // a doubled quotation mark closes and opens again
@@ -30,6 +34,7 @@ func splitStatements(ddlStr string, backslash bool) []string {
 			}
 		case c == '\'' || c == '"' || c == '`':
 			quote = c
+			escape = c == '\'' && hasEscapePrefix(ddlStr[:i])
 			b.WriteByte(c)
 		case strings.HasPrefix(ddlStr[i:], "--"):
 			end := strings.IndexByte(ddlStr[i:], '\n')
@@ -47,3 +52,11 @@ func splitStatements(ddlStr string, backslash bool) []string {
 
 	return stmts
 }
+
+// hasEscapePrefix reports whether the string literal that follows is one such as E'...' or b'...'.
+func hasEscapePrefix(str string) bool {
+	word := str[len(strings.TrimRightFunc(str, func(r rune) bool {
+		return r == '_' || r == '.' || r == '$' || unicode.IsLetter(r) || unicode.IsDigit(r)
+	})):]
+	return strings.EqualFold(word, "E") || strings.EqualFold(word, "B")
+}
-- 
2.43.0


From 057712f807dc07d17ce83d3a69c7bc0cd457d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:45 +0000
Subject: [PATCH 58/62] fix: the exponent of a number such as 1e-5 was torn off

---
 pkg/ddl/cockroachdb/lexar.go | 10 +++++++++-
 pkg/ddl/mysql/lexar.go       | 10 +++++++++-
 pkg/ddl/postgres/lexar.go    | 10 +++++++++-
 pkg/ddl/spanner/lexar.go     | 10 +++++++++-
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index f0537c0..8e6b5f6 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -501,7 +501,7 @@ func newToken(tokenType TokenType, ch byte) Token {
 
 func (l *Lexer) readIdentifier() string {
 	position := l.position
-	for isLiteral(l.ch) {
+	for isLiteral(l.ch) || l.isExponentSign(l.input[position:min(l.position, len(l.input))]) {
 		l.readChar()
 	}
 	str := l.input[position:l.position]
@@ -509,6 +509,14 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isExponentSign は現在の文字が 1e-5 のような数値の指数部の符号かどうかを返します。
+func (l *Lexer) isExponentSign(number string) bool {
+	last := len(number) - 1
+	return (l.ch == '-' || l.ch == '+') && '0' <= l.peekChar() && l.peekChar() <= '9' &&
+		last > 0 && (number[last] == 'e' || number[last] == 'E') &&
+		strings.Trim(number[:last], ".") != "" && strings.Trim(number[:last], "0123456789.") == ""
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 524df25..baebeea 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -494,7 +494,7 @@ func newToken(tokenType TokenType, ch byte) Token {
 
 func (l *Lexer) readIdentifier() string {
 	position := l.position
-	for isLiteral(l.ch) {
+	for isLiteral(l.ch) || l.isExponentSign(l.input[position:min(l.position, len(l.input))]) {
 		l.readChar()
 	}
 	str := l.input[position:l.position]
@@ -502,6 +502,14 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isExponentSign は現在の文字が 1e-5 のような数値の指数部の符号かどうかを返します。
+func (l *Lexer) isExponentSign(number string) bool {
+	last := len(number) - 1
+	return (l.ch == '-' || l.ch == '+') && '0' <= l.peekChar() && l.peekChar() <= '9' &&
+		last > 0 && (number[last] == 'e' || number[last] == 'E') &&
+		strings.Trim(number[:last], ".") != "" && strings.Trim(number[:last], "0123456789.") == ""
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 927a77f..1ddd642 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -475,7 +475,7 @@ func newToken(tokenType TokenType, ch byte) Token {
 
 func (l *Lexer) readIdentifier() string {
 	position := l.position
-	for isLiteral(l.ch) {
+	for isLiteral(l.ch) || l.isExponentSign(l.input[position:min(l.position, len(l.input))]) {
 		l.readChar()
 	}
 	str := l.input[position:l.position]
@@ -483,6 +483,14 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isExponentSign は現在の文字が 1e-5 のような数値の指数部の符号かどうかを返します。
+func (l *Lexer) isExponentSign(number string) bool {
+	last := len(number) - 1
+	return (l.ch == '-' || l.ch == '+') && '0' <= l.peekChar() && l.peekChar() <= '9' &&
+		last > 0 && (number[last] == 'e' || number[last] == 'E') &&
+		strings.Trim(number[:last], ".") != "" && strings.Trim(number[:last], "0123456789.") == ""
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 3d48c57..fb14377 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -448,7 +448,7 @@ func newToken(tokenType TokenType, ch byte) Token {
 
 func (l *Lexer) readIdentifier() string {
 	position := l.position
-	for isLiteral(l.ch) {
+	for isLiteral(l.ch) || l.isExponentSign(l.input[position:min(l.position, len(l.input))]) {
 		l.readChar()
 	}
 	str := l.input[position:l.position]
@@ -456,6 +456,14 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isExponentSign は現在の文字が 1e-5 のような数値の指数部の符号かどうかを返します。
+func (l *Lexer) isExponentSign(number string) bool {
+	last := len(number) - 1
+	return (l.ch == '-' || l.ch == '+') && '0' <= l.peekChar() && l.peekChar() <= '9' &&
+		last > 0 && (number[last] == 'e' || number[last] == 'E') &&
+		strings.Trim(number[:last], ".") != "" && strings.Trim(number[:last], "0123456789.") == ""
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
-- 
2.43.0


From af065301f151618018ced1d2e4e27e6fbb0b4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:55 +0000
Subject: [PATCH 59/62] fix: operators such as <-> and <<= were torn apart
 (postgres, cockroachdb)

---
 pkg/ddl/cockroachdb/lexar.go | 2 +-
 pkg/ddl/postgres/lexar.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 8e6b5f6..f6cd88f 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -419,7 +419,7 @@ func (l *Lexer) NextToken() Token {
 // operators は 2 文字以上の演算子です。長いものから順に並べます。
 //
 //nolint:gochecknoglobals
-var operators = []string{"->>", "#>>", "!~*", "->", "#>", "@>", "<@", "!~", "~*", "!=", "&&", "<<", ">>", "?|", "?&", "//"}
+var operators = []string{"->>", "#>>", "!~*", "<<=", ">>=", "->", "#>", "@>", "<@", "@@", "!~", "~*", "!=", "&&", "<<", ">>", "?|", "?&", "//"}
 
 // readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
 func (l *Lexer) readOperator() string {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 1ddd642..86a5732 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -393,7 +393,7 @@ func (l *Lexer) NextToken() Token {
 // operators は 2 文字以上の演算子です。長いものから順に並べます。
 //
 //nolint:gochecknoglobals
-var operators = []string{"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "->", "#>", "@>", "<@", "!~", "~*", "~~", "!=", "&&", "<<", ">>", "?|", "?&"}
+var operators = []string{"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "<->", "<<=", ">>=", "->", "#>", "@>", "<@", "@@", "@?", "!~", "~*", "~~", "!=", "&&", "<<", ">>", "?|", "?&"}
 
 // readOperator は 2 文字以上の演算子を読み込みます。演算子でない場合は空文字列を返します。
 func (l *Lexer) readOperator() string {
-- 
2.43.0


From 90094b58a7409bbcfa5972f4fef9c7dfa6ce5150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:29 +0000
Subject: [PATCH 60/62] fix: a computed column with a DEFAULT was accepted, and
 printed as what cannot be read (cockroachdb)

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 8f7919f..75262c7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -382,6 +382,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 
 			p.nextToken()
 		}
+		if column.Default != nil && column.As != nil {
+			return nil, nil, apperr.Errorf(errFmtPrefix+"a computed column cannot have a DEFAULT: %w", ddl.ErrUnexpectedCurrentToken)
+		}
 
 		cs, err := p.parseColumnConstraints(tableName, column)
 		if err != nil {
-- 
2.43.0


From 296dc2372957fba82b10038828397155d2f64baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:48 +0000
Subject: [PATCH 61/62] fix: generate did not double the quotation marks inside
 of column names (postgres, cockroachdb, mysql)

---
 pkg/internal/generator/dialect/mysql/create_table.go    | 4 ++--
 pkg/internal/generator/dialect/mysql/mysql.go           | 6 ++++++
 pkg/internal/generator/dialect/postgres/create_table.go | 4 ++--
 pkg/internal/generator/dialect/postgres/postgres.go     | 6 ++++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/internal/generator/dialect/mysql/create_table.go b/pkg/internal/generator/dialect/mysql/create_table.go
index 1aa70ad..3056c8a 100644
--- a/pkg/internal/generator/dialect/mysql/create_table.go
+++ b/pkg/internal/generator/dialect/mysql/create_table.go
@@ -36,7 +36,7 @@ func fprintCreateTable(buf *string, indent string, stmt *ddlast.CreateTableStmt)
 		if len(stmt.PrimaryKey) > 0 {
 			*buf += indent + "PRIMARY KEY ("
 			for i, primaryKey := range stmt.PrimaryKey {
-				*buf += Quotation + primaryKey + Quotation
+				*buf += quote(primaryKey)
 				if lastPrimaryKeyIndex := len(stmt.PrimaryKey) - 1; i != lastPrimaryKeyIndex {
 					*buf += ", "
 				}
@@ -90,7 +90,7 @@ func fprintCreateTableColumn(buf *string, indent string, columns []*ddlast.Creat
 			fprintComment(buf, indent, comment)
 		}
 
-		*buf += indent + fmt.Sprintf(columnNameFormat, Quotation+column.ColumnName+Quotation) + " " + column.TypeConstraint
+		*buf += indent + fmt.Sprintf(columnNameFormat, quote(column.ColumnName)) + " " + column.TypeConstraint
 
 		if lastColumn := len(columns) - 1; i == lastColumn && !tailComma {
 			*buf += "\n"
diff --git a/pkg/internal/generator/dialect/mysql/mysql.go b/pkg/internal/generator/dialect/mysql/mysql.go
index 8ac5ee0..489648e 100644
--- a/pkg/internal/generator/dialect/mysql/mysql.go
+++ b/pkg/internal/generator/dialect/mysql/mysql.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"io"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	ddlast "github.com/kunitsucom/ddlctl/pkg/internal/generator"
@@ -49,3 +50,8 @@ func fprintComment(buf *string, indent string, comment string) {
 	*buf += indent + CommentPrefix + " " + comment + "\n"
 	return //nolint:gosimple
 }
+
+// quote quotes the name of a column, doubling the quotation marks that it holds.
+func quote(name string) string {
+	return Quotation + strings.ReplaceAll(name, Quotation, Quotation+Quotation) + Quotation
+}
diff --git a/pkg/internal/generator/dialect/postgres/create_table.go b/pkg/internal/generator/dialect/postgres/create_table.go
index dd6c279..902222c 100644
--- a/pkg/internal/generator/dialect/postgres/create_table.go
+++ b/pkg/internal/generator/dialect/postgres/create_table.go
@@ -36,7 +36,7 @@ func fprintCreateTable(buf *string, indent string, stmt *ddlast.CreateTableStmt)
 		if len(stmt.PrimaryKey) > 0 {
 			*buf += indent + "PRIMARY KEY ("
 			for i, primaryKey := range stmt.PrimaryKey {
-				*buf += Quotation + primaryKey + Quotation
+				*buf += quote(primaryKey)
 				if lastPrimaryKeyIndex := len(stmt.PrimaryKey) - 1; i != lastPrimaryKeyIndex {
 					*buf += ", "
 				}
@@ -90,7 +90,7 @@ func fprintCreateTableColumn(buf *string, indent string, columns []*ddlast.Creat
 			fprintComment(buf, indent, comment)
 		}
 
-		*buf += indent + fmt.Sprintf(columnNameFormat, Quotation+column.ColumnName+Quotation) + " " + column.TypeConstraint
+		*buf += indent + fmt.Sprintf(columnNameFormat, quote(column.ColumnName)) + " " + column.TypeConstraint
 
 		if lastColumn := len(columns) - 1; i == lastColumn && !tailComma {
 			*buf += "\n"
diff --git a/pkg/internal/generator/dialect/postgres/postgres.go b/pkg/internal/generator/dialect/postgres/postgres.go
index b6a0428..46caa9a 100644
--- a/pkg/internal/generator/dialect/postgres/postgres.go
+++ b/pkg/internal/generator/dialect/postgres/postgres.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"io"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	ddlast "github.com/kunitsucom/ddlctl/pkg/internal/generator"
@@ -49,3 +50,8 @@ func fprintComment(buf *string, indent string, comment string) {
 	*buf += indent + CommentPrefix + " " + comment + "\n"
 	return //nolint:gosimple
 }
+
+// quote quotes the name of a column, doubling the quotation marks that it holds.
+func quote(name string) string {
+	return Quotation + strings.ReplaceAll(name, Quotation, Quotation+Quotation) + Quotation
+}
-- 
2.43.0


From ff44ccaf3687599044f19d670308da52a745c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 62/62] fix: no tables were found in a source that is a
 symbolic link to a directory

---
 pkg/internal/lang/go/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index b3c332c..1130326 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -42,7 +42,8 @@ func Parse(ctx context.Context, src string) (*generator.DDL, error) {
 	ddl := generator.NewDDL(ctx)
 
 	if info.IsDir() {
-		if err := filepath.WalkDir(sourceAbs, walkDirFn(ctx, ddl)); err != nil {
+		// MEMO: with the separator at the end, WalkDir follows a source that is a symbolic link
+		if err := filepath.WalkDir(sourceAbs+string(filepath.Separator), walkDirFn(ctx, ddl)); err != nil {
 			return nil, apperr.Errorf("filepath.WalkDir: %w", err)
 		}
 
-- 
2.43.0

