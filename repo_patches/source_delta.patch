From 93627dd6b78eb1f73b87abcfd89a5af3948ee834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 01/54] fix: lexer must advance past invalid UTF-8

next() returned without moving on an encoding error (or U+FFFD), so Scan
returned the same token forever.
---
 lexer/lexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..4b0178e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From a0cf61842300f772305b932cb84c99be70d02e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 02/54] fix: unterminated text literal at end of line or file

The literal lost its last character, and a lone quote sliced out of bounds.
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b0178e..123a5a2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -319,7 +319,7 @@ func (l *Lexer) scanString() string {
 	for {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
 			l.next()
-- 
2.43.0


From 25f6694c548d27648eb1a9e537750e7eb10419da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 03/54] fix: NewLexer must not write into the caller's buffer

append wrote the trailing blank into spare capacity of the source slice.
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 123a5a2..4d97f71 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,7 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	src = append(src[:len(src):len(src)], 32) // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From fdec9efa19332bd0056d98d5139432ed42d18563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 04/54] fix: a number is a float only if a fraction follows the
 period

`1.x` gave a FLOAT token without the period, `1.2.3` one with two fractions,
and non-ASCII digits were taken as part of a number.
---
 lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4d97f71..d6d7847 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -280,11 +280,11 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 	tok = token.INT
 
 	// TODO : Add support for all number types, int, floats
-	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
-		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+	for isDigit(l.chr) || tok == token.INT && l.chr == '.' && isDigit(rune(l.peek())) {
+		if l.chr == '.' { // a fraction follows, its not part of a bound .., ...
 			tok = token.FLOAT
 		}
+		l.next()
 	}
 	return tok, string(l.src[offsetPre:l.offset])
 }
-- 
2.43.0


From c75d88d1baca2914b3927419759755b6a0b1c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 05/54] fix: only ASCII letters start a control operator

A period before another letter produced an identifier token named ".".
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index d6d7847..fd3ec27 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -166,7 +166,7 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				l.next()
 				tok = token.INCLUSIVE_BOUND
 				lit = ".."
-			} else if unicode.IsLetter(l.chr) {
+			} else if isLetter(l.chr) {
 				// Scan for control operators
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
-- 
2.43.0


From e1dd1e2cd76054f5d7a0b98afa16b7f7b91754c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 06/54] fix: an unknown control operator is not an identifier

---
 lexer/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index fd3ec27..40f10b4 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -171,7 +171,9 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
 
-				tok = token.Lookup(lit)
+				if tok = token.Lookup(lit); tok == token.IDENT {
+					tok = token.ILLEGAL // no such control operator
+				}
 			} else {
 				tok = token.PERIOD
 			}
-- 
2.43.0


From 02ff0c8a3dd0567f396ad9019c98a74ca271e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 07/54] fix: the names of internal markers are not keywords

`text_literal` and `INTERNAL_MARKER_numeric_end` were looked up as tokens.
---
 token/token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..acac639 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,9 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		if i == numeric_end || i == TEXT_LITERAL {
+			continue // not names of the language
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From bc594edff96f0c08a54ae195eea36fbd64f7b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 08/54] fix: report lexer errors from ParseFile

---
 lexer/lexer.go       |  6 ++++--
 parser/diagnostic.go |  8 ++++++++
 parser/parser.go     | 12 +++++++-----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 40f10b4..af9d98e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -320,7 +320,7 @@ func (l *Lexer) scanString() string {
 
 	for {
 		if l.chr < 0 || l.chr == '\n' {
-			l.error(l.offset, "unexpected newline character before string termination")
+			l.error(offsetPre-1, "unexpected newline character before string termination")
 			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
@@ -383,7 +383,9 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	lenLines := len(l.lineOffsets)
+	pos := token.Position{Offset: offset, Line: lenLines, Column: offset - l.lineOffsets[lenLines-1]}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
diff --git a/parser/diagnostic.go b/parser/diagnostic.go
index 2676301..71ae775 100644
--- a/parser/diagnostic.go
+++ b/parser/diagnostic.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/HannesKimara/cddlc/errors"
 	"github.com/HannesKimara/cddlc/token"
@@ -93,6 +94,13 @@ func (er ErrorList) Diagnostic() string {
 	return er.String()
 }
 
+// sort puts the errors in the order of the source
+func (er ErrorList) sort() {
+	sort.SliceStable(er, func(i, j int) bool {
+		return er[i].Start().Offset < er[j].Start().Offset
+	})
+}
+
 func (er ErrorList) Collect() ErrorList {
 	if len(er) == 0 {
 		return nil
diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..fd0395b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -95,6 +90,13 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		p.next()
 	}
 
+	for _, lexErr := range p.lexer.Errors {
+		err := NewError(lexErr.Msg, lexErr.Pos, lexErr.Pos)
+		err.Prefix = "lexer"
+		p.errorHandler(err)
+	}
+	p.errors.sort()
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
-- 
2.43.0


From 5bf32fb49d03cf3d8deea622db2ead0efa859d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 09/54] fix: report name errors in source order

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index fd0395b..d5f6578 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -97,12 +97,14 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	}
 	p.errors.sort()
 
+	parsed := len(p.errors)
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
 			p.errorHandler(err)
 		}
 	}
+	p.errors[parsed:].sort()
 
 	return cddl, p.errors.Collect()
 
-- 
2.43.0


From 2fdc61d494666a8ebc65df2acc53e0175f456cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 10/54] fix: report a tag whose parenthesis is not closed

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d5f6578..473dc67 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -112,11 +112,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 func (p *Parser) expectPeek(tok token.Token) bool {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
 		return false
 	}
 	p.next()
-	return false
+	return true
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -452,7 +451,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if !p.expectPeek(token.RPAREN) {
+			return tagBase, p.errorTokenExpected(p.peekPos, token.RPAREN)
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 43de15a67304e583fa5fd8b74adaf08f191451be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 11/54] fix: a trailing comment must not swallow the next
 rule's name

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 473dc67..f0df66c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -176,7 +176,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From 85e962a7c403e95053d96dc3e1b56de437a04e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 12/54] fix: allow comments before a closing bracket

---
 parser/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f0df66c..cef7cb3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -187,10 +187,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
 	var exp ast.Node
-	if p.currToken == token.COMMENT { // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
-		_, _ = p.parseComment()
-		p.next()
-	}
+	p.skipComments() // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
 	nudFn := p.nuds[p.currToken]
 	if p.currToken == token.IDENT && p.peekToken == token.COLON {
 		nudFn = p.parseIdentifier
@@ -630,6 +627,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	g := &ast.Group{}
 	g.Pos = p.pos
 	p.next()
+	p.skipComments()
 
 	for p.currToken != token.RPAREN {
 		rawEntry, err := p.parseEntry(p.currToken.Precedence())
@@ -646,6 +644,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 
 		}
 		p.next()
+		p.skipComments()
 	}
 	return g, nil
 }
@@ -666,6 +665,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
 	p.next()
+	p.skipComments()
 
 	for p.currToken != token.RBRACE {
 		rule, err := p.parseEntry(p.currToken.Precedence())
@@ -676,6 +676,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 			g.Rules = append(g.Rules, rule)
 		}
 		p.next()
+		p.skipComments()
 	}
 	return g, nil
 }
@@ -684,6 +685,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	arr := &ast.Array{}
 	arr.Pos = p.pos
 	p.next()
+	p.skipComments()
 
 	for p.currToken != token.RBRACK {
 		rawEntry, err := p.parseEntry(p.currToken.Precedence())
@@ -701,6 +703,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 
 		}
 		p.next()
+		p.skipComments()
 	}
 
 	return arr, nil
@@ -721,6 +724,13 @@ func (p *Parser) parseComment() (ast.Node, errors.Diagnostic) {
 	return cg, nil
 }
 
+// skipComments moves past the comments before the next entry, operand or closing bracket
+func (p *Parser) skipComments() {
+	for p.currToken == token.COMMENT {
+		p.next()
+	}
+}
+
 func (p *Parser) parseInnerComment() *ast.Comment {
 	comment := &ast.Comment{
 		Pos:  p.pos,
-- 
2.43.0


From 4a804858bbaf806e34369a4290c34bc38103bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 13/54] fix: .regexp after another type than text must not
 panic

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index cef7cb3..06e7a09 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -568,7 +568,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
-- 
2.43.0


From bfe76f94aa192489a90f66c738c7861ae3aed904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 14/54] fix: keep the left operand of a comparison

---
 parser/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 06e7a09..de8b9ce 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -740,8 +740,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -751,7 +749,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -761,7 +759,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 9fb8b3c442f8a5bbea394485ad0354cf034b37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 15/54] fix: report a comparison with something that is not
 numeric

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index de8b9ce..6172802 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -752,8 +752,8 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+		return op, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
-- 
2.43.0


From 1d2e4153bbcf63dd189a973d5cf439ec4615129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 16/54] fix: .bits without a constraint must not panic

---
 parser/parser.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6172802..67afd9f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -597,7 +597,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -653,14 +652,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From 2208dec526791eb1ec681203d56f9659ee8a918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 17/54] fix: report a range whose lower bound is no number or
 name

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 67afd9f..613a975 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -767,6 +767,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
-- 
2.43.0


From fb2907b94c1939e173813fb2a724e4ac2b635ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 18/54] fix: report a range whose upper bound is no number or
 name

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 613a975..bb12773 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -892,6 +892,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected integer upper bound", to.Start(), to.End())
 	}
 
 	return b, nil
@@ -937,6 +939,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected float upper bound", to.Start(), to.End())
 	}
 
 	return b, nil
-- 
2.43.0


From 3dab34301b1b0ecd6a94d797ae5d024a9a741a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 19/54] fix: range bounds given by name must resolve to numbers
 of the same kind

---
 parser/parser.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bb12773..056ee30 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -836,22 +836,36 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	b.To = to
 
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
-		valLeft := p.environment.Get(left.Name)
-		to := b.To
-		switch val := to.(type) {
-		case *ast.Identifier:
-			valRight := p.environment.Get(val.Name)
-			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
-				return p.error(
-					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
-					left.Pos, val.Pos)
-			}
+		valLeft, valRight := p.resolve(left), p.resolve(b.To)
+		switch valLeft.(type) {
+		case *ast.IntegerLiteral, *ast.FloatLiteral:
+			// pass
+		default:
+			return p.error("expected integer or float lower bound", left.Pos, left.Pos)
+		}
+		if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
+			return p.error(
+				fmt.Sprintf("operator %s expected same type min, max values. The values resolve to %T and %T", b.Token, valLeft, valRight),
+				left.Start(), b.To.End())
 		}
 		return nil
 	})
 	return b, nil
 }
 
+// resolve follows names to the node they are defined as, nil if there is none
+func (p *Parser) resolve(node ast.Node) ast.Node {
+	seen := make(map[string]bool)
+	for {
+		ident, ok := node.(*ast.Identifier)
+		if !ok || seen[ident.Name] {
+			return node
+		}
+		seen[ident.Name] = true
+		node = p.environment.Get(ident.Name)
+	}
+}
+
 func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Diagnostic) {
 	b := &ast.Range{
 		Pos:   p.pos,
@@ -881,7 +895,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
-			val := p.environment.Get(ident)
+			val := p.resolve(right)
 			switch val.(type) {
 			case *ast.IntegerLiteral:
 				// pass
@@ -928,7 +942,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
-			val := p.environment.Get(ident)
+			val := p.resolve(right)
 			switch val.(type) {
 			case *ast.FloatLiteral:
 				// pass
-- 
2.43.0


From 98bf042699bc9f94d14642041904784f9fa1738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 20/54] fix: an integer key starts at the key, not at the colon

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 056ee30..86efae3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -339,7 +339,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  p.pos,
+			Pos:  val.Pos,
 			Name: fmt.Sprintf("%d", val.Literal),
 		}
 	default:
-- 
2.43.0


From 75fdd06ee2e055a7483c08fad023d08df3d67396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 21/54] fix: positions of tag numbers

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 86efae3..501e2ba 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -429,7 +429,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
@@ -494,7 +494,7 @@ func (p *Parser) parseFloatTag() (*ast.Tag, errors.Diagnostic) {
 	}
 
 	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint}
-	tag.TagNumber = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: numberUint}
+	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint}
 
 	return tag, nil
 }
-- 
2.43.0


From 387c2cb313b33a5612e1c1c8c560da9d5269d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 22/54] fix: a choice assignment defines the name if nothing
 else does

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 501e2ba..58c8637 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -169,6 +169,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		_ = p.environment.Add(rule.Name.Name, entry) // extends the name if it exists
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From e090fafb5b7db200cc2c0963317f74839601c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 23/54] fix: unnamed types, literals and choices are group
 entries too

---
 ast/array.go              | 2 ++
 ast/boolean.go            | 4 ++++
 ast/bytes.go              | 4 ++++
 ast/control_bits.go       | 2 ++
 ast/control_comparator.go | 2 ++
 ast/control_regexp.go     | 2 ++
 ast/control_size.go       | 2 ++
 ast/float.go              | 4 ++++
 ast/groupchoice.go        | 2 ++
 ast/integer.go            | 6 ++++++
 ast/map.go                | 2 ++
 ast/null.go               | 2 ++
 ast/tag.go                | 2 ++
 ast/text.go               | 4 ++++
 ast/typechoice.go         | 2 ++
 ast/uint.go               | 2 ++
 ast/uint_literal.go       | 2 ++
 ast/unwrap.go             | 2 ++
 18 files changed, 48 insertions(+)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..e99a5f0 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -19,3 +19,5 @@ func (a *Array) End() token.Position {
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
+
+func (a *Array) groupEntry() {}
diff --git a/ast/boolean.go b/ast/boolean.go
index 49b9f2d..328c50b 100644
--- a/ast/boolean.go
+++ b/ast/boolean.go
@@ -16,6 +16,8 @@ func (b *BooleanType) End() token.Position {
 	return b.Pos.To(4)
 }
 
+func (b *BooleanType) groupEntry() {}
+
 type BooleanLiteral struct {
 	Range token.PositionRange
 	Bool  bool
@@ -28,3 +30,5 @@ func (bl *BooleanLiteral) Start() token.Position {
 func (bl *BooleanLiteral) End() token.Position {
 	return bl.Range.End
 }
+
+func (bl *BooleanLiteral) groupEntry() {}
diff --git a/ast/bytes.go b/ast/bytes.go
index 38ac0cc..3ea2104 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -22,6 +22,8 @@ func (b *BytesType) End() token.Position {
 	return b.Pos.To(5) // length of `bytes`
 }
 
+func (b *BytesType) groupEntry() {}
+
 func (b *BstrType) Start() token.Position {
 	return b.Pos
 }
@@ -29,3 +31,5 @@ func (b *BstrType) Start() token.Position {
 func (b *BstrType) End() token.Position {
 	return b.Pos.To(5) // length of `bytes`
 }
+
+func (b *BstrType) groupEntry() {}
diff --git a/ast/control_bits.go b/ast/control_bits.go
index 9b87e3f..1828331 100644
--- a/ast/control_bits.go
+++ b/ast/control_bits.go
@@ -24,3 +24,5 @@ func (r *Bits) Start() token.Position {
 func (r *Bits) End() token.Position {
 	return r.Contstraint.End()
 }
+
+func (r *Bits) groupEntry() {}
diff --git a/ast/control_comparator.go b/ast/control_comparator.go
index c81cf53..440f333 100644
--- a/ast/control_comparator.go
+++ b/ast/control_comparator.go
@@ -20,3 +20,5 @@ func (cc *ComparatorOpControl) Start() token.Position {
 func (cc *ComparatorOpControl) End() token.Position {
 	return cc.Right.End()
 }
+
+func (cc *ComparatorOpControl) groupEntry() {}
diff --git a/ast/control_regexp.go b/ast/control_regexp.go
index ef76ec7..83fb25f 100644
--- a/ast/control_regexp.go
+++ b/ast/control_regexp.go
@@ -17,3 +17,5 @@ func (r *Regexp) Start() token.Position {
 func (r *Regexp) End() token.Position {
 	return r.Regex.End()
 }
+
+func (r *Regexp) groupEntry() {}
diff --git a/ast/control_size.go b/ast/control_size.go
index e42d770..59c5739 100644
--- a/ast/control_size.go
+++ b/ast/control_size.go
@@ -26,3 +26,5 @@ func (sc *SizeOperatorControl) Start() token.Position {
 func (sc *SizeOperatorControl) End() token.Position {
 	return sc.Size.End()
 }
+
+func (sc *SizeOperatorControl) groupEntry() {}
diff --git a/ast/float.go b/ast/float.go
index db4952c..6fd1c1b 100644
--- a/ast/float.go
+++ b/ast/float.go
@@ -19,6 +19,8 @@ func (ft *FloatType) End() token.Position {
 	return ft.Pos.To(5) // TODO: support bases float64, 32, 16
 }
 
+func (ft *FloatType) groupEntry() {}
+
 // FloatLiteral represesnts the AST Node for float type token i.e. 3.412
 type FloatLiteral struct {
 	Range   token.PositionRange
@@ -33,3 +35,5 @@ func (fl *FloatLiteral) Start() token.Position {
 func (fl *FloatLiteral) End() token.Position {
 	return fl.Range.End
 }
+
+func (fl *FloatLiteral) groupEntry() {}
diff --git a/ast/groupchoice.go b/ast/groupchoice.go
index 9948fc5..52e6d74 100644
--- a/ast/groupchoice.go
+++ b/ast/groupchoice.go
@@ -15,3 +15,5 @@ func (gc *GroupChoice) Start() token.Position {
 func (gc *GroupChoice) End() token.Position {
 	return gc.Second.End()
 }
+
+func (gc *GroupChoice) groupEntry() {}
diff --git a/ast/integer.go b/ast/integer.go
index 3c1ac8b..b1d1e3a 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -20,6 +20,8 @@ func (it *IntegerType) End() token.Position {
 	return it.Pos.To(3) // length of `int`
 }
 
+func (it *IntegerType) groupEntry() {}
+
 type NegativeIntegerType struct {
 	Pos   token.Position
 	Token token.Token
@@ -33,6 +35,8 @@ func (nt *NegativeIntegerType) End() token.Position {
 	return nt.Pos.To(4) // length of `nint`
 }
 
+func (nt *NegativeIntegerType) groupEntry() {}
+
 // IntegerLiteral represents the AST Node for an integer literal i.e 3
 type IntegerLiteral struct {
 	Pos     token.Position
@@ -47,3 +51,5 @@ func (il *IntegerLiteral) Start() token.Position {
 func (il *IntegerLiteral) End() token.Position {
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
+
+func (il *IntegerLiteral) groupEntry() {}
diff --git a/ast/map.go b/ast/map.go
index 8461b02..e88f2fe 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -18,3 +18,5 @@ func (m *Map) End() token.Position {
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
+
+func (m *Map) groupEntry() {}
diff --git a/ast/null.go b/ast/null.go
index 6768003..684d67d 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -15,3 +15,5 @@ func (nt *NullType) Start() token.Position {
 func (nt *NullType) End() token.Position {
 	return nt.Pos.To(4) // lenth of `null`
 }
+
+func (nt *NullType) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..1caa748 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -16,3 +16,5 @@ func (t *Tag) Start() token.Position {
 func (t *Tag) End() token.Position {
 	return t.Item.End().To(1) // add )
 }
+
+func (t *Tag) groupEntry() {}
diff --git a/ast/text.go b/ast/text.go
index c182d6a..c4f176e 100644
--- a/ast/text.go
+++ b/ast/text.go
@@ -17,6 +17,8 @@ func (tl *TextLiteral) End() token.Position {
 	return tl.Pos.To(len(tl.Literal))
 }
 
+func (tl *TextLiteral) groupEntry() {}
+
 // TstrType represents the AST Node for the `tstr` type definition token
 type TstrType struct {
 	Pos   token.Position
@@ -30,3 +32,5 @@ func (tt *TstrType) Start() token.Position {
 func (tt *TstrType) End() token.Position {
 	return tt.Pos.To(4)
 }
+
+func (tt *TstrType) groupEntry() {}
diff --git a/ast/typechoice.go b/ast/typechoice.go
index 061e9ee..1c1a3c7 100644
--- a/ast/typechoice.go
+++ b/ast/typechoice.go
@@ -16,3 +16,5 @@ func (tc *TypeChoice) Start() token.Position {
 func (tc *TypeChoice) End() token.Position {
 	return tc.Second.End()
 }
+
+func (tc *TypeChoice) groupEntry() {}
diff --git a/ast/uint.go b/ast/uint.go
index cce3793..34ecbe0 100644
--- a/ast/uint.go
+++ b/ast/uint.go
@@ -15,3 +15,5 @@ func (ut *UintType) Start() token.Position {
 func (ut *UintType) End() token.Position {
 	return ut.Range.End
 }
+
+func (ut *UintType) groupEntry() {}
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 01995e5..4345071 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -20,3 +20,5 @@ func (ul *UintLiteral) Start() token.Position {
 func (ul *UintLiteral) End() token.Position {
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
+
+func (ul *UintLiteral) groupEntry() {}
diff --git a/ast/unwrap.go b/ast/unwrap.go
index f9270df..36f61b0 100644
--- a/ast/unwrap.go
+++ b/ast/unwrap.go
@@ -15,3 +15,5 @@ func (u *Unwrap) Start() token.Position {
 func (u *Unwrap) End() token.Position {
 	return u.Item.End()
 }
+
+func (u *Unwrap) groupEntry() {}
-- 
2.43.0


From 50aec00ed484352088d76fac31ddb38d4aeddb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 24/54] fix: an occurrence applies to the item after its upper
 bound

---
 parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 58c8637..ad76121 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -797,7 +797,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
 	}
 
-	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) {
+	// an upper bound is attached to the marker
+	if p.currToken == token.ZERO_OR_MORE && p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) && p.peekPos.Offset == p.pos.Offset+1 {
 		p.next()
 		rightN, err := p.parseUintType()
 		if err != nil {
@@ -807,10 +808,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	p.next() // to the item
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From 7ecca30fd8bcd3fffe2b75c439aa8de9814975e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 25/54] fix: a marker that is not attached to a number starts
 the next entry

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ad76121..90e12c7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,7 +208,7 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 
 	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
 		ledFn := p.leds[p.peekToken]
-		if ledFn == nil {
+		if ledFn == nil || p.peekToken == token.ZERO_OR_MORE && !p.isLowerBound(exp) {
 			return exp, nil
 		}
 		p.next()
@@ -774,6 +774,12 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 	return bound, err
 }
 
+// isLowerBound tells if the node is a number attached to the marker that follows
+func (p *Parser) isLowerBound(node ast.Node) bool {
+	val, ok := node.(*ast.IntegerLiteral)
+	return ok && p.peekPos.Offset == val.Pos.Offset+len(p.currliteral)
+}
+
 func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 	occ := &ast.NMOccurrence{
 		Pos:   p.pos,
@@ -1067,7 +1073,6 @@ func NewParser(lexer *lexer.Lexer, opts ...ConfigOpts) *Parser {
 	p.leds[token.INCLUSIVE_BOUND] = p.parseBound
 	p.leds[token.EXCLUSIVE_BOUND] = p.parseBound
 	p.leds[token.ZERO_OR_MORE] = p.parseOccurrence
-	p.leds[token.ONE_OR_MORE] = p.parseOccurrence
 	p.leds[token.ARROW_MAP] = p.parseColon
 	p.leds[token.COMMA] = p.parseComma
 	p.next()
-- 
2.43.0


From 4c7403198e8edfe7413510ce9120f8d33d76ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 26/54] fix: operands end at the next operator that binds
 looser

---
 parser/parser.go | 38 +++++++++++++++++++-------------------
 token/token.go   |  2 +-
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 90e12c7..06c314d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -148,7 +148,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -353,7 +353,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(token.COLON.Precedence())
 	if err != nil {
 		return val, err
 	}
@@ -377,7 +377,7 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(tc.Token.Precedence() - 1) // nests to the right. TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -392,7 +392,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(gc.Token.Precedence() - 1) // nests to the right. TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -408,7 +408,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(un.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -443,7 +443,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.LOWEST)
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -463,7 +463,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(enum.Token.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -507,7 +507,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(tc.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -553,7 +553,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence())
 	if err != nil {
 		return sop, err
 	}
@@ -580,7 +580,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence())
 	if err != nil {
 		return r, err
 	}
@@ -596,7 +596,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -630,7 +630,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.skipComments()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -660,7 +660,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.skipComments()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -680,7 +680,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.skipComments()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -749,7 +749,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -819,7 +819,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(occ.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -835,7 +835,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -880,7 +880,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -927,7 +927,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
diff --git a/token/token.go b/token/token.go
index acac639..10e6341 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From 3d5c7b23756ee9d9b87798f70fd6e70c3f0e87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 27/54] fix: the types int and float are no tag numbers

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 06c314d..5957647 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -425,6 +425,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 
 	switch p.peekToken {
 	case token.INT: // tag like #6
+		if !p.peekToken.IsLiteral(p.peekLiteral) {
+			break // the type int
+		}
 		p.next()
 		major, err := strconv.ParseUint(p.currliteral, 0, 64)
 		if err != nil {
@@ -432,6 +435,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		}
 		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
+		if !p.peekToken.IsLiteral(p.peekLiteral) {
+			break // the type float
+		}
 		p.next()
 		tagB, err := p.parseFloatTag()
 		if err != nil {
-- 
2.43.0


From 1825e6be4ad2afa03eac71ef28c2e6eb6e6e55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 28/54] fix: an occurrence ends with its item

---
 ast/occurrence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
-- 
2.43.0


From 52f7ff99bb2173c89235e4bfc839f9440f32c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 29/54] fix: the end of a tag without an item

---
 ast/tag.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/tag.go b/ast/tag.go
index 1caa748..9f31017 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,7 +14,15 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1)
 }
 
 func (t *Tag) groupEntry() {}
-- 
2.43.0


From ad68e4f12383e639dbb8039eee68d24ce60d4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 30/54] fix: an empty group, array, map or source has a
 position

---
 ast/array.go     | 2 +-
 ast/cddl_root.go | 2 +-
 ast/group.go     | 2 +-
 ast/map.go       | 2 +-
 parser/parser.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ast/array.go b/ast/array.go
index e99a5f0..819d4f4 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -15,7 +15,7 @@ func (a *Array) Start() token.Position {
 
 func (a *Array) End() token.Position {
 	if len(a.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return a.Pos.To(1)
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
diff --git a/ast/cddl_root.go b/ast/cddl_root.go
index e9a807b..1120520 100644
--- a/ast/cddl_root.go
+++ b/ast/cddl_root.go
@@ -27,7 +27,7 @@ func (c *CDDL) Start() token.Position {
 
 func (c *CDDL) End() token.Position {
 	if len(c.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return c.Pos
 	}
 	return c.Rules[len(c.Rules)-1].End()
 }
diff --git a/ast/group.go b/ast/group.go
index 54d6d41..5b5e476 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -18,7 +18,7 @@ func (g *Group) Start() token.Position {
 
 func (g *Group) End() token.Position {
 	if len(g.Entries) == 0 {
-		return token.Position{Offset: -1}
+		return g.Pos.To(1)
 	}
 	return g.Entries[len(g.Entries)-1].End()
 }
diff --git a/ast/map.go b/ast/map.go
index e88f2fe..110cc49 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -14,7 +14,7 @@ func (m *Map) Start() token.Position {
 
 func (m *Map) End() token.Position {
 	if len(m.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return m.Pos.To(1)
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
diff --git a/parser/parser.go b/parser/parser.go
index 5957647..a36ed04 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -76,7 +76,7 @@ type Parser struct {
 
 // Parses the current file and build the AST from the top. Returns an instance reference of ast.CDDL.
 func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
-	cddl := &ast.CDDL{}
+	cddl := &ast.CDDL{Pos: p.pos}
 	cddl.Rules = []ast.CDDLEntry{}
 
 	for p.currToken != token.EOF {
-- 
2.43.0


From 30b554b31cf46c32bca2ad2c0edeee61013b388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 31/54] fix: bstr and nil are shorter than bytes and null

---
 ast/bytes.go | 2 +-
 ast/null.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/bytes.go b/ast/bytes.go
index 3ea2104..f3d16c0 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -29,7 +29,7 @@ func (b *BstrType) Start() token.Position {
 }
 
 func (b *BstrType) End() token.Position {
-	return b.Pos.To(5) // length of `bytes`
+	return b.Pos.To(4) // length of `bstr`
 }
 
 func (b *BstrType) groupEntry() {}
diff --git a/ast/null.go b/ast/null.go
index 684d67d..6cb8045 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -13,7 +13,7 @@ func (nt *NullType) Start() token.Position {
 }
 
 func (nt *NullType) End() token.Position {
-	return nt.Pos.To(4) // lenth of `null`
+	return nt.Pos.To(len(nt.Token.String())) // `nil` or `null`
 }
 
 func (nt *NullType) groupEntry() {}
-- 
2.43.0


From 6bed85466be3c2b091ee0c58713642878ed0a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 32/54] fix: walk every node type the parser builds

---
 ast/astutils/walk.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..e8ee0f2 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,6 +22,17 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BooleanType:
 		// pass
 
@@ -39,6 +50,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +90,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -173,6 +194,9 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.Second)
 		}
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.UintLiteral:
 		// pass
 
-- 
2.43.0


From b38957c147902b2c89dbd6df42124cc994ae7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 33/54] fix: .size after bytes

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a36ed04..78d44c9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -551,7 +551,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 
 	switch val := left.(type) {
-	case *ast.BstrType, *ast.UintType, *ast.TstrType:
+	case *ast.BstrType, *ast.BytesType, *ast.UintType, *ast.TstrType:
 		sop.Type = val
 	default:
 		err := p.errorUnsupportedTypes(sop.Pos, p.currliteral, token.TSTR, token.BSTR, token.UINT)
-- 
2.43.0


From 3afb7b63a3329e90dbafbeabce62614bc43ae29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 34/54] fix: comparison operators after nint

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 78d44c9..b837014 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -739,7 +739,7 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	switch left.(type) {
-	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
+	case *ast.UintType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.FloatType:
 	default:
 		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.UINT)
 	}
-- 
2.43.0


From b19910b3bc9caae1db65abd699d4343c9afe1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 35/54] fix: an integer literal ends where its text does

---
 ast/integer.go      | 6 ++++++
 ast/uint_literal.go | 6 ++++++
 parser/parser.go    | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/ast/integer.go b/ast/integer.go
index b1d1e3a..34884bf 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -42,6 +42,9 @@ type IntegerLiteral struct {
 	Pos     token.Position
 	Token   token.Token
 	Literal int64
+
+	// EndPos: the position after the literal's text, if it was parsed from one
+	EndPos token.Position
 }
 
 func (il *IntegerLiteral) Start() token.Position {
@@ -49,6 +52,9 @@ func (il *IntegerLiteral) Start() token.Position {
 }
 
 func (il *IntegerLiteral) End() token.Position {
+	if il.EndPos.Line > 0 {
+		return il.EndPos
+	}
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
 
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 4345071..53286e1 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -11,6 +11,9 @@ type UintLiteral struct {
 	Pos     token.Position
 	Token   token.Token
 	Literal uint64
+
+	// EndPos: the position after the literal's text, if it was parsed from one
+	EndPos token.Position
 }
 
 func (ul *UintLiteral) Start() token.Position {
@@ -18,6 +21,9 @@ func (ul *UintLiteral) Start() token.Position {
 }
 
 func (ul *UintLiteral) End() token.Position {
+	if ul.EndPos.Line > 0 {
+		return ul.EndPos
+	}
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
 
diff --git a/parser/parser.go b/parser/parser.go
index b837014..df0fc05 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -305,6 +305,7 @@ func (p *Parser) parseUintLiteral() (*ast.UintLiteral, errors.Diagnostic) {
 			Pos:     p.pos,
 			Token:   p.currToken,
 			Literal: lit,
+			EndPos:  p.pos.To(len(p.currliteral)),
 		}, nil
 	}
 	return nil, p.error("expected uint literal", p.pos, p.pos)
@@ -620,6 +621,7 @@ func (p *Parser) parseIntegerLiteral() (*ast.IntegerLiteral, errors.Diagnostic)
 			Pos:     p.pos,
 			Token:   p.currToken,
 			Literal: lit,
+			EndPos:  p.pos.To(len(p.currliteral)),
 		}, nil
 	}
 	return nil, p.error("expected integer literal", p.pos, p.pos)
@@ -804,6 +806,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 			Pos:     val.Pos,
 			Token:   token.UINT,
 			Literal: uint64(val.Literal),
+			EndPos:  val.EndPos,
 		}
 	default:
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
-- 
2.43.0


From 147ed999437c8f1ab883974fc9db654f9cbe0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 36/54] fix: quote text literals in generated code

---
 transforms/codegen/golang/gen_literals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..f2f1267 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -11,7 +11,7 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
-- 
2.43.0


From 5c99e80b73a38f87f6217a02e20808a3b06ee6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 37/54] fix: generate floating-point literals for whole numbers

---
 transforms/codegen/golang/gen_literals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index f2f1267..b0b3827 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 	"go/token"
 	"strconv"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -16,9 +17,13 @@ func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 }
 
 func (g *Generator) transpileFloatLiteral(fl *ast.FloatLiteral) *gast.BasicLit {
+	value := strconv.FormatFloat(fl.Literal, 'f', -1, 64)
+	if !strings.Contains(value, ".") {
+		value += ".0" // a whole number would be an integer literal
+	}
 	return &gast.BasicLit{
 		Kind:  token.FLOAT,
-		Value: strconv.FormatFloat(fl.Literal, 'f', -1, 64),
+		Value: value,
 	}
 }
 
-- 
2.43.0


From 5ad88b85795f416349fc0fff3bfeef78c4bf90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 38/54] fix: generate code for bstr, nint and the float types

---
 transforms/codegen/golang/gen_base_types.go | 26 +++++++++++++++++++++
 transforms/codegen/golang/gen_grouped.go    |  6 +++++
 2 files changed, 32 insertions(+)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..25f4e1d 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -12,6 +12,14 @@ func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
 	}
 }
 
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
 func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 	return &gast.ArrayType{
 		Elt: &gast.Ident{
@@ -32,6 +40,24 @@ func (g *Generator) transpileIntegerType(it *ast.IntegerType) *gast.Ident {
 	}
 }
 
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	switch ft.Base {
+	case 16, 32: // there is no smaller floating-point type
+		return &gast.Ident{
+			Name: "float32",
+		}
+	}
+	return &gast.Ident{
+		Name: "float64",
+	}
+}
+
 func (g *Generator) transpileUintType(it *ast.UintType) *gast.Ident {
 	return &gast.Ident{
 		Name: "uint",
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..1eaeab4 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -241,6 +241,8 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileIdentifier(val)), nil
 	case *ast.TstrType:
 		return newStructure(g.transpileTstrType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
 	case *ast.BytesType:
 		return newStructure(g.transpileBytesType(val)), nil
 	case *ast.Comment:
@@ -249,6 +251,10 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileNullType(val)), nil
 	case *ast.IntegerType:
 		return newStructure(g.transpileIntegerType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
 	case *ast.UintType:
 		return newStructure(g.transpileUintType(val)), nil
 	case *ast.IntegerLiteral:
-- 
2.43.0


From 69664411a158c8dff93ba41dbfa5cea71fe06835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 39/54] fix: generate a type for null

---
 transforms/codegen/golang/gen_base_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index 25f4e1d..76f0c35 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -30,7 +30,7 @@ func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 
 func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
 	return &gast.Ident{
-		Name: "nil",
+		Name: "any", // nil is not a type
 	}
 }
 
-- 
2.43.0


From 309673d25811cb5470a7eeb8d0af3cac28646a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 40/54] fix: name the receiver of Valid so that it is always a
 Go identifier

---
 transforms/codegen/golang/gen_grouped.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 1eaeab4..43ea726 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent("self") // as in the calls of the validators
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From b55f423ba009c93c74527a290231229eea582d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 41/54] fix: declare Valid methods on types only

---
 transforms/codegen/golang/gen_grouped.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 43ea726..d6d0981 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -61,8 +61,10 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
-		valDecl := g.bundleValidators(stct.validators, val)
-		g.file.Decls = append(g.file.Decls, valDecl)
+		if declToken == token.TYPE { // variables have no methods
+			valDecl := g.bundleValidators(stct.validators, val)
+			g.file.Decls = append(g.file.Decls, valDecl)
+		}
 	case *ast.CDDL:
 		for _, rule := range val.Rules {
 			g.Visit(rule)
-- 
2.43.0


From 5e882b9e3c1d97c289d4898eff3d2929e04147b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 42/54] fix: import the validators once

---
 transforms/codegen/golang/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..390531c 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -90,6 +90,12 @@ func (g *Generator) Package() string {
 }
 
 func (g *Generator) addImport(value string, name string) {
+	for _, im := range g.imports {
+		if im.Path.Value == "\""+value+"\"" {
+			return // imported already
+		}
+	}
+
 	var ident *gast.Ident
 	if name != "" { // nullable ident to prevent space on generated output
 		ident = gast.NewIdent(name)
-- 
2.43.0


From ee1e1d251814c0d5fb38d2d2bd126b2027b38246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 43/54] fix: generate 32-bit floats for float16 and float32

---
 transforms/codegen/golang/gen_base_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index 76f0c35..898871b 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -47,8 +48,8 @@ func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *g
 }
 
 func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
-	switch ft.Base {
-	case 16, 32: // there is no smaller floating-point type
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32: // there is no smaller floating-point type
 		return &gast.Ident{
 			Name: "float32",
 		}
-- 
2.43.0


From d2f243ab8d720b3d1fab45793907dc82554ce7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 44/54] fix: import the validators if and only if they are
 called

---
 transforms/codegen/golang/gen.go          | 10 +++++-----
 transforms/codegen/golang/gen_grouped.go  |  1 +
 transforms/codegen/golang/gen_operator.go |  2 --
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 390531c..a99212b 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -68,19 +68,19 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
-	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
-
-	if len(g.file.Imports) > 0 {
+	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-		for _, spec := range g.file.Imports {
+		for _, spec := range g.imports {
 			importDecl.Specs = append(importDecl.Specs, spec)
 		}
 
 		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
+	// collects the imports of the declarations
+	gast.SortImports(g.fset, g.file)
+
 	return format.Node(output, g.fset, g.file)
 }
 
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index d6d0981..57b7e64 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -110,6 +110,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 	}
 
 	if len(validators) > 0 {
+		g.addImport(VALIDATOR_PKG, "")
 		for _, validator := range validators {
 			ex := &gast.ExprStmt{
 				X: &validator,
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 5b861d0..308cb57 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -38,8 +38,6 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	default:
 		panic("fix later")
 	}
-	g.addImport(VALIDATOR_PKG, "")
-
 	log.Println("Len validators: ", len(stct.validators))
 
 	return stct, nil
-- 
2.43.0


From ddc7f8fcdbe855c7789480ef7419a3e250d82eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 45/54] fix: refuse entries that would be generated as
 malformed Go

---
 transforms/codegen/golang/gen_grouped.go  | 25 ++++++++++++++++++++---
 transforms/codegen/golang/gen_operator.go |  3 +++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 57b7e64..205b219 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -152,16 +152,23 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 				cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
 				field = cast
 			} else {
-				return nil, err
+				return nil, errors.New("transpiler: optional entries without a key are not supported")
 			}
 		case *ast.Identifier:
 			field = &gast.Field{
 				Type: g.transpileIdentifier(val),
 			}
 		case *ast.NMOccurrence:
-			field = &gast.Field{
-				Type: g.transpileNMOccurence(val),
+			keyed, ok := val.Item.(*ast.Entry)
+			if !ok {
+				return nil, errors.New("transpiler: repeated entries without a key are not supported")
+			}
+			stct, err := g.transpileEntry(keyed)
+			if err != nil {
+				return nil, err
 			}
+			field = stct.node.(*gast.Field)
+			field.Type = &gast.ArrayType{Elt: field.Type}
 		default:
 			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
 		}
@@ -206,6 +213,9 @@ func (g *Generator) transpileArray(arr *ast.Array) (*structure, error) {
 }
 
 func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
+	if isLiteral(entry.Value) {
+		return nil, errors.New("transpiler: literals as values of entries are not supported")
+	}
 	ident := g.transpileIdentifier(entry.Name)
 	stct, err := g.transpileNode(entry.Value)
 
@@ -226,6 +236,15 @@ func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
 	return stctRet, nil
 }
 
+// isLiteral returns whether node stands for a value and not for a type
+func isLiteral(node ast.Node) bool {
+	switch node.(type) {
+	case *ast.BooleanLiteral, *ast.FloatLiteral, *ast.IntegerLiteral, *ast.TextLiteral, *ast.UintLiteral:
+		return true
+	}
+	return false
+}
+
 func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 	if node == nil {
 		return nil, errors.New("transpiler: node should not be nil")
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 308cb57..a849474 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -44,6 +44,9 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 }
 
 func (g *Generator) transpileNMOccurence(nm *ast.NMOccurrence) *gast.ArrayType {
+	if isLiteral(nm.Item) {
+		panic("repeated literals are not supported")
+	}
 	stct, err := g.transpileNode(nm.Item)
 	if err != nil {
 		panic("fix later")
-- 
2.43.0


From c10633c066c1443eb2b0e6beefe6059fb591c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 46/54] fix: socket names that look like negative numbers are
 no identifiers

---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..c9751e4 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -27,7 +27,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 			Name: formatted,
 		}
 	}
-	_, err := strconv.ParseInt(formatted, 0, 64)
+	_, err := strconv.ParseUint(formatted, 0, 64) // -1 would not make an identifier
 	if err != nil {
 		panic(fmt.Sprintf("Identifier %s -> %s could not be transformed to valid go identifier", ident.Name, formatted))
 	}
-- 
2.43.0


From 75d6c2b1e8bdd66e92e44603fa055a54278b79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 47/54] fix: look for cddlc.json and cddlc.yaml only

Any file named cddlc.* was taken for the configuration and made generate
fail, characters special to glob in the directory's name hid it, and a
directory that could not be read was taken for one without configuration.
---
 cmd/cddlc/commands/generate.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..a2be9be 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -97,16 +97,20 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		path := filepath.Join(dir, name)
+
+		_, err := os.Stat(path)
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		} else if err != nil {
+			return nil, err
+		}
 
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+		return config.LoadConfig(path)
 	}
 
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
-- 
2.43.0


From 76f0efa8be644a5df21e79b73c8563b506438454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 48/54] fix: write outputs only when generated, and report
 failures

The output was emptied before the schema was parsed, so that a failing
schema destroyed what was generated earlier; failures to generate crashed
or were ignored, and so were failures to write.
---
 cmd/cddlc/commands/generate.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index a2be9be..814e1bc 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -120,13 +121,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -140,14 +134,30 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return errors.New("parser failed with errors above")
 	}
 
-	gen.Visit(cddl)
-
+	out := &bytes.Buffer{}
 	err = addBuildHeader(out)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	err = generateTree(gen, cddl, out)
+	if err != nil {
+		return errors.New("failed to generate `" + filepath + "` with err: `" + err.Error() + "`")
+	}
+
+	// the output is written once it is known to be complete
+	return os.WriteFile(outPath, out.Bytes(), 0666)
+}
+
+// generateTree generates the tree. Constructs that the generator does not support are reported as errors
+func generateTree(gen *gogen.Generator, cddl *ast.CDDL, out io.Writer) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	gen.Visit(cddl)
+	return gen.String(out)
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From 35c9a90f7a03fc3dd58cb08ca7ba79a5fe09cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 49/54] fix: arguments cannot end the comment of generated
 files

---
 cmd/cddlc/commands/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 814e1bc..77c24b8 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -161,7 +161,9 @@ func generateTree(gen *gogen.Generator, cddl *ast.CDDL, out io.Writer) (err erro
 }
 
 func addBuildHeader(f io.Writer) error {
-	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
+	command := filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ")
+	command = strings.ReplaceAll(command, "*/", "* /") // must not end the comment
+	header := "/*\n  File generated using `" + command + "`. DO NOT EDIT\n*/\n\n"
 
 	_, err := f.Write([]byte(header))
 	if err != nil {
-- 
2.43.0


From f79b1e23db55dc9b8d3b9378f994baf8c57768c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 50/54] fix: init fails if the configuration appears meanwhile
 or cannot be closed

---
 cmd/cddlc/commands/init.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..3ac3a33 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -13,7 +13,7 @@ import (
 
 const configFile string = "cddlc.json"
 
-func getFileHandle(name string) (io.Writer, error) {
+func getFileHandle(name string) (io.WriteCloser, error) {
 	root, err := os.Getwd()
 	if err != nil {
 		return nil, err
@@ -26,7 +26,7 @@ func getFileHandle(name string) (io.Writer, error) {
 		// file exists
 		return nil, errors.New("existing configuration for project found in " + fp)
 	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
+		return os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
 	default:
 		return nil, err
 	}
@@ -42,7 +42,8 @@ func InitCmd(cCtx *cli.Context) error {
 	enc.SetIndent("", "	")
 
 	if err := enc.Encode(conf); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
-- 
2.43.0


From 207210afa7fd957067b8ca838c30417ed66f01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 51/54] fix: register the case converters

The variable of the package was shadowed, so that no case conversion was
valid.
---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index c9751e4..7c55cb0 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -37,7 +37,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 }
 
 func init() {
-	converters := make(map[string]stringConverter)
+	converters = make(map[string]stringConverter)
 
 	converters["camelcase"] = strcase.ToCamel
 	converters["snakecase"] = strcase.ToSnake
-- 
2.43.0


From fcdcf5fd450bd43a09ae5c60795affa6a69144c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 52/54] fix: generated files need a package name

The default configuration had none, and what was generated with it or with
other names that are no identifiers was not valid Go.
---
 config/config.go                 | 1 +
 transforms/codegen/golang/gen.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..1782a42 100644
--- a/config/config.go
+++ b/config/config.go
@@ -87,6 +87,7 @@ func NewDefaultConfig() *Config {
 
 func newDefaultBuildConfig() *BuildConfig {
 	return &BuildConfig{
+		Package:   "dist",
 		SourceDir: ".",
 		OutDir:    "dist/",
 	}
diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index a99212b..b27d5e8 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -68,6 +68,10 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
+	if !token.IsIdentifier(g.pkg) || g.pkg == "_" {
+		return fmt.Errorf("invalid package name `%s`", g.pkg)
+	}
+
 	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-- 
2.43.0


From 3d7eb8a74cc6adf1977d9f6bebc9d475edc4a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 53/54] fix: mark errors after tabs and multi-byte characters
 in the right place

The marker was put by the number of bytes before the error.
---
 cmd/cddlc/commands.go          | 10 +++++++++-
 cmd/cddlc/commands/generate.go |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index ec2dc4e..48deefc 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"runtime"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -118,8 +119,15 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 		if pos.Line <= lCount {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
+			// a blank for each character before the error. Tabs are kept to take up the same space
+			indent := strings.Map(func(r rune) rune {
+				if r == '\t' {
+					return r
+				}
+				return ' '
+			}, lPrefix+line[:pos.Column-1])
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%s˜", err, lPrefix, line, indent),
 			)
 		}
 	}
diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 77c24b8..0ad4866 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -183,8 +183,15 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 		if pos.Line <= lCount {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
+			// a blank for each character before the error. Tabs are kept to take up the same space
+			indent := strings.Map(func(r rune) rune {
+				if r == '\t' {
+					return r
+				}
+				return ' '
+			}, lPrefix+line[:pos.Column-1])
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%s˜", err, lPrefix, line, indent),
 			)
 		}
 	}
-- 
2.43.0


From 8b4a835df51b7d8f6d932ffa6bd99768ec3a166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:51 +0000
Subject: [PATCH 54/54] fix: an interactive session takes lines of any length

---
 cmd/cddlc/commands/repl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/repl.go b/cmd/cddlc/commands/repl.go
index e8e4644..6e3ee3e 100644
--- a/cmd/cddlc/commands/repl.go
+++ b/cmd/cddlc/commands/repl.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -21,6 +22,7 @@ const PROMPT string = ">>>"
 
 func Repl(cCtx *cli.Context) error {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt) // lines of any length
 	parseVerbose := false
 
 	fmt.Println("Welcome to the cddlc quick repl.")
-- 
2.43.0

