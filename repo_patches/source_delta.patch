From 1ba941670a634aa9ba28a141ceb178ca8eadbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 01/69] fix: consume CDO and CDC tokens instead of lexing them
 forever

---
 internal/lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..4ca2b3e 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -175,6 +175,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
@@ -188,6 +191,10 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				l.step()
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
-- 
2.43.0


From 3a5508115ea71545b13091a1de550b6a08492ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 02/69] fix: treat lone carriage returns and form feeds as
 newlines

---
 internal/lexer/lexer.go    | 13 ++++++++++++-
 internal/sources/source.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4ca2b3e..fca1a2c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -89,6 +89,12 @@ func (l *Lexer) step() {
 			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
 		}
 
+		// A lone carriage return is a newline by itself, so whatever follows it is not consumed.
+		if next != '\n' {
+			next, nextSize = '\n', 0
+			l.source.Lines = append(l.source.Lines, l.pos+size)
+		}
+
 		l.ch = next
 		l.lastPos = l.pos
 		l.pos += size + nextSize
@@ -99,6 +105,11 @@ func (l *Lexer) step() {
 		l.source.Lines = append(l.source.Lines, l.pos+size)
 	}
 
+	// A form feed is also a newline for the grammar, but it does not start a new line of the file.
+	if cp == '\f' {
+		cp = '\n'
+	}
+
 	l.ch = cp
 	l.lastPos = l.pos
 	l.pos += size
@@ -395,7 +406,7 @@ func startsEscape(p0, p1 rune) bool {
 		return false
 	}
 
-	if p1 == '\n' {
+	if p1 == '\n' || p1 == '\r' || p1 == '\f' {
 		return false
 	}
 
diff --git a/internal/sources/source.go b/internal/sources/source.go
index 3160d7b..d213835 100644
--- a/internal/sources/source.go
+++ b/internal/sources/source.go
@@ -38,7 +38,7 @@ func (s *Source) FullLine(loc ast.Span) ast.Span {
 
 	lineEnd := len(s.Content)
 	for i, ch := range s.Content[loc.Start:] {
-		if ch == '\n' {
+		if ch == '\n' || ch == '\r' {
 			lineEnd = i + loc.Start
 			break
 		}
-- 
2.43.0


From 908eccf9dc1feeeccfdb3f16be56c7f4f0f86142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/69] fix: do not record line offsets twice when the lexer is
 rewound

---
 internal/lexer/lexer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index fca1a2c..2bddaa6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -68,10 +68,19 @@ func NewLexer(source *sources.Source) *Lexer {
 	return l
 }
 
+// addLine records the start of a line. The lexer can be rewound and run again over
+// the same text, so offsets that were already recorded are skipped.
+func (l *Lexer) addLine(offset int) {
+	if n := len(l.source.Lines); n > 0 && l.source.Lines[n-1] >= offset {
+		return
+	}
+	l.source.Lines = append(l.source.Lines, offset)
+}
+
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
 	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+		l.addLine(l.pos)
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -86,13 +95,13 @@ func (l *Lexer) step() {
 	if cp == '\r' {
 		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
 		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+			l.addLine(l.pos+size+nextSize)
 		}
 
 		// A lone carriage return is a newline by itself, so whatever follows it is not consumed.
 		if next != '\n' {
 			next, nextSize = '\n', 0
-			l.source.Lines = append(l.source.Lines, l.pos+size)
+			l.addLine(l.pos+size)
 		}
 
 		l.ch = next
@@ -102,7 +111,7 @@ func (l *Lexer) step() {
 	}
 
 	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+		l.addLine(l.pos+size)
 	}
 
 	// A form feed is also a newline for the grammar, but it does not start a new line of the file.
-- 
2.43.0


From 94b46baf844d05153775822c49138b0b8673f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 04/69] fix: consume the escaped code point of an escape

---
 internal/lexer/lexer.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 2bddaa6..787b0e1 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -347,9 +347,7 @@ func (l *Lexer) Next() {
 					case -1:
 						l.Errorf("unexpected EOF")
 					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						l.nextEscapedCodePoint()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
@@ -596,11 +594,22 @@ func (l *Lexer) nextName() {
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
 	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	l.nextEscapedCodePoint()
+}
+
+// nextEscapedCodePoint consumes what follows the backslash of an escape: either up to six
+// hex digits and a single whitespace, or any one code point.
+func (l *Lexer) nextEscapedCodePoint() {
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0


From ce4644102d15e4cf101ee97bd525429f7b4caae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 05/69] fix: do not include trailing whitespace in unquoted
 urls

---
 internal/lexer/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 787b0e1..953764f 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -507,8 +507,17 @@ func (l *Lexer) nextIdentLikeToken() {
 				l.Errorf("unexpected token: %c", l.ch)
 			default:
 				if isWhitespace(l.ch) {
+					urlEnd := l.lastPos
+					for isWhitespace(l.ch) {
+						l.step()
+					}
+					// Whitespace is only allowed before the closing parenthesis, and is not part of the url.
+					if l.ch != ')' {
+						l.Errorf("unexpected whitespace in url")
+					}
+					l.CurrentString = l.source.Content[urlStart:urlEnd]
 					l.step()
-					continue
+					return
 				}
 
 				if isNonPrintable(l.ch) {
-- 
2.43.0


From 9eac27de8228c8a01c45442c0311f313abdf1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 06/69] fix: follow the css syntax definition of what starts an
 identifier

---
 internal/lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 953764f..3e76258 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -201,7 +201,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -399,11 +399,11 @@ func (l *Lexer) Next() {
 func startsIdentifier(p0, p1, p2 rune) bool {
 	switch p0 {
 	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
 	case '\n':
 		return false
 	default:
-		return isNameCodePoint(p0)
+		return isNameStartCodePoint(p0) || startsEscape(p0, p1)
 	}
 }
 
-- 
2.43.0


From ff50f44f8ef6be41f2be6a14ff3305f9c2e39125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 07/69] fix: a period only starts a number when a digit follows
 it

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3e76258..03ae2c0 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -276,7 +276,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From f88f9458d7349a5e4153cdf7827efdf93b8cae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 08/69] fix: only ascii digits form numbers, and NUL is a name
 code point

---
 internal/lexer/lexer.go  | 23 +++++++++++------------
 internal/lexer/tokens.go | 11 +++++++----
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 03ae2c0..fad9756 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,6 @@
 package lexer
 
 import (
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -377,7 +376,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -423,22 +422,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -548,27 +547,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..adc05ac 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
@@ -91,7 +94,7 @@ func isWhitespace(r rune) bool {
 
 // isNameStartCodePoint implements https://www.w3.org/TR/css-syntax-3/#name-start-code-point.
 func isNameStartCodePoint(r rune) bool {
-	return (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z') || r >= 0x80 || r == '_'
+	return (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z') || r >= 0x80 || r == '_' || r == 0
 }
 
 // isNonPrintable implements https://www.w3.org/TR/css-syntax-3/#non-printable-code-point.
-- 
2.43.0


From 9c92277a7444508a6a58fb8468e716c2987d6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 09/69] fix: report lexer errors in the first token of a file

---
 internal/lexer/lexer.go   | 6 +++---
 internal/parser/parser.go | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index fad9756..05095a6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -94,13 +94,13 @@ func (l *Lexer) step() {
 	if cp == '\r' {
 		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
 		if next == '\n' {
-			l.addLine(l.pos+size+nextSize)
+			l.addLine(l.pos + size + nextSize)
 		}
 
 		// A lone carriage return is a newline by itself, so whatever follows it is not consumed.
 		if next != '\n' {
 			next, nextSize = '\n', 0
-			l.addLine(l.pos+size)
+			l.addLine(l.pos + size)
 		}
 
 		l.ch = next
@@ -110,7 +110,7 @@ func (l *Lexer) step() {
 	}
 
 	if cp == '\n' {
-		l.addLine(l.pos+size)
+		l.addLine(l.pos + size)
 	}
 
 	// A form feed is also a newline for the grammar, but it does not start a new line of the file.
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..8f5fb37 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	var p *parser
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,15 +17,17 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
+			if errI, ok := rErr.(error); ok && p != nil {
 				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	// The lexer already reads the first token here, and that can fail too.
+	p = newParser(source)
 	p.parse()
 	return p.ss, nil
 }
-- 
2.43.0


From 63ab8c3dcdbe89c73aa8aa57a45ef90f61393133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 10/69] fix: end raw declarations at the end of their block,
 and report an unexpected EOF in them

---
 internal/parser/parser.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 8f5fb37..25bf882 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -146,7 +146,31 @@ func (p *parser) parseRaw() *ast.Raw {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
+	// closers is the stack of tokens that close the blocks opened so far. A semicolon or
+	// curly brace inside of those is part of the value.
+	var closers []lexer.Token
+	for p.lexer.Current != lexer.Semicolon || len(closers) > 0 {
+		if p.lexer.Current == lexer.RCurly && len(closers) == 0 {
+			// The last declaration of a block may omit the semicolon. The block's brace is the caller's.
+			raw.End = p.lexer.TokenSpan().Start
+			raw.Value = p.source.Content[raw.Start:raw.End]
+			return raw
+		}
+
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
+		case lexer.LParen, lexer.FunctionStart:
+			closers = append(closers, lexer.RParen)
+		case lexer.LBracket:
+			closers = append(closers, lexer.RBracket)
+		case lexer.LCurly:
+			closers = append(closers, lexer.RCurly)
+		default:
+			if len(closers) > 0 && p.lexer.Current == closers[len(closers)-1] {
+				closers = closers[:len(closers)-1]
+			}
+		}
 		p.lexer.Next()
 	}
 	raw.End = p.lexer.TokenEnd()
-- 
2.43.0


From b7a4230ab0edd1febf37cfa197bdf9cd904da21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 11/69] fix: do not drop or split declarations at tokens that
 are not values

---
 internal/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 25bf882..92e6049 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -231,6 +231,9 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 		default:
 			val := p.parseValue()
 			if val == nil {
+				if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+				}
 				if len(decl.Values) == 0 {
 					p.lexer.Errorf("declaration must have a value")
 				}
-- 
2.43.0


From 662ff5e8e79cfb11f6879c4fcb4c1bbe07baf45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 12/69] fix: !important is an identifier that ends the
 declaration

---
 internal/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 92e6049..a2e7738 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -221,12 +221,15 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
+			if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+				p.lexer.Errorf("!important must end the declaration, unexpected token: %s", p.lexer.Current.String())
+			}
 
 		default:
 			val := p.parseValue()
-- 
2.43.0


From 32535882f4816acf6d9be68a17bb70f363f4810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 13/69] fix: keep delimiters in function arguments, and report
 what is not an argument instead of leaving the function open

---
 internal/parser/parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index a2e7738..b07bdf5 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -353,7 +353,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		val := p.parseValue()
+		if val == nil {
+			p.lexer.Errorf("expected value in math expression")
+		}
+		return val
 	}
 
 	loc := p.lexer.TokenSpan()
@@ -467,6 +471,12 @@ func (p *parser) parseValue() ast.Value {
 					Span: p.lexer.TokenSpan(),
 				})
 				p.lexer.Next()
+			case lexer.Delim:
+				if fn.IsMath() {
+					p.lexer.Errorf("unexpected delimiter: %s", p.lexer.CurrentString)
+				}
+				fn.Arguments = append(fn.Arguments, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
+				p.lexer.Next()
 			default:
 				if fn.IsMath() {
 					fn.Arguments = append(fn.Arguments, p.parseMathExpression())
@@ -475,7 +485,7 @@ func (p *parser) parseValue() ast.Value {
 				val := p.parseValue()
 				if val == nil {
 					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
-- 
2.43.0


From dc1cdab53160d96a5fa308c236f19f2813dd2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 14/69] fix: a rule has exactly one prelude

---
 internal/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index b07bdf5..05a408a 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -94,11 +94,17 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.LCurly:
+			if r.Prelude == nil {
+				p.lexer.Errorf("expected selector")
+			}
 			r.Block = p.parseDeclarationBlock()
 			r.End = r.Block.Location().End
 			return r
 
 		default:
+			if r.Prelude != nil {
+				p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+			}
 			if isKeyframes {
 				r.Prelude = p.parseKeyframeSelectorList()
 				continue
-- 
2.43.0


From 2583d1c48e618fbe3c9c880c5a19772e2a3761df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 15/69] fix: report at-rules with unsupported preludes instead
 of swallowing tokens

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 05a408a..ff01aad 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -121,7 +121,7 @@ func (p *parser) parseDeclarationBlock() *ast.DeclarationBlock {
 	block := &ast.DeclarationBlock{
 		Span: p.lexer.TokenSpan(),
 	}
-	p.lexer.Next()
+	p.lexer.Expect(lexer.LCurly)
 
 	for p.lexer.Current != lexer.RCurly {
 		block.Declarations = append(block.Declarations, p.parseDeclarationOrFallback())
-- 
2.43.0


From 77b37acb48716b4a39380f831b337c96a77bf53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 16/69] fix: accept @media rules without a query

---
 internal/parser/parser.go           | 4 +++-
 internal/transformer/transformer.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ff01aad..1f35890 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -643,7 +643,9 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	if queries := p.parseMediaQueryList(); queries != nil {
+		r.Preludes = []ast.AtPrelude{queries}
+	}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..eee8bc1 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -219,6 +219,12 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
+				if len(node.Preludes) == 0 {
+					// An empty media query list is valid and always matches.
+					rv = append(rv, node)
+					break
+				}
+
 				mq := node.Preludes[0].(*ast.MediaQueryList)
 				mq.Queries = t.transformMediaQueries(mq.Queries)
 				rv = append(rv, node)
-- 
2.43.0


From 1b8b1bce85102b95dacd47e46952f1cc8a708970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 17/69] fix: report @custom-media rules without a query

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 1f35890..c3a531a 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -874,7 +874,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
-- 
2.43.0


From c49bc7fa0c79adc9c4faee82d360087d20c70e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 18/69] fix: report empty queries in a media query list

---
 internal/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index c3a531a..b99682b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -683,6 +683,8 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		q := p.parseMediaQuery()
 		if q != nil {
 			l.Queries = append(l.Queries, q)
+		} else if len(l.Queries) > 0 || p.lexer.Current == lexer.Comma {
+			p.lexer.Errorf("expected media query, unexpected token: %s", p.lexer.Current.String())
 		}
 
 		if p.lexer.Current == lexer.Comma {
-- 
2.43.0


From 30633fe32ac172505e51b195afd5abd0b00e21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 19/69] fix: report media features with missing values

---
 internal/parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index b99682b..ae58f4e 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -760,6 +760,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		}
 
 		secondValue := p.parseValue()
+		if secondValue == nil {
+			p.lexer.Errorf("expected value in media feature")
+		}
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -779,6 +782,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		r.Operator = p.parseMediaRangeOperator()
 
 		secondValue := p.parseValue()
+		if firstValue == nil || secondValue == nil {
+			p.lexer.Errorf("expected value on both sides of the operator in media feature")
+		}
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -808,6 +814,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
 			r.RightValue = p.parseValue()
+			if r.RightValue == nil {
+				p.lexer.Errorf("expected value after the operator in media feature")
+			}
 		}
 
 		r.End = p.lexer.TokenEnd()
-- 
2.43.0


From 908a0bc7997c780df6eb1218656bc13a7af7a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 20/69] fix: @import and @custom-media rules end with a
 semicolon

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ae58f4e..28acde2 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -580,6 +580,10 @@ func (p *parser) parseImportAtRule() {
 		imp.Preludes = append(imp.Preludes, mq)
 	}
 
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("expected ; after @import, unexpected token: %s", p.lexer.Current.String())
+	}
+
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
 	p.ss.Nodes = append(p.ss.Nodes, imp)
 }
@@ -888,6 +892,9 @@ func (p *parser) parseCustomMediaAtRule() {
 	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("expected ; after @custom-media, unexpected token: %s", p.lexer.Current.String())
+	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
 	r.End = queries.Queries[0].End
 
-- 
2.43.0


From 3deb817c157e14395e64c82e9eb38eff5f2b7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 21/69] fix: keep the descendant combinator after attribute
 selectors, and do not merge type selectors

---
 internal/parser/selectors.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..b8e78f0 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -55,6 +55,15 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Next()
 
 		case lexer.Ident:
+			if len(s.Parts) > 0 {
+				// A type selector starts a compound selector, so it would change meaning if it was
+				// only kept apart from what is before it by a comment.
+				switch s.Parts[len(s.Parts)-1].(type) {
+				case *ast.Whitespace, *ast.CombinatorSelector:
+				default:
+					p.lexer.Errorf("unexpected type selector: %s", p.lexer.CurrentString)
+				}
+			}
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
@@ -174,6 +183,14 @@ func (p *parser) parseSelector() *ast.Selector {
 			if len(s.Parts) == 0 {
 				p.lexer.Errorf("expected selector")
 			}
+			if last := len(s.Parts) - 1; last > 0 {
+				// There's nothing to combine with when an attribute selector is the end of the selector.
+				_, isWhitespace := s.Parts[last].(*ast.Whitespace)
+				_, afterAttribute := s.Parts[last-1].(*ast.AttributeSelector)
+				if isWhitespace && afterAttribute {
+					s.Parts = s.Parts[:last]
+				}
+			}
 			s.End = s.Parts[len(s.Parts)-1].Location().End
 			return s
 		}
@@ -197,6 +214,8 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		// Whitespace after the bracket is a descendant combinator.
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -227,6 +246,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		p.lexer.Next()
 	}
 
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From 1fa933e10f96f5dc94605299e8b750c673e1a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 22/69] fix: report unknown attribute selector operators

---
 internal/parser/selectors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index b8e78f0..e4431c9 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -230,6 +230,9 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		}
 		p.lexer.Expect(lexer.Delim)
 	default:
+		if p.lexer.CurrentString != "=" {
+			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
+		}
 		p.lexer.Expect(lexer.Delim)
 	}
 
-- 
2.43.0


From 37d67ff21500359d3f7502002fdeeec5e9645f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 23/69] fix: attribute selector operators are delimiters

---
 internal/parser/selectors.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index e4431c9..0efa180 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -220,6 +220,10 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		return attr
 	}
 
+	if p.lexer.Current != lexer.Delim {
+		p.lexer.Errorf("expected attribute selector operator, got %s", p.lexer.Current.String())
+	}
+
 	switch p.lexer.CurrentString {
 	case "^", "~", "$", "*", "|":
 		attr.PreOperator = p.lexer.CurrentString
-- 
2.43.0


From 24b70b92720e4e5ad8b1a5749469ecb3a6d5e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 24/69] fix: print the sign and zeroes of An+B arguments

---
 internal/parser/selectors.go | 7 ++++++-
 internal/printer/printer.go  | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 0efa180..7338cb0 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -286,7 +286,7 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		}
 
 		v.B = numeral[1:]
-		if len(v.B) == 0 {
+		if len(v.B) == 0 || strings.Trim(v.B, "0123456789") != "" {
 			p.lexer.Errorf("expected number after operator")
 		}
 
@@ -313,6 +313,11 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Expect(lexer.Number)
 	}
 
+	// The operator and B were already part of the first token, e.g. 5 or 2n-3.
+	if v.B != "" {
+		return v
+	}
+
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
 	// us a number. Otherwise, it'll be n + 3 with a delimiter.
 	if p.lexer.Current == lexer.Number {
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..2e15844 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -328,10 +328,12 @@ func (p *printer) print(in ast.Node) {
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+		} else if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From 7c99eaf4b901366aecd8e7e530f5ab43fbc9920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 25/69] fix: accept whitespace around even and odd, and report
 An+B pseudo classes without an argument

---
 internal/parser/selectors.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 7338cb0..fb8ec6e 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -136,6 +136,9 @@ func (p *parser) parseSelector() *ast.Selector {
 				p.lexer.Next()
 
 				if pc.Name == "nth-child" || pc.Name == "nth-last-child" || pc.Name == "nth-of-type" || pc.Name == "nth-last-of-type" {
+					if p.lexer.Current == lexer.Whitespace {
+						p.lexer.Next()
+					}
 					switch p.lexer.Current {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
@@ -153,6 +156,11 @@ func (p *parser) parseSelector() *ast.Selector {
 							Value: p.lexer.CurrentString,
 						}
 						p.lexer.Next()
+						if p.lexer.Current == lexer.Whitespace {
+							p.lexer.Next()
+						}
+					default:
+						p.lexer.Errorf("expected even, odd, or an+b syntax")
 					}
 				} else {
 					pc.Arguments = p.parseSelectorList()
-- 
2.43.0


From 9333bb09c86ff9f104ec764ce5fc0d48b7c27cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 26/69] fix: print the operator and modifier of attribute
 selectors

---
 internal/printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 2e15844..ac5ff58 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -275,9 +275,14 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
 		}
+		if node.Modifier != "" {
+			p.s.WriteRune(' ')
+			p.s.WriteString(node.Modifier)
+		}
 		p.s.WriteRune(']')
 
 	case *ast.TypeSelector:
-- 
2.43.0


From 7cf217f913d906a153edfa884ab629de63b107b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 27/69] fix: print commas between keyframe selectors

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index ac5ff58..66d64f2 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -164,8 +164,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
-- 
2.43.0


From 2ae3b89bdd9726b852960442294b57bead005ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 28/69] fix: print spaces between function arguments

---
 internal/printer/printer.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 66d64f2..2f77caa 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,23 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// needsSpaceBetween returns whether two consecutive function arguments have to be kept apart. Commas
+// and the = of legacy filters, e.g. alpha(opacity=50), do not need it.
+func needsSpaceBetween(values ...ast.Value) bool {
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Comma:
+			return false
+		case *ast.Raw:
+			if v.Value == "=" {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -237,8 +254,12 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
+		for i, arg := range node.Arguments {
 			p.print(arg)
+
+			if i+1 < len(node.Arguments) && needsSpaceBetween(arg, node.Arguments[i+1]) {
+				p.s.WriteRune(' ')
+			}
 		}
 		p.s.WriteRune(')')
 
-- 
2.43.0


From 3966ddd5f0874a9d4ca177fa6f689716e8b2db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 29/69] fix: keep single quotes around strings that contain
 double quotes

---
 internal/printer/printer.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 2f77caa..d193887 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -140,6 +140,21 @@ func needsSpaceBetween(values ...ast.Value) bool {
 	return true
 }
 
+// containsUnescapedQuote returns whether the string contains a double quote by itself, i.e. it was
+// written with single quotes in the source.
+func containsUnescapedQuote(in string) bool {
+	for i := 0; i < len(in); i++ {
+		switch in[i] {
+		case '\\':
+			i++
+		case '"':
+			return true
+		}
+	}
+
+	return false
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -244,9 +259,13 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		quote := '"'
+		if containsUnescapedQuote(node.Value) {
+			quote = '\''
+		}
+		p.s.WriteRune(quote)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteRune(quote)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From 9faaf1126c9d73c551073679249c42226b5fc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 30/69] fix: pass unicode-range declarations through as written

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 28acde2..f011d0d 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
@@ -203,6 +205,11 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 		property = prefix + property
 	}
 
+	// A unicode range is not separable into values, e.g. U+26 is not the same as U +26.
+	if strings.EqualFold(property, "unicode-range") {
+		p.lexer.Errorf("unicode ranges are not parsed")
+	}
+
 	decl := &ast.Declaration{
 		Span:     p.lexer.TokenSpan(),
 		Property: property,
-- 
2.43.0


From 6233031c80ccff88ac1f2cf983a3a1f05187639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 31/69] fix: escape the file path in source maps

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index d193887..afbb8a4 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	file, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(file)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From a2bb3ea9dc6d7e16ffd68307d6e658ca93e023df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 32/69] fix: count utf-16 code units for source map columns

---
 internal/printer/printer.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index afbb8a4..9f9273b 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -84,6 +84,19 @@ func (p *printer) printMapping() {
 	p.s.WriteString(" */\n")
 }
 
+// utf16Len returns the number of utf-16 code units in the string.
+func utf16Len(in string) int32 {
+	var rv int32
+	for _, ch := range in {
+		rv++
+		if ch > 0xffff {
+			rv++
+		}
+	}
+
+	return rv
+}
+
 // addMapping should be called from the printer
 // when a new symbol needs to be added to the sourcemap.
 func (p *printer) addMapping(loc ast.Span) {
@@ -94,11 +107,14 @@ func (p *printer) addMapping(loc ast.Span) {
 	newState := p.lastMappingState
 
 	line, col := p.options.OriginalSource.LineAndCol(loc)
-	newState.originalLine, newState.originalColumn = line-1, col-1
+	// Columns count utf-16 code units in source maps, not bytes.
+	lineStart := loc.Start - int(col-1)
+	newState.originalLine, newState.originalColumn = line-1, utf16Len(p.options.OriginalSource.Content[lineStart:loc.Start])
 
 	// Note that String() here does not reallocate the string.
-	for _, ch := range p.s.String()[p.lastWritten:] {
-		if ch == '\n' {
+	written := p.s.String()[p.lastWritten:]
+	for i, ch := range written {
+		if ch == '\n' || (ch == '\r' && !strings.HasPrefix(written[i+1:], "\n")) {
 			p.lastMappingState.generatedColumn = 0
 			newState.generatedColumn = 0
 			p.sourceMappings.WriteRune(';')
@@ -106,6 +122,9 @@ func (p *printer) addMapping(loc ast.Span) {
 		}
 
 		newState.generatedColumn++
+		if ch > 0xffff {
+			newState.generatedColumn++
+		}
 	}
 
 	if p.s.Len() > 0 {
-- 
2.43.0


From 196f8fdf112694faac6256e9eaaea550da2fffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 33/69] fix: do not print @import rules twice when nothing is
 inlined

---
 internal/transformer/transformer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index eee8bc1..be52b32 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -181,6 +181,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "import":
 				if t.ImportReplacements == nil {
 					rv = append(rv, node)
+					break
 				}
 
 				imported, ok := t.ImportReplacements[node]
-- 
2.43.0


From b2625461ee09e36421a53b3425af473926096f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 34/69] fix: replace every :any-link in a selector with both
 :visited and :link

---
 internal/transformer/transformer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index be52b32..1eab8a7 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -86,17 +86,19 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 					break
 				}
 
-				// Replace one of them with :link.
+				// Make a duplicate with :visited. The rest of its parts may need replacing as well.
+				duplicate := *n
+				duplicate.Parts = append([]ast.SelectorPart{}, newParts...)
+				duplicate.Parts = append(duplicate.Parts, &ast.PseudoClassSelector{Name: "visited"})
+				duplicate.Parts = append(duplicate.Parts, n.Parts[index+1:]...)
+				newNodes = append(newNodes, t.transformSelectors([]*ast.Selector{&duplicate})...)
+
+				// Replace this one with :link.
 				newParts = append(
 					newParts,
 					&ast.PseudoClassSelector{Name: "link"},
 				)
 
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
-
 			default:
 				newParts = append(newParts, p)
 			}
-- 
2.43.0


From 20a3253f4af4de21f3a8adb1fc1e68664466e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 35/69] fix: apply transforms inside of at rules

---
 internal/transformer/transformer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1eab8a7..9aaefb7 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -236,6 +236,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				rv = append(rv, node)
 			}
 
+			t.transformAtRuleBlock(node.Block)
+
 		default:
 			rv = append(rv, value)
 		}
@@ -390,6 +392,23 @@ func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	return block
 }
 
+// transformAtRuleBlock transforms everything inside of the block of an at rule. Unlike with
+// top-level rules, empty blocks are kept.
+func (t *transformer) transformAtRuleBlock(block ast.Block) {
+	switch node := block.(type) {
+	case *ast.QualifiedRuleBlock:
+		for _, rule := range node.Rules {
+			if selList, ok := rule.Prelude.(*ast.SelectorList); ok {
+				selList.Selectors = t.transformSelectors(selList.Selectors)
+			}
+			t.transformAtRuleBlock(rule.Block)
+		}
+
+	case *ast.DeclarationBlock:
+		node.Declarations = t.transformDeclarations(node.Declarations)
+	}
+}
+
 func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.Declarationish {
 	newDecls := make([]ast.Declarationish, 0, len(decls))
 	for _, decl := range decls {
-- 
2.43.0


From 56044ddb7b0e0b92fc1aab74f8b85863178baac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 36/69] fix: only rules for exactly :root define custom
 properties

---
 internal/transformer/transformer.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 9aaefb7..6fe4c25 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -121,16 +121,15 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				isRoot := false
-				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
-					}
+				if len(selList.Selectors) != 1 {
+					return
 				}
 
-				if !isRoot {
-					return
+				// Only whitespace may follow :root, or else the selector matches something else.
+				for _, part := range selList.Selectors[0].Parts[1:] {
+					if _, ok := part.(*ast.Whitespace); !ok {
+						return
+					}
 				}
 
 				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
@@ -138,7 +137,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				if rootSel.Name != "root" {
+				if rootSel.Name != "root" || rootSel.Arguments != nil {
 					return
 				}
 
-- 
2.43.0


From 385eb326ba66361d72fb8ad828e3710e4cf8d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 37/69] fix: substitute custom properties regardless of where
 they are defined

---
 internal/transformer/transformer.go | 104 ++++++++++++++++------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6fe4c25..a099f04 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -52,6 +52,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 		t.Reporter.AddError(fmt.Errorf("ImportRules is set to ImportRulesInline, but ImportReplacements is not set"))
 	}
 
+	t.collectDefinitions(s.Nodes)
 	s.Nodes = t.transformNodes(s.Nodes)
 
 	return s
@@ -110,61 +111,78 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	return newNodes
 }
 
-func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
-	rv := make([]ast.Node, 0, len(nodes))
+// collectDefinitions remembers the definitions of custom properties, including the ones in
+// imported stylesheets. References to them may come before the definition.
+func (t *transformer) collectDefinitions(nodes []ast.Node) {
 	for _, value := range nodes {
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
-			func() {
-				selList, ok := node.Prelude.(*ast.SelectorList)
-				if !ok {
-					return
-				}
+			t.collectVariables(node)
 
-				if len(selList.Selectors) != 1 {
-					return
-				}
+		case *ast.AtRule:
+			if imported, ok := t.ImportReplacements[node]; ok && node.Name == "import" {
+				t.collectDefinitions(imported.Nodes)
+			}
+		}
+	}
+}
 
-				// Only whitespace may follow :root, or else the selector matches something else.
-				for _, part := range selList.Selectors[0].Parts[1:] {
-					if _, ok := part.(*ast.Whitespace); !ok {
-						return
-					}
-				}
+// collectVariables removes custom properties from the rule and remembers them if it is a :root rule.
+func (t *transformer) collectVariables(node *ast.QualifiedRule) {
+	selList, ok := node.Prelude.(*ast.SelectorList)
+	if !ok {
+		return
+	}
 
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
+	if len(selList.Selectors) != 1 {
+		return
+	}
 
-				if rootSel.Name != "root" || rootSel.Arguments != nil {
-					return
-				}
+	// Only whitespace may follow :root, or else the selector matches something else.
+	for _, part := range selList.Selectors[0].Parts[1:] {
+		if _, ok := part.(*ast.Whitespace); !ok {
+			return
+		}
+	}
 
-				declBlock, ok := node.Block.(*ast.DeclarationBlock)
-				if !ok {
-					return
-				}
+	rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
+	if !ok {
+		return
+	}
 
-				newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
-				for _, decl := range declBlock.Declarations {
-					switch d := decl.(type) {
-					case *ast.Declaration:
-
-						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
-							continue
-						}
-						newDecls = append(newDecls, d)
-					default:
-						newDecls = append(newDecls, d)
-					}
+	if rootSel.Name != "root" || rootSel.Arguments != nil {
+		return
+	}
 
-				}
+	declBlock, ok := node.Block.(*ast.DeclarationBlock)
+	if !ok {
+		return
+	}
 
-				declBlock.Declarations = newDecls
-			}()
+	newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
+	for _, decl := range declBlock.Declarations {
+		switch d := decl.(type) {
+		case *ast.Declaration:
+
+			if strings.HasPrefix(d.Property, "--") && t.variables != nil {
+				t.variables[d.Property] = d.Values
+				continue
+			}
+			newDecls = append(newDecls, d)
+		default:
+			newDecls = append(newDecls, d)
+		}
 
+	}
+
+	declBlock.Declarations = newDecls
+}
+
+func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
+	rv := make([]ast.Node, 0, len(nodes))
+	for _, value := range nodes {
+		switch node := value.(type) {
+		case *ast.QualifiedRule:
 			selList, ok := node.Prelude.(*ast.SelectorList)
 			if !ok {
 				t.addError(node.Prelude, "expected selector list for qualified rule")
-- 
2.43.0


From 610283d671d125b3c7d3752cf5f15e442e927584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 38/69] fix: substitute nested var() references, and leave
 references alone that have no usable value

---
 internal/transformer/transformer.go | 238 +++++++++++++++++++++++++---
 1 file changed, 216 insertions(+), 22 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index a099f04..cb39d50 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -42,6 +42,9 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 
 	if opts.CustomProperties != transforms.CustomPropertiesPassthrough {
 		t.variables = make(map[string][]ast.Value)
+		t.importantVariables = make(map[string]bool)
+		t.opaqueVariables = make(map[string]struct{})
+		t.resolvableVariables = make(map[string]bool)
 	}
 
 	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
@@ -63,7 +66,16 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 type transformer struct {
 	Options
 
-	variables   map[string][]ast.Value
+	variables map[string][]ast.Value
+	// importantVariables is the set of variables that have an !important definition.
+	importantVariables map[string]bool
+	// opaqueVariables is the set of variables with definitions that could not be parsed.
+	opaqueVariables map[string]struct{}
+	// resolvableVariables caches whether the value of a variable only has references that can be replaced.
+	resolvableVariables map[string]bool
+	// substitutions counts the references replaced in the current declaration.
+	substitutions int
+
 	customMedia map[string]*ast.MediaQuery
 }
 
@@ -165,10 +177,20 @@ func (t *transformer) collectVariables(node *ast.QualifiedRule) {
 		case *ast.Declaration:
 
 			if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-				t.variables[d.Property] = d.Values
+				if d.Important || !t.importantVariables[d.Property] {
+					t.variables[d.Property] = d.Values
+					t.importantVariables[d.Property] = d.Important
+					delete(t.opaqueVariables, d.Property)
+				}
 				continue
 			}
 			newDecls = append(newDecls, d)
+		case *ast.Raw:
+			// Definitions that could not be parsed are kept, so references to them must be as well.
+			if name := rawProperty(d); t.variables != nil && strings.HasPrefix(name, "--") && !t.importantVariables[name] {
+				t.opaqueVariables[name] = struct{}{}
+			}
+			newDecls = append(newDecls, d)
 		default:
 			newDecls = append(newDecls, d)
 		}
@@ -431,8 +453,17 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	for _, decl := range decls {
 		switch d := decl.(type) {
 		case *ast.Declaration:
+			t.substitutions = 0
 			d.Values = t.transformValues(d.Values)
 			newDecls = append(newDecls, d)
+		case *ast.Raw:
+			for name := range t.variables {
+				if strings.Contains(d.Value, "var(") && strings.Contains(d.Value, name) {
+					t.addWarn(d, "variables are not replaced in declarations that could not be parsed")
+					break
+				}
+			}
+			newDecls = append(newDecls, d)
 		default:
 			newDecls = append(newDecls, d)
 		}
@@ -447,6 +478,10 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		switch v := value.(type) {
 		case *ast.Function:
 			newValues := []ast.Value{v}
+			if v.Name != "var" || t.variables == nil {
+				v.Arguments = t.transformValues(v.Arguments)
+			}
+
 			func() {
 				if v.Name != "var" {
 					return
@@ -467,11 +502,18 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
+				if _, ok := t.opaqueVariables[varName.Value]; ok {
+					return
+				}
+
 				vals, ok := t.variables[varName.Value]
+				if ok && !t.isResolvable(varName.Value) {
+					ok = false
+				}
 				if !ok {
 					// The first argument is the value, the second is a comma.
 					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
+						newValues = t.transformValues(v.Arguments[2:])
 						return
 					}
 
@@ -479,7 +521,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				newValues = vals
+				if t.substitutions++; t.substitutions > maxSubstitutions {
+					t.addError(v, "too many variables to substitute in a single declaration")
+					return
+				}
+
+				newValues = t.transformValues(cloneValues(vals, v.Span))
 			}()
 
 			func() {
@@ -496,28 +543,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
-
-				arg, ok := args[0].(*ast.MathExpression)
+				arg, ok := v.Arguments[0].(*ast.MathExpression)
 				if !ok {
 					return
 				}
 
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
-
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluateMathExpression(arg.Left, arg.Right, arg.Operator)
 				if newValue == nil {
 					return
 				}
@@ -527,6 +558,13 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 
 			rv = append(rv, newValues...)
 
+		case *ast.MathExpression, *ast.MathParenthesizedExpression:
+			rv = append(rv, t.transformOperand(v))
+
+		case *ast.Brackets:
+			v.Values = t.transformValues(v.Values)
+			rv = append(rv, v)
+
 		default:
 			rv = append(rv, v)
 		}
@@ -535,6 +573,162 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// transformOperand transforms a value that can only be replaced with exactly one other value.
+func (t *transformer) transformOperand(value ast.Value) ast.Value {
+	switch v := value.(type) {
+	case *ast.MathExpression:
+		v.Left = t.transformOperand(v.Left)
+		v.Right = t.transformOperand(v.Right)
+
+	case *ast.MathParenthesizedExpression:
+		v.Value = t.transformOperand(v.Value)
+
+	case *ast.Function:
+		values := t.transformValues([]ast.Value{v})
+		if len(values) == 1 {
+			return values[0]
+		}
+		t.addWarn(v, "expected operand of math expression to be a single value")
+	}
+
+	return value
+}
+
+// maxSubstitutions limits how large a single declaration can become, because variables
+// that use each other multiple times grow exponentially.
+const maxSubstitutions = 1 << 16
+
+// rawProperty returns the name of the property of a declaration that could not be parsed.
+func rawProperty(raw *ast.Raw) string {
+	if end := strings.IndexAny(raw.Value, ":/ \t\r\n\f"); end >= 0 {
+		return raw.Value[:end]
+	}
+
+	return raw.Value
+}
+
+// forEachReference calls visit for each var() in the values.
+func forEachReference(values []ast.Value, visit func(ref *ast.Function)) {
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Function:
+			if v.Name == "var" {
+				visit(v)
+			}
+			forEachReference(v.Arguments, visit)
+		case *ast.Brackets:
+			forEachReference(v.Values, visit)
+		case *ast.MathExpression:
+			forEachReference([]ast.Value{v.Left, v.Right}, visit)
+		case *ast.MathParenthesizedExpression:
+			forEachReference([]ast.Value{v.Value}, visit)
+		}
+	}
+}
+
+// isResolvable returns whether the variable and the ones it uses have usable values. Otherwise, the
+// variable is treated as if it was not defined.
+// See: https://www.w3.org/TR/css-variables-1/#cycles.
+func (t *transformer) isResolvable(name string) bool {
+	if rv, ok := t.resolvableVariables[name]; ok {
+		return rv
+	}
+
+	// Find out if the variable is a part of a cycle.
+	seen := make(map[string]struct{})
+	queue := []string{name}
+	for len(queue) > 0 {
+		current := queue[0]
+		queue = queue[1:]
+		forEachReference(t.variables[current], func(ref *ast.Function) {
+			if len(ref.Arguments) == 0 {
+				return
+			}
+			used, ok := ref.Arguments[0].(*ast.Identifier)
+			if !ok {
+				return
+			}
+			if _, ok := seen[used.Value]; !ok {
+				seen[used.Value] = struct{}{}
+				queue = append(queue, used.Value)
+			}
+		})
+	}
+
+	_, isCycle := seen[name]
+	t.resolvableVariables[name] = !isCycle && t.areResolvable(t.variables[name])
+	return t.resolvableVariables[name]
+}
+
+// areResolvable returns whether all var() in the values can be replaced.
+func (t *transformer) areResolvable(values []ast.Value) bool {
+	rv := true
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Function:
+			if v.Name != "var" {
+				rv = rv && t.areResolvable(v.Arguments)
+				break
+			}
+
+			if len(v.Arguments) == 0 {
+				return false
+			}
+
+			name, ok := v.Arguments[0].(*ast.Identifier)
+			if !ok {
+				return false
+			}
+
+			if _, ok := t.opaqueVariables[name.Value]; ok {
+				break
+			}
+
+			if _, ok := t.variables[name.Value]; ok && t.isResolvable(name.Value) {
+				break
+			}
+
+			rv = rv && len(v.Arguments) > 2 && t.areResolvable(v.Arguments[2:])
+		case *ast.Brackets:
+			rv = rv && t.areResolvable(v.Values)
+		case *ast.MathExpression:
+			rv = rv && t.areResolvable([]ast.Value{v.Left, v.Right})
+		case *ast.MathParenthesizedExpression:
+			rv = rv && t.areResolvable([]ast.Value{v.Value})
+		}
+	}
+
+	return rv
+}
+
+// cloneValues copies values to be used at a different place, i.e. the reference
+// to a variable at the specified location.
+func cloneValues(values []ast.Value, loc ast.Span) []ast.Value {
+	rv := make([]ast.Value, 0, len(values))
+	for _, value := range values {
+		rv = append(rv, cloneValue(value, loc))
+	}
+	return rv
+}
+
+func cloneValue(value ast.Value, loc ast.Span) ast.Value {
+	switch v := value.(type) {
+	case *ast.Dimension:
+		return &ast.Dimension{Span: loc, Value: v.Value, Unit: v.Unit}
+	case *ast.Function:
+		return &ast.Function{Span: loc, Name: v.Name, Arguments: cloneValues(v.Arguments, loc)}
+	case *ast.Brackets:
+		return &ast.Brackets{Span: loc, Values: cloneValues(v.Values, loc)}
+	case *ast.MathExpression:
+		return &ast.MathExpression{Span: loc, Operator: v.Operator, Left: cloneValue(v.Left, loc), Right: cloneValue(v.Right, loc)}
+	case *ast.MathParenthesizedExpression:
+		return &ast.MathParenthesizedExpression{Span: loc, Value: cloneValue(v.Value, loc)}
+	default:
+		// The rest is never modified, nor does it appear in errors.
+		return value
+	}
+}
+
 func (t *transformer) doMath(left, right, op string) (float64, error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
 	if err != nil {
-- 
2.43.0


From 420f4e255725a6d5fbade54ec29fc075cfcfc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 39/69] fix: do not report calc() expressions that are valid
 but cannot be reduced

---
 internal/transformer/transformer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index cb39d50..c67cbf7 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -817,7 +817,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			// Valid css, but we cannot reduce (e.g. 2px + 3rem + 1px).
 			return nil
 		}
 
@@ -853,7 +853,11 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
-		if !rightIsDimension || rightAsDimension.Unit != "" {
+		if !rightIsDimension {
+			return nil
+		}
+
+		if rightAsDimension.Unit != "" {
 			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
@@ -874,7 +878,6 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			// case *ast.MathExpression
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
 			return nil
 		}
 
-- 
2.43.0


From 22010760e4be0d7a2c796fcf20f568cc4bea4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 40/69] fix: reduce parenthesized expressions in calc()

---
 internal/transformer/transformer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index c67cbf7..cf9e863 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -543,7 +543,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				arg, ok := v.Arguments[0].(*ast.MathExpression)
+				arg, ok := withoutParentheses(v.Arguments[0]).(*ast.MathExpression)
 				if !ok {
 					return
 				}
@@ -756,10 +756,23 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	}
 }
 
+// withoutParentheses returns the value inside of any number of parentheses.
+func withoutParentheses(v ast.Value) ast.Value {
+	for {
+		expr, ok := v.(*ast.MathParenthesizedExpression)
+		if !ok {
+			return v
+		}
+		v = expr.Value
+	}
+}
+
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
 func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
+	l, r = withoutParentheses(l), withoutParentheses(r)
+
 	if expr, ok := l.(*ast.MathExpression); ok {
 		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			l = evaluated
-- 
2.43.0


From ca4451e462802605e50527b7ed3a9c4adab0dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 41/69] fix: locate errors in intermediate results of calc(),
 and do not print infinite ones

---
 internal/transformer/transformer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index cf9e863..151aaa4 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -2,6 +2,7 @@ package transformer
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -729,7 +730,7 @@ func cloneValue(value ast.Value, loc ast.Span) ast.Value {
 	}
 }
 
-func (t *transformer) doMath(left, right, op string) (float64, error) {
+func (t *transformer) doMath(left, right, op string) (value float64, err error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", left)
@@ -739,6 +740,12 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
+	defer func() {
+		if err == nil && (math.IsInf(value, 0) || math.IsNaN(value)) {
+			value, err = 0, fmt.Errorf("result is out of range")
+		}
+	}()
+
 	switch op {
 	case "+":
 		return leftValue + rightValue, nil
@@ -816,6 +823,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
@@ -860,6 +868,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		return &ast.Dimension{
+			Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 			Unit:  maybeWithUnit.Unit,
 		}
@@ -884,6 +893,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
-- 
2.43.0


From c709fe49ca24eb00eb4e96b1eb21098496d41e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 42/69] fix: support nested media conditions

---
 internal/ast/media.go               |  1 +
 internal/ast/walk.go                | 10 ++++++++++
 internal/parser/parser.go           | 11 +++++++++++
 internal/printer/printer.go         | 11 +++++++++++
 internal/transformer/transformer.go |  4 ++++
 5 files changed, 37 insertions(+)

diff --git a/internal/ast/media.go b/internal/ast/media.go
index 8fb1b72..628b7bb 100644
--- a/internal/ast/media.go
+++ b/internal/ast/media.go
@@ -67,6 +67,7 @@ type MediaFeature interface {
 
 func (MediaFeaturePlain) isMediaFeature() {}
 func (MediaFeatureRange) isMediaFeature() {}
+func (MediaInParens) isMediaFeature()     {}
 
 var _ MediaFeature = MediaFeaturePlain{}
 var _ MediaFeature = MediaFeatureRange{}
diff --git a/internal/ast/walk.go b/internal/ast/walk.go
index 562ed02..b8bbecf 100644
--- a/internal/ast/walk.go
+++ b/internal/ast/walk.go
@@ -48,6 +48,16 @@ func Walk(start Node, visit func(n Node)) {
 			Walk(part, visit)
 		}
 
+	case *MediaInParens:
+		for _, part := range s.Parts {
+			Walk(part, visit)
+		}
+
+	case *Brackets:
+		for _, v := range s.Values {
+			Walk(v, visit)
+		}
+
 	case *MediaFeaturePlain:
 		Walk(s.Property, visit)
 		Walk(s.Value, visit)
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index f011d0d..1225cb9 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -745,6 +745,17 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 	startLoc := p.lexer.TokenSpan()
 	p.lexer.Expect(lexer.LParen)
 
+	// It may be a nested condition, e.g. ((width) and (height)) or (not (width)).
+	if p.lexer.Current == lexer.LParen || (p.lexer.Current == lexer.Ident && strings.EqualFold(p.lexer.CurrentString, "not")) {
+		nested := &ast.MediaInParens{
+			Span:  startLoc,
+			Parts: p.parseMediaQuery().Parts,
+		}
+		nested.End = p.lexer.TokenEnd()
+		p.lexer.Expect(lexer.RParen)
+		return nested
+	}
+
 	firstValue := p.parseValue()
 
 	switch p.lexer.Current {
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 9f9273b..11e5570 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -426,6 +426,17 @@ func (p *printer) print(in ast.Node) {
 			}
 		}
 
+	case *ast.MediaInParens:
+		p.s.WriteRune('(')
+		for i, part := range node.Parts {
+			p.print(part)
+
+			if i+1 < len(node.Parts) {
+				p.s.WriteRune(' ')
+			}
+		}
+		p.s.WriteRune(')')
+
 	case *ast.MediaFeaturePlain:
 		p.s.WriteRune('(')
 		p.print(node.Property)
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 151aaa4..066de6d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -399,6 +399,10 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 
 			newParts = append(newParts, replacement.Parts...)
 
+		case *ast.MediaInParens:
+			part.Parts = t.transformMediaQueryParts(part.Parts)
+			newParts = append(newParts, part)
+
 		case *ast.MediaFeatureRange:
 			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
 
-- 
2.43.0


From 9c40cca6462ec64fd9d5112f65247045ae732282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 43/69] fix: keep two-sided media ranges together next to not
 and or

---
 internal/transformer/transformer.go | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 066de6d..b5ded57 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -376,9 +376,31 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 	return newParts
 }
 
+// isMediaKeyword returns whether the part is the specified keyword, e.g. not.
+func isMediaKeyword(part ast.MediaQueryPart, keyword string) bool {
+	ident, ok := part.(*ast.Identifier)
+	return ok && strings.EqualFold(ident.Value, keyword)
+}
+
+// isConjunct returns whether the part at index can be replaced with multiple parts that are joined
+// with and. Otherwise, these need to be wrapped in parentheses first.
+func isConjunct(parts []ast.MediaQueryPart, index int) bool {
+	if index > 0 && isMediaKeyword(parts[index-1], "not") {
+		return false
+	}
+
+	for _, part := range parts {
+		if isMediaKeyword(part, "or") {
+			return false
+		}
+	}
+
+	return true
+}
+
 func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
-	for _, p := range parts {
+	for index, p := range parts {
 		switch part := p.(type) {
 		case *ast.MediaFeaturePlain:
 			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
@@ -404,7 +426,11 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			newParts = append(newParts, part)
 
 		case *ast.MediaFeatureRange:
-			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
+			features := t.transformMediaFeatureRange(part)
+			if len(features) > 1 && !isConjunct(parts, index) {
+				features = []ast.MediaQueryPart{&ast.MediaInParens{Span: part.Span, Parts: features}}
+			}
+			newParts = append(newParts, features...)
 
 		default:
 			newParts = append(newParts, p)
-- 
2.43.0


From db86203a3bfda15d8291a87eea0a4ad77ec4b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 44/69] fix: transform the media queries of @import rules

---
 internal/transformer/transformer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index b5ded57..5757af9 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -221,6 +221,12 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
+				if len(node.Preludes) > 1 {
+					if mq, ok := node.Preludes[1].(*ast.MediaQueryList); ok {
+						mq.Queries = t.transformMediaQueries(mq.Queries)
+					}
+				}
+
 				if t.ImportReplacements == nil {
 					rv = append(rv, node)
 					break
-- 
2.43.0


From 81f5380fda5d860fd290614f337d876086b8f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 45/69] fix: substitute custom media queries regardless of
 where they are defined

---
 internal/transformer/transformer.go | 52 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 5757af9..f5ae11d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -124,7 +124,7 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	return newNodes
 }
 
-// collectDefinitions remembers the definitions of custom properties, including the ones in
+// collectDefinitions remembers the definitions of custom properties and custom media queries, including the ones in
 // imported stylesheets. References to them may come before the definition.
 func (t *transformer) collectDefinitions(nodes []ast.Node) {
 	for _, value := range nodes {
@@ -136,6 +136,10 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) {
 			if imported, ok := t.ImportReplacements[node]; ok && node.Name == "import" {
 				t.collectDefinitions(imported.Nodes)
 			}
+
+			if node.Name == "custom-media" {
+				t.collectCustomMedia(node)
+			}
 		}
 	}
 }
@@ -201,6 +205,29 @@ func (t *transformer) collectVariables(node *ast.QualifiedRule) {
 	declBlock.Declarations = newDecls
 }
 
+// collectCustomMedia remembers the definition of a custom media query.
+func (t *transformer) collectCustomMedia(node *ast.AtRule) {
+	if t.customMedia == nil {
+		return
+	}
+
+	if len(node.Preludes) != 2 {
+		return
+	}
+
+	name, ok := node.Preludes[0].(*ast.Identifier)
+	if !ok {
+		return
+	}
+
+	query, ok := node.Preludes[1].(*ast.MediaQuery)
+	if !ok {
+		return
+	}
+
+	t.customMedia[name.Value] = query
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
@@ -245,27 +272,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				rv = append(rv, t.transformNodes(imported.Nodes)...)
 
 			case "custom-media":
-				func() {
-					if t.customMedia == nil {
-						return
-					}
-
-					if len(node.Preludes) != 2 {
-						return
-					}
-
-					name, ok := node.Preludes[0].(*ast.Identifier)
-					if !ok {
-						return
-					}
-
-					query, ok := node.Preludes[1].(*ast.MediaQuery)
-					if !ok {
-						return
-					}
-
-					t.customMedia[name.Value] = query
-				}()
+				// The definitions were already collected.
+				continue
 
 			case "media":
 				if len(node.Preludes) == 0 {
-- 
2.43.0


From 419eacf0c3e710021ed0681492015152bddb6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 46/69] fix: keep the meaning of custom media queries next to
 other conditions

---
 internal/transformer/transformer.go | 89 ++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index f5ae11d..3a9b102 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -50,6 +50,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 
 	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
 		t.customMedia = make(map[string]*ast.MediaQuery)
+		t.activeCustomMedia = make(map[string]bool)
 	}
 
 	if opts.ImportReplacements == nil && opts.ImportRules == transforms.ImportRulesInline {
@@ -78,6 +79,10 @@ type transformer struct {
 	substitutions int
 
 	customMedia map[string]*ast.MediaQuery
+	// activeCustomMedia is the set of custom media queries that are being replaced right now.
+	activeCustomMedia map[string]bool
+	// inMediaParens is set while nested media conditions are transformed.
+	inMediaParens bool
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -412,6 +417,49 @@ func isConjunct(parts []ast.MediaQueryPart, index int) bool {
 	return true
 }
 
+// hasMediaType returns whether the parts have a media type, e.g. screen and (width: 1px).
+func hasMediaType(parts []ast.MediaQueryPart) bool {
+	for _, part := range parts {
+		_, isIdent := part.(*ast.Identifier)
+		if isIdent && !isMediaKeyword(part, "not") && !isMediaKeyword(part, "and") && !isMediaKeyword(part, "or") {
+			return true
+		}
+	}
+
+	return false
+}
+
+// cloneMediaQueryParts copies the parts of a query to be used at a different place.
+func cloneMediaQueryParts(parts []ast.MediaQueryPart, loc ast.Span) []ast.MediaQueryPart {
+	rv := make([]ast.MediaQueryPart, 0, len(parts))
+	for _, p := range parts {
+		switch part := p.(type) {
+		case *ast.MediaInParens:
+			rv = append(rv, &ast.MediaInParens{Span: loc, Parts: cloneMediaQueryParts(part.Parts, loc)})
+
+		case *ast.MediaFeaturePlain:
+			clone := *part
+			clone.Span = loc
+			rv = append(rv, &clone)
+
+		case *ast.MediaFeatureRange:
+			clone := *part
+			clone.Span = loc
+			if part.LeftValue != nil {
+				clone.LeftValue = cloneValue(part.LeftValue, loc)
+			}
+			if part.RightValue != nil {
+				clone.RightValue = cloneValue(part.RightValue, loc)
+			}
+			rv = append(rv, &clone)
+
+		default:
+			rv = append(rv, p)
+		}
+	}
+	return rv
+}
+
 func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
 	for index, p := range parts {
@@ -433,10 +481,49 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 				break
 			}
 
-			newParts = append(newParts, replacement.Parts...)
+			if t.activeCustomMedia[part.Property.Value] {
+				t.addError(part, "custom media query refers to itself: %s", part.Property.Value)
+				newParts = append(newParts, p)
+				break
+			}
+
+			// The definition may use other custom media queries by itself.
+			nested := t.inMediaParens
+			t.activeCustomMedia[part.Property.Value] = true
+			t.inMediaParens = false
+			expanded := t.transformMediaQueryParts(cloneMediaQueryParts(replacement.Parts, part.Span))
+			t.inMediaParens = nested
+			delete(t.activeCustomMedia, part.Property.Value)
+
+			if hasMediaType(expanded) {
+				// Media types are only allowed at the beginning of a query.
+				isFirst := index == 0 && isConjunct(parts, index) && !isMediaKeyword(expanded[0], "not")
+				if nested || (len(parts) > 1 && !isFirst) {
+					t.addError(part, "custom media query with a media type cannot be combined like this: %s", part.Property.Value)
+					newParts = append(newParts, p)
+					break
+				}
+				newParts = append(newParts, expanded...)
+				break
+			}
+
+			if isCondition := len(expanded) > 1; isCondition && len(parts) > 1 {
+				canJoin := isConjunct(parts, index)
+				for _, e := range expanded {
+					canJoin = canJoin && !isMediaKeyword(e, "or") && !isMediaKeyword(e, "not")
+				}
+				if !canJoin {
+					expanded = []ast.MediaQueryPart{&ast.MediaInParens{Span: part.Span, Parts: expanded}}
+				}
+			}
+
+			newParts = append(newParts, expanded...)
 
 		case *ast.MediaInParens:
+			nested := t.inMediaParens
+			t.inMediaParens = true
 			part.Parts = t.transformMediaQueryParts(part.Parts)
+			t.inMediaParens = nested
 			newParts = append(newParts, part)
 
 		case *ast.MediaFeatureRange:
-- 
2.43.0


From 83c8bbe330f0a41f9df1f7be9a43d9b9d23ef98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 47/69] fix: limit the size of substituted media queries, and
 locate errors in all kinds of values

---
 internal/transformer/transformer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 3a9b102..afe3a90 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -307,6 +307,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
+		t.substitutions = 0
 		q.Parts = t.transformMediaQueryParts(q.Parts)
 		newQueries = append(newQueries, q)
 	}
@@ -487,6 +488,12 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 				break
 			}
 
+			if t.substitutions++; t.substitutions > maxSubstitutions {
+				t.addError(part, "too many custom media queries to substitute in a single query")
+				newParts = append(newParts, p)
+				break
+			}
+
 			// The definition may use other custom media queries by itself.
 			nested := t.inMediaParens
 			t.activeCustomMedia[part.Property.Value] = true
@@ -726,7 +733,7 @@ func (t *transformer) transformOperand(value ast.Value) ast.Value {
 	return value
 }
 
-// maxSubstitutions limits how large a single declaration can become, because variables
+// maxSubstitutions limits how large a single declaration or query can become, because definitions
 // that use each other multiple times grow exponentially.
 const maxSubstitutions = 1 << 16
 
@@ -855,8 +862,17 @@ func cloneValue(value ast.Value, loc ast.Span) ast.Value {
 		return &ast.MathExpression{Span: loc, Operator: v.Operator, Left: cloneValue(v.Left, loc), Right: cloneValue(v.Right, loc)}
 	case *ast.MathParenthesizedExpression:
 		return &ast.MathParenthesizedExpression{Span: loc, Value: cloneValue(v.Value, loc)}
+	case *ast.Identifier:
+		return &ast.Identifier{Span: loc, Value: v.Value}
+	case *ast.String:
+		return &ast.String{Span: loc, Value: v.Value}
+	case *ast.HexColor:
+		return &ast.HexColor{Span: loc, RGBA: v.RGBA}
+	case *ast.Raw:
+		return &ast.Raw{Span: loc, Value: v.Value}
+	case *ast.Comma:
+		return &ast.Comma{Span: loc}
 	default:
-		// The rest is never modified, nor does it appear in errors.
 		return value
 	}
 }
-- 
2.43.0


From b6afaf71a831d0c71cd78127d500d064d4064251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 48/69] fix: map inlined rules to the file they come from, and
 report errors in it

---
 internal/printer/printer.go         | 65 ++++++++++++++++++++++++-----
 internal/transformer/transformer.go | 22 +++++++++-
 2 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 11e5570..17f6287 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -18,9 +18,15 @@ type printer struct {
 	sourceMappings   strings.Builder
 	lastWritten      int
 	lastMappingState mappingState
+
+	// mappedSources is the list of sources in the source map. The first is always OriginalSource.
+	mappedSources []*sources.Source
+	// source is the index of the source for the current node.
+	source int32
 }
 
 type mappingState struct {
+	source          int32
 	generatedColumn int32
 	originalLine    int32
 	originalColumn  int32
@@ -29,6 +35,10 @@ type mappingState struct {
 // Options is a set of options for printing.
 type Options struct {
 	OriginalSource *sources.Source
+
+	// NodeSources is the set of top-level nodes that come from a different source, i.e. because
+	// they were inlined.
+	NodeSources map[ast.Node]*sources.Source
 }
 
 // Print prints the input AST node into CSS. It should have deterministic
@@ -47,7 +57,8 @@ func Print(in ast.Node, opts Options) (output string, err error) {
 	}()
 
 	p := printer{
-		options: opts,
+		options:       opts,
+		mappedSources: []*sources.Source{opts.OriginalSource},
 	}
 
 	p.print(in)
@@ -69,12 +80,26 @@ func (p *printer) printMapping() {
 	}
 	b.Write(file)
 	// XXX: sources content and names.
-	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
-	out, err := json.Marshal(p.options.OriginalSource.Content)
-	if err != nil {
-		panic(err)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"`)
+	for _, source := range p.mappedSources[1:] {
+		path, err := json.Marshal(source.Path)
+		if err != nil {
+			panic(err)
+		}
+		b.WriteRune(',')
+		b.Write(path)
+	}
+	b.WriteString(`], "sourcesContent":[`)
+	for i, source := range p.mappedSources {
+		if i > 0 {
+			b.WriteRune(',')
+		}
+		out, err := json.Marshal(source.Content)
+		if err != nil {
+			panic(err)
+		}
+		b.Write(out)
 	}
-	b.Write(out)
 	b.WriteString(`],"names":[],"mappings":"`)
 	b.WriteString(p.sourceMappings.String())
 	b.WriteString(`"}`)
@@ -84,6 +109,24 @@ func (p *printer) printMapping() {
 	p.s.WriteString(" */\n")
 }
 
+// setSource makes the source of the node the one that mappings are added for.
+func (p *printer) setSource(node ast.Node) {
+	source, ok := p.options.NodeSources[node]
+	if !ok {
+		source = p.options.OriginalSource
+	}
+
+	for i, s := range p.mappedSources {
+		if s == source || (s != nil && source != nil && s.Path == source.Path) {
+			p.source = int32(i)
+			return
+		}
+	}
+
+	p.mappedSources = append(p.mappedSources, source)
+	p.source = int32(len(p.mappedSources) - 1)
+}
+
 // utf16Len returns the number of utf-16 code units in the string.
 func utf16Len(in string) int32 {
 	var rv int32
@@ -106,10 +149,12 @@ func (p *printer) addMapping(loc ast.Span) {
 
 	newState := p.lastMappingState
 
-	line, col := p.options.OriginalSource.LineAndCol(loc)
+	source := p.mappedSources[p.source]
+	newState.source = p.source
+	line, col := source.LineAndCol(loc)
 	// Columns count utf-16 code units in source maps, not bytes.
 	lineStart := loc.Start - int(col-1)
-	newState.originalLine, newState.originalColumn = line-1, utf16Len(p.options.OriginalSource.Content[lineStart:loc.Start])
+	newState.originalLine, newState.originalColumn = line-1, utf16Len(source.Content[lineStart:loc.Start])
 
 	// Note that String() here does not reallocate the string.
 	written := p.s.String()[p.lastWritten:]
@@ -135,8 +180,7 @@ func (p *printer) addMapping(loc ast.Span) {
 	}
 
 	p.sourceMappings.Write(VLQEncode(newState.generatedColumn - p.lastMappingState.generatedColumn))
-	// XXX: figure out what to do for multiple sources.
-	p.sourceMappings.Write(VLQEncode(0))
+	p.sourceMappings.Write(VLQEncode(newState.source - p.lastMappingState.source))
 
 	p.sourceMappings.Write(VLQEncode(newState.originalLine - p.lastMappingState.originalLine))
 	p.sourceMappings.Write(VLQEncode(newState.originalColumn - p.lastMappingState.originalColumn))
@@ -183,6 +227,7 @@ func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
 	case *ast.Stylesheet:
 		for _, n := range node.Nodes {
+			p.setSource(n)
 			p.print(n)
 		}
 
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index afe3a90..fcbad79 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -28,6 +28,13 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources for ImportReplacements. Without it, locations in imported
+	// stylesheets are assumed to be in OriginalSource.
+	ImportSources map[*ast.AtRule]*sources.Source
+
+	// NodeSources is filled with the source of every node that was inlined, if it is non-nil.
+	NodeSources map[ast.Node]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -274,7 +281,20 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
-				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				importingSource := t.OriginalSource
+				if source, ok := t.ImportSources[node]; ok {
+					t.OriginalSource = source
+				}
+				inlined := t.transformNodes(imported.Nodes)
+				if t.NodeSources != nil {
+					for _, n := range inlined {
+						if _, ok := t.NodeSources[n]; !ok {
+							t.NodeSources[n] = t.OriginalSource
+						}
+					}
+				}
+				t.OriginalSource = importingSource
+				rv = append(rv, inlined...)
 
 			case "custom-media":
 				// The definitions were already collected.
-- 
2.43.0


From bd5467867eaaad2f6ba7a0385ff4f3361487df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 49/69] fix: do not share loop variables between goroutines

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index f559852..7459b55 100644
--- a/api.go
+++ b/api.go
@@ -181,6 +181,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
+		imp := imp
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -225,6 +226,7 @@ func Compile(opts Options) *Result {
 	var wg errgroup.Group
 
 	for _, e := range opts.Entry {
+		e := e
 		wg.Go(func() error {
 			c.parseFile(e, true)
 			return nil
-- 
2.43.0


From 53af3afed1c13ba7bcdfb6964a75e090d9bda88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 50/69] fix: assign a single index to each source, and publish
 it only once the source is there

---
 api.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api.go b/api.go
index 7459b55..5892e01 100644
--- a/api.go
+++ b/api.go
@@ -109,15 +109,21 @@ func (c *compilation) addSource(path string) (int, error) {
 	}
 
 	c.sourcesMu.Lock()
+	defer c.sourcesMu.Unlock()
+
+	// Somebody else may have added the same source in the meantime.
+	if i, ok := c.sources[abs]; ok {
+		return i, nil
+	}
+
 	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
+	c.nextIndex++
 
 	c.sourcesByIndexMu.Lock()
 	c.sourcesByIndex[i] = source
 	c.sourcesByIndexMu.Unlock()
 
-	c.nextIndex++
+	c.sources[abs] = i
 	return i, nil
 }
 
-- 
2.43.0


From 650311f0d6695446a894231c79e38e46146641ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 51/69] fix: terminate when files import each other, and do not
 share the ASTs of inlined files

---
 api.go | 115 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 94 insertions(+), 21 deletions(-)

diff --git a/api.go b/api.go
index 5892e01..35cd881 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,9 @@ func newCompilation(opts Options) *compilation {
 		sourcesByIndex: make(map[int]*sources.Source),
 		outputsByIndex: make(map[int]struct{}),
 		astsByIndex:    make(map[int]*ast.Stylesheet),
+		startedByIndex: make(map[int]struct{}),
+
+		nodeSourcesByIndex: make(map[int]map[ast.Node]*sources.Source),
 		result:         newResult(),
 		reporter:       logging.DefaultReporter,
 		transforms:     opts.Transforms,
@@ -68,9 +71,16 @@ type compilation struct {
 	sourcesByIndexMu sync.RWMutex
 	sourcesByIndex   map[int]*sources.Source
 
+	// astsByIndexMu also synchronizes startedByIndex and outputsByIndex.
 	astsByIndexMu sync.RWMutex
 	astsByIndex   map[int]*ast.Stylesheet
 
+	// nodeSourcesByIndex is the set of sources for the inlined nodes of each AST.
+	nodeSourcesByIndex map[int]map[ast.Node]*sources.Source
+
+	// startedByIndex is the set of sources that are being or have been parsed.
+	startedByIndex map[int]struct{}
+
 	// outputsByIndex is the set of sources to write outputs for.
 	outputsByIndex map[int]struct{}
 
@@ -160,16 +170,20 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 		return nil
 	}
 
+	c.astsByIndexMu.Lock()
 	if hasOutput {
 		c.outputsByIndex[idx] = struct{}{}
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
+	// Only the first caller works on a file. Its result is available once all work is done, so
+	// others must not wait for it, because files can import each other.
+	if _, ok := c.startedByIndex[idx]; ok {
+		ss := c.astsByIndex[idx]
+		c.astsByIndexMu.Unlock()
 		return ss
 	}
-	c.astsByIndexMu.RUnlock()
+	c.startedByIndex[idx] = struct{}{}
+	c.astsByIndexMu.Unlock()
 
 	c.sourcesByIndexMu.RLock()
 	source := c.sourcesByIndex[idx]
@@ -180,11 +194,45 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 		return nil
 	}
 
+	imports := &inlinedImports{
+		replacements: make(map[*ast.AtRule]*ast.Stylesheet),
+		sources:      make(map[*ast.AtRule]*sources.Source),
+	}
+	c.parseImports(ss, source, nil, imports)
+
+	opts := transformer.Options{
+		Options:        c.transforms,
+		OriginalSource: source,
+		Reporter:       c.reporter,
+	}
+
+	if c.transforms.ImportRules == transforms.ImportRulesInline {
+		opts.ImportReplacements = imports.replacements
+		opts.ImportSources = imports.sources
+		opts.NodeSources = make(map[ast.Node]*sources.Source)
+	}
+
+	ss = transformer.Transform(ss, opts)
+	c.astsByIndexMu.Lock()
+	c.astsByIndex[idx] = ss
+	c.nodeSourcesByIndex[idx] = opts.NodeSources
+	c.astsByIndexMu.Unlock()
+	return ss
+}
+
+// inlinedImports is the set of imports that will be inlined into a single file.
+type inlinedImports struct {
+	mu           sync.Mutex
+	replacements map[*ast.AtRule]*ast.Stylesheet
+	sources      map[*ast.AtRule]*sources.Source
+}
+
+// parseImports parses the files imported by ss. The importers are the paths of the files
+// that led to source.
+func (c *compilation) parseImports(ss *ast.Stylesheet, source *sources.Source, importers []string, imports *inlinedImports) {
 	// Immediately look at the imports from the file and feed those dependencies
 	// into parseFile as well. If we're set to inline imports, then we'll use
 	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
 		imp := imp
@@ -196,33 +244,57 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
+			if c.transforms.ImportRules != transforms.ImportRulesInline {
+				c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
+				return nil
+			}
+
+			imported, importedSource := c.parseInlined(rel, append(importers[:len(importers):len(importers)], source.Path), imports)
 
-			mu.Lock()
-			defer mu.Unlock()
+			imports.mu.Lock()
+			defer imports.mu.Unlock()
 			if imported != nil {
-				replacements[imp.AtRule] = imported
+				imports.replacements[imp.AtRule] = imported
+				imports.sources[imp.AtRule] = importedSource
 			}
 			return nil
 		})
 	}
 	wg.Wait()
+}
 
-	opts := transformer.Options{
-		Options:        c.transforms,
-		OriginalSource: source,
-		Reporter:       c.reporter,
+// parseInlined parses a file that is inlined into another file. Every @import gets its own AST, because
+// the transformer modifies it as a part of the file that it is inlined into.
+func (c *compilation) parseInlined(file string, importers []string, imports *inlinedImports) (*ast.Stylesheet, *sources.Source) {
+	idx, err := c.addSource(file)
+	if err != nil {
+		c.addError(err)
+		return nil, nil
 	}
 
-	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+	c.sourcesByIndexMu.RLock()
+	shared := c.sourcesByIndex[idx]
+	c.sourcesByIndexMu.RUnlock()
+	source := &sources.Source{
+		Content: shared.Content,
+		Path:    shared.Path,
 	}
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	// The file is already being inlined, so there's nothing to add.
+	for _, importer := range importers {
+		if importer == source.Path {
+			return &ast.Stylesheet{}, source
+		}
+	}
+
+	ss, err := parser.Parse(source)
+	if err != nil {
+		c.addError(err)
+		return nil, nil
+	}
+
+	c.parseImports(ss, source, importers, imports)
+	return ss, source
 }
 
 // Compile runs a compilation with the specified Options.
@@ -255,6 +327,7 @@ func Compile(opts Options) *Result {
 
 			out, err := printer.Print(ast, printer.Options{
 				OriginalSource: source,
+				NodeSources:    c.nodeSourcesByIndex[idx],
 			})
 			if err != nil {
 				c.addError(err)
-- 
2.43.0


From 2d933fc49f4b74bc3b4ef8ea3786990bdc07dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 52/69] fix: synchronize errors reported by the transformer

---
 api.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 35cd881..520a6d2 100644
--- a/api.go
+++ b/api.go
@@ -149,6 +149,17 @@ type Result struct {
 	Files map[string]string
 }
 
+// lockedReporter lets the transformer report errors without
+// running into errors from other goroutines.
+type lockedReporter struct {
+	*compilation
+}
+
+// AddError implements Reporter.
+func (r lockedReporter) AddError(err error) {
+	r.addError(err)
+}
+
 func (c *compilation) addError(err error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
@@ -203,7 +214,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: source,
-		Reporter:       c.reporter,
+		Reporter:       lockedReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-- 
2.43.0


From a085657b949a9d547eaacb57fe8fb387a75149f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 53/69] fix: format api.go

---
 api.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index 520a6d2..aa2a2a0 100644
--- a/api.go
+++ b/api.go
@@ -42,10 +42,10 @@ func newCompilation(opts Options) *compilation {
 		startedByIndex: make(map[int]struct{}),
 
 		nodeSourcesByIndex: make(map[int]map[ast.Node]*sources.Source),
-		result:         newResult(),
-		reporter:       logging.DefaultReporter,
-		transforms:     opts.Transforms,
-		resolver:       &resolver.NodeResolver{},
+		result:             newResult(),
+		reporter:           logging.DefaultReporter,
+		transforms:         opts.Transforms,
+		resolver:           &resolver.NodeResolver{},
 	}
 
 	if opts.Reporter != nil {
-- 
2.43.0


From bf5b4d86c527e34b4c417d92f08e8c32413d6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 54/69] fix: report an error when the entry point of a package
 is a directory

---
 resolver/node_resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..b8838b6 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -105,7 +105,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
 		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
-			if os.IsNotExist(err) {
+			if err == nil || os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
@@ -126,7 +126,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 	stylePath := filepath.Join(path, pkgContent.Style)
 	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
-		if os.IsNotExist(err) {
+		if err == nil || os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
-- 
2.43.0


From adefc8a0ff1a1c39a12303e26a06a4521d6f9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 55/69] fix: terminate when resolving modules from a relative
 directory

---
 resolver/node_resolver.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index b8838b6..4067087 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -137,15 +137,23 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
-	currentDir := fromDir
-	for currentDir != "/" {
+	currentDir, err := filepath.Abs(fromDir)
+	if err != nil {
+		return "", oops.Wrapf(err, "failed to make path absolute: %s", fromDir)
+	}
+
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		if parentDir := filepath.Dir(currentDir); parentDir != currentDir {
+			currentDir = parentDir
+			continue
+		}
+		break
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From df8bb5fcb665243ea635251dd1053664cfed20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 56/69] fix: prefer files with an extension to directories
 during resolution

---
 resolver/node_resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 4067087..3584ea6 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -88,6 +88,11 @@ func (r *NodeResolver) resolve(absPath string) (string, error) {
 		return absPath, nil
 	}
 
+	// A file with an extension comes before the contents of a directory.
+	if withExtension, err := os.Stat(absPath + ".css"); err == nil && !withExtension.IsDir() {
+		return absPath + ".css", nil
+	}
+
 	// Otherwise, try to resolve as a directory.
 	path, err := r.resolveAsDir(absPath)
 	if err == nil {
-- 
2.43.0


From dbd3eed4c34c3db8c2a62e70685af559ad8587e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 57/69] fix: report each error to esbuild once, with its
 location

---
 esbuildplugin/plugin.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..9b873c8 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -26,21 +27,29 @@ func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
 
-		if lErr, ok := err.(locationError); ok {
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
 
+			// Only the part on the first line can be highlighted.
+			length := span.End - span.Start
+			if rest := lineSpan.End - span.Start; length > rest {
+				length = rest
+			}
+
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
 					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
+					Column:   int(colNumber) - 1,
+					Line:     int(lineNumber),
+					Length:   length,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
-- 
2.43.0


From 064175c84bd1879003784960db6899a6020fe046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 58/69] fix: report non-integers in An+B

Their sign was removed by the printer, and they are not valid to begin with.
---
 internal/parser/selectors.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index fb8ec6e..af92f1b 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -266,6 +266,11 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
+// isInteger returns whether the numeral is an integer with an optional sign.
+func isInteger(numeral string) bool {
+	return strings.Trim(strings.TrimLeft(numeral, "+-"), "0123456789") == ""
+}
+
 func (p *parser) parseANPlusB() *ast.ANPlusB {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
@@ -274,6 +279,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	}()
 
 	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
+	if isNumeral := p.lexer.Current == lexer.Number || p.lexer.Current == lexer.Dimension; isNumeral && !isInteger(p.lexer.CurrentNumeral) {
+		p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
+	}
 
 	if p.lexer.Current == lexer.Dimension && p.lexer.CurrentString == "n" {
 		v.A = p.lexer.CurrentNumeral
@@ -328,6 +336,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
 	// us a number. Otherwise, it'll be n + 3 with a delimiter.
+	if p.lexer.Current == lexer.Number && !isInteger(p.lexer.CurrentNumeral) {
+		p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
+	}
 	if p.lexer.Current == lexer.Number {
 		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
 			v.Operator = "-"
@@ -343,6 +354,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.Operator = p.lexer.CurrentString
 		p.lexer.Next()
 
+		if p.lexer.Current == lexer.Number && !isInteger(p.lexer.CurrentNumeral) {
+			p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
+		}
 		v.B = p.lexer.CurrentNumeral
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
-- 
2.43.0


From 0e587380a75ffe19f714843b7e83f8b88fbdb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 59/69] fix: keep hex escapes at the end of a name apart from
 what is printed after it

Whitespace after the digits belongs to the escape, so a space between two values was lost and they became one.
---
 internal/lexer/lexer.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 05095a6..a685f7e 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -225,9 +225,7 @@ func (l *Lexer) Next() {
 				l.step() // Consume @.
 				l.Current = At
 
-				start := l.lastPos
-				l.nextName()
-				l.CurrentString = l.source.Content[start:l.lastPos]
+				l.CurrentString = l.nextName()
 				return
 			}
 
@@ -238,9 +236,7 @@ func (l *Lexer) Next() {
 				l.Current = Hash
 
 				l.step()
-				start := l.lastPos
-				l.nextName()
-				l.CurrentString = l.source.Content[start:l.lastPos]
+				l.CurrentString = l.nextName()
 				return
 			}
 
@@ -448,9 +444,7 @@ func (l *Lexer) nextNumericToken() {
 	l.CurrentNumeral = l.source.Content[start:l.lastPos]
 
 	if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
-		dimenStart := l.lastPos
-		l.nextName()
-		l.CurrentString = l.source.Content[dimenStart:l.lastPos]
+		l.CurrentString = l.nextName()
 		l.Current = Dimension
 	} else if l.ch == '%' {
 		l.Current = Percentage
@@ -469,9 +463,7 @@ func isURLString(in string) bool {
 // The spec tells us to return a bad-url-token, but we
 // are uninterested in best-effort interpretation for compilation.
 func (l *Lexer) nextIdentLikeToken() {
-	start := l.lastPos
-	l.nextName()
-	l.CurrentString = l.source.Content[start:l.lastPos]
+	l.CurrentString = l.nextName()
 
 	// Here, we need to special case the url function because it supports unquoted string content.
 	if isURLString(l.CurrentString) && l.ch == '(' {
@@ -583,14 +575,25 @@ func (l *Lexer) nextDelimToken() {
 
 // nextName implements https://www.w3.org/TR/css-syntax-3/#consume-a-name.
 // It consumes and returns a name, stepping the lexer forward.
-func (l *Lexer) nextName() {
+func (l *Lexer) nextName() string {
+	start := l.lastPos
+	terminator := ""
 	for {
 		if isNameCodePoint(l.ch) {
 			l.step()
+			terminator = ""
 		} else if startsEscape(l.ch, l.peek(0)) {
+			escapeStart := l.lastPos + 1
 			l.nextEscaped()
+
+			// Whitespace after hex digits is a part of the escape, so whatever is printed after the
+			// name would be, too, if it doesn't have one already.
+			terminator = ""
+			if escapeStart < len(l.source.Content) && isHexDigit(rune(l.source.Content[escapeStart])) && isHexDigit(rune(l.source.Content[l.lastPos-1])) {
+				terminator = " "
+			}
 		} else {
-			return
+			return l.source.Content[start:l.lastPos] + terminator
 		}
 	}
 }
-- 
2.43.0


From 6c4a6235f831c62cc292692aaba236c741ee12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 60/69] fix: report too many substitutions only once

Every one of the remaining references was reported, which may be tens of thousands.
---
 internal/transformer/transformer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index fcbad79..520a86b 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -509,7 +509,9 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			}
 
 			if t.substitutions++; t.substitutions > maxSubstitutions {
-				t.addError(part, "too many custom media queries to substitute in a single query")
+				if t.substitutions == maxSubstitutions+1 {
+					t.addError(part, "too many custom media queries to substitute in a single query")
+				}
 				newParts = append(newParts, p)
 				break
 			}
@@ -681,7 +683,9 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 				}
 
 				if t.substitutions++; t.substitutions > maxSubstitutions {
-					t.addError(v, "too many variables to substitute in a single declaration")
+					if t.substitutions == maxSubstitutions+1 {
+						t.addError(v, "too many variables to substitute in a single declaration")
+					}
 					return
 				}
 
-- 
2.43.0


From d6babf7f237fb074ba04377087d5701c6514d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 61/69] fix: report each problem with a substituted definition
 only once per use

---
 internal/transformer/transformer.go | 36 +++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 520a86b..be8961c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -1,6 +1,7 @@
 package transformer
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"reflect"
@@ -41,7 +42,8 @@ type Options struct {
 // transforms.
 func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	t := &transformer{
-		Options: opts,
+		Options:  opts,
+		reported: make(map[string]struct{}),
 	}
 
 	if opts.Reporter == nil {
@@ -84,6 +86,8 @@ type transformer struct {
 	resolvableVariables map[string]bool
 	// substitutions counts the references replaced in the current declaration.
 	substitutions int
+	// reported is the set of errors reported since the first substitution in the current declaration.
+	reported map[string]struct{}
 
 	customMedia map[string]*ast.MediaQuery
 	// activeCustomMedia is the set of custom media queries that are being replaced right now.
@@ -93,11 +97,33 @@ type transformer struct {
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
-	t.Reporter.AddError(logging.LocationErrorf(t.OriginalSource, loc.Location(), fmt, args...))
+	t.report(loc, logging.LocationErrorf(t.OriginalSource, loc.Location(), fmt, args...))
 }
 
 func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
-	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
+	t.report(loc, logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
+}
+
+// report reports an error. Everything that replaces a reference is located at the reference, so
+// the same problem with it is only reported once instead of for every repetition.
+func (t *transformer) report(loc ast.Node, err error) {
+	if t.substitutions > 0 {
+		key := fmt.Sprint(loc.Location(), errors.Unwrap(err))
+		if _, ok := t.reported[key]; ok {
+			return
+		}
+		t.reported[key] = struct{}{}
+	}
+
+	t.Reporter.AddError(err)
+}
+
+// resetSubstitutions is called after each declaration or query.
+func (t *transformer) resetSubstitutions() {
+	if t.substitutions > 0 {
+		t.reported = make(map[string]struct{})
+	}
+	t.substitutions = 0
 }
 
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
@@ -327,8 +353,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-		t.substitutions = 0
 		q.Parts = t.transformMediaQueryParts(q.Parts)
+		t.resetSubstitutions()
 		newQueries = append(newQueries, q)
 	}
 	return newQueries
@@ -614,8 +640,8 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	for _, decl := range decls {
 		switch d := decl.(type) {
 		case *ast.Declaration:
-			t.substitutions = 0
 			d.Values = t.transformValues(d.Values)
+			t.resetSubstitutions()
 			newDecls = append(newDecls, d)
 		case *ast.Raw:
 			for name := range t.variables {
-- 
2.43.0


From 901cd3575fe382fc0d24825d369e9c8b928e42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 62/69] fix: report selectors of just whitespace, allow
 comments in nth-child arguments

---
 internal/parser/selectors.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index af92f1b..d9205ea 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -136,9 +136,7 @@ func (p *parser) parseSelector() *ast.Selector {
 				p.lexer.Next()
 
 				if pc.Name == "nth-child" || pc.Name == "nth-last-child" || pc.Name == "nth-of-type" || pc.Name == "nth-last-of-type" {
-					if p.lexer.Current == lexer.Whitespace {
-						p.lexer.Next()
-					}
+					p.skipWhitespace()
 					switch p.lexer.Current {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
@@ -156,9 +154,7 @@ func (p *parser) parseSelector() *ast.Selector {
 							Value: p.lexer.CurrentString,
 						}
 						p.lexer.Next()
-						if p.lexer.Current == lexer.Whitespace {
-							p.lexer.Next()
-						}
+						p.skipWhitespace()
 					default:
 						p.lexer.Errorf("expected even, odd, or an+b syntax")
 					}
@@ -188,7 +184,7 @@ func (p *parser) parseSelector() *ast.Selector {
 			s.Parts = append(s.Parts, p.parseAttributeSelector())
 
 		default:
-			if len(s.Parts) == 0 {
+			if isEmptySelector(s) {
 				p.lexer.Errorf("expected selector")
 			}
 			if last := len(s.Parts) - 1; last > 0 {
@@ -205,6 +201,25 @@ func (p *parser) parseSelector() *ast.Selector {
 	}
 }
 
+// isEmptySelector returns whether there is nothing but whitespace in the selector.
+func isEmptySelector(s *ast.Selector) bool {
+	for _, part := range s.Parts {
+		if _, ok := part.(*ast.Whitespace); !ok {
+			return false
+		}
+	}
+
+	return true
+}
+
+// skipWhitespace skips whitespace even if it is retained. There are multiple tokens for whitespace
+// with comments in between.
+func (p *parser) skipWhitespace() {
+	for p.lexer.Current == lexer.Whitespace {
+		p.lexer.Next()
+	}
+}
+
 func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
-- 
2.43.0


From 83b7ff0b2f03a94d07ef67edaa669d3a3dbf7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 63/69] fix: recognize names and keywords that are spelled with
 escapes

---
 internal/lexer/lexer.go | 63 +++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index a685f7e..62cd15b 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,6 +3,9 @@
 package lexer
 
 import (
+	"fmt"
+	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -445,6 +448,9 @@ func (l *Lexer) nextNumericToken() {
 
 	if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 		l.CurrentString = l.nextName()
+		if isExponent(l.CurrentString) {
+			l.CurrentString = fmt.Sprintf("\\%x %s", l.CurrentString[0], l.CurrentString[1:])
+		}
 		l.Current = Dimension
 	} else if l.ch == '%' {
 		l.Current = Percentage
@@ -574,35 +580,76 @@ func (l *Lexer) nextDelimToken() {
 }
 
 // nextName implements https://www.w3.org/TR/css-syntax-3/#consume-a-name.
-// It consumes and returns a name, stepping the lexer forward.
+// It consumes and returns a name, stepping the lexer forward. Escapes are only kept for the
+// code points that need them, so that names can be compared.
 func (l *Lexer) nextName() string {
-	start := l.lastPos
+	var name strings.Builder
 	terminator := ""
 	for {
+		start := l.lastPos
 		if isNameCodePoint(l.ch) {
 			l.step()
+			name.WriteString(l.source.Content[start:l.lastPos])
 			terminator = ""
 		} else if startsEscape(l.ch, l.peek(0)) {
-			escapeStart := l.lastPos + 1
 			l.nextEscaped()
+			escape := l.source.Content[start:l.lastPos]
+			isHex := len(escape) > 1 && isHexDigit(rune(escape[1]))
+
+			if cp := unescape(escape); canBeUnescaped(name.String(), cp) {
+				name.WriteString(terminator)
+				name.WriteRune(cp)
+				terminator = ""
+				continue
+			}
+			name.WriteString(escape)
 
 			// Whitespace after hex digits is a part of the escape, so whatever is printed after the
 			// name would be, too, if it doesn't have one already.
 			terminator = ""
-			if escapeStart < len(l.source.Content) && isHexDigit(rune(l.source.Content[escapeStart])) && isHexDigit(rune(l.source.Content[l.lastPos-1])) {
+			if isHex && isHexDigit(rune(escape[len(escape)-1])) {
 				terminator = " "
 			}
 		} else {
-			return l.source.Content[start:l.lastPos] + terminator
+			return name.String() + terminator
 		}
 	}
 }
 
+// unescape returns the code point of an escape.
+func unescape(escape string) rune {
+	if len(escape) == 1 || !isHexDigit(rune(escape[1])) {
+		cp, _ := utf8.DecodeRuneInString(escape[1:])
+		return cp
+	}
+
+	cp, err := strconv.ParseInt(strings.TrimRight(escape[1:], " \t\r\n\f"), 16, 32)
+	if err != nil || !utf8.ValidRune(rune(cp)) {
+		return utf8.RuneError
+	}
+	return rune(cp)
+}
+
+// canBeUnescaped returns whether the code point can be added to the name without an escape.
+func canBeUnescaped(name string, cp rune) bool {
+	if cp == 0 || cp == utf8.RuneError || !isNameCodePoint(cp) {
+		return false
+	}
+
+	return isNameStartCodePoint(cp) || (name != "" && (cp == '-' || name != "-"))
+}
+
+// isExponent returns whether the unit would be a part of the number in front of it.
+func isExponent(unit string) bool {
+	if unit[0] != 'e' && unit[0] != 'E' {
+		return false
+	}
+	digits := strings.TrimPrefix(unit[1:], "-")
+	return digits != "" && isDigit(rune(digits[0]))
+}
+
 // nextEscaped consumes and returns an escaped codepoint, stepping the lexer forward.
 // It implements https://www.w3.org/TR/css-syntax-3/#consume-escaped-code-point.
-//
-// Note that we do not need to interpret the codepoint for our purposes - we can record
-// the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
 	l.step()
 	l.nextEscapedCodePoint()
-- 
2.43.0


From 3264bfec642d78fc2c038bfefd1dc409d897c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 64/69] fix: print one space for whitespace on both sides of a
 comment in a selector

---
 internal/parser/selectors.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index d9205ea..b40836d 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -51,6 +51,13 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.Whitespace:
+			// Whitespace on both sides of a comment is still a single combinator.
+			if len(s.Parts) > 0 {
+				if _, ok := s.Parts[len(s.Parts)-1].(*ast.Whitespace); ok {
+					p.lexer.Next()
+					break
+				}
+			}
 			s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
 			p.lexer.Next()
 
-- 
2.43.0


From 23395dbffaa234aa09f45b44cc59843ca04f355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 65/69] fix: print An+B steps without redundant signs, accept
 n-1, -n-1 and n- 1

---
 internal/parser/selectors.go | 71 ++++++++++++++++++------------------
 internal/printer/printer.go  | 11 +++---
 2 files changed, 40 insertions(+), 42 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index b40836d..1680e99 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -148,7 +148,8 @@ func (p *parser) parseSelector() *ast.Selector {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
 					case lexer.Ident:
-						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" {
+						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" ||
+							strings.HasPrefix(p.lexer.CurrentString, "n-") || strings.HasPrefix(p.lexer.CurrentString, "-n-") {
 							pc.Arguments = p.parseANPlusB()
 							break
 						}
@@ -305,38 +306,35 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
 	}
 
-	if p.lexer.Current == lexer.Dimension && p.lexer.CurrentString == "n" {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Dimension && strings.HasPrefix(p.lexer.CurrentString, "n") {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
+	if p.lexer.Current == lexer.Dimension || p.lexer.Current == lexer.Ident {
+		// The rest of the step, e.g. - of n- 3 or -3 of 2n-3.
+		rest := p.lexer.CurrentString
+		if p.lexer.Current == lexer.Dimension {
+			v.A = p.lexer.CurrentNumeral
+		} else if strings.HasPrefix(rest, "-") {
+			v.A = "-1"
+			rest = rest[1:]
+		}
 
-		numeral := p.lexer.CurrentString[1:]
+		if !strings.HasPrefix(rest, "n") {
+			p.lexer.Errorf("expected n as part of An+B")
+		}
+		rest = rest[1:]
 
-		if strings.HasPrefix(numeral, "-") {
+		if rest != "" {
+			if !strings.HasPrefix(rest, "-") {
+				p.lexer.Errorf("expected +/- as part of An+B")
+			}
 			v.Operator = "-"
-		} else if strings.HasPrefix(numeral, "+") {
-			v.Operator = "+"
-		} else {
-			p.lexer.Errorf("expected +/- as part of An+B")
-		}
 
-		v.B = numeral[1:]
-		if len(v.B) == 0 || strings.Trim(v.B, "0123456789") != "" {
-			p.lexer.Errorf("expected number after operator")
+			v.B = rest[1:]
+			if strings.Trim(v.B, "0123456789") != "" {
+				p.lexer.Errorf("expected number after operator")
+			}
 		}
 
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n" {
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n" {
-		v.A = "-1"
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
 	} else if p.lexer.Current == lexer.Number {
 		v.A = "0"
 		v.B = p.lexer.CurrentNumeral
@@ -361,7 +359,18 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	if p.lexer.Current == lexer.Number && !isInteger(p.lexer.CurrentNumeral) {
 		p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
 	}
-	if p.lexer.Current == lexer.Number {
+	if v.Operator == "" && p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
+		v.Operator = p.lexer.CurrentString
+		p.lexer.Next()
+	}
+	if v.Operator != "" {
+		if p.lexer.Current != lexer.Number || strings.Trim(p.lexer.CurrentNumeral, "0123456789") != "" {
+			p.lexer.Errorf("expected number after operator")
+		}
+		v.B = p.lexer.CurrentNumeral
+		v.End = p.lexer.TokenEnd()
+		p.lexer.Expect(lexer.Number)
+	} else if p.lexer.Current == lexer.Number {
 		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
 			v.Operator = "-"
 		} else if strings.HasPrefix(p.lexer.CurrentNumeral, "+") {
@@ -372,16 +381,6 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.B = p.lexer.CurrentNumeral[1:]
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
-	} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
-		v.Operator = p.lexer.CurrentString
-		p.lexer.Next()
-
-		if p.lexer.Current == lexer.Number && !isInteger(p.lexer.CurrentNumeral) {
-			p.lexer.Errorf("expected integer as part of An+B, got %s", p.lexer.CurrentNumeral)
-		}
-		v.B = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
 	}
 	return v
 }
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 17f6287..93ca20f 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -430,17 +430,16 @@ func (p *printer) print(in ast.Node) {
 
 	case *ast.ANPlusB:
 		wrote := false
-		if node.A != "" && node.A != "1" && node.A != "0" {
-			if node.A == "-1" {
+		step := strings.TrimPrefix(node.A, "+")
+		if step != "" && step != "1" && step != "0" {
+			if step == "-1" {
 				p.s.WriteString("-")
-			} else if strings.HasPrefix(node.A, "+") {
-				p.s.WriteString(node.A[1:])
 			} else {
-				p.s.WriteString(node.A)
+				p.s.WriteString(step)
 			}
 			wrote = true
 		}
-		if node.A != "0" {
+		if step != "0" {
 			p.s.WriteRune('n')
 			wrote = true
 		}
-- 
2.43.0


From b6cc209290ada3efdcd00d6954ef44ba974edd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 66/69] fix: print the names of min- and max- features without
 escapes that are only needed at the start

---
 internal/transformer/transformer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index be8961c..db4d56c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 
 	"github.com/stephen/cssc/internal/ast"
+	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
 	"github.com/stephen/cssc/internal/sources"
 	"github.com/stephen/cssc/transforms"
@@ -382,6 +383,18 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	}
 }
 
+// boundedFeature returns the name of the min or max variant of a feature.
+func boundedFeature(direction, name string) string {
+	// XXX: replace this allocation with a lookup.
+	bounded := fmt.Sprintf("%s-%s", direction, name)
+	if !strings.Contains(name, `\`) {
+		return bounded
+	}
+
+	// Characters that can't start a name without an escape can be a part of one.
+	return lexer.NewLexer(&sources.Source{Content: bounded}).CurrentString
+}
+
 func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []ast.MediaQueryPart {
 	asIs := []ast.MediaQueryPart{part}
 	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough {
@@ -406,8 +419,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 		}
 
 		newParts = append(newParts, &ast.MediaFeaturePlain{
-			// XXX: replace this allocation with a lookup.
-			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
+			Property: &ast.Identifier{Value: boundedFeature(direction, part.Property.Value)},
 			Value:    t.addToValue(part.LeftValue, diff),
 		})
 	}
@@ -433,8 +445,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 		}
 
 		newParts = append(newParts, &ast.MediaFeaturePlain{
-			// XXX: replace this allocation with a lookup.
-			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
+			Property: &ast.Identifier{Value: boundedFeature(direction, part.Property.Value)},
 			Value:    t.addToValue(part.RightValue, diff),
 		})
 	}
-- 
2.43.0


From c4a99d26d865c4120db63283e6ed0b6a2d60348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 67/69] fix: leave pseudo-classes named any-link alone if they
 have arguments

---
 internal/transformer/transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index db4d56c..7604eb4 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -134,7 +134,7 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 		for index, p := range n.Parts {
 			switch part := p.(type) {
 			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
+				if part.Name != "any-link" || part.Arguments != nil || t.AnyLink == transforms.AnyLinkPassthrough {
 					newParts = append(newParts, p)
 					break
 				}
-- 
2.43.0


From 86bb2a57a9b91703fa2d3405def510216ec2d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 68/69] fix: unescape the targets of imports before resolving
 them

---
 internal/lexer/lexer.go   | 41 +++++++++++++++++++++++++++++++++++++++
 internal/parser/parser.go |  6 +++---
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 62cd15b..fb9f7d3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -630,6 +630,47 @@ func unescape(escape string) rune {
 	return rune(cp)
 }
 
+// Unescape returns the contents of a string or url, without its escapes.
+func Unescape(value string) string {
+	var out strings.Builder
+	for i := 0; i < len(value); {
+		if value[i] != '\\' {
+			out.WriteByte(value[i])
+			i++
+			continue
+		}
+
+		start := i
+		i++
+		switch {
+		case i == len(value):
+
+		case strings.HasPrefix(value[i:], "\r\n"):
+			i += 2
+
+		case value[i] == '\n' || value[i] == '\r' || value[i] == '\f':
+			i++
+
+		case isHexDigit(rune(value[i])):
+			for i < len(value) && i-start <= 6 && isHexDigit(rune(value[i])) {
+				i++
+			}
+			out.WriteRune(unescape(value[start:i]))
+			if strings.HasPrefix(value[i:], "\r\n") {
+				i += 2
+			} else if i < len(value) && isWhitespace(rune(value[i])) {
+				i++
+			}
+
+		default:
+			_, size := utf8.DecodeRuneInString(value[i:])
+			out.WriteString(value[i : i+size])
+			i += size
+		}
+	}
+	return out.String()
+}
+
 // canBeUnescaped returns whether the code point can be added to the name without an escape.
 func canBeUnescaped(name string, cp rune) bool {
 	if cp == 0 || cp == utf8.RuneError || !isNameCodePoint(cp) {
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 1225cb9..42032f3 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -547,7 +547,7 @@ func (p *parser) parseImportAtRule() {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Next()
@@ -561,7 +561,7 @@ func (p *parser) parseImportAtRule() {
 
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
@@ -572,7 +572,7 @@ func (p *parser) parseImportAtRule() {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
-- 
2.43.0


From ad8aad3fe119b10bce83d49f48a40c902ef223d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 69/69] fix: keyframe selectors are case-insensitive

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 42032f3..2acd27b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -283,7 +283,7 @@ func (p *parser) parseKeyframeSelectorList() *ast.KeyframeSelectorList {
 			})
 
 		case lexer.Ident:
-			if p.lexer.CurrentString != "from" && p.lexer.CurrentString != "to" {
+			if !strings.EqualFold(p.lexer.CurrentString, "from") && !strings.EqualFold(p.lexer.CurrentString, "to") {
 				p.lexer.Errorf("unexpected string: %s. keyframe selector can only be from, to, or a percentage", p.lexer.CurrentString)
 			}
 			l.Selectors = append(l.Selectors, &ast.Identifier{
-- 
2.43.0

