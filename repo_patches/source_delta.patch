From 681f2c25763dca1b37e2e297753bfd24f773fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:08 +0000
Subject: [PATCH 01/39] fix: print the name of nested functions in Build

Build wrote the name of the root node, so `date(a) = 1` became `(a) == 1`.
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From 1c8e5242d4b71003f50d73ccf03696ea3b87369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:09 +0000
Subject: [PATCH 02/39] fix: do not escape string literals in Build

The grammar has no escape sequences, so a Go quoted string did not parse back
to the same value when it held a quote, a backslash or a control character.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..521bb25 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// the grammar has no escapes, use the quote that is not part of the value
+		quote := '"'
+		if strings.ContainsRune(node.Str, quote) {
+			quote = '\''
+		}
+		buf.WriteRune(quote)
+		buf.WriteString(node.Str)
+		buf.WriteRune(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From 359945bdd082d7548dc6abd4142872e88c97a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:10 +0000
Subject: [PATCH 03/39] fix: drop comments inside operators

A comment between the words of an operator, as in `a is -- x` followed by
null on the next line, became part of the operator name and reached the
generated SQL as raw text.
---
 miniquery/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..97f49e8 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,8 +19,9 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
-	normalize = map[string]string{
+	regComment = regexp.MustCompile(`(--|//)[^\r\n]*`)
+	regSpace   = regexp.MustCompile(`\s+`)
+	normalize  = map[string]string{
 		">=": "gte",
 		">":  "gt",
 		"==": "eq",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regComment.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From 1775488c359d20e088785e3ae3bc0ea52707b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:30 +0000
Subject: [PATCH 04/39] fix: reject json references instead of dropping
 operands

A json reference such as `a->b` is accepted by the grammar but never turned
into a node. Parse returned `b = 1` for `a->b = 1` and read `date(a->b)` as a
call with two arguments.
---
 miniquery/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 110347f..afc9864 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,5 +1,7 @@
 package miniquery
 
+import "github.com/pkg/errors"
+
 func Parse(s string) (*Node, error) {
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
@@ -8,6 +10,12 @@ func Parse(s string) (*Node, error) {
 	if err := p.Parse(); err != nil {
 		return nil, err
 	}
+	for _, token := range p.Tokens() {
+		if token.pegRule == ruleJsonReference {
+			// recognized by the grammar but has no node to represent it
+			return nil, errors.Errorf("json reference is not supported: %q", string(p.buffer[token.begin:token.end]))
+		}
+	}
 	p.Execute()
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
-- 
2.43.0


From b35a4aaa5bc48446cc40b81a9069e2efb134e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:29 +0000
Subject: [PATCH 05/39] fix: match the longer comparison operator first

`<`, `gt` and `lt` were tried before `<>`, `gte` and `lte`, so the longer
operators were never recognized: `a <> 1` and `a gte 1` did not parse and
`a gteb` was read as `a > eb`. The generated parser is updated to match.
---
 miniquery/miniquery.peg    |  4 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..7c02342 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<>' / '<' / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..ae93b5a 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1476,7 +1476,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1527,6 +1527,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1542,10 +1546,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1613,6 +1613,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1661,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1761,21 +1791,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1808,21 +1823,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From 5f2c205ec489f1e819b9d88f9adfe455c81d2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:30 +0000
Subject: [PATCH 06/39] fix: let AND bind tighter than OR in the parsed tree

`a or b and c` was parsed as `(a or b) and c`. The sql builders print the
operators in order and were read with sql precedence by the database, the
entql builder used the tree and selected different rows for the same query.
---
 miniquery/tree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 97f49e8..d9df1f4 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,6 +128,16 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		// the grammar reads a flat list, and binds tighter than or as it does in sql
+		right = &Node{
+			Type:  LogicExpressionType,
+			Left:  left.Right,
+			Op:    op,
+			Right: right,
+		}
+		left, op = left.Left, left.Op
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From 0db5eb82db19ac134b1be815fdbc31ac42eb594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:32 +0000
Subject: [PATCH 07/39] fix: limit the nesting of a query

The generated parser recurses for every level of parentheses. A query of about
one megabyte of `(` overflowed the goroutine stack, which ends the process and
can not be recovered by the caller.
---
 miniquery/parse.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index afc9864..26c6e16 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,8 +1,46 @@
 package miniquery
 
-import "github.com/pkg/errors"
+import (
+	"strings"
+
+	"github.com/pkg/errors"
+)
+
+// maxNesting limits how deep a query can nest, the parser recurses for each level
+// and a go stack overflow can not be recovered.
+const maxNesting = 10000
+
+// nesting return the max depth of brackets outside of strings and comments
+func nesting(s string) (n int) {
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '(' || c == '[':
+			depth++
+			n = max(n, depth)
+		case c == ')' || c == ']':
+			depth--
+		case c == '\'' || c == '"':
+			end := strings.IndexByte(s[i+1:], c)
+			if end < 0 {
+				return
+			}
+			i += end + 1
+		case (c == '-' || c == '/') && i+1 < len(s) && s[i+1] == c:
+			end := strings.IndexAny(s[i:], "\r\n")
+			if end < 0 {
+				return
+			}
+			i += end
+		}
+	}
+	return
+}
 
 func Parse(s string) (*Node, error) {
+	if nesting(s) > maxNesting {
+		return nil, errors.New("query is nested too deep")
+	}
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
 		return nil, err
-- 
2.43.0


From a214494d2a90c4c19b981a09c80005ad8242d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:33 +0000
Subject: [PATCH 08/39] fix: make the visitor usable

Init had a value receiver and lost the default handlers, so Visit called nil
functions. Function calls were passed to the between handler and references
were reported as an invalid type.
---
 miniquery/visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..3867820 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,12 +18,13 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -33,6 +34,9 @@ func (v Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
@@ -129,7 +135,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From 283c3bf82c9b8b9c1c1d3c8a836abc8e122fc712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:34 +0000
Subject: [PATCH 09/39] fix: skip a single blank query in Join

Blank queries are dropped when there are several, a single one was returned as
it is and is not a valid query.
---
 miniquery/join.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/miniquery/join.go b/miniquery/join.go
index deb0043..789afcb 100644
--- a/miniquery/join.go
+++ b/miniquery/join.go
@@ -7,6 +7,9 @@ func Join(s []string) string {
 	case 0:
 		return ""
 	case 1:
+		if len(strings.TrimSpace(s[0])) == 0 {
+			return ""
+		}
 		return s[0]
 	}
 	sb := strings.Builder{}
-- 
2.43.0


From a9bb7ebcaee7f50326c9424ee636127d6f90e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:36 +0000
Subject: [PATCH 10/39] fix: separate the arguments of date in gorm queries

---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..82d87de 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 8db407b6695043cbcbe65a853e3a59e64f53c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:37 +0000
Subject: [PATCH 11/39] fix: report fields without a column as not found in
 gorm queries

The name of a relation or of an ignored field resolved to an empty column and
produced broken sql.
---
 gormq/miniquery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 82d87de..315c016 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -232,11 +232,12 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	// relations and ignored fields have no column
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From ee5a2405d1e6a206867b121062b2bab27368899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:38 +0000
Subject: [PATCH 12/39] fix: validate each query of a MiniQuery scope

The queries are joined as text, so `1=1) or (1=1` next to `id = 1` became
`(id = 1) and (1=1) or (1=1)` and disabled the other condition.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 315c016..77d3add 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		// a query must be complete by its own, not only after joined with the others
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From a7e34427c70385c8652aa314f6d1a0cf4a8179e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:21 +0000
Subject: [PATCH 13/39] fix: qualify the columns of the model when a relation
 is joined

`id = 1 and Profile.age > 18` failed with an ambiguous column name when the
joined relation has a column of the same name.
---
 gormq/miniquery.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 77d3add..54bb855 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -71,6 +72,13 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
+	quoteColumn := quote
+	if len(db.Statement.Joins) > 0 || hasReference(ast) {
+		// the joined relations can have columns of the same name
+		quoteColumn = func(builder *strings.Builder, name string) {
+			db.Statement.QuoteTo(builder, clause.Column{Table: clause.CurrentTable, Name: name})
+		}
+	}
 	qb := &queryBuilder{
 		buf: buf,
 		addValue: func(i interface{}) {
@@ -102,7 +110,8 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			// fixme quote
 			return s + "." + name, nil
 		},
-		quote: quote,
+		quote:       quote,
+		quoteColumn: quoteColumn,
 	}
 	err = qb.visit(ast)
 	if err != nil {
@@ -119,6 +128,24 @@ type queryBuilder struct {
 	mapName  func(s string) (string, error)
 	quote    func(builder *strings.Builder, name string)
 	join     func(s string, f string) (string, error)
+	// quoteColumn quote a column of the queried model
+	quoteColumn func(builder *strings.Builder, name string)
+}
+
+// hasReference check if the query refers to a relation
+func hasReference(node *miniquery.Node) bool {
+	if node == nil {
+		return false
+	}
+	if node.Type == miniquery.ReferenceNodeType {
+		return true
+	}
+	for _, v := range node.Params {
+		if hasReference(v) {
+			return true
+		}
+	}
+	return hasReference(node.Left) || hasReference(node.Right) || hasReference(node.Expression)
 }
 
 func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
@@ -138,7 +165,7 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quote
+	quote := qb.quoteColumn
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
-- 
2.43.0


From 1700a6a52f102dcc879e865378dca4f065cf3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:22 +0000
Subject: [PATCH 14/39] fix: apply NOT in the entql builder

The negation was only added when the operand failed, so `not a = 1` selected
the rows with `a = 1`.
---
 entmq/entql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..a3e5d3b 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,7 +86,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
+		if err == nil {
 			mb.push(entql.Not(mb.pop().(entql.P)))
 		}
 	case miniquery.FunctionExpressionType:
-- 
2.43.0


From 7f35b2bb8f66b7d93404fdcae57ed9b56c86c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:23 +0000
Subject: [PATCH 15/39] fix: return errors for unsupported queries in the entql
 builder

A query that is a bare field or value, calls a function or uses `is null`
paniced.
---
 entmq/entql.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index a3e5d3b..1082088 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", mb.Query)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -87,10 +90,15 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
 		if err == nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
+		return errors.Errorf("unsupported function: %q", node.Name)
 
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
@@ -125,7 +133,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		return errors.Errorf("unsupported predicate: %q", node.Op.Operation)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From 201986e6974834f9e14b92826d49ec34ad6babbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:24 +0000
Subject: [PATCH 16/39] fix: skip empty queries in ApplyEntQL

An empty query builds no predicate, passing nil to Where panics when ent
evaluates it.
---
 entmq/entql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 1082088..85f333c 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,6 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
+		if p == nil {
+			continue
+		}
 		q.Where(p)
 	}
 	return nil
-- 
2.43.0


From fc100aa0e6840d546f455268e9bb1c50b8e3dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:26 +0000
Subject: [PATCH 17/39] fix: negate the whole range for NOT BETWEEN in the
 entsql builder

Between is written as two comparisons, `not a between 1 and 3` only negated the
first of them.
---
 entmq/entsql.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..330659a 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -83,7 +83,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		if node.Expression.Type == miniquery.BetweenExpressionType {
+			// between is written as two comparisons
+			s.WriteString("(")
+			err = visit(node.Expression)
+			s.WriteString(")")
+		} else {
+			err = visit(node.Expression)
+		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
-- 
2.43.0


From 56d210e1733e0b16bf1a2b9e81e9ac8d8cf5f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:27 +0000
Subject: [PATCH 18/39] fix: wrap a top level OR in the entsql builder

The query is joined to the other conditions with AND, without parentheses
`a = 1 or b = 2` disabled them. The same happened to the condition of has_edge,
which matched rows that are not connected.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 330659a..cdf12f7 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,12 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	ast := mb.ast
+	if ast.Type == miniquery.LogicExpressionType && ast.Op.Operation == miniquery.OpOr {
+		// keep the query a single condition when combined with others by AND
+		ast = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: ast}
+	}
+	err := mb.visit(ast)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
-- 
2.43.0


From 5f37df17d0a15c6453fed7fc5b985d5d0e20ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:28 +0000
Subject: [PATCH 19/39] fix: check the arguments of entsql functions

`date()` and has_edge without a schema node paniced, further arguments of date
were ignored.
---
 entmq/entsql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index cdf12f7..3a889d8 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -102,6 +102,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.Errorf("date expects one argument, got %d", len(node.Params))
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
@@ -114,9 +118,13 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil || tab.ID == nil {
+				err = errors.Errorf("不存在关联: %q", params[0].Name)
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
-			if !ok {
+			if !ok || edge.To.ID == nil {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
-- 
2.43.0


From 1a29578bc441f2952fe1a25a4b40c452a49b03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:29 +0000
Subject: [PATCH 20/39] fix: report errors of the has_edge condition

The sub query builder drops the errors of its parts, an invalid condition was
left out of the sql without an error.
---
 entmq/entsql.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3a889d8..7ff4bf8 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -128,6 +128,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
+			var edgeErr error
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
@@ -152,10 +153,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-						err := mb.Err()
-						if err != nil {
-							builder.AddError(err)
-						}
+						edgeErr = mb.Err()
 					}))
 				})
 			default:
@@ -167,8 +165,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
 				mb.Join(p)
+				err = p.Err()
+				if err == nil {
+					// the builder of the sub query does not report errors
+					err = edgeErr
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 6778062c9f52288c5cb754d09a9373f49505689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:59 +0000
Subject: [PATCH 21/39] fix: allow to query an entsql builder more than once

The second call appended to the text and the arguments of the first one.
---
 entmq/entsql.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7ff4bf8..a6d441b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -38,12 +38,21 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		// keep the query a single condition when combined with others by AND
 		ast = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: ast}
 	}
+	dialect, total := mb.Dialect(), mb.Total()
 	err := mb.visit(ast)
+	query, args := mb.Builder.Query()
+	if err == nil {
+		err = mb.Err()
+	}
+	// start over when queried again, ent can build a statement more than once
+	mb.Builder = sql.Builder{}
+	mb.SetDialect(dialect)
+	mb.SetTotal(total)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
 	}
-	return mb.Builder.Query()
+	return query, args
 }
 
 //nolint:golint,gocyclo
-- 
2.43.0


From ad63973d7973be9a2d2299abbe0e6a7e49b0219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:00 +0000
Subject: [PATCH 22/39] fix: return a valid driver value for casted arguments

database/sql rejects an int returned by a Valuer, so every query with a number
failed on drivers that do not check the values by their own.
---
 entmq/entsql_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..186527b 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -38,5 +38,6 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
-	return f.v, nil
+	// drivers only accept a subset of types, e.g. int64 for int
+	return driver.DefaultParameterConverter.ConvertValue(f.v)
 }
-- 
2.43.0


From 1ff236df6a168c844aa1d0fae3f6069f66fd4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:01 +0000
Subject: [PATCH 23/39] fix: keep lower case column names in the entsql builder

Names with letters after a digit were changed, `x2y` became `x_2y`.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index a6d441b..19c5e31 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -80,7 +80,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		s.Ident(xstrings.ToSnakeCase(node.Name))
+		name := node.Name
+		if strings.ToLower(name) != name {
+			// a lower case name is already a column, e.g. utf8mb4 is not utf_8mb4
+			name = xstrings.ToSnakeCase(name)
+		}
+		s.Ident(name)
 		/*
 			switch name {
 			case "owned":
-- 
2.43.0


From d663a2aa33210990cecb5ea5adb99ed4b43fde7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:02 +0000
Subject: [PATCH 24/39] fix: write has_edge to the configured sql builder

Everything else goes to SQLBuilder when it is set, has_edge was written to the
embedded builder.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 19c5e31..ad9d799 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -136,7 +136,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok || edge.To.ID == nil {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -179,7 +179,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				mb.Join(p)
+				s.Join(p)
 				err = p.Err()
 				if err == nil {
 					// the builder of the sub query does not report errors
-- 
2.43.0


From 5f4039d10a0dc0547e9e763bcd7ea9b4c13ca066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:52 +0000
Subject: [PATCH 25/39] fix: do not change a shared gorm session

An error of WireMiniQuery or MiniQuery.Scope was added to the session passed in,
every later statement of the session failed.
---
 gormq/miniquery.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 54bb855..2b5fe12 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -17,6 +17,7 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	db = instance(db)
 	for _, v := range q.Query {
 		if strings.TrimSpace(v) == "" {
 			continue
@@ -44,6 +45,11 @@ func GetOrParseSchema(db *gorm.DB) (schema *schema.Schema, err error) {
 	return stat.Schema, nil
 }
 
+// instance return a statement that is safe to change, a shared session is left as it is
+func instance(db *gorm.DB) *gorm.DB {
+	return db.Order("")
+}
+
 // ApplyMiniQuery apply single miniquery
 func ApplyMiniQuery(query string) func(db *gorm.DB) *gorm.DB {
 	return func(db *gorm.DB) *gorm.DB {
@@ -55,6 +61,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	db = instance(db)
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-- 
2.43.0


From 7051dccbaae0af5212e8d99141f8c8460ecaec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:53 +0000
Subject: [PATCH 26/39] fix: keep the grouping of nested comparisons in gorm
 queries

`a = b is null` compares a with `b is null`, the database read it as
`(a = b) is null`.
---
 gormq/miniquery.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 2b5fe12..069a4c6 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -217,7 +217,7 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.FunctionExpressionType:
 		err = qb.visitFunction(node)
 	case miniquery.BetweenExpressionType:
-		err = visit(node.Left)
+		err = qb.visitOperand(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
 			err = visit(node.Op)
@@ -235,6 +235,9 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
+		if node.Type != miniquery.LogicExpressionType {
+			visit = qb.visitOperand
+		}
 		err = visit(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
@@ -250,6 +253,18 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand write an operand of a comparison, keep the grouping of nested comparisons
+func (qb *queryBuilder) visitOperand(node *miniquery.Node) (err error) {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+		qb.buf.WriteRune('(')
+		err = qb.visit(node)
+		qb.buf.WriteRune(')')
+		return
+	}
+	return qb.visit(node)
+}
+
 func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	visit := qb.visit
-- 
2.43.0


From 4dbac9ca1f4e75dba6a37d8c0829375fb116829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:54 +0000
Subject: [PATCH 27/39] fix: keep the grouping of nested comparisons in the
 entsql builder

`a = b is null` compares a with `b is null`, the database read it as
`(a = b) is null`.
---
 entmq/entsql.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index ad9d799..60e53e2 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -197,7 +197,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			ro = sql.OpGT
 		}
 
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		if err == nil {
 			s.WriteOp(lo)
 			err = visit(node.Params[0])
@@ -206,7 +206,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			s.WriteString(" AND ")
 		}
 		if err == nil {
-			err = visit(node.Left)
+			err = mb.visitOperand(node.Left)
 		}
 		if err == nil {
 			s.WriteOp(ro)
@@ -217,11 +217,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
+		if node.Type == miniquery.CompareExpressionType {
+			visit = mb.visitOperand
+		}
 		err = visit(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
@@ -249,6 +252,15 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand write an operand of a comparison, keep the grouping of nested comparisons
+func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From 36ca642a0da9ba2473e6ce571e7c3856f6bcf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:47 +0000
Subject: [PATCH 28/39] fix: qualify own columns when a later query joins a
 relation

---
 gormq/miniquery.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 069a4c6..934aee5 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -79,13 +79,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
-	quoteColumn := quote
-	if len(db.Statement.Joins) > 0 || hasReference(ast) {
-		// the joined relations can have columns of the same name
-		quoteColumn = func(builder *strings.Builder, name string) {
-			db.Statement.QuoteTo(builder, clause.Column{Table: clause.CurrentTable, Name: name})
-		}
-	}
 	qb := &queryBuilder{
 		buf: buf,
 		addValue: func(i interface{}) {
@@ -117,8 +110,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			// fixme quote
 			return s + "." + name, nil
 		},
-		quote:       quote,
-		quoteColumn: quoteColumn,
+		quote: quote,
 	}
 	err = qb.visit(ast)
 	if err != nil {
@@ -135,24 +127,18 @@ type queryBuilder struct {
 	mapName  func(s string) (string, error)
 	quote    func(builder *strings.Builder, name string)
 	join     func(s string, f string) (string, error)
-	// quoteColumn quote a column of the queried model
-	quoteColumn func(builder *strings.Builder, name string)
 }
 
-// hasReference check if the query refers to a relation
-func hasReference(node *miniquery.Node) bool {
-	if node == nil {
-		return false
-	}
-	if node.Type == miniquery.ReferenceNodeType {
-		return true
-	}
-	for _, v := range node.Params {
-		if hasReference(v) {
-			return true
-		}
+// ownColumn a column of the queried model, written when the statement is complete
+type ownColumn string
+
+func (c ownColumn) Build(builder clause.Builder) {
+	column := clause.Column{Name: string(c)}
+	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) > 0 {
+		// the joined relations can have columns of the same name
+		column.Table = clause.CurrentTable
 	}
-	return hasReference(node.Left) || hasReference(node.Right) || hasReference(node.Expression)
+	builder.WriteQuoted(column)
 }
 
 func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
@@ -172,7 +158,6 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quoteColumn
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
@@ -187,7 +172,8 @@ func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote(buf, name)
+	buf.WriteRune('?')
+	qb.addValue(ownColumn(name))
 	return
 }
 
-- 
2.43.0


From 542381826c3172ea284734774043528ae03deb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:55 +0000
Subject: [PATCH 29/39] fix: resolve columns and edges inside of has_edge
 against the related table

---
 entmq/entsql.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 60e53e2..5d3a352 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -21,6 +21,7 @@ type MiniQLToEntSQLBuilder struct {
 	Graph       *sqlgraph.Schema
 	sql.Builder
 	DisableTypeCasting bool
+	selector           *sql.Selector // sub query of a relation the conditions belong to
 }
 
 // Query impl sql.Querier
@@ -85,6 +86,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			// a lower case name is already a column, e.g. utf8mb4 is not utf_8mb4
 			name = xstrings.ToSnakeCase(name)
 		}
+		if mb.selector != nil {
+			name = mb.selector.C(name)
+		}
 		s.Ident(name)
 		/*
 			switch name {
@@ -136,7 +140,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
-			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			table := sql.Table(tab.Table).Schema(tab.Schema)
+			if mb.selector != nil {
+				table = mb.selector.Table()
+			}
+			builder := sql.Dialect(s.Dialect()).Select().From(table)
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok || edge.To.ID == nil {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -165,6 +173,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							ast:                params[1],
 							Node:               edge.To,
 							DisableTypeCasting: mb.DisableTypeCasting,
+							selector:           selector,
 						}
 						builder.Join(mb)
 						edgeErr = mb.Err()
-- 
2.43.0


From f6361fb6a6ddbb59b1f603079fff14ad54a89769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:56 +0000
Subject: [PATCH 30/39] fix: only accept a plain name as the edge of has_edge

---
 entmq/entsql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 5d3a352..7a8f57c 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -130,7 +130,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
-- 
2.43.0


From 09421652f9ffe8b6254d21683cae3205ecc229e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:57 +0000
Subject: [PATCH 31/39] fix: avoid the alias of the enclosing query in nested
 has_edge

---
 entmq/entsql.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7a8f57c..c85da9b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -153,11 +153,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			var edgeErr error
 			switch len(params) {
 			case 1:
-				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
+				step := sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				))
+				)
+				if mb.selector != nil && step.ToEdgeOwner() {
+					// HasNeighbors uses the alias of the enclosing sub query again
+					sqlgraph.HasNeighborsWith(builder, step, func(*sql.Selector) {})
+				} else {
+					sqlgraph.HasNeighbors(builder, step)
+				}
 			case 2:
 				if !params[1].IsExpression() {
 					err = errors.Errorf("关联条件错误: %q", params[1].String())
-- 
2.43.0


From c213eb0768b489945bd9cd730057a1dc002f938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:57 +0000
Subject: [PATCH 32/39] fix: cast integers over 32 bits to bigint

---
 entmq/entsql_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index 186527b..98cac5f 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -2,6 +2,7 @@ package entmq
 
 import (
 	"database/sql/driver"
+	"math"
 
 	"entgo.io/ent/dialect"
 	"entgo.io/ent/dialect/sql"
@@ -19,9 +20,12 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 	// https://github.com/jackc/pgx/issues/798 pg 需要 cast 来支持 1=1 -> $1=$2
 	if info.Dialect == dialect.Postgres {
 		var typ string
-		switch f.v.(type) {
+		switch v := f.v.(type) {
 		case int:
 			typ = "int"
+			if v > math.MaxInt32 {
+				typ = "bigint"
+			}
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From 86bdb79306462fd84155e7e7eac08d813eb2e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:58 +0000
Subject: [PATCH 33/39] fix: keep the grouping of has_edge as an operand

---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c85da9b..c155f1a 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -270,6 +270,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 // visitOperand write an operand of a comparison, keep the grouping of nested comparisons
 func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
 	switch node.Type {
+	case miniquery.FunctionExpressionType:
+		if node.Name == "has_edge" {
+			node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+		}
 	case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
 		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
 	}
-- 
2.43.0


From 7fa486d7a5b2141597dfe228f02bc0991bf02d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:58 +0000
Subject: [PATCH 34/39] fix: write membership in an empty list as a constant

---
 entmq/entsql.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c155f1a..a097175 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -240,6 +240,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if node.Type == miniquery.CompareExpressionType {
 			visit = mb.visitOperand
 		}
+		if (node.Op.Operation == miniquery.OpIn || node.Op.Operation == miniquery.OpNotIn) && len(node.Right.Array) == 0 {
+			// most databases do not accept an empty list
+			left := &MiniQLToEntSQLBuilder{ast: node.Left, Node: mb.Node, selector: mb.selector}
+			left.SetDialect(s.Dialect())
+			_, _ = left.Query()
+			if node.Op.Operation == miniquery.OpNotIn {
+				s.WriteString("NOT ")
+			}
+			s.Join(sql.False())
+			return left.Err()
+		}
 		err = visit(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
-- 
2.43.0


From 3dd257d43ec7ffdb385258007a85582624225165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:59 +0000
Subject: [PATCH 35/39] fix: reject bare columns and literals as operands of
 and, or in entql

---
 entmq/entql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 85f333c..05582ce 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -151,6 +151,9 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
+			if node.Type == miniquery.LogicExpressionType && (!isCondition(left) || !isCondition(right)) {
+				return errors.Errorf("not a predicate: %q", mb.Query)
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
@@ -163,6 +166,16 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// isCondition reports if an expression can be an operand of and, or
+func isCondition(e entql.Expr) bool {
+	if v, ok := e.(*entql.Value); ok {
+		_, ok = v.V.(bool)
+		return ok
+	}
+	_, ok := e.(entql.P)
+	return ok
+}
+
 var entqlOpMap = map[miniquery.OpType]entql.Op{
 	miniquery.OpAnd:   entql.OpAnd,
 	miniquery.OpOr:    entql.OpOr,
-- 
2.43.0


From d47f188588f8512d23f8584b8220ac3d48d20e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:26 +0000
Subject: [PATCH 36/39] fix: refuse trees too high for the recursion of the
 builders

---
 miniquery/parse.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 26c6e16..9bc99e5 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -37,6 +37,24 @@ func nesting(s string) (n int) {
 	return
 }
 
+// maxHeight limits the height of a tree, everything that handles a tree recurses
+// for each level, long chains of operators are as high as they are long.
+const maxHeight = 100000
+
+// height return the height of the tree
+func height(n *Node) (h int) {
+	for level := []*Node{n}; len(level) != 0; h++ {
+		var next []*Node
+		for _, v := range level {
+			if v != nil {
+				next = append(append(next, v.Expression, v.Left, v.Right), v.Params...)
+			}
+		}
+		level = next
+	}
+	return
+}
+
 func Parse(s string) (*Node, error) {
 	if nesting(s) > maxNesting {
 		return nil, errors.New("query is nested too deep")
@@ -58,5 +76,9 @@ func Parse(s string) (*Node, error) {
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
 	}
-	return p.Pop(), nil
+	n := p.Pop()
+	if height(n) > maxHeight {
+		return nil, errors.New("query is nested too deep")
+	}
+	return n, nil
 }
-- 
2.43.0


From 7b6dfd9f5642f30a91595ff4e3f2ca0c0cfd34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:42 +0000
Subject: [PATCH 37/39] fix: refuse relations to many rows in gorm queries

---
 gormq/miniquery.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 934aee5..52081be 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -96,6 +96,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if r == nil {
 				return "", fmt.Errorf("relation not found: %q", s)
 			}
+			if !joinable(r) {
+				return "", fmt.Errorf("relation to many rows: %q", s)
+			}
 
 			var name string
 			var ok bool
@@ -121,6 +124,11 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	return db
 }
 
+// joinable report whether a relation gives at most one row, gorm can not join the others
+func joinable(r *schema.Relationship) bool {
+	return r.Type == schema.HasOne || r.Type == schema.BelongsTo
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
-- 
2.43.0


From 3d681ad9414996f1ee7d257de8ea60c5246c0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:00 +0000
Subject: [PATCH 38/39] fix: name the schema of related tables in has_edge

The own table was written with its schema, the related and the join table
without, so they were looked for in the default schema.
---
 entmq/entsql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index a097175..3a30d65 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -157,6 +157,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					inSchema(edge.To, edge.Spec),
 				)
 				if mb.selector != nil && step.ToEdgeOwner() {
 					// HasNeighbors uses the alias of the enclosing sub query again
@@ -173,6 +174,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					inSchema(edge.To, edge.Spec),
 				), func(selector *sql.Selector) {
 					selector.Where(sql.P(func(builder *sql.Builder) {
 						mb := &MiniQLToEntSQLBuilder{
@@ -278,6 +280,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// inSchema set the schema of the related tables, a table does not have to be in the default one
+func inSchema(to *sqlgraph.Node, spec *sqlgraph.EdgeSpec) func(*sqlgraph.Step) {
+	return func(step *sqlgraph.Step) {
+		step.To.Schema = to.Schema
+		step.Edge.Schema = spec.Schema
+		if step.ToEdgeOwner() {
+			step.Edge.Schema = to.Schema
+		}
+	}
+}
+
 // visitOperand write an operand of a comparison, keep the grouping of nested comparisons
 func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
 	switch node.Type {
-- 
2.43.0


From e5bd01f29d4e4ce317fc22864fab0332da9678da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:12 +0000
Subject: [PATCH 39/39] fix: write the operand of a nested range once in the
 entsql builder

---
 entmq/entsql.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3a30d65..1031b4e 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -63,6 +63,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	if s == nil {
 		s = &mb.Builder
 	}
+	if node.Type == miniquery.BetweenExpressionType && node.Left.IsExpression() {
+		return mb.visitRange(s, node)
+	}
 	switch node.Type {
 	case miniquery.OperationNodeType:
 		return errors.Errorf("unexpected op node: %q", node)
@@ -280,6 +283,19 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitRange write a range with its operand once, written for each bound nested ranges double in size per level
+func (mb *MiniQLToEntSQLBuilder) visitRange(s *sql.Builder, node *miniquery.Node) error {
+	if err := mb.visitOperand(node.Left); err != nil {
+		return err
+	}
+	s.Pad().WriteString(strings.ToUpper(node.Op.Operation)).Pad()
+	if err := mb.visit(node.Params[0]); err != nil {
+		return err
+	}
+	s.WriteString(" AND ")
+	return mb.visit(node.Params[1])
+}
+
 // inSchema set the schema of the related tables, a table does not have to be in the default one
 func inSchema(to *sqlgraph.Node, spec *sqlgraph.EdgeSpec) func(*sqlgraph.Step) {
 	return func(step *sqlgraph.Step) {
-- 
2.43.0

