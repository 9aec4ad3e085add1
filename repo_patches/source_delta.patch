From ee97f8b5fb43e62c573cf2f5a6c89dd5baecb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:33 +0000
Subject: [PATCH 01/21] fix: drop comments inside multi-word operators

A comment between the words of an operator (`a not -- x\n in (1)`) became
part of the operation. gormq writes the operation into the SQL text, so
user text reached the statement.
---
 miniquery/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..60153b7 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,8 +19,9 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
-	normalize = map[string]string{
+	regComment = regexp.MustCompile(`(?:--|//)[^\r\n]*`)
+	regSpace   = regexp.MustCompile(`\s+`)
+	normalize  = map[string]string{
 		">=": "gte",
 		">":  "gt",
 		"==": "eq",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regComment.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From 0ee16d69c7b29808417c6a4dfc14b24a34d58c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:33 +0000
Subject: [PATCH 02/21] fix: print the name of nested functions in Build

Build used the name of the root node for every function call, so
`date(a) = 1` was printed as `(a) == 1`.
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From 6a300e1fc46bd182ebb7615711e59ab09b167196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:33 +0000
Subject: [PATCH 03/21] fix: print strings without escapes in Build

Strings have no escape sequences in the grammar. Build printed them with
Go escapes, so strings with a quote or a backslash did not parse back to
the same value.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..2c48d7d 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// the grammar has no escapes, use a delimiter that the string does not contain
+		quote := '"'
+		if strings.ContainsRune(node.Str, quote) {
+			quote = '\''
+		}
+		buf.WriteRune(quote)
+		buf.WriteString(node.Str)
+		buf.WriteRune(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From e61bcec9117b56d16d46b3e0f728402a7d063c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:33 +0000
Subject: [PATCH 04/21] fix: make Visitor.Init effective and visit functions
 and references

Init filled in the defaults on a copy, so visiting any node without its
own handler called a nil func. Function nodes went to the between handler
and references were rejected as an invalid type.
---
 miniquery/visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..3867820 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,12 +18,13 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -33,6 +34,9 @@ func (v Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
@@ -129,7 +135,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From c126a6372b443667c284ec6b7cd477c7b1ef328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:33 +0000
Subject: [PATCH 05/21] fix: bind and tighter than or

`a or b and c` was parsed as `(a or b) and c`. The SQL text of gormq and
entsql keeps the order of the query, so the database read it the SQL way,
while entql evaluated the tree: the same query had two meanings.
---
 miniquery/tree.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 60153b7..82979f9 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,12 +128,27 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
-	t.Push(&Node{
+	node := &Node{
 		Type:  LogicExpressionType,
 		Left:  left,
 		Op:    op,
 		Right: right,
-	})
+	}
+	// and binds tighter than or: a or b and c is a or (b and c), as in SQL
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		node = &Node{
+			Type: LogicExpressionType,
+			Left: left.Left,
+			Op:   left.Op,
+			Right: &Node{
+				Type:  LogicExpressionType,
+				Left:  left.Right,
+				Op:    op,
+				Right: right,
+			},
+		}
+	}
+	t.Push(node)
 }
 
 func (t *Tree) PopCompare() {
-- 
2.43.0


From 491383e1e1f9dce2a0cf62b41da85e4fce8c1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:22 +0000
Subject: [PATCH 06/21] fix: reject json references

`a->b = 1` was accepted and parsed as `b = 1`: both names were pushed, but
nothing combines them. The left name was dropped, or became an extra
argument inside a function call.
---
 miniquery/miniquery.peg    | 4 ++--
 miniquery/miniquery.peg.go | 8 +-------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..4d2e2dd 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -26,10 +26,10 @@ Argument            <- Expression
 # Argument            <- Value / Identifier
 
 Reference     <- IdentifierReference
-              / JsonReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
-JsonReference <- Identifier '->' (JsonReference / Identifier)
+# there is no node for json references yet
+# JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..47059aa 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1250,7 +1250,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position82, tokenIndex82
 			return false
 		},
-		/* 11 Reference <- <(IdentifierReference / JsonReference / Identifier)> */
+		/* 11 Reference <- <(IdentifierReference / Identifier)> */
 		func() bool {
 			position84, tokenIndex84 := position, tokenIndex
 			{
@@ -1262,12 +1262,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					}
 					goto l86
 				l87:
-					position, tokenIndex = position86, tokenIndex86
-					if !_rules[ruleJsonReference]() {
-						goto l88
-					}
-					goto l86
-				l88:
 					position, tokenIndex = position86, tokenIndex86
 					if !_rules[ruleIdentifier]() {
 						goto l84
-- 
2.43.0


From 0ce24d6139f0b78394d91ff5ad091e8991118421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:22 +0000
Subject: [PATCH 07/21] fix: match the longest comparison operator

`<>`, `gte` and `lte` could never match, because `<`, `gt` and `lt` were
tried first: `a <> 1` was a syntax error, `a gte` was read as `a gt e`.
---
 miniquery/miniquery.peg    |  4 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index 4d2e2dd..5ef86d2 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 # JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' /  '>' / '<'  / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index 47059aa..a552389 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1470,7 +1470,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1521,6 +1521,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1536,10 +1540,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1607,6 +1607,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1640,6 +1655,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1755,21 +1785,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1802,21 +1817,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From 01f09841f3e09d07c568d031db5fddd3cf96dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:22 +0000
Subject: [PATCH 08/21] fix: negate not expressions in entql

The condition was inverted: `not a = 1` was built as `a = 1`, and a failed
operand was popped and negated.
---
 entmq/entql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..a3e5d3b 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,7 +86,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
+		if err == nil {
 			mb.push(entql.Not(mb.pop().(entql.P)))
 		}
 	case miniquery.FunctionExpressionType:
-- 
2.43.0


From e845f5ae2bc41f07bbe4e8a8466d1e3e55c0924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:22 +0000
Subject: [PATCH 09/21] fix: report unsupported functions and predicates in
 entql

A function call pushed no operand, which ended in an index out of range
panic or in no filter at all, and `a is null` panicked.
---
 entmq/entql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index a3e5d3b..fce0c6a 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -91,7 +91,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-
+		return errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
@@ -125,7 +125,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		return errors.Errorf("unsupported predicate: %q", node.Op.Operation)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From d86fec0da88f367f7d2cbae2794694c918c914ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 10/21] fix: report queries that are not predicates in entql

A query such as `a`, `1` or `not a` is no entql predicate. The type
assertion panicked.
---
 entmq/entql.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index fce0c6a..209eb33 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", mb.Query)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -87,7 +90,11 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
 		if err == nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From 6ceba02808c88d154fea57a27aaaa7ea2fb28119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 11/21] fix: skip empty queries in ApplyEntQL

An empty query builds no predicate, and the nil predicate was passed on to
Where.
---
 entmq/entql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 209eb33..499d72f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,7 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
-		q.Where(p)
+		if p != nil {
+			q.Where(p)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a13d882c75c4ff116ad21d20e4fba43af8c2f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 12/21] fix: check the arguments of date in entsql

`date()` panicked with an index out of range, and further arguments were
dropped.
---
 entmq/entsql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..b07d19f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				return errors.Errorf("date expects one argument, got %d", len(node.Params))
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 17f75e15eefbdf53bc0ddaeda31a05cf80465441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 13/21] fix: report has_edge without a node in entsql

The builder has no graph node when it is used without one, and a query
with has_edge panicked with a nil dereference.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index b07d19f..a852ae9 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -105,6 +105,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil {
+				err = errors.New("has_edge requires a node")
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
-- 
2.43.0


From 90a516b697861082fa74e59761aba6b302ceffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 14/21] fix: parenthesize between operands in entsql

Between is written as two comparisons joined by AND. `not a between 1 and
2` was written as `NOT a >= 1 AND a <= 2`, which negates only the first
one; comparisons and predicates of a between had the same problem.
---
 entmq/entsql.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index a852ae9..16112d0 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -83,7 +83,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		err = mb.visitOperand(node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -188,12 +188,16 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		operand := visit
+		if node.Type == miniquery.CompareExpressionType {
+			operand = mb.visitOperand
+		}
+		err = operand(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -212,7 +216,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = visit(node.Right)
+			err = operand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
@@ -220,6 +224,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand visit operand that binds tighter than AND, between is written as two comparisons
+func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
+	if node.Type != miniquery.BetweenExpressionType {
+		return mb.visit(node)
+	}
+	return mb.visit(&miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node})
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From cbbba54f76e8bbe5b84f08b3ee40c3242b022d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 15/21] fix: write has_edge to the builder in use

With SQLBuilder set, the condition of has_edge was written to the embedded
builder, and was missing from the statement.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 16112d0..a1407b8 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -109,7 +109,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("has_edge requires a node")
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -155,7 +155,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From ebaad02f61c630291fe471191041c6dbf8552200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:24 +0000
Subject: [PATCH 16/21] fix: separate the arguments of date in gormq

`date(a, b)` was written as date(`a``b`).
---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..82d87de 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 61beee082f4f0309e091be9bd3aae82f80ee8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:24 +0000
Subject: [PATCH 17/21] fix: reject fields without a column in gormq

Relations and ignored fields have no column. They were accepted and
written as an empty identifier, which is broken SQL.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 82d87de..b52fa7f 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -232,11 +232,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From 48a376ee8eb9ddebce2828ce08ed8b2719617aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:24 +0000
Subject: [PATCH 18/21] fix: check each query of MiniQuery before joining

The queries were joined as text, so `1=1) or (1=1` joined with `id = 1`
became `(1=1) or (1=1) and (id = 1)` and disabled the other query.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b52fa7f..ef5eed3 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	// Join wraps the queries in parentheses, each one has to be complete by itself
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From cadfdfe191beadf070407dec7493f975b2f4faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:16 +0000
Subject: [PATCH 19/21] fix: report errors in the condition of has_edge

---
 entmq/entsql.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index a1407b8..42ebb4b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -139,9 +139,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-						err := mb.Err()
-						if err != nil {
-							builder.AddError(err)
+						// nested builders drop errors, keep it for the query itself
+						if cerr := mb.Err(); cerr != nil {
+							builder.AddError(cerr)
+							err = cerr
 						}
 					}))
 				})
@@ -154,8 +155,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
 				s.Join(p)
+				if err == nil {
+					err = p.Err()
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 8f038fee673432db9be391d6f243a4a1366f4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:17 +0000
Subject: [PATCH 20/21] fix: parenthesize the condition of has_edge

---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 42ebb4b..c318155 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -133,8 +133,13 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
 				), func(selector *sql.Selector) {
 					selector.Where(sql.P(func(builder *sql.Builder) {
+						// the condition is joined with AND to the columns of the edge
+						cond := params[1]
+						if cond.Type == miniquery.LogicExpressionType {
+							cond = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: cond}
+						}
 						mb := &MiniQLToEntSQLBuilder{
-							ast:                params[1],
+							ast:                cond,
 							Node:               edge.To,
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
-- 
2.43.0


From 8cb2f5d167b0da4814cdb39ce2c049c26bcfc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:17 +0000
Subject: [PATCH 21/21] fix: reject functions as the edge of has_edge

---
 entmq/entsql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c318155..8859c9d 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -99,7 +99,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
-- 
2.43.0

