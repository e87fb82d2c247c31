From 4fcbfe7acd734c8026217f4f9d902c0ebc78bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 01/31] fix: MapModel.Key reports absent members as absent

$.missing selected a null node instead of nothing.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 05c92925c2967208a1399ffcec85dba32da12c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 02/31] fix: recursive descent reports leaf nodes once

A value node was evaluated by its parent and again when descending into
it, so every matching leaf was reported twice, and a scalar document
matched $..*.
---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..56b4d12 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
+			// No descendants. The node itself was evaluated by its parent
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 0adb4666d81a9a3aa5db7c960876acabe11f6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 03/31] fix: trailing recursive descent no longer panics

$.. compiled to a path with one recursion flag less than selectors, and
every search with it panicked.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a95c699..5a56617 100644
--- a/parser.go
+++ b/parser.go
@@ -131,7 +131,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 5f2fa61f5999c13c42a40cfc84a64a324d5285ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 04/31] fix: slices after recursive descent select from every
 descendant

$..[0:1] was compiled as $..*[0:1], which skips the slice of the node
that the descent starts from.
---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5a56617..75dd99e 100644
--- a/parser.go
+++ b/parser.go
@@ -151,7 +151,13 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		sub := expr.Expression()
+		// "x..[index]" is parsed as "x.." followed by "[index]"
+		term, recursive := sub.(*parser.RecursiveDescentTermExpressionContext)
+		if recursive {
+			sub = term.Expression()
+		}
+		if left, err = astPath(sub); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -160,7 +166,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From 95716b1b68283dc95adc034233d83b25ac4a715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 05/31] fix: extending a document path does not overwrite other
 paths

Key, Index and Push appended in place, so two extensions of the same path
shared a segment, and a path kept by a Search callback was overwritten as
the search went on.
---
 docpath.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/docpath.go b/docpath.go
index f00616a..8231355 100644
--- a/docpath.go
+++ b/docpath.go
@@ -1,6 +1,7 @@
 package gojsonpath
 
-// DocPath is a list of nodes of the document
+// DocPath is a list of nodes of the document. Extending a path always
+// copies it, so that paths never share segments that can be overwritten
 type DocPath struct {
 	P []Segment
 }
@@ -17,7 +18,7 @@ type Segment struct {
 
 // Add a key-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node: value,
 		Name: key,
 		Type: valueType,
@@ -27,7 +28,7 @@ func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
 
 // Add an array index-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node:  value,
 		Index: index,
 		Type:  valueType,
@@ -36,7 +37,7 @@ func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
 }
 
 func (path DocPath) Push(seg Segment) DocPath {
-	path.P = append(path.P, seg)
+	path.P = append(path.P[:len(path.P):len(path.P)], seg)
 	return path
 }
 
-- 
2.43.0


From 9ccc051dd8076b481bf03b152650eb5b6aa0e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 06/31] fix: negative index before the start of an array
 selects nothing

$[-2] on a one element array selected the first element: single indexes
were clamped the way slice bounds are.
---
 path.go  | 11 +++++------
 slice.go | 15 +++++++--------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/path.go b/path.go
index 56b4d12..02a78f9 100644
--- a/path.go
+++ b/path.go
@@ -312,11 +312,7 @@ func (sel *keySelector) match(ctx *context) bool {
 	if isArrayElement(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			if *v < 0 {
-				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-				*v = normalizeIndex(*v, n)
-				if *v < 0 {
-					return false
-				}
+				*v += ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
 			}
 			return ctx.path.Last().Index == *v
 		}
@@ -341,7 +337,10 @@ func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isArray(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			n := ctx.doc.Len(ctx.path.Last().Node)
-			index := normalizeIndex(*v, n)
+			index := *v
+			if index < 0 {
+				index += n
+			}
 			if index < 0 {
 				return emptyIterator{}, true
 			}
diff --git a/slice.go b/slice.go
index f9d2d23..a8c98f7 100644
--- a/slice.go
+++ b/slice.go
@@ -48,11 +48,7 @@ func (sel *indexSelector) match(ctx *context) bool {
 		return false
 	}
 	if index < 0 {
-		n := ctx.doc.Len(ctx.path.Last().Node)
-		index := normalizeIndex(index, n)
-		if index < 0 {
-			return false
-		}
+		index += ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
 	}
 	return ctx.path.Last().Index == index
 }
@@ -66,11 +62,14 @@ func (sel *indexSelector) selectChildNodes(ctx *context) (children iterator, can
 	if err != nil {
 		return nil, false
 	}
-	index := normalizeIndex(ivalue.value, n)
-	if index < 0 {
+	index, ok := valueAsInt(ivalue.value)
+	if !ok {
 		return emptyIterator{}, true
 	}
-	if index >= n {
+	if index < 0 {
+		index += n
+	}
+	if index < 0 || index >= n {
 		return emptyIterator{}, true
 	}
 	node := ctx.doc.Elem(ctx.path.Last().Node, index)
-- 
2.43.0


From 886abdb6b10f3d3c39a9c811bbc001eb0370434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 07/31] fix: a slice with an empty step keeps its start

$[1:3:] selected from the beginning of the array.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 75dd99e..2f03267 100644
--- a/parser.go
+++ b/parser.go
@@ -343,7 +343,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From cf8ed87fb654097508e95c022818854d127500d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 08/31] fix: slices with a negative step select elements
 backwards

The children a backward slice picked were rejected again by match, which
only accepted start <= index < end, and open bounds defaulted to the
wrong ends of the array. Both now use the same bounds.
---
 slice.go | 135 +++++++++++++++++++++++--------------------------------
 1 file changed, 56 insertions(+), 79 deletions(-)

diff --git a/slice.go b/slice.go
index a8c98f7..ed53ee5 100644
--- a/slice.go
+++ b/slice.go
@@ -149,49 +149,70 @@ type sliceSelector struct {
 	step  expression
 }
 
-func (sel *sliceSelector) match(ctx *context) bool {
-	if !isArrayElement(ctx.path) {
-		return false
-	}
-	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return false
-	}
-	index := ctx.path.Last().Index
-	if index < start || index >= end {
-		return false
+// getSlice returns the first index, the index to stop before, and the
+// step of a slice of an array with len elements. Bounds are optional;
+// they default to the ends of the array in the direction of the step,
+// and are limited to it. Returns false if the slice selects nothing
+func getSlice(ctx *context, start, end, step expression, len int) (from, to, by int, ok bool) {
+	by = 1
+	if step != nil {
+		ivalue, err := step.evaluate(ctx)
+		if err != nil {
+			return 0, 0, 0, false
+		}
+		if by, ok = valueAsInt(ivalue.value); !ok || by == 0 {
+			return 0, 0, 0, false
+		}
 	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
+	low, high := 0, len
+	if by < 0 {
+		low, high = -1, len-1
 	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
+	limit := func(bound expression, value int) (int, bool) {
+		if bound == nil {
+			return value, true
+		}
+		ivalue, err := bound.evaluate(ctx)
 		if err != nil {
-			return false
+			return 0, false
 		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
+		value, ok := valueAsInt(ivalue.value)
 		if !ok {
-			return false
+			return 0, false
+		}
+		if value < 0 {
+			value += len
 		}
+		return min(max(value, low), high), true
+	}
+	if by > 0 {
+		from, to = low, high
+	} else {
+		from, to = high, low
 	}
-	if step == 0 {
+	if from, ok = limit(start, from); !ok {
+		return 0, 0, 0, false
+	}
+	if to, ok = limit(end, to); !ok {
+		return 0, 0, 0, false
+	}
+	return from, to, by, true
+}
+
+func (sel *sliceSelector) match(ctx *context) bool {
+	if !isArrayElement(ctx.path) {
 		return false
 	}
-	if start < end {
-		if step < 0 {
-			return false
-		}
-		return (index-start)%step == 0
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	from, to, step, ok := getSlice(ctx, sel.start, sel.end, sel.step, n)
+	if !ok {
+		return false
 	}
+	index := ctx.path.Last().Index
 	if step > 0 {
-		return false
+		return index >= from && index < to && (index-from)%step == 0
 	}
-	return (start-index)%(-step) == 0
+	return index <= from && index > to && (from-index)%-step == 0
 }
 
 func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
@@ -199,59 +220,15 @@ func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, can
 		return emptyIterator{}, true
 	}
 	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return emptyIterator{}, true
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return nil, false
-		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return nil, false
-		}
-	}
-	if step == 0 {
-		return emptyIterator{}, true
-	}
-	if start < end {
-		if step < 0 {
-			return emptyIterator{}, true
-		}
-
-		if end > n {
-			end = n
-		}
-		return &rangeIterator{
-			doc:   ctx.doc,
-			node:  ctx.path.Last().Node,
-			from:  start,
-			to:    end,
-			step:  step,
-			state: 0,
-		}, true
-	}
-	if step > 0 {
-		return emptyIterator{}, true
-	}
-	if start >= n {
+	from, to, step, ok := getSlice(ctx, sel.start, sel.end, sel.step, n)
+	if !ok {
 		return emptyIterator{}, true
 	}
-
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
-		from:  start,
-		to:    end,
+		from:  from,
+		to:    to,
 		step:  step,
 		state: 0,
 	}, true
-- 
2.43.0


From b58541231feab272ac27e9ec9a2cbba15dc66381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 09/31] fix: huge slice steps do not overflow

$[1::9223372036854775807] wrapped to a negative index and panicked.
---
 slice.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slice.go b/slice.go
index ed53ee5..c171753 100644
--- a/slice.go
+++ b/slice.go
@@ -163,6 +163,8 @@ func getSlice(ctx *context, start, end, step expression, len int) (from, to, by
 		if by, ok = valueAsInt(ivalue.value); !ok || by == 0 {
 			return 0, 0, 0, false
 		}
+		// No need to step further than the end, and no overflow
+		by = min(max(by, -len-1), len+1)
 	}
 	low, high := 0, len
 	if by < 0 {
-- 
2.43.0


From 7eadf540511247c11e0a63f8ab44f789bcb74d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 10/31] fix: index expressions and slice bounds refer to the
 array

They were evaluated with the array as the current node to select elements,
and again with each element as the current node to match it, so bounds
like [length(@)-2:] selected the wrong elements.
---
 expression.go | 6 ++++++
 path.go       | 2 +-
 slice.go      | 6 +++---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..58efbdd 100644
--- a/expression.go
+++ b/expression.go
@@ -16,6 +16,12 @@ type context struct {
 	path DocPath
 }
 
+// Returns the context of the parent of the current node. Indexes and
+// bounds are evaluated there, with the array as the current node
+func (ctx *context) parent() *context {
+	return &context{doc: ctx.doc, path: ctx.path.Pop()}
+}
+
 type expression interface {
 	evaluate(*context) (exprValue, error)
 }
diff --git a/path.go b/path.go
index 02a78f9..ab1891b 100644
--- a/path.go
+++ b/path.go
@@ -310,7 +310,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		return ctx.path.Last().Name == sel.key
 	}
 	if isArrayElement(ctx.path) {
-		if v := sel.intValue(ctx); v != nil {
+		if v := sel.intValue(ctx.parent()); v != nil {
 			if *v < 0 {
 				*v += ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
 			}
diff --git a/slice.go b/slice.go
index c171753..8639266 100644
--- a/slice.go
+++ b/slice.go
@@ -39,7 +39,7 @@ func (sel *indexSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
 	}
-	ivalue, err := sel.index.evaluate(ctx)
+	ivalue, err := sel.index.evaluate(ctx.parent())
 	if err != nil {
 		return false
 	}
@@ -115,7 +115,7 @@ func (sel *rangeSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
 	index := ctx.path.Last().Index
 	return index >= start && index < end
 }
@@ -206,7 +206,7 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	from, to, step, ok := getSlice(ctx, sel.start, sel.end, sel.step, n)
+	from, to, step, ok := getSlice(ctx.parent(), sel.start, sel.end, sel.step, n)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From b6cd3a9e7190b36c9c990aed618ccb535956a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 11/31] fix: $ in an expression is the document root

$ was matched against the current node by comparing nodes, which selected
nothing below the root and panicked for nodes that cannot be compared
(two objects, or two arrays).
---
 expression.go | 4 ++++
 path.go       | 5 +----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index 58efbdd..cfe7976 100644
--- a/expression.go
+++ b/expression.go
@@ -254,6 +254,10 @@ type pathExpression struct {
 }
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
+	if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+		// Path is relative to the document root, not the current node
+		ctx = &context{doc: ctx.doc, path: DocPath{P: ctx.path.P[:1]}}
+	}
 	result := make([]any, 0)
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
diff --git a/path.go b/path.go
index ab1891b..65b942e 100644
--- a/path.go
+++ b/path.go
@@ -219,10 +219,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 9d74579ac22f6799a39c6e45ddfa6cd8ec4ef0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 12/31] fix: existence test is false for paths that select
 nothing

$[?(@.a)] selected the elements without a member a as well.
---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index cfe7976..cf76e3d 100644
--- a/expression.go
+++ b/expression.go
@@ -105,6 +105,10 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
+	// A path that selects no nodes
+	if list, ok := c.value.([]any); ok {
+		return len(list) != 0
+	}
 	return c.value != nil
 }
 
-- 
2.43.0


From e36bd9a0a650532e76b812bffc68a9b469f6f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 13/31] fix: equality of an integer and a decimal does not
 truncate

1 == 1.5 was true (and 1.5 == 1 false).
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index cf76e3d..db7d4ef 100644
--- a/expression.go
+++ b/expression.go
@@ -188,7 +188,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
-- 
2.43.0


From 4d8d2745f3f98b0a674fab22e59613078c257ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 14/31] fix: === compares integer and decimal representations
 by value

JSON numbers are decoded as decimals and literals like 42 are integers,
so @.key===42 never matched a JSON document.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index db7d4ef..24f0a98 100644
--- a/expression.go
+++ b/expression.go
@@ -233,12 +233,18 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
 		}
+		if f, ok := rightValue.(float64); ok {
+			return exprValue{value: float64(i) == f}, nil
+		}
 		return exprValue{value: false}, nil
 	}
 	if i, ok := leftValue.(float64); ok {
 		if j, ok := rightValue.(float64); ok {
 			return exprValue{value: i == j}, nil
 		}
+		if j, ok := rightValue.(int); ok {
+			return exprValue{value: i == float64(j)}, nil
+		}
 	}
 	if l, ok := leftValue.(string); ok {
 		if r, ok := rightValue.(string); ok {
-- 
2.43.0


From d8d222d9c36121872743f90cf44511eb49418b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 15/31] fix: null equals null

@.key==null was false for a null member.
---
 expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expression.go b/expression.go
index 24f0a98..bebf788 100644
--- a/expression.go
+++ b/expression.go
@@ -183,6 +183,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	leftValue := left.getValue()
 	rightValue := right.getValue()
 
+	if leftValue == nil || rightValue == nil {
+		return exprValue{value: leftValue == nil && rightValue == nil}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
@@ -229,6 +232,10 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+
+	if leftValue == nil || rightValue == nil {
+		return exprValue{value: leftValue == nil && rightValue == nil}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From 86957f68be3f3c94b57aa0715c9f62101fc5f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 16/31] fix: false has the numeric value 0

true was 1 but false was not a number.
---
 expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index bebf788..5876713 100644
--- a/expression.go
+++ b/expression.go
@@ -50,8 +50,11 @@ func valueAsNumber(value any) any {
 		return f
 	}
 	b, ok := value.(bool)
-	if ok && b {
-		return 1
+	if ok {
+		if b {
+			return 1
+		}
+		return 0
 	}
 	s, ok := value.(string)
 	if ok {
-- 
2.43.0


From 9fb777f2e845bc1d242079b3709575e9c1356ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 17/31] fix: ordering does not depend on the side of the
 operands

An integer on the left truncated a decimal on the right (1<1.5 was false),
a string on the left compared with the text of any value on the right
("9">10 was true, and so was "9">@.missing), and booleans compared only
on the right. a<b and b>a now always agree.
---
 expression.go | 79 +++++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/expression.go b/expression.go
index 5876713..9b2fa52 100644
--- a/expression.go
+++ b/expression.go
@@ -1,6 +1,7 @@
 package gojsonpath
 
 import (
+	"cmp"
 	"fmt"
 	"math"
 	"strconv"
@@ -338,6 +339,15 @@ func (expr lorExpression) evaluate(ctx *context) (exprValue, error) {
 	return exprValue{value: v.asBool()}, nil
 }
 
+// Determines if value can be compared: null, boolean, number, or string
+func isScalar(value any) bool {
+	switch value.(type) {
+	case nil, bool, int, float64, string:
+		return true
+	}
+	return false
+}
+
 // returns comparison result (-1,0,1), whether or not comparison is valid, and error
 func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	l, err := left.evaluate(ctx)
@@ -351,6 +361,9 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	lvalue := l.getValue()
 	rvalue := r.getValue()
 
+	if !isScalar(lvalue) || !isScalar(rvalue) {
+		return 0, false, nil
+	}
 	if lvalue == nil && rvalue == nil {
 		return 0, true, nil
 	}
@@ -361,54 +374,34 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 		return 1, true, nil
 	}
 
-	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
-		if !ok {
-			return 0, false, nil
+	if l, ok := lvalue.(string); ok {
+		if r, ok := rvalue.(string); ok {
+			return cmp.Compare(l, r), true, nil
 		}
-		if i < j {
-			return -1, true, nil
-		}
-		if i > j {
-			return 1, true, nil
-		}
-		return 0, true, nil
 	}
 
-	if i, ok := lvalue.(float64); ok {
-		n := valueAsNumber(rvalue)
-		if n == nil {
-			return 0, false, nil
-		}
-		var j float64
-		if f, ok := n.(float64); ok {
-			j = f
-		} else if f, ok := n.(int); ok {
-			j = float64(f)
-		}
-		if i < j {
-			return -1, true, nil
-		}
-		if i > j {
-			return 1, true, nil
-		}
-		return 0, true, nil
+	// Compare as numbers, whichever side they are on
+	lnum := valueAsNumber(lvalue)
+	rnum := valueAsNumber(rvalue)
+	if lnum == nil || rnum == nil {
+		return 0, false, nil
 	}
-
-	if i, ok := lvalue.(string); ok {
-		j, ok := rvalue.(string)
-		if !ok {
-			j = fmt.Sprint(rvalue)
-		}
-		if i < j {
-			return -1, true, nil
-		}
-		if i > j {
-			return 1, true, nil
-		}
-		return 0, true, nil
+	lint, lok := lnum.(int)
+	rint, rok := rnum.(int)
+	if lok && rok {
+		return cmp.Compare(lint, rint), true, nil
+	}
+	lfloat, rfloat := float64(lint), float64(rint)
+	if !lok {
+		lfloat = lnum.(float64)
+	}
+	if !rok {
+		rfloat = rnum.(float64)
+	}
+	if math.IsNaN(lfloat) || math.IsNaN(rfloat) {
+		return 0, false, nil
 	}
-	return 0, false, nil
+	return cmp.Compare(lfloat, rfloat), true, nil
 }
 
 type relationalExpression struct {
-- 
2.43.0


From 1748fb8977ae0510d5578d776735941abf71bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 18/31] fix: unary minus negates the value of its operand

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 9b2fa52..d048623 100644
--- a/expression.go
+++ b/expression.go
@@ -133,7 +133,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From bb7efe97af5250638cdd774e2abf573dc721632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 19/31] fix: only value nodes are asked for their value

---
 expression.go | 9 +++++++--
 funcs.go      | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index d048623..7030d78 100644
--- a/expression.go
+++ b/expression.go
@@ -38,6 +38,9 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// Only value nodes have a value
+func (n nodeValue) isValue() bool { return n.doc.Type(n.node) == ValueNode }
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -68,7 +71,7 @@ func valueAsNumber(value any) any {
 			return f
 		}
 	}
-	if n, ok := value.(nodeValue); ok {
+	if n, ok := value.(nodeValue); ok && n.isValue() {
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -116,9 +119,11 @@ func (c exprValue) asBool() bool {
 	return c.value != nil
 }
 
+// Returns the value. If it is a node that is not a value node, returns
+// the nodeValue
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
-	if ok {
+	if ok && n.isValue() {
 		return n.doc.Value(n.node)
 	}
 	return c.value
diff --git a/funcs.go b/funcs.go
index 197c8b0..d84c883 100644
--- a/funcs.go
+++ b/funcs.go
@@ -11,5 +11,8 @@ func lengthFunc(in []any) (any, error) {
 	if x, ok := in[0].([]any); ok {
 		return len(x), nil
 	}
+	if n, ok := in[0].(nodeValue); ok && n.doc.Type(n.node) == ArrayNode {
+		return n.doc.Len(n.node), nil
+	}
 	return 0, nil
 }
-- 
2.43.0


From 7f2911acea03b459a9fa9ac90581b68c0e9b79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 20/31] fix: in compares the value with the members of its
 right operand

---
 expression.go | 57 +++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/expression.go b/expression.go
index 7030d78..e2b8f41 100644
--- a/expression.go
+++ b/expression.go
@@ -189,40 +189,43 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	leftValue := left.getValue()
-	rightValue := right.getValue()
+	return exprValue{value: valuesEqual(left.getValue(), right.getValue())}, nil
+}
 
+// Determines if two values are equal. Numbers are compared by value,
+// and values of different types are not equal
+func valuesEqual(leftValue, rightValue any) bool {
 	if leftValue == nil || rightValue == nil {
-		return exprValue{value: leftValue == nil && rightValue == nil}, nil
+		return leftValue == nil && rightValue == nil
 	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: float64(i) == f}, nil
+			return float64(i) == f
 		}
-		return exprValue{value: false}, nil
+		return false
 	}
 	if i, ok := leftValue.(float64); ok {
 		if j, ok := rightValue.(float64); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == float64(j)}, nil
+			return i == float64(j)
 		}
 	}
 	if l, ok := leftValue.(string); ok {
 		if r, ok := rightValue.(string); ok {
-			return exprValue{value: l == r}, nil
+			return l == r
 		}
 	}
 	if b, ok := leftValue.(bool); ok {
 		if r, ok := rightValue.(bool); ok {
-			return exprValue{value: b == r}, nil
+			return b == r
 		}
 	}
-	return exprValue{value: false}, nil
+	return false
 }
 
 type equality3Expression struct {
@@ -667,21 +670,25 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	if r.value == nil {
-		return exprValue{}, err
-	}
-	arr, ok := r.value.([]any)
-	if !ok {
-		arr = []any{r.value}
-	}
-	for _, x := range arr {
-		var v any
-		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
-		} else {
-			v = x
+	value := l.getValue()
+	var members []any
+	switch r := r.getValue().(type) {
+	case nil:
+	case []any:
+		members = r
+	case nodeValue:
+		if r.doc.Type(r.node) != ArrayNode {
+			members = []any{r}
+			break
 		}
-		if l == v {
+		for i := 0; i < r.doc.Len(r.node); i++ {
+			members = append(members, nodeValue{node: r.doc.Elem(r.node, i), doc: r.doc})
+		}
+	default:
+		members = []any{r}
+	}
+	for _, x := range members {
+		if valuesEqual(value, exprValue{value: x}.getValue()) {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From fc80fcdd4b4a17a8e32b08c1d9ede52ee20973bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 21/31] fix: Parse reports syntax errors

---
 parser.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index 2f03267..23e6b84 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,17 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
-	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	if input == "/" {
+		return Append(SelectRootPath), nil
 	}
+	errListener := errorListener{}
+	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		ctx := pr.SimplePath().(*parser.SimplePathContext)
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(ctx.SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,18 +80,23 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string. The
+// lexer and the parser report syntax errors to the listener
+func getParser(input string, errListener *errorListener) *parser.JsonpathParser {
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
 	p.BuildParseTrees = true
 	return p
 }
-- 
2.43.0


From 74b3f05f68aa32d01399b086b06a879efb5226af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 22/31] fix: filters accept steps after a recursive descent

---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index e2b8f41..e407a98 100644
--- a/expression.go
+++ b/expression.go
@@ -1107,6 +1107,10 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext, *parser.RecursiveDescentTermExpressionContext:
+				if e := parse(c.(parser.IExpressionContext)); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From d2a3b36057fa8079ccd4ffd06689b8b699c47dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 23/31] fix: literals in simple paths select the member they
 spell

---
 simplepath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..268e5cb 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -18,9 +18,11 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 			path.recursive = []bool{false}
 			return
 		}
+		// The text is the member name, the value is the array index
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From 0d3178c2c2c37b5670d3b7b409a45a2776e6a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 24/31] fix: escape sequences in string literals

---
 expression.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/expression.go b/expression.go
index e407a98..f588d5a 100644
--- a/expression.go
+++ b/expression.go
@@ -1156,14 +1156,19 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	return int(v)
 }
 
+// Escape sequences that are not the escaped character itself
 var singleEscapeRunes = map[rune]rune{
-	'\'': '\'',
-	'"':  '"',
-	'b':  '\b',
-	'f':  '\f',
-	'n':  '\n',
-	'r':  '\r',
-	'v':  '\v',
+	'0': 0,
+	'b': '\b',
+	'f': '\f',
+	'n': '\n',
+	'r': '\r',
+	't': '\t',
+	'v': '\v',
+}
+
+func isLineBreak(r rune) bool {
+	return r == '\r' || r == '\n' || r == '\u2028' || r == '\u2029'
 }
 
 func unescapeString(in string) string {
@@ -1171,15 +1176,20 @@ func unescapeString(in string) string {
 	esc := false
 	hex := false
 	uni := false
+	cont := false
 	var buf []rune
 	for _, r := range in[1 : len(in)-1] {
+		if cont && isLineBreak(r) {
+			continue
+		}
+		cont = false
 		if esc {
 			if hex {
 				buf = append(buf, r)
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
@@ -1192,8 +1202,6 @@ func unescapeString(in string) string {
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
@@ -1211,6 +1219,10 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if isLineBreak(r) {
+					cont = true
+				} else {
+					out = append(out, r)
 				}
 				esc = false
 			}
-- 
2.43.0


From 6b3578fb224a13b359a8d36fe6a5e0c49151c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 25/31] fix: values of numeric literals

---
 expression.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/expression.go b/expression.go
index f588d5a..8b24af4 100644
--- a/expression.go
+++ b/expression.go
@@ -4,6 +4,7 @@ import (
 	"cmp"
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -86,7 +87,18 @@ func valueAsInt(value any) (int, bool) {
 	if i, ok := v.(int); ok {
 		return i, true
 	}
-	return int(v.(float64)), true
+	f := v.(float64)
+	if math.IsNaN(f) {
+		return 0, false
+	}
+	// Limit to the range of int
+	if f >= math.MaxInt {
+		return math.MaxInt, true
+	}
+	if f <= math.MinInt {
+		return math.MinInt, true
+	}
+	return int(f), true
 }
 
 func (c exprValue) String() string {
@@ -1133,27 +1145,32 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.ReplaceAll(lit.GetText(), "_", "")
+		if strings.ContainsAny(number, "eE.") {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
-		v, _ := strconv.ParseInt(number, 10, 64)
-		return int(v)
+		return integerLiteral(number, 10)
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
-		return int(v)
+		return integerLiteral(lit.GetText()[2:], 16)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
-		return int(v)
+		return integerLiteral(lit.GetText()[2:], 8)
+	}
+	return integerLiteral(ctx.BinaryIntegerLiteral().GetText()[2:], 2)
+}
+
+// Returns an int, or a float64 if the number is too large
+func integerLiteral(digits string, base int) any {
+	v, _ := new(big.Int).SetString(strings.ReplaceAll(digits, "_", ""), base)
+	if v.IsInt64() {
+		return int(v.Int64())
 	}
-	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-	v, _ := strconv.ParseInt(strings.Replace(lit, "_", "", -1), 2, 64)
-	return int(v)
+	f, _ := new(big.Float).SetInt(v).Float64()
+	return f
 }
 
 // Escape sequences that are not the escaped character itself
-- 
2.43.0


From e6dc223360f6786859ba15666b9a006bd0762f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 26/31] fix: MakeKeyString quotes every string that is not a
 plain name

---
 escape.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..223acdb 100644
--- a/escape.go
+++ b/escape.go
@@ -2,23 +2,22 @@ package gojsonpath
 
 import (
 	"strings"
-	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+// Escape sequences for the characters that cannot appear as is in a
+// quoted string
+var keyEscapes = strings.NewReplacer(`\`, `\\`, "\n", `\n`, "\r", `\r`)
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
-	// quote
-	bad := false
+	// quote. "in" is an operator.
+	bad := len(input) == 0 || input == "in"
 	for i, r := range input {
-		if i == 0 && unicode.IsDigit(r) {
-			bad = true
-			break
-		}
-		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
+		isDigit := r >= '0' && r <= '9'
+		isLetter := (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || r == '_'
+		if (i == 0 && isDigit) || (!isDigit && !isLetter) {
 			bad = true
 			break
 		}
@@ -27,20 +26,11 @@ func MakeKeyString(input string) string {
 		return input
 	}
 
+	input = keyEscapes.Replace(input)
 	// Does it have double-quote?
 	if strings.IndexRune(input, '"') != -1 {
 		if strings.IndexRune(input, '\'') != -1 {
-			out := make([]rune, 0, len(input)+2)
-			out = append(out, '"')
-			for _, r := range input {
-				if r == '"' {
-					out = append(out, '\\', '"')
-				} else {
-					out = append(out, r)
-				}
-			}
-			out = append(out, '"')
-			return string(out)
+			return `"` + strings.ReplaceAll(input, `"`, `\"`) + `"`
 		}
 		return "'" + input + "'"
 	}
-- 
2.43.0


From 13e5d9803c1fd88dd690e9b5249357c614d1dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 27/31] fix: index selector paths select the members they spell

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 65b942e..dc9e2bc 100644
--- a/path.go
+++ b/path.go
@@ -64,7 +64,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&keySelector{key: strconv.Itoa(index), expr: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
-- 
2.43.0


From 7a79303ee7b1e222518a0885ed79b14f7176eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 28/31] fix: RecursiveDescent of the empty path does not panic

---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index dc9e2bc..c7d9935 100644
--- a/path.go
+++ b/path.go
@@ -49,7 +49,9 @@ func RecursiveDescent(p Path) Path {
 		recursive: make([]bool, len(p.recursive)),
 	}
 	copy(ret.recursive, p.recursive)
-	ret.recursive[len(ret.recursive)-1] = true
+	if len(ret.recursive) > 0 {
+		ret.recursive[len(ret.recursive)-1] = true
+	}
 	return ret
 }
 
-- 
2.43.0


From 5b35c5f768e1815c6a4a4b3cee0cf321b1ebe2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 29/31] fix: signed array positions denote their value

---
 expression.go | 12 +++++++++++-
 parser.go     | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index 8b24af4..1aa9c70 100644
--- a/expression.go
+++ b/expression.go
@@ -787,7 +787,17 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		switch expr := ctx.(type) {
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
-		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext, *parser.AdditiveExpressionContext:
+		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext:
+			// A signed integer
+			if v, err := astExpression(expr, false); err == nil {
+				if constant, ok := v.(exprValue); ok {
+					if _, ok := constant.value.(int); ok {
+						return constant, nil
+					}
+				}
+			}
+			return exprValue{value: expr.GetText()}, nil
+		case *parser.AdditiveExpressionContext:
 			return exprValue{value: expr.GetText()}, nil
 		case *parser.FilterExpressionContext:
 			x, err := astExpression(expr.Expression(), false)
diff --git a/parser.go b/parser.go
index 23e6b84..ac6ad93 100644
--- a/parser.go
+++ b/parser.go
@@ -208,7 +208,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key:  expr.GetText(),
+				key:  keyText(expr),
 				expr: e,
 			},
 		}
@@ -318,7 +318,19 @@ func astBracketedExpressionSelector(ctx parser.IExpressionContext) (selector, er
 	if err != nil {
 		return nil, err
 	}
-	return &keySelector{key: ctx.GetText(), expr: expr}, nil
+	return &keySelector{key: keyText(ctx), expr: expr}, nil
+}
+
+// Returns the text of a path component. White space after a sign is
+// not part of it
+func keyText(ctx parser.IExpressionContext) string {
+	switch expr := ctx.(type) {
+	case *parser.UnaryPlusExpressionContext:
+		return "+" + keyText(expr.Expression())
+	case *parser.UnaryMinusExpressionContext:
+		return "-" + keyText(expr.Expression())
+	}
+	return ctx.GetText()
 }
 
 func astSlice(ctx *parser.SliceContext) (selector, error) {
-- 
2.43.0


From 43d210740f27a8665d9741d30508120f0c106dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 30/31] fix: braced unicode escapes

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 1aa9c70..b388cc7 100644
--- a/expression.go
+++ b/expression.go
@@ -1224,7 +1224,7 @@ func unescapeString(in string) string {
 				buf = append(buf, r)
 				if len(buf) > 1 && buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
-- 
2.43.0


From 1089cf01235bf1f5ec1e88e759e5183c220046da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 31/31] fix: unary plus gives the numeric value of its operand

---
 expression.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index b388cc7..b60bcbc 100644
--- a/expression.go
+++ b/expression.go
@@ -141,6 +141,18 @@ func (c exprValue) getValue() any {
 	return c.value
 }
 
+type unaryPlusExpression struct {
+	expr expression
+}
+
+func (u unaryPlusExpression) evaluate(ctx *context) (exprValue, error) {
+	c, err := u.expr.evaluate(ctx)
+	if err != nil {
+		return exprValue{}, err
+	}
+	return exprValue{value: valueAsNumber(c.value)}, nil
+}
+
 type unaryMinusExpression struct {
 	expr expression
 }
@@ -816,7 +828,16 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
 		case *parser.UnaryPlusExpressionContext:
-			return astExpression(expr.Expression(), inPath)
+			v, err := astExpression(expr.Expression(), inPath)
+			if err != nil {
+				return nil, err
+			}
+			if constant, ok := v.(exprValue); ok {
+				return exprValue{value: valueAsNumber(constant.value)}, nil
+			}
+			return unaryPlusExpression{
+				expr: v,
+			}, nil
 		case *parser.UnaryMinusExpressionContext:
 			v, err := astExpression(expr.Expression(), inPath)
 			if err != nil {
-- 
2.43.0

