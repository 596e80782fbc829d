From 2c5037ef77a5be30c96541d3986d445d9f628083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 01/43] fix: end a string literal at its real closing quote
 after an escaped backslash

---
 extractor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..fbfc446 100755
--- a/extractor.go
+++ b/extractor.go
@@ -66,7 +66,7 @@ var (
 		IncludeClose:      true,
 		SeparatorCharset:  nil,
 		ReturnKeyword:     "\"",
-		SkipReturnKeyword: "\\\"",
+		SkipReturnKeyword: "\\",
 	}
 
 	_multilineStringExtractor = &extractor{
@@ -190,9 +190,14 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		trailing := text[:*i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
-			// skip return
+			// escape: skip return of the next char
 			buf.WriteByte(char)
 			lineStep()
+			if *i+1 < len(text) {
+				*i++
+				buf.WriteByte(text[*i])
+				lineStep()
+			}
 			continue
 		}
 
-- 
2.43.0


From 37675ab7ff79e1c8f47f13fc0839d732cffa7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 02/43] fix: keep a rune literal in one node, so that quotes
 and brackets in it open nothing

---
 extractor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extractor.go b/extractor.go
index fbfc446..a130fb4 100755
--- a/extractor.go
+++ b/extractor.go
@@ -78,6 +78,15 @@ var (
 		SkipReturnKeyword: "",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\",
+	}
+
 	_deeperExtractTable = map[*extractor]deeperExtract{
 		_commonExtractor:       _commonDeeperExtract,
 		_parenthesisExtractor:  _commonDeeperExtract,
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
-- 
2.43.0


From 3b9030692e74004aea5fa85bf3af804a7b26f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 03/43] fix: give an opening bracket the line it is on

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index a130fb4..29b0d23 100755
--- a/extractor.go
+++ b/extractor.go
@@ -187,7 +187,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From f796c466b6a39be50e5eca7803120fc5b4600749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 04/43] fix: don't close a block comment with the star that
 opens it

---
 extractor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extractor.go b/extractor.go
index 29b0d23..03afd1b 100755
--- a/extractor.go
+++ b/extractor.go
@@ -215,6 +215,10 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			// inside ) } */ " ` \n
 			if e.IncludeClose { // */ " `
 				buf.WriteByte(char)
+				if buf.String() == "/*/" {
+					// the '*' opens the comment, so it can't close it too
+					continue
+				}
 				pushNode(false, e.Kind()...)
 			} else {
 				pushNode(true, e.Kind()...)
-- 
2.43.0


From 36bc76451ba5b0c0e8d1eac19a870325ab5d2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 05/43] fix: give a comment that ends the text without a
 newline its kind

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 03afd1b..529557e 100755
--- a/extractor.go
+++ b/extractor.go
@@ -238,7 +238,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	pushNode(true, e.Kind()...)
 	return head, nil
 }
 
-- 
2.43.0


From 06ddf88de41921bb97fe8d5882239c7c02f462d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 06/43] fix: lose and double no text when the nodes of a type
 are combined

---
 kind_resetter_all.go  | 56 ++++++++++++++++++++++++++++++++++++++-----
 kind_resetter_func.go |  7 +-----
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..01fe1de 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,55 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineSpan combines the nodes from the first of given nodes to the farthest one of them,
+// without losing or doubling what lies between them. Comments stay nodes of their own.
+func combineSpan(k kind.Kind, nodes []*Node) {
+	if len(nodes) == 0 {
+		return
+	}
+
+	var (
+		span = []*Node{}
+		last = 0
+		rest = charset.New(nodes...)
+	)
+
+	nodes[0].IterNext(func(n *Node) bool {
+		span = append(span, n)
+		if rest.Contain(n) {
+			last = len(span)
+			delete(rest, n)
+		}
+
+		return len(rest) != 0
+	})
+
+	run := []*Node{}
+	combineRun := func() {
+		if len(run) != 0 {
+			next := run[len(run)-1].Next()
+			run[0].CombineNext(k, run[1:]...)
+			run[0].ReplaceNext(next)
+			run = run[:0]
+		}
+	}
+
+	for _, n := range span[:last] {
+		switch n.Kind() {
+		case kind.Comment:
+			combineRun()
+		case kind.Space, kind.Tab, kind.NewLine:
+			if len(run) != 0 {
+				run = append(run, n)
+			}
+		default:
+			run = append(run, n)
+		}
+	}
+
+	combineRun()
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -129,12 +178,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	returnKindSet := charset.New(r.returnKinds...)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineSpan(r.resetKind, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..54432f6 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -249,12 +249,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineSpan(kind.ParamType, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
-- 
2.43.0


From aa29f9ca940723df0379a3bcbed0cab9f4f92237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 07/43] fix: don't take an identifier that begins with a
 keyword for a declaration

---
 scope.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scope.go b/scope.go
index 4e10c51..177697d 100755
--- a/scope.go
+++ b/scope.go
@@ -180,6 +180,11 @@ func isScopeKind(s string, k scope.Kind) bool {
 		return false
 	}
 
+	// a keyword has to match the whole text, a comment only its opening
+	if k != scope.Comment && k != scope.InnerComment && len(s) != len(ks) {
+		return false
+	}
+
 	return s[:len(ks)] == ks
 }
 
-- 
2.43.0


From 506ebf01c9ad3139712b61685e99cf43aa3ea9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 08/43] fix: take nothing inside of brackets for a first level
 declaration

---
 scope.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scope.go b/scope.go
index 177697d..ab6ca98 100755
--- a/scope.go
+++ b/scope.go
@@ -72,6 +72,7 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	head := node
 	k := scope.Unknown
 	line := startLine - 1
+	depth := 0 // of open brackets: nothing inside of them is first level
 
 	tryAppendScope := func() {
 		if k != scope.Unknown {
@@ -89,11 +90,23 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	}
 
 	_ = node.IterNext(func(n *Node) bool {
+		level := depth
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+		}
+
 		if n.Line() == line {
 			return true
 		}
 
 		line = n.Line()
+		if level > 0 {
+			return true
+		}
+
 		nk := newScopeKind(n.Text())
 		if nk == scope.Unknown {
 			return true
-- 
2.43.0


From 72302e1200eb854addd606c689e9efe2acc1d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 09/43] fix: find the declaration that follows an inner comment
 on its line

---
 scope.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scope.go b/scope.go
index ab6ca98..78fc30d 100755
--- a/scope.go
+++ b/scope.go
@@ -72,7 +72,8 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	head := node
 	k := scope.Unknown
 	line := startLine - 1
-	depth := 0 // of open brackets: nothing inside of them is first level
+	depth := 0         // of open brackets: nothing inside of them is first level
+	isLeading := false // only inner comments so far on this line
 
 	tryAppendScope := func() {
 		if k != scope.Unknown {
@@ -98,16 +99,23 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 			depth--
 		}
 
-		if n.Line() == line {
+		if isLeading && n.Kind() == kind.Space {
+			line = n.Line()
+			return true
+		}
+
+		if n.Line() == line && !isLeading {
 			return true
 		}
 
 		line = n.Line()
+		isLeading = false
 		if level > 0 {
 			return true
 		}
 
 		nk := newScopeKind(n.Text())
+		isLeading = nk == scope.InnerComment
 		if nk == scope.Unknown {
 			return true
 		}
-- 
2.43.0


From 357c92d4328f2ee453320e973a7cabb1b46b0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 10/43] fix: count lines from the start line given to
 ParseScope

---
 scope.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scope.go b/scope.go
index 78fc30d..8b1ab6e 100755
--- a/scope.go
+++ b/scope.go
@@ -66,6 +66,11 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 		return nil, err
 	}
 
+	node.IterNext(func(n *Node) bool {
+		n.line += startLine
+		return true
+	})
+
 	scs := []Scope{}
 	nodesToResetKind := []*Node{}
 
-- 
2.43.0


From 067d1a49c5260460de4ee8f07b6123f447b101c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 11/43] fix: find declared names that are blank or a basic
 type's name

---
 kind_resetter_all.go  | 10 ++++++++++
 kind_resetter_func.go |  9 ++++++++-
 kind_resetter_type.go |  6 +++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 01fe1de..f481c32 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,16 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// isName reports whether the node may be a declared name.
+func isName(n *Node) bool {
+	switch n.Kind() {
+	case kind.Raw, kind.Basic:
+		return true
+	default:
+		return n.Text() == "_"
+	}
+}
+
 // combineSpan combines the nodes from the first of given nodes to the farthest one of them,
 // without losing or doubling what lies between them. Comments stay nodes of their own.
 func combineSpan(k kind.Kind, nodes []*Node) {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 54432f6..7e3dcde 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -85,7 +85,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		// determine func or method
 		if !foundFuncOrMethod {
 			switch n.Kind() {
-			case kind.Raw:
+			case kind.Raw, kind.Basic, kind.Symbol:
 				foundFuncOrMethod = true
 			case kind.ParenthesisLeft:
 				foundFuncOrMethod = true
@@ -157,6 +157,13 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return !isFuncParamHandled
 		}
 
+		// a declared name may be a basic type name or blank as well
+		if r.isFuncKeywordLeading && !isFuncNameAssigned && isName(n) {
+			n.SetKind(kind.FuncName)
+			isFuncNameAssigned = true
+			return true
+		}
+
 		switch n.Kind() {
 		case kind.Comment:
 			return true
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c703357..0cf3b6f 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -40,10 +40,10 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		}
 
 		if !isTypeNameAssigned {
-			switch n.Kind() {
-			case kind.CurlyBracketRight, kind.NewLine: // return kind
+			switch {
+			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
 				return false
-			case kind.Raw:
+			case isName(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
 				return true
-- 
2.43.0


From 60fb00e66c50aedaad836494a10f31049bad7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 12/43] fix: don't take the result type of a function type for
 a function name

---
 kind_resetter_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 7e3dcde..0a35b80 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -168,6 +168,10 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 		case kind.Comment:
 			return true
 		case kind.Raw:
+			if !isFuncNameAssigned && isFuncParamHandled {
+				n.SetKind(kind.ParamType) // result of a function type
+				return true
+			}
 			if !isFuncNameAssigned {
 				n.SetKind(kind.FuncName)
 				isFuncNameAssigned = true
-- 
2.43.0


From 8eb96775d957bcfd788bee4bf6bfd8aee7838ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 13/43] fix: tell names from types by whether the parameter
 list declares names

---
 kind_resetter_parenthesis.go | 100 +++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7b19243..5deb51c 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"go/token"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -27,6 +29,8 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	var (
 		skipAll bool
 		jumpTo  *Node
+
+		isNamed = r.isNamedList(head)
 	)
 
 	return head.IterNext(func(n *Node) bool {
@@ -48,15 +52,60 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
-			jumpTo = r.handleParenthesisParam(n, r.isReceiver, hooks...)
+			jumpTo = r.handleParenthesisParam(n, isNamed, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
+// isNamedList reports whether the list that starts with '(' declares names, as in (a, b int, c string).
+func (r parenthesisResetter) isNamedList(head *Node) bool {
+	var (
+		depth    int
+		isFirst  bool // no node of the parameter appeared yet
+		isSpaced bool // something separates the node from the last one
+		isName   bool // the parameter starts with an identifier
+		isNamed  bool
+	)
+
+	head.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			isSpaced = true
+			return true
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+			return depth > 0
+		}
+
+		if depth <= 1 {
+			switch {
+			case n == head, n.Kind() == kind.Comma:
+				isFirst = true
+			case isFirst:
+				isFirst = false
+				isName = token.IsIdentifier(n.Text())
+			default:
+				isNamed = isName && isSpaced
+				isName = false
+			}
+		}
+
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		}
+
+		isSpaced = false
+		return !isNamed
+	})
+
+	return isNamed
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
-func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool, hooks ...func(*Node)) *Node {
+func (r parenthesisResetter) handleParenthesisParam(head *Node, isNamed bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("parenthesisResetter.handleParenthesisParam.Returned")
 
@@ -69,24 +118,11 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 
 	nameKind := kind.ParamName
 	typeKind := kind.ParamType
-	if isReceiver {
+	if r.isReceiver {
 		nameKind = kind.MethodReceiverName
 		typeKind = kind.MethodReceiverType
 	}
 
-	validParamCount := 0
-	head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight:
-			return false
-		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
-			return true
-		default:
-			validParamCount++
-			return true
-		}
-	})
-
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -100,6 +136,18 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			jumpTo = nil
 		}
 
+		if isNamed && !named {
+			switch {
+			case n.Kind() == kind.MethodReceiverName:
+				named = true
+				return true
+			case isName(n), n.Kind() == kind.ParamType /* for struct resetter */, n.Kind() == kind.ParamName /* for struct resetter */ :
+				n.SetKind(nameKind)
+				named = true
+				return true
+			}
+		}
+
 		switch n.Kind() {
 		case kind.Comma, kind.ParenthesisRight: // return kind
 			return false
@@ -107,23 +155,21 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.ParenthesisLeft: // results of a function type
+			jumpTo = parenthesisResetter{}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
+		case kind.CurlyBracketLeft: // body of an interface or struct type
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
-			if validParamCount == 1 {
-				n.SetKind(typeKind)
-				return true
-			}
-
-			if !named {
-				n.SetKind(nameKind)
-				named = true
-				return true
-			}
 			n.SetKind(typeKind)
 			return true
 		default:
-- 
2.43.0


From 41801f1214b3d11ce45a3d5d632ba54cf303e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 14/43] fix: return no text for a name that isn't found

---
 scope.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scope.go b/scope.go
index 8b1ab6e..3c4f78c 100755
--- a/scope.go
+++ b/scope.go
@@ -249,7 +249,9 @@ func (d *scopeStruct) GetTypeName() (string, bool) {
 
 	d.Node().IterNext(func(n *Node) bool {
 		found = n.Kind() == kind.TypeName
-		name = n.Text()
+		if found {
+			name = n.Text()
+		}
 		return !found
 	})
 
@@ -306,7 +308,9 @@ func (d *scopeStruct) GetMethodName() (string, bool) {
 
 	d.Node().IterNext(func(n *Node) bool {
 		found = n.Kind() == kind.FuncName
-		name = n.Text()
+		if found {
+			name = n.Text()
+		}
 		return !found
 	})
 
@@ -325,7 +329,9 @@ func (d *scopeStruct) GetMethodReceiver() (string, bool) {
 
 	d.Node().IterNext(func(n *Node) bool {
 		found = n.Kind() == kind.MethodReceiverType
-		name = n.Text()
+		if found {
+			name = n.Text()
+		}
 		return !found
 	})
 
-- 
2.43.0


From bf50bb5ecec872389ff8f4735a0829a4048d81fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 15/43] fix: take a type for a struct or interface only if the
 declared type itself is one

---
 scope.go | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/scope.go b/scope.go
index 3c4f78c..82559fb 100755
--- a/scope.go
+++ b/scope.go
@@ -263,16 +263,7 @@ func (d *scopeStruct) GetStructName() (string, bool) {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
-	typeName, _ := d.GetTypeName()
-
-	return typeName, isStruct
+	return d.getTypeNameOf(kind.Struct)
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -280,16 +271,45 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
+	return d.getTypeNameOf(kind.Interface)
+}
 
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
+// getTypeNameOf returns the type name if the declared type itself is of the given kind,
+// no matter which kinds its type parameters and its elements are of.
+func (d *scopeStruct) getTypeNameOf(k kind.Kind) (string, bool) {
+	var (
+		depth    int
+		isNamed  bool
+		isSpaced bool
+	)
+
+	declared := d.Node().IterNext(func(n *Node) bool {
+		if !isNamed {
+			isNamed = n.Kind() == kind.TypeName
+			return true
+		}
+
+		switch {
+		case n.Kind() == kind.Space, n.Kind() == kind.Tab, n.Kind() == kind.NewLine:
+			isSpaced = isSpaced || depth == 0
+		case n.Kind() == kind.Comment, n.Text() == "=":
+			// lies between the name and the declared type
+		case n.Kind() == kind.SquareBracketLeft && !isSpaced:
+			depth++ // of type parameters
+		case n.Kind() == kind.SquareBracketRight && !isSpaced:
+			depth--
+		default:
+			return depth != 0
+		}
+
+		return true
 	})
 
-	typeName, _ := d.GetTypeName()
+	if declared.Kind() != k {
+		return "", false
+	}
 
-	return typeName, isInterface
+	return d.GetTypeName()
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From e0f83c2294691bf9e00f60e5a22f0075620e91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 16/43] fix: compare every byte of a prefix, not only the first
 of each rune

---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..3ec729d 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := range len(prefix) {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From 11a848b001ededda43784ecf9253dbd49f6ada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 17/43] fix: keep the values of a trie's other texts when a
 text is added

---
 trie.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trie.go b/trie.go
index 50be38f..3cfecf5 100755
--- a/trie.go
+++ b/trie.go
@@ -21,10 +21,14 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 		return nil
 	}
 
-	var zero T
 	n := t
-	for i := range s {
-		n = n.Insert(s[i], zero)
+	for i := range len(s) {
+		next, ok := n.Next(s[i])
+		if !ok {
+			var zero T
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
@@ -55,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := range len(s) {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 256864c63c9978fce42da2d02be312dee6e35742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 18/43] fix: give the combined node its kind when nodes are
 combined into nil

---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index dee965b..5f47705 100755
--- a/node.go
+++ b/node.go
@@ -280,17 +280,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -315,17 +315,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 1f512ffc0bbbf6ad2bd9d2144fd0ad1ee5939b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 19/43] fix: keep the scopes of an ast apart from the slice
 they were given in

---
 ast.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 586f659..a278a13 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -138,7 +139,7 @@ func NewAst(scope ...Scope) (Ast, error) {
 	}
 
 	return &ast{
-		scope: scope,
+		scope: slices.Clone(scope),
 	}, nil
 }
 
@@ -200,7 +201,7 @@ func (f *ast) SetScope(scope []Scope) Ast {
 		dir:   f.dir,
 		name:  f.name,
 		ext:   f.ext,
-		scope: scope,
+		scope: slices.Clone(scope),
 	}
 }
 
-- 
2.43.0


From 3756bc2f669ec045bf086a3f472020baaa779917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 20/43] fix: keep what is appended to the scopes of an ast out
 of the ast

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index a278a13..7df2aeb 100755
--- a/ast.go
+++ b/ast.go
@@ -184,7 +184,7 @@ func (f *ast) Scope() []Scope {
 		return nil
 	}
 
-	return f.scope
+	return slices.Clip(f.scope) // so that appending to it doesn't reach the ast
 }
 
 func (f *ast) IterScope(fn func(Scope) bool) {
-- 
2.43.0


From 9ce63672ea8e083b9bce36683012473de22c27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 21/43] fix: don't ask an array whether it is nil, but ask a
 func

---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index f5edca9..9901285 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -156,7 +156,7 @@ func (Assert) isNil(i any) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.Slice, reflect.UnsafePointer:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 51a80b293a51232bd1cbbaef26d419ad11831462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 22/43] fix: find names that consist of underscores, and a
 package named like a basic type

---
 ast.go               | 2 +-
 kind_resetter_all.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 7df2aeb..3a2093d 100755
--- a/ast.go
+++ b/ast.go
@@ -110,7 +110,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && isName(n) {
 			return false
 		}
 
diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index f481c32..9a8f9fd 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"go/token"
+
 	"github.com/yanun0323/goast/charset"
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
@@ -111,7 +113,7 @@ func isName(n *Node) bool {
 	case kind.Raw, kind.Basic:
 		return true
 	default:
-		return n.Text() == "_"
+		return n.Kind() == kind.Symbol && token.IsIdentifier(n.Text()) // underscores only
 	}
 }
 
-- 
2.43.0


From c15d0f46eff32aae8f2d69c6c94d05a399db3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 23/43] fix: count the newlines of the first text of NewNodes
 too

---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 5f47705..7b74a93 100755
--- a/node.go
+++ b/node.go
@@ -31,10 +31,10 @@ func NewNodes(startLine int, texts ...string) *Node {
 
 	head := NewNode(startLine, texts[0])
 	cur := head
-	for _, text := range texts[1:] {
+	for i, text := range texts[1:] {
+		startLine += strings.Count(texts[i], "\n") // of the text before
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-		startLine += strings.Count(text, "\n")
 	}
 
 	return head
-- 
2.43.0


From 11f55396060ec93b32abb20857635f31589905b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 24/43] fix: describe a scope with its own line, not with the
 next one

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 82559fb..3bef31a 100755
--- a/scope.go
+++ b/scope.go
@@ -172,7 +172,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From 4c30f4e80e7833512f1e8bc12697baeccbdd0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 25/43] fix: tell embedded fields from named ones, and find
 names that are blank or a basic type's

---
 kind_resetter_type.go | 74 ++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 0cf3b6f..a80e81a 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"go/token"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -239,18 +241,18 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			jumpTo = nil
 		}
 
+		if paramNameCount != 0 && isName(n) {
+			paramNameCount--
+			n.SetKind(kind.ParamName)
+			return true
+		}
+
 		switch n.Kind() {
 		case kind.NewLine: // return kind
 			return false
 		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
 			return true
 		case kind.Raw:
-			if paramNameCount != 0 {
-				paramNameCount--
-				n.SetKind(kind.ParamName)
-				return true
-			}
-
 			n.SetKind(kind.ParamType)
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
@@ -271,50 +273,50 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 	})
 }
 
+// getRowNameCount returns how many names the row declares, an embedded field declares none.
 func (r structResetter) getRowNameCount(head *Node) int {
 	var (
-		rawCount           int
-		hasComma           bool
-		hasSpaceOrAfterRaw bool
-		cacheNameCount     int
-		nameCount          int
+		count      int
+		isAfter    bool // after an identifier
+		isSpaced   bool // something separates the node from the last one
+		isDeclared bool // a type follows the identifiers
 	)
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			if hasSpaceOrAfterRaw {
-				nameCount = cacheNameCount
-			}
-			return false
-		case kind.Comment, kind.Tab:
+		case kind.Comment, kind.Tab, kind.Space:
+			isSpaced = true
 			return true
-		case kind.Raw:
-			rawCount++
+		}
+
+		switch {
+		case count != 0 && !isAfter && n.Kind() == kind.NewLine: // after a comma
 			return true
-		case kind.Space:
-			if rawCount != 0 {
-				if !hasComma && cacheNameCount == 0 {
-					cacheNameCount++
-				}
-				hasSpaceOrAfterRaw = true
+		case !isAfter:
+			if !token.IsIdentifier(n.Text()) {
+				return false
 			}
+			isAfter = true
+			isSpaced = false
+			count++
 			return true
-		case kind.Comma:
-			if cacheNameCount == 0 {
-				cacheNameCount++
-			}
-			hasComma = true
-			cacheNameCount++
-			nameCount = cacheNameCount
+		case n.Kind() == kind.Comma:
+			isAfter = false
 			return true
+		case n.Kind() == kind.NewLine, n.Kind() == kind.Semicolon,
+			n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.String: // no type
+			return false
+		case n.Kind() == kind.SquareBracketLeft && !isSpaced: // type arguments
+			return false
 		default:
-			if hasSpaceOrAfterRaw {
-				nameCount = cacheNameCount
-			}
+			isDeclared = true
 			return false
 		}
 	})
 
-	return nameCount
+	if !isDeclared {
+		return 0
+	}
+
+	return count
 }
-- 
2.43.0


From 1d2dd497e2d9113428318f4ddb7a6146a336a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 26/43] fix: find methods of an interface that are blank or
 named like a basic type

---
 kind_resetter_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 0a35b80..62550a6 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -158,7 +158,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 		}
 
 		// a declared name may be a basic type name or blank as well
-		if r.isFuncKeywordLeading && !isFuncNameAssigned && isName(n) {
+		if (r.isFuncKeywordLeading || r.isInterfaceDefinition) && !isFuncNameAssigned && isName(n) {
 			n.SetKind(kind.FuncName)
 			isFuncNameAssigned = true
 			return true
-- 
2.43.0


From 46bdb6ffd6b203002191c0c1c37a97473462079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 27/43] fix: find the end of an interface's line and its
 methods despite brackets in type elements

---
 kind_resetter_type.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index a80e81a..1b82d1d 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -141,31 +141,39 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
-				IsOutsideParenthesis:   true,
-				IsOutsideCurlyBracket:  true,
-				IsOutsideSquareBracket: true,
-			}, hooks...)
+			jumpTo = r.endOfLine(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
-func (interfaceResetter) isThisLineFunction(head *Node) bool {
-	result := false
-	_ = head.IterNext(func(n *Node) bool {
+// endOfLine returns the end of the line or of the interface, whichever comes first.
+func (interfaceResetter) endOfLine(head *Node, hooks ...func(*Node)) *Node {
+	depth := 0
+	return head.IterNext(func(n *Node) bool {
+		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.ParenthesisLeft:
-			result = true
-			return false
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
 		case kind.NewLine:
-			return false
-		default:
-			return true
+			return depth != 0
 		}
+
+		return depth >= 0
 	})
-	return result
+}
+
+// isThisLineFunction reports whether the line declares a method, that is a name and its parameters.
+func (interfaceResetter) isThisLineFunction(head *Node) bool {
+	next := head.Next().findNext(
+		[]kind.Kind{kind.Comment, kind.Space, kind.Tab, kind.NewLine},
+		findNodeOption{TargetReverse: true},
+	)
+
+	return token.IsIdentifier(head.Text()) && next.Kind() == kind.ParenthesisLeft
 }
 
 // structResetter starts with 'struct'
-- 
2.43.0


From a46b5882f1c2bc4e8b653d0258b0e7cf5026be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 28/43] fix: don't split a declaration that goes on after a
 first column comment

---
 scope.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/scope.go b/scope.go
index 3bef31a..1eee70a 100755
--- a/scope.go
+++ b/scope.go
@@ -2,6 +2,8 @@ package goast
 
 import (
 	"fmt"
+	"go/token"
+	"strings"
 
 	"github.com/yanun0323/goast/kind"
 	"github.com/yanun0323/goast/scope"
@@ -79,6 +81,7 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	line := startLine - 1
 	depth := 0         // of open brackets: nothing inside of them is first level
 	isLeading := false // only inner comments so far on this line
+	isOpen := false    // the code so far can't end here, as after an operator
 
 	tryAppendScope := func() {
 		if k != scope.Unknown {
@@ -97,6 +100,10 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 
 	_ = node.IterNext(func(n *Node) bool {
 		level := depth
+		if isOpen {
+			level++
+		}
+
 		switch n.Kind() {
 		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
 			depth++
@@ -104,6 +111,12 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 			depth--
 		}
 
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Separator, kind.Comment:
+		default:
+			isOpen = isOpenText(n.Text())
+		}
+
 		if isLeading && n.Kind() == kind.Space {
 			line = n.Line()
 			return true
@@ -141,6 +154,11 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	return scs, nil
 }
 
+// isOpenText reports whether a declaration goes on after the text, even on the next line.
+func isOpenText(s string) bool {
+	return token.IsKeyword(s) || strings.ContainsAny(s[len(s)-1:], "+-*/%&|^<>=!~.,:")
+}
+
 type scopeStruct struct {
 	line int
 	kind scope.Kind
-- 
2.43.0


From c15fa3bd9c2227dd6b97bac00d2e5d1b8e4390d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 29/43] fix: let no method of an interface reach beyond its
 line or the interface's end

---
 kind_resetter_func.go | 9 +++++++++
 kind_resetter_type.go | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 62550a6..017bb26 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -28,6 +28,7 @@ type funcResetter struct {
 	isFuncKeywordLeading  bool
 	isInterfaceDefinition bool
 	isNotMethod           bool
+	end                   *Node // no node from here on belongs to the function, nil if unknown
 }
 
 func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
@@ -140,6 +141,10 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 	}
 
 	return head.IterNext(func(n *Node) bool {
+		if n == r.end {
+			return false
+		}
+
 		handleHook(n, hooks...)
 		if skipAll {
 			return true
@@ -264,6 +269,10 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	}()
 
 	return head.IterNext(func(n *Node) bool {
+		if n == r.end {
+			return false
+		}
+
 		handleHook(n, hooks...)
 		switch n.Kind() {
 		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 1b82d1d..62e55b5 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -130,8 +130,10 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			return true
 		default:
 			if r.isThisLineFunction(n) {
-				jumpTo = funcResetter{
+				jumpTo = r.endOfLine(n)
+				_ = funcResetter{
 					isInterfaceDefinition: true,
+					end:                   jumpTo,
 				}.Run(n, hooks...)
 				skipAll = jumpTo == nil
 				return true
-- 
2.43.0


From 2d4442a6b7fe07bb383b751855791fb7855c0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 30/43] fix: give no name to a type group whose first type is
 on the group's line

---
 kind_resetter_type.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 62e55b5..78a710d 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -45,6 +45,8 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			switch {
 			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
 				return false
+			case n.Kind() == kind.ParenthesisLeft: // a group has no name
+				return false
 			case isName(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
-- 
2.43.0


From c95f614c8b4768113dfa711dd88a68b7ac399e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 31/43] fix: classify the text that ends the source without a
 newline

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 529557e..5f31a43 100755
--- a/extractor.go
+++ b/extractor.go
@@ -243,7 +243,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 }
 
 func (e *extractor) Kind() []kind.Kind {
-	if e == nil || e.kind == kind.Raw {
+	if e == nil || e.kind == kind.Raw || e.kind == kind.None {
 		return nil
 	}
 
-- 
2.43.0


From 1214d5fa9338196f1bfe6300f27d70b6829fd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 32/43] fix: give a literal that is never closed the line it
 begins on

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 5f31a43..84f99f4 100755
--- a/extractor.go
+++ b/extractor.go
@@ -238,7 +238,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true, e.Kind()...)
+	pushNode(!e.IncludeOpen, e.Kind()...) // an unclosed literal begins before this line
 	return head, nil
 }
 
-- 
2.43.0


From d15830bb403c8333bccfcf06bdf6669091a14f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 33/43] fix: don't end an interface's line where the code goes
 on

---
 kind_resetter_type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 78a710d..a06617c 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -155,6 +155,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 // endOfLine returns the end of the line or of the interface, whichever comes first.
 func (interfaceResetter) endOfLine(head *Node, hooks ...func(*Node)) *Node {
 	depth := 0
+	isOpen := false // the code so far can't end here, as after an operator
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
@@ -163,9 +164,12 @@ func (interfaceResetter) endOfLine(head *Node, hooks ...func(*Node)) *Node {
 		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
 			depth--
 		case kind.NewLine:
-			return depth != 0
+			return depth != 0 || isOpen
+		case kind.Space, kind.Tab, kind.Comment:
+			return true
 		}
 
+		isOpen = isOpenText(n.Text())
 		return depth >= 0
 	})
 }
-- 
2.43.0


From 8d502b287b4457d574aefbb75c3f375d74c277f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 34/43] fix: take an embedded type for a method no more when
 the next line starts with a parenthesis

---
 kind_resetter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index a06617c..267dee2 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -177,7 +177,7 @@ func (interfaceResetter) endOfLine(head *Node, hooks ...func(*Node)) *Node {
 // isThisLineFunction reports whether the line declares a method, that is a name and its parameters.
 func (interfaceResetter) isThisLineFunction(head *Node) bool {
 	next := head.Next().findNext(
-		[]kind.Kind{kind.Comment, kind.Space, kind.Tab, kind.NewLine},
+		[]kind.Kind{kind.Comment, kind.Space, kind.Tab},
 		findNodeOption{TargetReverse: true},
 	)
 
-- 
2.43.0


From d230707816f6b03e8ba12bf2a7bc6ebdc7b3505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 35/43] fix: copy long chains without recursion

---
 node.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/node.go b/node.go
index 7b74a93..8865e3c 100755
--- a/node.go
+++ b/node.go
@@ -60,7 +60,7 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 
 	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
-		return n.deepCopy(nil, nil)
+		return n.deepCopy()
 	}
 
 	return &Node{
@@ -70,27 +70,25 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 }
 
-func (n *Node) deepCopy(prev, next *Node) *Node {
-	if n == nil {
-		return nil
-	}
+// deepCopy copies the whole chain. It doesn't recurse, since chains get long.
+func (n *Node) deepCopy() *Node {
+	nn := n.Copy()
 
-	nn := &Node{
-		line: n.line,
-		kind: n.kind,
-		text: n.text,
-	}
-
-	if prev == nil {
-		prev = n.Prev().deepCopy(nil, nn)
-	}
-
-	if next == nil {
-		next = n.Next().deepCopy(nn, nil)
-	}
+	cur := nn
+	n.Prev().IterPrev(func(prev *Node) bool {
+		cur.prev = prev.Copy()
+		cur.prev.next = cur
+		cur = cur.prev
+		return true
+	})
 
-	nn.prev = prev
-	nn.next = next
+	cur = nn
+	n.Next().IterNext(func(next *Node) bool {
+		cur.next = next.Copy()
+		cur.next.prev = cur
+		cur = cur.next
+		return true
+	})
 
 	return nn
 }
-- 
2.43.0


From 7c704b6c60ac8b4a2d99d17a9893abf127bb35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 36/43] fix: refuse brackets nested too deep instead of
 overflowing the stack

---
 extractor.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/extractor.go b/extractor.go
index 84f99f4..360103a 100755
--- a/extractor.go
+++ b/extractor.go
@@ -1,6 +1,7 @@
 package goast
 
 import (
+	"errors"
 	"strings"
 
 	"github.com/yanun0323/goast/charset"
@@ -8,13 +9,16 @@ import (
 	"github.com/yanun0323/goast/kind"
 )
 
+// _maxExtractDepth is how deep brackets may nest, the limit of go/parser.
+const _maxExtractDepth = 1e5
+
 // extract parses file text content into nodes.
 func extract(text []byte) (*Node, error) {
 	var (
 		i, line int
 		buf     strings.Builder
 	)
-	node, err := _commonExtractor.Run(text, &buf, &i, &line)
+	node, err := _commonExtractor.Run(text, &buf, &i, &line, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -127,11 +131,15 @@ type extractor struct {
 	SkipReturnKeyword string
 }
 
-func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*Node, error) {
+func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int, depth int) (*Node, error) {
 	if e == nil {
 		return nil, nil
 	}
 
+	if depth > _maxExtractDepth {
+		return nil, errors.New("exceeded max nesting depth")
+	}
+
 	var (
 		char      byte
 		head, cur *Node
@@ -190,7 +198,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
-			ns, err := ee.Run(text, buf, i, line)
+			ns, err := ee.Run(text, buf, i, line, depth+1)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 8a5b4cefb6157f0ed800eae54b08911668da6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 37/43] fix: find the type's name on the line after the type
 keyword

---
 kind_resetter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 267dee2..80c479c 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -43,7 +43,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		if !isTypeNameAssigned {
 			switch {
-			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
+			case n.Kind() == kind.CurlyBracketRight: // return kind
 				return false
 			case n.Kind() == kind.ParenthesisLeft: // a group has no name
 				return false
-- 
2.43.0


From dd4f554bf9ec56e8d3d948e55cf38ec1989167bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 38/43] fix: tell type parameters and arguments from arrays
 after a comment

---
 kind_resetter_parenthesis.go | 17 ++++++++++++++++-
 scope.go                     | 28 ++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 5deb51c..ef1140a 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -87,7 +87,7 @@ func (r parenthesisResetter) isNamedList(head *Node) bool {
 				isFirst = false
 				isName = token.IsIdentifier(n.Text())
 			default:
-				isNamed = isName && isSpaced
+				isNamed = isName && isSpaced && !isTypeArguments(n)
 				isName = false
 			}
 		}
@@ -104,6 +104,21 @@ func (r parenthesisResetter) isNamedList(head *Node) bool {
 	return isNamed
 }
 
+// isTypeArguments reports whether the node opens the type arguments of a parameter's type,
+// that is nothing follows the brackets.
+func isTypeArguments(head *Node) bool {
+	if head.Kind() != kind.SquareBracketLeft {
+		return false
+	}
+
+	next := head.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().findNext(
+		[]kind.Kind{kind.Comment, kind.Space, kind.Tab, kind.NewLine},
+		findNodeOption{TargetReverse: true},
+	)
+
+	return next.Kind() == kind.Comma || next.Kind() == kind.ParenthesisRight
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
 func (r parenthesisResetter) handleParenthesisParam(head *Node, isNamed bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
diff --git a/scope.go b/scope.go
index 1eee70a..fa60a76 100755
--- a/scope.go
+++ b/scope.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"go/token"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/yanun0323/goast/kind"
 	"github.com/yanun0323/goast/scope"
@@ -312,9 +314,9 @@ func (d *scopeStruct) getTypeNameOf(k kind.Kind) (string, bool) {
 			isSpaced = isSpaced || depth == 0
 		case n.Kind() == kind.Comment, n.Text() == "=":
 			// lies between the name and the declared type
-		case n.Kind() == kind.SquareBracketLeft && !isSpaced:
+		case n.Kind() == kind.SquareBracketLeft && (depth != 0 || !isSpaced || isTypeParams(n)):
 			depth++ // of type parameters
-		case n.Kind() == kind.SquareBracketRight && !isSpaced:
+		case n.Kind() == kind.SquareBracketRight && depth != 0:
 			depth--
 		default:
 			return depth != 0
@@ -330,6 +332,28 @@ func (d *scopeStruct) getTypeNameOf(k kind.Kind) (string, bool) {
 	return d.GetTypeName()
 }
 
+// isTypeParams reports whether the bracket opens type parameters, not the length of an array,
+// that is a constraint or another name follows the first name.
+func isTypeParams(head *Node) bool {
+	var (
+		between = []kind.Kind{kind.Comment, kind.Space, kind.Tab, kind.NewLine}
+		name    = head.Next().findNext(between, findNodeOption{TargetReverse: true})
+		next    = name.Next().findNext(between, findNodeOption{TargetReverse: true})
+	)
+
+	if !token.IsIdentifier(name.Text()) {
+		return false
+	}
+
+	switch next.Kind() {
+	case kind.Comma, kind.SquareBracketLeft:
+		return true
+	default:
+		r, _ := utf8.DecodeRuneInString(next.Text())
+		return unicode.IsLetter(r) || r == '_' || r == '~'
+	}
+}
+
 func (d *scopeStruct) GetMethodName() (string, bool) {
 	if d.Kind() != scope.Func {
 		return "", false
-- 
2.43.0


From 93d6524baa2f572af95e436d1b57407103ca7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 39/43] fix: a keyword after an operator goes on after a
 comment too

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index fa60a76..0c4741a 100755
--- a/scope.go
+++ b/scope.go
@@ -158,7 +158,7 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 
 // isOpenText reports whether a declaration goes on after the text, even on the next line.
 func isOpenText(s string) bool {
-	return token.IsKeyword(s) || strings.ContainsAny(s[len(s)-1:], "+-*/%&|^<>=!~.,:")
+	return token.IsKeyword(strings.TrimLeft(s, "~*&.<-")) || strings.ContainsAny(s[len(s)-1:], "+-*/%&|^<>=!~.,:")
 }
 
 type scopeStruct struct {
-- 
2.43.0


From b3aab1f3ef307e4d0f51e53f4f10bb3d6a910ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 40/43] fix: a result type goes on after a space within its
 brackets

---
 kind_resetter_func.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 017bb26..88f2a88 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -261,7 +261,8 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	}
 
 	var (
-		buf []*Node
+		depth int
+		buf   []*Node
 	)
 
 	defer func() {
@@ -275,8 +276,15 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
-			return false
+		case kind.SquareBracketLeft:
+			depth++
+		case kind.SquareBracketRight:
+			depth--
+		}
+
+		switch n.Kind() {
+		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind, outside of brackets
+			return depth > 0
 		case kind.Comment:
 			return true
 		default:
-- 
2.43.0


From 807c97ef214b3d1ad7a6d641006309053cdb9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 41/43] fix: a function's result type goes on in the next line
 after struct

---
 kind_resetter_func.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 88f2a88..20f7797 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -126,6 +126,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 
 		isFuncNameAssigned bool
 		isFuncParamHandled bool
+		isOpen             bool // the code so far can't end here, as after 'struct'
 		isReturnKind       charset.Set[kind.Kind]
 	)
 
@@ -145,6 +146,12 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return false
 		}
 
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+		default:
+			isOpen = isOpenText(n.Text())
+		}
+
 		handleHook(n, hooks...)
 		if skipAll {
 			return true
@@ -159,7 +166,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 
 		// return kind
 		if isReturnKind.Contain(n.Kind()) {
-			return !isFuncParamHandled
+			return !isFuncParamHandled || n.Kind() == kind.NewLine && isOpen
 		}
 
 		// a declared name may be a basic type name or blank as well
-- 
2.43.0


From 79c5d638904398fe6bb56ce96aebb63d527e709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:33 +0000
Subject: [PATCH 42/43] fix: keep the type of a struct field together when its
 brackets go on over lines

---
 kind_resetter_type.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 80c479c..4a9fddc 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -240,6 +240,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 	var (
 		skipAll bool
 		jumpTo  *Node
+		depth   int // of square brackets
 
 		paramNameCount = r.getRowNameCount(head)
 	)
@@ -264,9 +265,15 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 		}
 
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			return false
-		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
+		case kind.NewLine: // return kind, outside of brackets
+			return depth > 0
+		case kind.SquareBracketLeft:
+			depth++
+			return true
+		case kind.SquareBracketRight:
+			depth--
+			return true
+		case kind.Comment, kind.Tab, kind.Space, kind.Comma:
 			return true
 		case kind.Raw:
 			n.SetKind(kind.ParamType)
-- 
2.43.0


From ebc492b0c9daea4937ca479171dea73941e70889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 43/43] fix: name the results of a struct field's function type

---
 kind_resetter_type.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 4a9fddc..95769a5 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -288,6 +288,12 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			})
 			skipAll = jumpTo == nil
 			return true
+		case kind.ParenthesisLeft: // results of a function type, or within the length of an array
+			if depth == 0 {
+				jumpTo = parenthesisResetter{}.Run(n, hooks...).Next()
+				skipAll = jumpTo == nil
+			}
+			return true
 		default:
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
-- 
2.43.0

