From 2814bef9676d6b9adc4a20a7c6febd3d4906093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 01/57] fix: strings.HasPrefix tested the suffix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From 695383662794f9daa0ac6aa2bad81a8dff157be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 02/57] fix: bool and float32 assignments copied the
 destination onto itself

---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 97e8589e9255496fc00191a2b54ec17bd8422ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 03/57] fix: integer equality printed its operands to stdout

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From f1ebbb9077299476abe48776b9e9cdd7003d270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 04/57] fix: text before a comment on the same line was dropped

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From 0e6930845a59ba99f2fa5d980f3885528dbce216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 05/57] fix: escaped block with quotes or unpaired brackets was
 not recognised

---
 parser/parser.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..0fbaae3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,12 +1,12 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -84,20 +84,20 @@ outer:
 }
 
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
-			}
-		}
+	const begin, end = "[[", "]]#"
+	text := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(text, []byte(begin)) {
+		return nil, false
+	}
+
+	body := text[len(begin):]
+	bodyEnd := bytes.Index(body, []byte(end))
+	if bodyEnd == -1 {
+		return nil, false
 	}
 
-	cursor.Pos = lastCursorPos
-	return nil, false
+	cursor.Pos += len(begin) + bodyEnd + len(end)
+	return stmt.NewAppend(string(body[:bodyEnd])), true
 }
 
 func cursorErr(cursor *parsly.Cursor, err error) error {
-- 
2.43.0


From d46b087e20a3aa225f4039c96cdac37d68d21408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 06/57] fix: operators ignored precedence and left
 associativity

---
 binary.go         | 63 +++++++++++++++++++++++++++++++++++++++++
 parser/assign.go  |  4 ---
 parser/expr.go    | 13 +--------
 parser/operand.go | 72 +++++++++++++++++------------------------------
 4 files changed, 90 insertions(+), 62 deletions(-)

diff --git a/binary.go b/binary.go
index bf02779..0c420ed 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -9,6 +10,8 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = resolvePrecedence(actual)
+
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
@@ -51,3 +54,63 @@ func notNilType(types ...reflect.Type) reflect.Type {
 
 	return nil
 }
+
+//resolvePrecedence groups operands chained by the parser, tokens with the same precedence are left-associative
+func resolvePrecedence(chain *expr.Binary) *expr.Binary {
+	operands := []ast.Expression{chain.X}
+	var tokens []ast.Token
+
+	for next := chain; next != nil; {
+		tokens = append(tokens, next.Token)
+		y, ok := next.Y.(*expr.Binary)
+		if !ok {
+			operands = append(operands, next.Y)
+			break
+		}
+
+		operands = append(operands, y.X)
+		next = y
+	}
+
+	output := operands[:1:1]
+	var pending []ast.Token
+
+	reduce := func() {
+		last := len(output) - 1
+		grouped := expr.BinaryExpression(output[last-1], pending[len(pending)-1], output[last])
+		output = append(output[:last-1], &expr.Parentheses{P: grouped})
+		pending = pending[:len(pending)-1]
+	}
+
+	for i, token := range tokens {
+		for len(pending) > 0 && precedence(pending[len(pending)-1]) >= precedence(token) {
+			reduce()
+		}
+
+		output = append(output, operands[i+1])
+		pending = append(pending, token)
+	}
+
+	for len(pending) > 1 {
+		reduce()
+	}
+
+	return expr.BinaryExpression(output[0], pending[0], output[1])
+}
+
+func precedence(token ast.Token) int {
+	switch token {
+	case ast.MUL, ast.QUO:
+		return 5
+	case ast.ADD, ast.SUB:
+		return 4
+	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
+		return 3
+	case ast.AND:
+		return 2
+	case ast.OR:
+		return 1
+	}
+
+	return 0
+}
diff --git a/parser/assign.go b/parser/assign.go
index c066820..a3fa711 100644
--- a/parser/assign.go
+++ b/parser/assign.go
@@ -28,10 +28,6 @@ func matchAssign(cursor *parsly.Cursor) (*stmt.Statement, error) {
 		return nil, err
 	}
 
-	if err = addEquationIfNeeded(cursor, &expression); err != nil {
-		return nil, err
-	}
-
 	return &stmt.Statement{
 		X:  variable,
 		Op: token,
diff --git a/parser/expr.go b/parser/expr.go
index db55394..0600348 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,9 +14,6 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
@@ -27,15 +24,7 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..0e9c7dd 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -10,6 +10,19 @@ import (
 var dataTypeMatchers = []*parsly.Token{String, Boolean, Number}
 
 func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Token, ast2.Expression, error) {
+	matcher, expression, err := matchTerm(cursor, candidates...)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if err = addEquationIfNeeded(cursor, &expression); err != nil {
+		return nil, nil, err
+	}
+
+	return matcher, expression, nil
+}
+
+func matchTerm(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Token, ast2.Expression, error) {
 	matched := cursor.MatchAfterOptional(WhiteSpace, Negation)
 	hasNegation := matched.Code == negationToken
 
@@ -96,21 +109,21 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			X:     expression,
 		}
 	}
-	err = addEquationIfNeeded(cursor, &expression)
-	if err != nil {
-		return nil, nil, err
-	}
 
 	return matcher, expression, nil
 }
 
 func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) error {
+	operands := []ast2.Expression{*expression}
+	var tokens []ast2.Token
+
 	for {
 		candidates := []*parsly.Token{Add, Sub, Multiply, Quo, NotEqual, Negation, Equal, And, Or, GreaterEqual, Greater, LessEqual, Less, Assign}
 		matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
 		switch matched.Code {
 		case parsly.EOF, binaryExpressionStartToken, parsly.Invalid:
+			*expression = buildEquation(operands, tokens)
 			return nil
 		}
 
@@ -119,55 +132,22 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 			return fmt.Errorf("assignment in expression is not allowed")
 		}
 
-		eprCursor, err := matchExpressionBlock(cursor)
-
-		var rightExpression ast2.Expression
-		if err == nil {
-			rightExpression, err = matchEquationExpression(eprCursor)
-			rightExpression = &aexpr.Parentheses{P: rightExpression}
-		} else {
-			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
-		}
-
+		_, operand, err := matchTerm(cursor, dataTypeMatchers...)
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
 
-		}
-
-		*expression = &aexpr.Binary{
-			X:     *expression,
-			Token: token,
-			Y:     rightExpression,
-		}
+		operands = append(operands, operand)
+		tokens = append(tokens, token)
 	}
 }
 
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
+//buildEquation chains operands to the right, the planner resolves tokens precedence
+func buildEquation(operands []ast2.Expression, tokens []ast2.Token) ast2.Expression {
+	result := operands[len(operands)-1]
+	for i := len(tokens) - 1; i >= 0; i-- {
+		result = aexpr.BinaryExpression(operands[i], tokens[i], result)
 	}
 
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
+	return result
 }
-- 
2.43.0


From a86b124854c026582202f164a31ee407fcabef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 07/57] fix: expressions over undefined variables panicked or
 rendered garbage

---
 binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary.go b/binary.go
index 0c420ed..1689ff7 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
@@ -22,6 +23,10 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil || y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine operand type of the %v expression", actual.Token)
+	}
+
 	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ed9e7a3d73caeb639e939f4e44e6743a632144f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 08/57] fix: appending a byte to a full buffer panicked

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From afd336215456ece4168618777fe06290c01d97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 09/57] fix: operands of different numeric types and pointers
 were computed on raw bits

---
 binary.go       | 36 +++++++++++++++++++++++++++---------
 est/expr/ptr.go | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/binary.go b/binary.go
index 1689ff7..7e9eb18 100644
--- a/binary.go
+++ b/binary.go
@@ -10,6 +10,8 @@ import (
 	"reflect"
 )
 
+const comparisonPrecedence = 3
+
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	actual = resolvePrecedence(actual)
 
@@ -27,7 +29,7 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, fmt.Errorf("couldn't determine operand type of the %v expression", actual.Token)
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	unify, err := unifyOperands(x.Type, y.Type)
 	if err != nil {
 		return nil, err
 	}
@@ -35,7 +37,18 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	comparison := precedence(actual.Token) == comparisonPrecedence
+	if comparison && (x.Type.Kind() == reflect.Ptr || y.Type.Kind() == reflect.Ptr) && unify.RType.Kind() != reflect.Ptr {
+		x.Type = reflect.PtrTo(unify.RType)
+	} else if x.Type.Kind() != reflect.Ptr {
+		x.Type = unify.RType
+	}
+
+	resultType := unify.RType
+	if comparison {
+		resultType = actual.Type()
+	}
+
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -50,14 +63,19 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
-func notNilType(types ...reflect.Type) reflect.Type {
-	for _, rType := range types {
-		if rType != nil {
-			return rType
-		}
+//unifyOperands returns functions converting both operands to the common, non pointer type
+func unifyOperands(x, y reflect.Type) (*types.Unified, error) {
+	if x != y || x.Kind() != reflect.Ptr || !types.IsPrimitive(x.Elem()) {
+		return types.NormalizeAndUnify(x, y)
+	}
+
+	unify, err := types.Unify(x.Elem(), y)
+	if err != nil {
+		return nil, err
 	}
 
-	return nil
+	unify.X = unify.Y
+	return unify, nil
 }
 
 //resolvePrecedence groups operands chained by the parser, tokens with the same precedence are left-associative
@@ -110,7 +128,7 @@ func precedence(token ast.Token) int {
 	case ast.ADD, ast.SUB:
 		return 4
 	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
-		return 3
+		return comparisonPrecedence
 	case ast.AND:
 		return 2
 	case ast.OR:
diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..81b388c 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -979,6 +983,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
-- 
2.43.0


From eeb81218408aca8ea3d55b2055b142e9badae9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 10/57] fix: compound assignments of a for loop were parsed as
 increments

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  2 +-
 parser/token.go |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..ca147d9 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -97,7 +97,7 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}
 
 	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
diff --git a/parser/token.go b/parser/token.go
index dbd006d..8277b4b 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -10,16 +10,16 @@ func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOp
 	switch matched.Code {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.MUL, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.MUL, &expr.Parentheses{P: rightOperand})
 	case quoEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.QUO, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.QUO, &expr.Parentheses{P: rightOperand})
 	case addEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.ADD, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.ADD, &expr.Parentheses{P: rightOperand})
 	case subEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.SUB, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.SUB, &expr.Parentheses{P: rightOperand})
 	}
 
 	return token, rightOperand
-- 
2.43.0


From e25cc80f754e97a8213290aa5d91f3e69ca8d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 11/57] fix: text around a reference in a quoted string was
 dropped

---
 parser/operand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/operand.go b/parser/operand.go
index 0e9c7dd..8496cf3 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -95,7 +95,7 @@ func matchTerm(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Toke
 			if err != nil {
 				expression = aexpr.StringLiteral(value[:len(value)-1])
 			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
+				if _, ok := expression.(*aexpr.Select); !ok || value[0] != '$' || newCursor.Pos < newCursor.InputSize {
 					expression = aexpr.StringLiteral(value[:len(value)-1])
 				}
 			}
-- 
2.43.0


From 0adb038d9e445a9cf04a71b623a1172495ff9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 12/57] fix: compound assignment operator was lost while its
 operand was parsed

---
 parser/range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/range.go b/parser/range.go
index ca147d9..932bc60 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -97,12 +97,13 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}
 
 	token := matchToken(matched)
+	operator := *matched //cursor reuses matched token
 	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, &operator)
 
 	return &stmt.Statement{
 		X:  variable,
-- 
2.43.0


From 6a1283fbf03448a2898f0f1d04ac0da9ada035de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 13/57] fix: paths through recursive, repeated, embedded and
 indexed types looped, failed or read the wrong field

---
 planner.go | 95 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 85 insertions(+), 10 deletions(-)

diff --git a/planner.go b/planner.go
index 68b0354..2ca1715 100644
--- a/planner.go
+++ b/planner.go
@@ -56,7 +56,7 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
+	cycleNode, cycleSelector, hasCycle := p.cycle(cycleDetector, field, parent)
 
 	if field.Anonymous {
 		initialOffset += field.Offset
@@ -66,12 +66,12 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	vTag := Parse(field.Tag.Get(velty))
 
 	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	if err != nil || hasCycle {
 		return err
 	}
 
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += field.Offset + initialOffset
 		initialOffset = 0
 
 		if prefix == "" {
@@ -80,6 +80,10 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 			prefix = prefix + fieldName + fieldSeparator
 		}
 	} else {
+		if field.Type.Kind() == reflect.Ptr {
+			initialOffset = 0 //fields are relative to the pointer held by the embedded field
+		}
+
 		if vTag.Prefix != "" {
 			prefix += vTag.Prefix
 		}
@@ -93,12 +97,18 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
 }
 
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
+//cycle reports whether given field type was already visited, embedded types fields are promoted so they are visited unless they embed themselves
+func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector, bool) {
 	child, cycle := cycleDetector.Child(field.Type, parent)
+	if cycle && field.Anonymous {
+		child = newCycleDetector(cycleDetector, cycleDetector.allTypes, field.Type, parent)
+		cycle = cycleDetector.Has(child)
+	}
+
 	if cycle {
-		return child, child.parentSelector
+		return child, child.parentSelector, true
 	}
-	return child, nil
+	return child, nil, false
 }
 
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
@@ -139,6 +149,9 @@ func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField
 
 	newField := xunsafe.NewField(field)
 	newField.Offset += anonymousOffset
+	if field.Anonymous {
+		newField.Offset = anonymousOffset
+	}
 	var err error
 	var fieldSelector *op.Selector
 	if cycleSelector != nil {
@@ -207,6 +220,10 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 	upstreamSelector := p.copyWithParent(resultSelector, resultSelector.Parent)
 	for call != nil {
+		if resultSelector.Func != nil {
+			selectorId = fieldSeparator + selectorId //function name is not a variable name
+		}
+
 		parentType = deref(parentType)
 		resultSelector, call, err = p.matchSelector(call, resultSelector, selectorId, parentType)
 		if err != nil {
@@ -215,7 +232,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
-		upstreamSelector = p.copyWithParent(resultSelector, upstreamSelector)
+		upstreamSelector = p.copyWithParent(resultSelector, p.copyHolders(resultSelector.Parent, upstreamSelector))
 	}
 
 	return upstreamSelector, nil
@@ -235,6 +252,15 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 	return nil, nil, nil
 }
 
+//copyHolders puts embedded pointers holding selected field between that field and its parent
+func (p *Planner) copyHolders(holder, parent *op.Selector) *op.Selector {
+	if holder == nil || holder.Field == nil || !holder.Field.Anonymous {
+		return parent
+	}
+
+	return p.copyWithParent(holder, p.copyHolders(holder.Parent, parent))
+}
+
 func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	selCopy := *dest
 	selCopy.Parent = parent
@@ -249,8 +275,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if _, ok := actual.X.(*expr.Call); ok {
+			return p.tryMatchCall(actual.X, resultSelector, actual.ID)
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
@@ -262,7 +288,9 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 		var found bool
 		resultSelector, found = p.selectors.ById(selectorId)
 		if !found {
-			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
+			if resultSelector = p.newFieldSelector(selectorId, parentType, actual.ID, nil); resultSelector == nil {
+				return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
+			}
 		}
 
 		return resultSelector, actual.X, nil
@@ -271,7 +299,54 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 	return resultSelector, nil, nil
 }
 
+//newFieldSelector creates a selector of the field that was not indexed while its holder was declared, i.e. recursive types
+func (p *Planner) newFieldSelector(id string, parentType reflect.Type, name string, holder *op.Selector) *op.Selector {
+	var embedded []reflect.StructField
+	for i := 0; i < parentType.NumField(); i++ {
+		field := parentType.Field(i)
+		vTag := Parse(field.Tag.Get(velty))
+		if vTag.Omit {
+			continue
+		}
+
+		if field.Anonymous {
+			embedded = append(embedded, field)
+		} else if vTag.nameEqual(name) || (len(vTag.Names) == 0 && field.Name == name) {
+			return op.SelectorWithField(id, xunsafe.NewField(field), holder, true, 0)
+		}
+	}
+
+	for _, field := range embedded {
+		prefix := Parse(field.Tag.Get(velty)).Prefix
+		fieldType, _ := elemIfNeeded(field.Type)
+		if fieldType.Kind() != reflect.Struct || !strings.HasPrefix(name, prefix) || hasHolder(holder, fieldType) {
+			continue
+		}
+
+		embeddedHolder := op.SelectorWithField(id, xunsafe.NewField(field), holder, true, 0)
+		if result := p.newFieldSelector(id, fieldType, name[len(prefix):], embeddedHolder); result != nil {
+			return result
+		}
+	}
+
+	return nil
+}
+
+func hasHolder(holder *op.Selector, rType reflect.Type) bool {
+	for ; holder != nil; holder = holder.Parent {
+		if holderType, _ := elemIfNeeded(holder.Type); holderType == rType {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
-- 
2.43.0


From b8fd2819e9a92fffc3a81c246e27fc806691632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 14/57] fix: setting a small integer or a pointer shaped struct
 corrupted state memory

---
 est/state.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/est/state.go b/est/state.go
index c86d84e..c4d7a32 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,6 +2,7 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
 	"strings"
 	"sync"
@@ -26,6 +27,10 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
+	if setSameType(xField, s.MemPtr, v) {
+		return nil
+	}
+
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
 		xField.SetValue(s.MemPtr, v)
@@ -36,6 +41,17 @@ func (s *State) SetValue(k string, v interface{}) error {
 	return nil
 }
 
+//setSameType copies value of the field type, it copies neither more bytes than the field has, nor the data a pointer shaped struct points to
+func setSameType(xField *xunsafe.Field, ptr unsafe.Pointer, v interface{}) bool {
+	value := reflect.ValueOf(v)
+	if !value.IsValid() || value.Type() != xField.Type {
+		return false
+	}
+
+	reflect.NewAt(xField.Type, xField.Pointer(ptr)).Elem().Set(value)
+	return true
+}
+
 func (s *State) EmbedValue(v interface{}) error {
 	vType := reflect.TypeOf(v)
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
@@ -57,6 +73,10 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
+	if setSameType(xField, s.MemPtr, v) {
+		return nil
+	}
+
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice:
 		xField.SetValue(s.MemPtr, v)
-- 
2.43.0


From 51cf20717a380b10e156689c4c4a78266998bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 15/57] fix: indexing maps and interfaces read invalid memory

---
 est/op/iface.go    | 22 +++++++++++++++++-----
 est/op/map.go      | 30 ++++++++++++++++++++++++++++--
 est/op/selector.go |  7 +------
 est/op/slice.go    |  2 +-
 planner.go         |  5 ++++-
 5 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..b006680 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -1,7 +1,9 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
@@ -9,18 +11,28 @@ import (
 
 type Interface struct {
 	aMap     *Map
-	aSlice   *Slice
+	indexOp  *Operand
 	xOperand *Operand
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	value := reflect.ValueOf(xunsafe.AsInterface(xPtr))
+	if !value.IsValid() {
+		return nil
+	}
 
-	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch value.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice, reflect.Array:
+		anIndex, ok := mapKey(keys.Normalize(i.indexOp.ExecInterface(state)), intType)
+		if !ok || anIndex.Int() < 0 || anIndex.Int() >= int64(value.Len()) {
+			panic(fmt.Sprintf("index out of range [%v] with length %v", anIndex, value.Len()))
+		}
+		index := int(anIndex.Int())
+		item := value.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		panic(fmt.Sprintf("unsupported index of %v", value.Type()))
 	}
 }
diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..e3a1f7b 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -28,7 +28,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	keyValue, ok := mapKey(anIndex, mapValue.Type().Key())
+	if !ok {
+		return nil
+	}
+
+	actualValue := mapValue.MapIndex(keyValue)
 	if !actualValue.IsValid() {
 		return nil
 	}
@@ -40,8 +45,29 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 
 	switch m.elemKind {
 	case reflect.Map, reflect.Slice:
-		return xunsafe.AsPointer(actualValue.Pointer())
+		holder := reflect.New(actualValue.Type())
+		holder.Elem().Set(actualValue)
+		return unsafe.Pointer(holder.Pointer())
 	default:
 		return xunsafe.AsPointer(iface)
 	}
 }
+
+//mapKey adjusts normalized index to the map key type
+func mapKey(anIndex interface{}, keyType reflect.Type) (reflect.Value, bool) {
+	value := reflect.ValueOf(anIndex)
+	if !value.IsValid() {
+		return value, false
+	}
+
+	if value.Type().AssignableTo(keyType) {
+		return value, true
+	}
+
+	if (keyType.Kind() == reflect.String) != (value.Kind() == reflect.String) || !value.Type().ConvertibleTo(keyType) {
+		return value, false
+	}
+
+	key := value.Convert(keyType)
+	return key, key.Convert(value.Type()).Interface() == anIndex
+}
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..266f491 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -139,11 +139,6 @@ func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Ope
 }
 
 func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	aSlice, err := newSlice(xOperand, indexOperand, parent)
-	if err != nil {
-		return nil, err
-	}
-
 	return &Selector{
 		Type:        parent.Type,
 		ID:          id,
@@ -153,7 +148,7 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 		InterfaceExec: &Interface{
 			xOperand: xOperand,
 			aMap:     newMap(xOperand, indexOperand, parent),
-			aSlice:   aSlice,
+			indexOp:  indexOperand,
 		},
 	}, nil
 }
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..cbbfb39 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -24,7 +24,7 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
+	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
diff --git a/planner.go b/planner.go
index 2ca1715..b02dbab 100644
--- a/planner.go
+++ b/planner.go
@@ -606,13 +606,16 @@ func (p *Planner) matchCall(call ast.Expression, selector *op.Selector, ID strin
 
 			return interfaceSelector, actual.Y, nil
 
-		default:
+		case reflect.Slice:
 			sliceSelector, err := p.newSliceSelector(ID, actual, selector)
 			if err != nil {
 				return nil, nil, err
 			}
 
 			return sliceSelector, actual.Y, nil
+
+		default:
+			return nil, nil, fmt.Errorf("unsupported index of %v, type: %v", ID, selector.Type)
 		}
 	}
 
-- 
2.43.0


From 5554e0698e54ceccfdb2e44821fe8dc7d1241682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 16/57] fix: assigning through a nil pointer modified shared
 zero values

---
 est/op/expr.go            | 16 +++++++++-------
 est/op/upstream.go        | 14 ++++++++++++--
 est/stmt/assign/assign.go |  2 +-
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..0725a58 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+//Writable indicates that operand is an assignment destination
+type Writable bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var writable bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case Writable:
+			writable = bool(actual)
 		}
 	}
 
@@ -50,7 +56,7 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast, writable)
 		}
 
 		return operand, nil
@@ -87,12 +93,8 @@ func (e Expressions) Operands(control est.Control, shouldDerefLast bool) ([]*Ope
 	return result, nil
 }
 
-func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool) est.Compute {
-	upstream := Upstream(e.Selector, shouldDerefLast, refLast)
-	return func(state *est.State) unsafe.Pointer {
-		ret := upstream(state)
-		return ret
-	}
+func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool, writable bool) est.Compute {
+	return upstream(e.Selector, shouldDerefLast, refLast, writable)
 }
 
 func NewExpression(selector *Selector) *Expression {
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..799b1ca 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,11 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	return upstream(selector, derefLast, refLast, false)
+}
+
+//upstream returns zero value when path leads through nil, the value is not shared if writable
+func upstream(selector *Selector, derefLast bool, refLast bool, writable bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -45,12 +50,17 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 		zeroValuePtr = xunsafe.AsPointer(value)
 	}
 
+	zeroValue := func() unsafe.Pointer { return zeroValuePtr }
+	if writable {
+		zeroValue = func() unsafe.Pointer { return unsafe.Pointer(reflect.New(selector.Type).Pointer()) }
+	}
+
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return zeroValue()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +102,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return zeroValue()
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..bc68eae 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -245,7 +245,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.Writable(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From cff38e2719442cc3da3ecc04661e80f25bce6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 17/57] fix: concurrent compilations raced on shared functions
 and constants, types sharing a name shared methods

---
 const.go       |  6 ++++++
 est/op/func.go | 26 ++++++++++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/const.go b/const.go
index 8594163..b1f3b2d 100644
--- a/const.go
+++ b/const.go
@@ -1,11 +1,17 @@
 package velty
 
+import "sync"
+
 type constants struct {
+	locker    sync.Mutex
 	counter   int
 	constants map[int]interface{}
 }
 
 func (c *constants) add(value interface{}) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
 	c.constants[c.counter] = value
 	c.counter++
 }
diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..dfbb812 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -28,7 +29,8 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		locker    sync.Mutex
+		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
 	}
@@ -281,7 +283,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -426,6 +428,9 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 		return f.funcs[index], nil
 	}
 
+	f.locker.Lock()
+	defer f.locker.Unlock()
+
 	receiver := f.ensureReceiver(rType)
 	if aFunc, ok := receiver.aFunc(id); ok {
 		return aFunc, nil
@@ -435,8 +440,10 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 }
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
-	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	f.locker.Lock()
+	defer f.locker.Unlock()
+
+	receiver := f.ensureReceiver(receiverType)
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -864,6 +871,9 @@ func (f *Functions) RegisterStandaloneFunction(name string, function *Function)
 }
 
 func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFunc) error {
+	f.locker.Lock()
+	defer f.locker.Unlock()
+
 	receiver := f.ensureReceiver(receiverType)
 	_, ok := receiver.index[typeFunc.Name]
 	if ok {
@@ -879,7 +889,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -890,14 +900,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 0a969627a416c2a926d5ec626432686315f45a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 18/57] fix: evaluated template used code cached for other
 variables, lost errors and accepted non strings

---
 cache.go    | 38 +++++++++++++++++++++-----------------
 est/type.go |  8 ++++----
 evaluate.go | 27 +++++++++++++++++----------
 planner.go  |  2 ++
 stmt.go     |  4 ++++
 5 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..fef3d6e 100644
--- a/cache.go
+++ b/cache.go
@@ -2,17 +2,24 @@ package velty
 
 import (
 	"github.com/viant/velty/est"
+	"reflect"
 	"sync"
 )
 
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
-		values    []*value
+		values    map[cacheKey]*value
 		locker    sync.Locker
 	}
 
+	//cacheKey identifies evaluated template and the scope it was compiled with
+	cacheKey struct {
+		parent *Planner
+		scope  reflect.Type
+		text   string
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,23 +28,22 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		values:    map[cacheKey]*value{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
-	val, ok := c.cache[name]
-	if !ok {
-		return nil, false
-	}
+func (c *cache) expression(key cacheKey) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
 
-	return c.values[val], ok
+	val, ok := c.values[key]
+	return val, ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
-	if c.cacheSize == 0 {
+func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
+	if c.cacheSize <= 0 {
 		return
 	}
 
@@ -45,16 +51,14 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 	defer c.locker.Unlock()
 	c.cleanCacheIfNeeded()
 
-	c.values = append(c.values, &value{
+	c.values[key] = &value{
 		planner: planner,
 		compute: compute,
-	})
-	c.cache[name] = len(c.values) - 1
+	}
 }
 
 func (c *cache) cleanCacheIfNeeded() {
-	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
-		c.values = c.values[:0]
+	if len(c.values) >= c.cacheSize {
+		c.values = map[cacheKey]*value{}
 	}
 }
diff --git a/est/type.go b/est/type.go
index 9137ef1..f60d3b1 100644
--- a/est/type.go
+++ b/est/type.go
@@ -94,16 +94,16 @@ func (t *Type) ValueAccessor(id string) (*xunsafe.Field, bool) {
 }
 
 func (t *Type) Snapshot() *Type {
+	transients := *t.transients
 	xFields := make([]*xunsafe.Field, len(t.xFields))
 	fields := make([]reflect.StructField, len(t.fields))
 	types := map[string]int{}
 	anonymousFields := map[string]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
-	copy(fields, t.fields)
 
-	for i, field := range fields {
-		types[field.Name] = i
+	for id, i := range t.fieldsIndex {
+		types[id] = i
 	}
 
 	for key := range t.anonymousFields {
@@ -115,7 +115,7 @@ func (t *Type) Snapshot() *Type {
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..beb080e 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -4,6 +4,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"reflect"
 	"unsafe"
 )
 
@@ -16,9 +17,9 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+	key := cacheKey{parent: e.parent, scope: e.parent.Type.Type, text: varValue}
+	if cacheValue, ok := e.cache.expression(key); ok {
+		return e.exec(cacheValue.planner, cacheValue.compute, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
@@ -27,25 +28,31 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	}
 
 	evaluatorPlanner := e.parent.New()
-	exec, err := evaluatorPlanner.newCompute(block)
+	compute, err := evaluatorPlanner.newCompute(block)
 	if err != nil {
 		return est.EmptyStringPtr
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	e.cache.put(key, evaluatorPlanner, compute)
+	return e.exec(evaluatorPlanner, compute, state)
+}
 
-	return exec(newState)
+func (e *evaluator) exec(planner *Planner, compute est.Compute, state *est.State) unsafe.Pointer {
+	newState := e.newState(planner, state)
+	ptr := compute(newState)
+	state.Errors = append(state.Errors, newState.Errors...)
+	return ptr
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
-	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
-	}
+	//evaluated template type extends the state type
+	stateType := reflect.TypeOf(state.Mem).Elem()
+	reflect.NewAt(stateType, newState.MemPtr).Elem().Set(reflect.NewAt(stateType, state.MemPtr).Elem())
 
 	newState.Buffer = state.Buffer
+	newState.PanicOnError = state.PanicOnError
 	return newState
 }
 
diff --git a/planner.go b/planner.go
index b02dbab..4db0b3f 100644
--- a/planner.go
+++ b/planner.go
@@ -531,6 +531,8 @@ func (p *Planner) New() *Planner {
 		Functions:  p.Functions,
 		cache:      p.cache,
 		escapeHTML: p.escapeHTML,
+
+		panicOnError: p.panicOnError,
 	}
 
 	return scope
diff --git a/stmt.go b/stmt.go
index 7d1acd6..47530f0 100644
--- a/stmt.go
+++ b/stmt.go
@@ -167,5 +167,9 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported evaluate type: %v, expected string", selector.Type)
+	}
+
 	return evaluate(selector, p.cache, p)
 }
-- 
2.43.0


From 08103411ae67917affddae3af48d539d3c4eeb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 19/57] fix: states put back to the pool were never reused

---
 est/state.go | 12 ++++++++++++
 pool.go      |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/est/state.go b/est/state.go
index c4d7a32..dae0cef 100644
--- a/est/state.go
+++ b/est/state.go
@@ -96,6 +96,18 @@ func (s *State) Reset() {
 	s.isTaken = true
 }
 
+//Release clears variables and makes the state available to be taken again
+func (s *State) Release() {
+	s.Reset()
+
+	s.Lock()
+	defer s.Unlock()
+
+	mem := reflect.ValueOf(s.Mem).Elem()
+	mem.Set(reflect.Zero(mem.Type()))
+	s.isTaken = false
+}
+
 func (s *State) IsValid() bool {
 	return len(s.Errors) == 0
 }
diff --git a/pool.go b/pool.go
index 69063c7..28c17a6 100644
--- a/pool.go
+++ b/pool.go
@@ -31,7 +31,7 @@ func (p *Pool) Put(state *est.State) {
 		return
 	}
 
-	state.Reset()
+	state.Release()
 	p.statePool.Put(state)
 }
 
-- 
2.43.0


From 8fdd010f9575c822a20f3966a9f1851e6210dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 20/57] fix: errors functions formatted messages and asserted
 only bool values

---
 functions/errors.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..740df47 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -38,7 +39,7 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 				return nil, fmt.Errorf("unexpected arguments number, expected 1 got %v", len(operands))
 			}
 
-			anArg := operands[0].(bool)
+			anArg := operands[0]
 			result, err := actual(e, anArg)
 			return result, err
 		}, boolType, true
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From d82d837cfeeedb3a57fedcc410f2a4eb317599ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 21/57] fix: map functions panicked or missed keys of other
 types than the map key

---
 est/op/iface.go     |  4 ++--
 est/op/map.go       | 27 +--------------------------
 functions/maps.go   |  5 ++---
 functions/slices.go |  3 +--
 keys/convert.go     | 39 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 45 insertions(+), 33 deletions(-)
 create mode 100644 keys/convert.go

diff --git a/est/op/iface.go b/est/op/iface.go
index b006680..bafe9b6 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -25,8 +25,8 @@ func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
 	case reflect.Slice, reflect.Array:
-		anIndex, ok := mapKey(keys.Normalize(i.indexOp.ExecInterface(state)), intType)
-		if !ok || anIndex.Int() < 0 || anIndex.Int() >= int64(value.Len()) {
+		anIndex := keys.As(i.indexOp.ExecInterface(state), intType)
+		if !anIndex.IsValid() || anIndex.Int() < 0 || anIndex.Int() >= int64(value.Len()) {
 			panic(fmt.Sprintf("index out of range [%v] with length %v", anIndex, value.Len()))
 		}
 		index := int(anIndex.Int())
diff --git a/est/op/map.go b/est/op/map.go
index e3a1f7b..a4447a6 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -22,18 +22,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	execInterface := m.indexOperand.ExecInterface(state)
-	anIndex := keys.Normalize(execInterface)
 	mapValue := reflect.ValueOf(aMap)
 	if mapValue.Kind() != reflect.Map {
 		return nil
 	}
 
-	keyValue, ok := mapKey(anIndex, mapValue.Type().Key())
-	if !ok {
-		return nil
-	}
-
-	actualValue := mapValue.MapIndex(keyValue)
+	actualValue := keys.Lookup(mapValue, execInterface)
 	if !actualValue.IsValid() {
 		return nil
 	}
@@ -52,22 +46,3 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return xunsafe.AsPointer(iface)
 	}
 }
-
-//mapKey adjusts normalized index to the map key type
-func mapKey(anIndex interface{}, keyType reflect.Type) (reflect.Value, bool) {
-	value := reflect.ValueOf(anIndex)
-	if !value.IsValid() {
-		return value, false
-	}
-
-	if value.Type().AssignableTo(keyType) {
-		return value, true
-	}
-
-	if (keyType.Kind() == reflect.String) != (value.Kind() == reflect.String) || !value.Type().ConvertibleTo(keyType) {
-		return value, false
-	}
-
-	key := value.Convert(keyType)
-	return key, key.Convert(value.Type()).Interface() == anIndex
-}
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..25cd543 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,7 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	return keys.Lookup(valueOf, key), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +102,7 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		return Maps{}.Has(aMap, aKey)
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/functions/slices.go b/functions/slices.go
index 9332897..b8916dc 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,8 +130,7 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
+			fieldValue = keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
 			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
diff --git a/keys/convert.go b/keys/convert.go
new file mode 100644
index 0000000..6edbb58
--- /dev/null
+++ b/keys/convert.go
@@ -0,0 +1,39 @@
+package keys
+
+import "reflect"
+
+//As returns normalized key of the given type, returned value is invalid if the key can't be represented with that type
+func As(key interface{}, keyType reflect.Type) reflect.Value {
+	key = Normalize(key)
+	value := reflect.ValueOf(key)
+	if !value.IsValid() || value.Type().AssignableTo(keyType) {
+		return value
+	}
+
+	if (keyType.Kind() == reflect.String) != (value.Kind() == reflect.String) || !value.Type().ConvertibleTo(keyType) {
+		return reflect.Value{}
+	}
+
+	converted := value.Convert(keyType)
+	if converted.Convert(value.Type()).Interface() != key {
+		return reflect.Value{}
+	}
+
+	return converted
+}
+
+//Lookup returns map value of the key, returned value is invalid if there is no such a key
+func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
+	keyType := aMap.Type().Key()
+	for _, candidate := range []reflect.Value{As(key, keyType), reflect.ValueOf(key)} {
+		if !candidate.IsValid() || !candidate.Type().AssignableTo(keyType) || !candidate.Type().Comparable() {
+			continue
+		}
+
+		if value := aMap.MapIndex(candidate); value.IsValid() {
+			return value
+		}
+	}
+
+	return reflect.Value{}
+}
-- 
2.43.0


From a9831dd5b81c6988923d21667fbaa75d53344a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 22/57] fix: single character and quoted quote function
 arguments were lost

---
 parser/matcher/argument.go | 8 ++++++++
 parser/select.go           | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/matcher/argument.go b/parser/matcher/argument.go
index dcc44bc..2d7b7d3 100644
--- a/parser/matcher/argument.go
+++ b/parser/matcher/argument.go
@@ -10,9 +10,17 @@ type argument struct {
 func (a *argument) Match(cursor *parsly.Cursor) (matched int) {
 	depth := 0
 	inQuote := false
+	escaped := false
 	for i := cursor.Pos; i < cursor.InputSize; i++ {
 		matched++
+		if escaped {
+			escaped = false
+			continue
+		}
+
 		switch cursor.Input[i] {
+		case '\\':
+			escaped = inQuote
 		case '(':
 			if !inQuote {
 				depth++
diff --git a/parser/select.go b/parser/select.go
index acc1435..83b03f0 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -174,7 +174,7 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for cursor.MatchOne(WhiteSpace); cursor.Pos < cursor.InputSize; cursor.MatchOne(WhiteSpace) {
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 132fbcb24390185064b449f9067006a1ddee68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 23/57] fix: functions returning interface rendered invalid
 memory

---
 est/op/func.go    | 6 ++++++
 est/op/operand.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index dfbb812..a715703 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -112,6 +112,12 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	}
 	if anIface != nil {
 		accumulator.SetValue(state.MemPtr, anIface)
+		if accumulator.Type.Kind() == reflect.Interface {
+			holder := reflect.New(accumulator.Type)
+			holder.Elem().Set(reflect.ValueOf(anIface))
+			return unsafe.Pointer(holder.Pointer())
+		}
+
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..b3658fd 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -135,6 +135,9 @@ func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
 	var anInterface interface{}
 	switch o.XType.Kind() {
 	case reflect.Interface:
+		if o.NamedIFace {
+			return reflect.NewAt(o.Type, valuePtr).Elem().Interface()
+		}
 		anInterface = xunsafe.AsInterface(valuePtr)
 	default:
 		anInterface = o.XType.Value(valuePtr)
-- 
2.43.0


From d039a8fd2c260d3e509e2c26ed53571f661ee771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 24/57] fix: function calls with mismatched arguments panicked
 or read invalid memory

---
 est/op/func.go | 85 ++++++++++++++++++++++++++++----------------------
 planner.go     |  8 +++++
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index a715703..30aedac 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -52,6 +52,7 @@ type (
 		isVariadic  bool
 		iFaceMethod bool
 		caller      reflect.Value
+		signature   reflect.Type
 	}
 
 	Function struct {
@@ -162,6 +163,10 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 	caller := f.caller
 	if f.iFaceMethod { //TODO optimize
 		owner := operands[0].ExecReflectValue(state)
+		if !owner.IsValid() || (owner.Kind() == reflect.Interface && owner.IsNil()) {
+			return nil, fmt.Errorf("can't call %v on nil", f.Name)
+		}
+
 		method := owner.MethodByName(f.Name)
 		caller = method
 		operands = operands[1:]
@@ -171,48 +176,52 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 		return nil, fmt.Errorf("too many non-variadic function argument: expected: %v, had: %v", f.maxArgs, len(operands))
 	}
 
-	switch len(operands) {
-	case 0:
-		return caller.Call([]reflect.Value{}), nil
-	case 1:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
-
-	case 2:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
-
-	case 3:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
-
-	case 4:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+	values := make([]reflect.Value, len(operands))
+	for i, operand := range operands {
+		values[i] = f.ensureValue(operand.ExecInterface(state), f.argType(i))
+		if !values[i].Type().AssignableTo(f.argType(i)) {
+			return nil, fmt.Errorf("unexpected %v argument[%v] type, expected %v but got %v", f.Name, i, f.argType(i), values[i].Type())
+		}
+	}
 
-	default:
-		values := make([]reflect.Value, 0, len(operands))
-		for i := 0; i < len(operands); i++ {
-			if i >= f.maxArgs && !f.isVariadic {
-				return nil, fmt.Errorf("too many non-variadic function arguments")
-			}
+	return caller.Call(values), nil
+}
+
+//CheckArgs returns an error if function can't be called with given operands
+func (f *Func) CheckArgs(operands []*Operand) error {
+	if f.signature == nil {
+		return nil
+	}
 
-			anInterface := operands[i].ExecInterface(state)
-			values = append(values, f.ensureValue(anInterface, operands[i].Type))
+	if f.iFaceMethod {
+		operands = operands[1:]
+	}
+
+	numIn := f.signature.NumIn()
+	if f.isVariadic {
+		numIn--
+	}
+
+	if len(operands) < numIn || (len(operands) > numIn && !f.isVariadic) {
+		return fmt.Errorf("unexpected number of %v arguments, expected %v but got %v", f.Name, numIn, len(operands))
+	}
+
+	for i, operand := range operands {
+		argType := f.argType(i)
+		if operand.Type == nil || (!operand.Type.AssignableTo(argType) && operand.Type.Kind() != reflect.Interface) {
+			return fmt.Errorf("unexpected %v argument[%v] type, expected %v but got %v", f.Name, i, argType, operand.Type)
 		}
+	}
 
-		return caller.Call(values), nil
+	return nil
+}
+
+func (f *Func) argType(index int) reflect.Type {
+	if f.isVariadic && index >= f.signature.NumIn()-1 {
+		return f.signature.In(f.signature.NumIn() - 1).Elem()
 	}
+
+	return f.signature.In(index)
 }
 
 func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Value {
@@ -313,6 +322,7 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
+			signature:  reflect.TypeOf(function),
 		}, nil
 	}
 
@@ -356,6 +366,7 @@ func (f *Functions) newFunc(name string, funcType reflect.Type, resultType refle
 		ResultType:  resultType,
 		XType:       xunsafe.NewType(resultType),
 		isVariadic:  funcType.IsVariadic(),
+		signature:   funcType,
 		maxArgs:     funcType.NumIn() + 1, //reflect.Method.Call require to pass a receiver as first Arg.
 
 	}
diff --git a/planner.go b/planner.go
index 4db0b3f..ef561a1 100644
--- a/planner.go
+++ b/planner.go
@@ -244,6 +244,10 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 		return opSelector, next, nil
 	}
 
+	if _, undefined := p.Functions.Method(nil, selector.ID, nil); err != nil && undefined == nil {
+		return nil, nil, err
+	}
+
 	resultSelector := p.selectorByName(selector.ID)
 	if resultSelector != nil {
 		return resultSelector, selector.X, nil
@@ -448,6 +452,10 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 		return nil, err
 	}
 
+	if err = aFunc.CheckArgs(operands); err != nil {
+		return nil, err
+	}
+
 	accumulator := p.accumulator(aFunc.ResultType)
 	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
 	newSelector.Args = operands
-- 
2.43.0


From 90812d26773afd60f9e7a4eb138ac318364e0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 25/57] fix: loop items of pointer, interface or changed type
 and nil conditions read invalid memory

---
 est/op/selectors.go | 14 ++++++--
 est/stmt/for.go     |  2 +-
 est/stmt/foreach.go | 80 ++++-----------------------------------------
 est/stmt/if.go      | 14 +++++---
 stmt.go             | 15 ++++++++-
 5 files changed, 44 insertions(+), 81 deletions(-)

diff --git a/est/op/selectors.go b/est/op/selectors.go
index 34b8555..4b57fc0 100644
--- a/est/op/selectors.go
+++ b/est/op/selectors.go
@@ -2,6 +2,7 @@ package op
 
 import (
 	"fmt"
+	"strings"
 )
 
 type Selectors struct {
@@ -43,12 +44,21 @@ func (s *Selectors) ById(selectorId string) (*Selector, bool) {
 	return s.selectors[index], true
 }
 
+//Remove forgets a selector with given id, and selectors of which ids start with prefix
+func (s *Selectors) Remove(id, prefix string) {
+	for candidate := range s.Index {
+		if candidate == id || strings.HasPrefix(candidate, prefix) {
+			delete(s.Index, candidate)
+		}
+	}
+}
+
 func (s *Selectors) Snapshot() *Selectors {
 	newSelectors := make([]*Selector, len(s.selectors))
 	copy(newSelectors, s.selectors)
 	index := map[string]int{}
-	for i, selector := range newSelectors {
-		index[selector.ID] = i
+	for id, i := range s.Index {
+		index[id] = i
 	}
 
 	return &Selectors{
diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..a633d74 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..9308853 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -14,72 +14,21 @@ type ForEach struct {
 	Item *op.Operand
 	X    *op.Operand
 
+	itemType reflect.Type
 	*xunsafe.Slice
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
-}
-
-func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
-}
-
-func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
-}
-
-func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
-	l := e.Slice.Len(xPtr)
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
+	return e.iterate(e.X.Exec(state), state)
 }
 
-func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
-	xPtr := *e.X.LiteralPtr
+func (e *ForEach) iterate(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		itemPtr := e.Item.Sel.Field.Pointer(state.MemPtr)
+		reflect.NewAt(e.itemType, itemPtr).Elem().Set(reflect.NewAt(e.itemType, e.Slice.PointerAt(xPtr, uintptr(i))).Elem())
 		resultPtr = e.Block(state)
 	}
 
@@ -107,22 +56,7 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 			return nil, err
 		}
 
-		switch loop.Slice.Elem().Kind() {
-		case reflect.Ptr:
-			if loop.X.Sel != nil && loop.X.Sel.Indirect {
-				return loop.computeIndirectPtr, nil
-			}
-			return loop.computePtr, nil
-		default:
-			if loop.X.Sel != nil && loop.X.Sel.Indirect {
-				return loop.computeIndirect, nil
-			}
-
-			if loop.X.Sel != nil {
-				return loop.compute, nil
-			}
-			return loop.computeLiteral, nil
-
-		}
+		loop.itemType = aSlice.Type.Elem()
+		return loop.compute, nil
 	}, nil
 }
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..950c594 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -76,7 +76,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	}
 
 	if rType == nil {
-		return nil, fmt.Errorf("couldn't determine type of the %v\n", condition.Selector.Name)
+		return nil, fmt.Errorf("couldn't determine type of the condition")
 	}
 
 	unify, err := converter.Unify(reflect.TypeOf(true), rType)
@@ -90,7 +90,6 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 
 	newOperand := &op2.Operand{}
 	if unify.Y != nil {
-		newOperand.SetUnifier(unify.Y)
 		rType = reflect.TypeOf(true)
 	}
 
@@ -147,11 +146,18 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	case reflect.Bool:
 		newOperand.Comp = func(state *est.State) unsafe.Pointer {
 			anPtr := anOperand.Exec(state)
-			return anPtr
+			if anPtr == nil {
+				return est.FalseValuePtr
+			}
+
+			if anPtr, err := unify.Y(anPtr); err == nil && anPtr != nil {
+				return anPtr
+			}
+			return est.FalseValuePtr
 		}
 
 	default:
-		return nil, fmt.Errorf("unsupported comparable type %v", condition.Type.Kind())
+		return nil, fmt.Errorf("unsupported comparable type %v", rType)
 	}
 
 	return newOperand, nil
diff --git a/stmt.go b/stmt.go
index 47530f0..f246d9e 100644
--- a/stmt.go
+++ b/stmt.go
@@ -127,7 +127,7 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 
 	itemType := sliceSelector.Type.Elem()
 
-	if err := p.DefineVariable(actual.Item.ID, itemType); err != nil {
+	if err := p.defineItem(actual.Item.ID, itemType); err != nil {
 		return nil, err
 	}
 
@@ -143,6 +143,19 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 	return stmt.ForEachLoop(block, selector, sliceSelector)
 }
 
+//defineItem defines loop item, the item that had other type so far refers to the new one since the loop
+func (p *Planner) defineItem(name string, itemType reflect.Type) error {
+	prev := p.selectorByName(name)
+	if prev == nil || prev.Type == itemType {
+		return p.DefineVariable(name, itemType)
+	}
+
+	p.selectors.Remove(name, name+fieldSeparator)
+	fieldName := p.newName()
+	field := p.Type.AddField(fieldName, fieldName, itemType)
+	return p.addSelectors("", field, name)
+}
+
 func nop() est.New {
 	return func(control est.Control) (est.Compute, error) {
 		return func(state *est.State) unsafe.Pointer {
-- 
2.43.0


From 8ceca6838ed83f2800711a861689ea729681522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 26/57] fix: non empty interfaces rendered invalid memory

---
 est/stmt/select.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..78787cc 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"time"
 	"unsafe"
@@ -85,7 +84,7 @@ func (a *directAppender) appendSelectorName() est.Compute {
 func (a *directAppender) newInterfaceAppender() est.Compute {
 	return func(state *est.State) unsafe.Pointer {
 		exec := a.x.Exec(state)
-		iface := xunsafe.AsInterface(exec)
+		iface := a.x.AsInterface(exec)
 		switch actual := iface.(type) {
 		case string:
 			state.Buffer.AppendString(actual)
-- 
2.43.0


From ccd66853ac935f97efcb60fb9d6982a9c67dea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 27/57] fix: assigning a value of other type skipped its
 conversion

---
 est/stmt/assign/assign.go | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index bc68eae..6c5e72b 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -4,6 +4,7 @@ import (
 	"github.com/viant/velty/est"
 	op2 "github.com/viant/velty/est/op"
 	"github.com/viant/xunsafe"
+	"github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
@@ -243,6 +244,37 @@ func (a *assign) assignValue() est.Compute {
 	}
 }
 
+//assignConverted assigns y converted to the x type
+func (a *assign) assignConverted(convert converter.UnifyFn) est.Compute {
+	return func(state *est.State) unsafe.Pointer {
+		dest := reflect.NewAt(a.x.Type, a.x.Exec(state)).Elem()
+		src := a.y.Exec(state)
+		if src != nil {
+			converted, err := convert(src)
+			if err != nil {
+				state.AddError(err)
+				return nil
+			}
+			src = converted
+		}
+
+		if src == nil {
+			dest.Set(reflect.Zero(a.x.Type))
+			return nil
+		}
+
+		value := reflect.NewAt(a.x.Type, src).Elem()
+		if value.Kind() == reflect.Ptr && !value.IsNil() { //converted value may still point to y
+			ptr := reflect.New(value.Type().Elem())
+			ptr.Elem().Set(value.Elem())
+			value = ptr
+		}
+
+		dest.Set(value)
+		return src
+	}
+}
+
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		x, err := xExpr.Operand(control, op2.Writable(true))
@@ -250,6 +282,17 @@ func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 			return nil, err
 		}
 
+		if convert := yExpr.Unify; convert != nil {
+			yCopy := *yExpr
+			yCopy.Unify = nil
+			y, err := yCopy.Operand(control)
+			if err != nil {
+				return nil, err
+			}
+
+			return (&assign{x: x, y: y}).assignConverted(convert), nil
+		}
+
 		y, err := yExpr.Operand(control, op2.ShouldRefLast(yExpr.Type.Kind() == reflect.Ptr))
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 80973f63439a13a936216bd711cc7a275c2682e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 28/57] fix: a reference to an unknown variable was HTML
 escaped instead of rendered as written

---
 est/stmt/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 78787cc..29ec05e 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -76,7 +76,7 @@ func (a *directAppender) newAppendFloatIndirect() est.Compute {
 func (a *directAppender) appendSelectorName() est.Compute {
 	asPtr := unsafe.Pointer(&a.x.Sel.Placeholder)
 	return func(state *est.State) unsafe.Pointer {
-		state.Buffer.AppendString(a.x.Sel.Placeholder)
+		state.Buffer.AppendStringWithoutEscaping(a.x.Sel.Placeholder)
 		return asPtr
 	}
 }
-- 
2.43.0


From 16d2651004e941b797270b7c0d7b377e7c9eb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 29/57] fix: string and number expressions used as conditions
 were read as bool

---
 est/stmt/if.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index 950c594..9559cb3 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -71,10 +71,6 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
-		rType = reflect.TypeOf(true)
-	}
-
 	if rType == nil {
 		return nil, fmt.Errorf("couldn't determine type of the condition")
 	}
-- 
2.43.0


From 3b5478aac5986efa2e8a1f787a40c35d16741059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 30/57] fix: references in braces after a character that begins
 no construct were not rendered

---
 parser/parser.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0fbaae3..3434ea5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
+	"github.com/viant/velty/parser/matcher"
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -44,6 +45,10 @@ outer:
 		case '$':
 			statement, err := MatchSelector(cursor)
 			if err != nil {
+				if !beginsSelector(input[lastPosition+1:]) {
+					cursor.Pos = lastPosition + 1
+				}
+
 				rawValue := cursor.Input[lastPosition:cursor.Pos]
 				if errr := builder.PushStatement(appendToken, stmt.NewAppend(string(rawValue))); errr != nil {
 					return nil, cursorErr(cursor, errr)
@@ -63,6 +68,10 @@ outer:
 
 			statement, match, err := matchStatement(cursor)
 			if err != nil {
+				if !beginsStatement(input[lastPosition+1:]) {
+					cursor.Pos = lastPosition + 1
+				}
+
 				rawValue := cursor.Input[lastPosition:cursor.Pos]
 				if errr := builder.PushStatement(appendToken, stmt.NewAppend(string(rawValue))); errr != nil {
 					return nil, cursorErr(cursor, errr)
@@ -83,6 +92,25 @@ outer:
 	return builder.Block(), nil
 }
 
+//beginsSelector checks if text after '$' begins a selector, otherwise '$' is a regular character
+func beginsSelector(text []byte) bool {
+	text = bytes.TrimPrefix(text, []byte("!"))
+	text = bytes.TrimLeft(text, "{")
+	return len(text) > 0 && matcher.IsLetter(text[0])
+}
+
+//beginsStatement checks if text after '#' begins a statement, otherwise '#' is a regular character
+func beginsStatement(text []byte) bool {
+	text = bytes.TrimLeft(text, "{ \t\r\n\v\f")
+	for _, keyword := range []string{"if", "else", "set", "for", "evaluate", "end"} {
+		if bytes.HasPrefix(text, []byte(keyword)) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
 	const begin, end = "[[", "]]#"
 	text := cursor.Input[cursor.Pos:]
-- 
2.43.0


From c737c4bd1568666ddc3356ee18f5533f17875f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 31/57] fix: silent braced reference to an unknown variable
 lost its exclamation mark

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3434ea5..241368b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -55,6 +55,7 @@ outer:
 				}
 				continue outer
 			}
+			statement.FullName = string(cursor.Input[lastPosition:cursor.Pos])
 			builder.appendStatement(statement)
 
 		case '#':
-- 
2.43.0


From 62f0c62331253b115d0232a7d2d731aa7c7f4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 32/57] fix: variable which name contained field separator was
 resolved as a field of other variable

---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index ef561a1..f4a3c18 100644
--- a/planner.go
+++ b/planner.go
@@ -14,7 +14,7 @@ import (
 )
 
 const (
-	fieldSeparator = "___"
+	fieldSeparator = "." //can not be a part of a variable name
 )
 
 var TimeType = reflect.TypeOf(time.Time{})
-- 
2.43.0


From ff59fdea448c8fb4a109316631f1140f932764e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 33/57] fix: comma inside of a loop source was taken for the
 start of an index variable

---
 parser/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lex.go b/parser/lex.go
index 21fef88..53fda60 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -132,7 +132,7 @@ var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("
 var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
 var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
-var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
+var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewByte(','))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
 var Dot = parsly.NewToken(dotToken, "Dot", matcher.NewByte('.'))
 
-- 
2.43.0


From 4098ff6735d5ed2e5d9d750ceed34e964ebea46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 34/57] fix: empty slices were taken for true conditions

---
 est/stmt/if.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index 9559cb3..0ec7e34 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -85,7 +85,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
+	if unify.Y != nil && rType.Kind() != reflect.Slice {
 		rType = reflect.TypeOf(true)
 	}
 
-- 
2.43.0


From 18f9363044c2d74477b2d190b2ebdde66303d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 35/57] fix: paths and calls continuing after an element that
 is a pointer read invalid memory

---
 est/op/selector.go | 5 +++++
 est/op/slice.go    | 7 ++++++-
 est/op/upstream.go | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index 266f491..c9d00f2 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -168,3 +168,8 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 		elemKind:     elemKind,
 	}
 }
+
+//holdsPointer returns true if a selector addresses an element that is a pointer
+func (s *Selector) holdsPointer() bool {
+	return (s.Slice != nil || s.Map != nil) && s.Type.Kind() == reflect.Ptr
+}
diff --git a/est/op/slice.go b/est/op/slice.go
index cbbfb39..a27aeb6 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
+	"reflect"
 	"unsafe"
 )
 
@@ -28,6 +29,10 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
+	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
+		return xunsafe.DerefPointer(itemPtr)
+	}
 
+	return itemPtr
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 799b1ca..1c5314a 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -76,7 +76,7 @@ func upstream(selector *Selector, derefLast bool, refLast bool, writable bool) f
 					copy(args, parents[i].Args)
 					newArg := *args[0]
 					newArg.Comp = nil
-					if parents[i-1].Func != nil {
+					if parents[i-1].Func != nil || parents[i-1].holdsPointer() {
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
 						newArg.Value = newArg.AsInterface(ptr)
-- 
2.43.0


From 097aa55df5e6e65d102db6c63d59b2cdd91afa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 36/57] fix: result of a function returning a small integer
 overwrote adjacent state memory

---
 est/op/func.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index 30aedac..c614f66 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -112,7 +112,10 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		state.AddError(err)
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		if value := reflect.ValueOf(anIface); value.Type().AssignableTo(accumulator.Type) {
+			reflect.NewAt(accumulator.Type, accumulator.Pointer(state.MemPtr)).Elem().Set(value)
+		}
+
 		if accumulator.Type.Kind() == reflect.Interface {
 			holder := reflect.New(accumulator.Type)
 			holder.Elem().Set(reflect.ValueOf(anIface))
-- 
2.43.0


From 508f9b5cd731d48c6386b8ecfb0514f46b609cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 37/57] fix: a full stop after a reference kept it from being
 rendered

---
 parser/operand.go |  4 ++++
 parser/select.go  | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/parser/operand.go b/parser/operand.go
index 8496cf3..c2f6609 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -66,6 +66,10 @@ func matchTerm(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Toke
 			return nil, nil, err
 		}
 
+		if cursor.Pos < cursor.InputSize && cursor.Input[cursor.Pos] == '.' { //no field name follows
+			return nil, nil, cursor.NewError(Selector)
+		}
+
 		matcher = Selector
 
 	case numberToken:
diff --git a/parser/select.go b/parser/select.go
index 83b03f0..1f228b4 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -107,9 +107,14 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 
 func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	candidates := []*parsly.Token{Parentheses, Dot, SquareBrackets}
+	pos := cursor.Pos
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
+		if !isSelectorStart(cursor) { //a full stop after the reference, not a field
+			cursor.Pos = pos
+			return nil, nil
+		}
 		return MatchSelector(cursor)
 	case parenthesesToken:
 		id := matched.Text(cursor)
@@ -147,6 +152,20 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	return nil, nil
 }
 
+//isSelectorStart reports whether a name may begin at the cursor position
+func isSelectorStart(cursor *parsly.Cursor) bool {
+	if cursor.Pos >= cursor.InputSize {
+		return false
+	}
+
+	switch c := cursor.Input[cursor.Pos]; {
+	case c == '!', c == '{':
+		return true
+	default:
+		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
+	}
+}
+
 func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 	candidates := []*parsly.Token{Selector, SelectorBlock}
 	matched := cursor.MatchAny(candidates...)
-- 
2.43.0


From 31c61d5b50da2ca7c4c6594baee5115f0a9dbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 38/57] fix: slice indexes of other integer types than int read
 adjacent memory

---
 est/op/slice.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index a27aeb6..ec1d32b 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -3,6 +3,7 @@ package op
 import (
 	"fmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
 	"reflect"
@@ -19,12 +20,11 @@ type Slice struct {
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	sliceLen := s.XSlice.Len(slicePtr)
 
-	indexPtr := s.IndexOperand.Exec(state)
-	if indexPtr == nil {
+	index, ok := s.index(state)
+	if !ok {
 		return nil
 	}
 
-	index := *(*int)(indexPtr)
 	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
@@ -36,3 +36,25 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 
 	return itemPtr
 }
+
+func (s *Slice) index(state *est.State) (int, bool) {
+	indexType := s.IndexOperand.Type
+	if indexType.Kind() == reflect.Ptr {
+		indexType = indexType.Elem()
+	}
+
+	if indexType.Kind() == reflect.Int {
+		indexPtr := s.IndexOperand.Exec(state)
+		if indexPtr == nil {
+			return 0, false
+		}
+		return *(*int)(indexPtr), true
+	}
+
+	key := s.IndexOperand.ExecInterface(state)
+	index := keys.As(key, intType)
+	if !index.IsValid() {
+		panic(fmt.Sprintf("unsupported slice index %v", key))
+	}
+	return int(index.Int()), true
+}
-- 
2.43.0


From 9a610f0fbdfb1c52d8a21676cc8dffa63297c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:00 +0000
Subject: [PATCH 39/57] fix: foreach read past the end of a slice assigned
 within the loop

---
 est/stmt/foreach.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 9308853..82106ed 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -23,6 +23,8 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) iterate(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
+	slice := *(*[]byte)(xPtr) //the variable holding the slice can be assigned within the loop
+	xPtr = unsafe.Pointer(&slice)
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
-- 
2.43.0


From bdd79764df8f1e6ecb9746ea66346a24008da048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 40/57] fix: setting a value of another type corrupted state
 memory or panicked

---
 est/state.go | 68 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/est/state.go b/est/state.go
index dae0cef..4c1db13 100644
--- a/est/state.go
+++ b/est/state.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"github.com/viant/xunsafe"
 	"reflect"
-	"strings"
 	"sync"
 	"unsafe"
 )
@@ -27,33 +26,57 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
-	if setSameType(xField, s.MemPtr, v) {
-		return nil
-	}
-
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
+	if err := setField(xField, s.MemPtr, v); err != nil {
+		return fmt.Errorf("failed to set %v: %w", k, err)
 	}
 
 	return nil
 }
 
-//setSameType copies value of the field type, it copies neither more bytes than the field has, nor the data a pointer shaped struct points to
-func setSameType(xField *xunsafe.Field, ptr unsafe.Pointer, v interface{}) bool {
+//setField sets a value of the field type, of a type convertible to it, a pointer to such value, or a value if the field is a pointer
+func setField(xField *xunsafe.Field, ptr unsafe.Pointer, v interface{}) error {
+	dest := reflect.NewAt(xField.Type, xField.Pointer(ptr)).Elem()
 	value := reflect.ValueOf(v)
-	if !value.IsValid() || value.Type() != xField.Type {
-		return false
+	if !value.IsValid() {
+		switch dest.Kind() {
+		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan:
+			dest.Set(reflect.Zero(dest.Type()))
+			return nil
+		}
+
+		return fmt.Errorf("nil is not a value of %v", dest.Type())
 	}
 
-	reflect.NewAt(xField.Type, xField.Pointer(ptr)).Elem().Set(value)
-	return true
+	if isSettable(value.Type(), dest.Type()) {
+		dest.Set(value.Convert(dest.Type()))
+		return nil
+	}
+
+	if value.Kind() == reflect.Ptr && !value.IsNil() && isSettable(value.Type().Elem(), dest.Type()) {
+		dest.Set(value.Elem().Convert(dest.Type()))
+		return nil
+	}
+
+	if dest.Kind() == reflect.Ptr && isSettable(value.Type(), dest.Type().Elem()) {
+		holder := reflect.New(dest.Type().Elem())
+		holder.Elem().Set(value.Convert(dest.Type().Elem()))
+		dest.Set(holder)
+		return nil
+	}
+
+	return fmt.Errorf("%v is not a value of %v", value.Type(), dest.Type())
+}
+
+func isSettable(rType, fieldType reflect.Type) bool {
+	return rType.AssignableTo(fieldType) || (rType.Kind() == fieldType.Kind() && rType.ConvertibleTo(fieldType))
 }
 
 func (s *State) EmbedValue(v interface{}) error {
 	vType := reflect.TypeOf(v)
+	if vType == nil {
+		return fmt.Errorf("not found holder for %T", v)
+	}
+
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
 		vType = vType.Elem()
 	}
@@ -65,7 +88,7 @@ func (s *State) EmbedValue(v interface{}) error {
 			return fmt.Errorf("not found holder for %T", v)
 		}
 	} else {
-		holderName = strings.Split(vType.String(), ".")[1]
+		holderName = s.StateType.typeName(vType)
 	}
 
 	xField, ok := s.StateType.ValueAccessor(holderName)
@@ -73,15 +96,8 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
-	if setSameType(xField, s.MemPtr, v) {
-		return nil
-	}
-
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
+	if err := setField(xField, s.MemPtr, v); err != nil {
+		return fmt.Errorf("failed to embed %v: %w", holderName, err)
 	}
 
 	return nil
-- 
2.43.0


From 4ead553bfc3ab0112da344337be5047e97ee4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 41/57] fix: embedding types with methods, repeated and
 unexported types panicked

---
 est/type.go | 17 +++++++++++++++--
 planner.go  | 17 +++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/est/type.go b/est/type.go
index f60d3b1..0543d71 100644
--- a/est/type.go
+++ b/est/type.go
@@ -35,6 +35,18 @@ func (t *Type) ValueAccessors() []*xunsafe.Field {
 	return t.xFields
 }
 
+//IsEmbedded returns true if a field was already added under the name the type would be embedded with
+func (t *Type) IsEmbedded(rType reflect.Type) (string, bool) {
+	id := t.typeName(rType)
+	if id == "" {
+		_, ok := t.anonymousFields[rType.String()]
+		return rType.String(), ok
+	}
+
+	_, ok := t.fieldsIndex[id]
+	return id, ok
+}
+
 func (t *Type) EmbedType(rType reflect.Type) reflect.StructField {
 	id := t.typeName(rType)
 
@@ -69,16 +81,17 @@ func (t *Type) addField(id string, name string, rType reflect.Type, anonymous bo
 		}
 	}
 
-	if name[0] > 'Z' && !anonymous {
+	if name[0] > 'Z' {
 		pkg = defaultPkg
 	}
 
-	field := reflect.StructField{Name: name, Type: rType, PkgPath: pkg, Anonymous: anonymous}
+	field := reflect.StructField{Name: name, Type: rType, PkgPath: pkg} //reflect does not embed types with methods, unless they are the first field
 	t.fields = append(t.fields, field)
 	t.Type = reflect.StructOf(t.fields)
 
 	field = t.Type.Field(len(t.fields) - 1)
 	t.fields[len(t.fields)-1] = field
+	field.Anonymous = anonymous
 	t.xFields = append(t.xFields, xunsafe.NewField(field))
 	t.fieldsIndex[id] = len(t.fields) - 1
 	return field
diff --git a/planner.go b/planner.go
index f4a3c18..2270897 100644
--- a/planner.go
+++ b/planner.go
@@ -44,6 +44,14 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 		rType = reflect.TypeOf(val)
 	}
 
+	if rType == nil {
+		return fmt.Errorf("unable to embed nil, its type is unknown")
+	}
+
+	if name, ok := p.Type.IsEmbedded(rType); ok {
+		return fmt.Errorf("%v was already declared", name)
+	}
+
 	field := p.Type.EmbedType(rType)
 	vTag := Parse(field.Tag.Get(velty))
 
@@ -195,6 +203,15 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 	default:
 		sType = reflect.TypeOf(v)
 	}
+
+	if sType == nil {
+		return fmt.Errorf("unable to define %v, type of nil is unknown", name)
+	}
+
+	if _, ok := p.Type.ValueAccessor(name); ok {
+		return fmt.Errorf("%v was already declared", name)
+	}
+
 	field := p.Type.AddField(name, name, sType)
 	if err := p.addSelectors("", field, name); err != nil {
 		return err
-- 
2.43.0


From 8a5886b3b2d1ec41bec4fefb35bf3a6d8bf82f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 42/57] fix: prefixed names of embedded fields were rejected
 behind a variable

---
 planner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner.go b/planner.go
index 2270897..07b97c4 100644
--- a/planner.go
+++ b/planner.go
@@ -300,8 +300,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return p.tryMatchCall(actual.X, resultSelector, actual.ID)
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
+		if parentType.Kind() != reflect.Struct {
+			_, err = p.fieldByName(parentType, actual, actual.ID)
 			return nil, nil, err
 		}
 
@@ -310,6 +310,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 		resultSelector, found = p.selectors.ById(selectorId)
 		if !found {
 			if resultSelector = p.newFieldSelector(selectorId, parentType, actual.ID, nil); resultSelector == nil {
+				if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+					return nil, nil, err
+				}
+
 				return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 			}
 		}
-- 
2.43.0


From ca703894ee774af8819daf66d3171027e6239cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 43/57] fix: evaluated templates saw variables declared after
 the directive

---
 evaluate.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index beb080e..54ef361 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -13,11 +13,12 @@ type evaluator struct {
 	cache   *cache
 	control est.Control
 	parent  *Planner
+	scope   *Planner //what was declared before the directive
 }
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	key := cacheKey{parent: e.parent, scope: e.parent.Type.Type, text: varValue}
+	key := cacheKey{parent: e.parent, scope: e.scope.Type.Type, text: varValue}
 	if cacheValue, ok := e.cache.expression(key); ok {
 		return e.exec(cacheValue.planner, cacheValue.compute, state)
 	}
@@ -27,7 +28,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 		return est.EmptyStringPtr
 	}
 
-	evaluatorPlanner := e.parent.New()
+	evaluatorPlanner := e.scope.New()
 	compute, err := evaluatorPlanner.newCompute(block)
 	if err != nil {
 		return est.EmptyStringPtr
@@ -47,9 +48,9 @@ func (e *evaluator) exec(planner *Planner, compute est.Compute, state *est.State
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
-	//evaluated template type extends the state type
-	stateType := reflect.TypeOf(state.Mem).Elem()
-	reflect.NewAt(stateType, newState.MemPtr).Elem().Set(reflect.NewAt(stateType, state.MemPtr).Elem())
+	//both the evaluated template type and the state type extend the scope type
+	scopeType := e.scope.Type.Type
+	reflect.NewAt(scopeType, newState.MemPtr).Elem().Set(reflect.NewAt(scopeType, state.MemPtr).Elem())
 
 	newState.Buffer = state.Buffer
 	newState.PanicOnError = state.PanicOnError
@@ -57,6 +58,7 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 }
 
 func evaluate(expr *op.Expression, cache *cache, parent *Planner) (est.New, error) {
+	scope := parent.New()
 	return func(control est.Control) (est.Compute, error) {
 		x, err := expr.Operand(control)
 		if err != nil {
@@ -68,6 +70,7 @@ func evaluate(expr *op.Expression, cache *cache, parent *Planner) (est.New, erro
 			cache:   cache,
 			control: control,
 			parent:  parent,
+			scope:   scope,
 		}).compute, nil
 	}, nil
 }
-- 
2.43.0


From fb71e0479fbe163b63587513d54934e9207ac644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 44/57] fix: whitespace after a reference in a quoted string
 was dropped

---
 parser/operand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/operand.go b/parser/operand.go
index c2f6609..6f679e6 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	ast2 "github.com/viant/velty/ast"
 	aexpr "github.com/viant/velty/ast/expr"
+	"unicode"
 )
 
 var dataTypeMatchers = []*parsly.Token{String, Boolean, Number}
@@ -99,7 +100,7 @@ func matchTerm(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Toke
 			if err != nil {
 				expression = aexpr.StringLiteral(value[:len(value)-1])
 			} else {
-				if _, ok := expression.(*aexpr.Select); !ok || value[0] != '$' || newCursor.Pos < newCursor.InputSize {
+				if _, ok := expression.(*aexpr.Select); !ok || value[0] != '$' || newCursor.Pos < newCursor.InputSize || unicode.IsSpace(rune(value[len(value)-2])) {
 					expression = aexpr.StringLiteral(value[:len(value)-1])
 				}
 			}
-- 
2.43.0


From d490fbce14bc9b7bd956cb501fbfd2698feb42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 45/57] fix: a result returned together with an error was
 rendered

---
 est/op/func.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/est/op/func.go b/est/op/func.go
index c614f66..4800362 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -110,6 +110,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	anIface, err := f.Function(operands, state)
 	if err != nil {
 		state.AddError(err)
+		anIface = reflect.Zero(accumulator.Type).Interface() //a result returned with an error is ignored
 	}
 	if anIface != nil {
 		if value := reflect.ValueOf(anIface); value.Type().AssignableTo(accumulator.Type) {
-- 
2.43.0


From 8fe34220d84bd91bc5d63e0d687a05fad79ee50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 46/57] fix: optimized functions read an interface argument as
 if it was the value it holds

---
 est/op/func.go | 23 ++++++++++++++++++++++-
 planner.go     |  1 +
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index 4800362..d3aa5d6 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -220,6 +220,24 @@ func (f *Func) CheckArgs(operands []*Operand) error {
 	return nil
 }
 
+//ForArgs returns a function that can be called with given operands, discovered functions read arguments directly
+//so can't be called with the values held by an interface
+func (f *Func) ForArgs(operands []*Operand) *Func {
+	if !f.caller.IsValid() {
+		return f
+	}
+
+	for _, operand := range operands {
+		if operand.Type != nil && operand.Type.Kind() == reflect.Interface {
+			reflected := *f
+			reflected.Function = reflected.callFunc
+			return &reflected
+		}
+	}
+
+	return f
+}
+
 func (f *Func) argType(index int) reflect.Type {
 	if f.isVariadic && index >= f.signature.NumIn()-1 {
 		return f.signature.In(f.signature.NumIn() - 1).Elem()
@@ -320,13 +338,16 @@ func (f *Functions) RegisterFunction(name string, function interface{}) error {
 
 func (f *Functions) NewFunc(name string, function interface{}, resultType reflect.Type) (*Func, error) {
 	if discoveredFn, rType, discovered := f.discover(nil, function); discovered {
+		signature := reflect.TypeOf(function)
 		return &Func{
 			Name:       name,
 			Function:   discoveredFn,
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
-			signature:  reflect.TypeOf(function),
+			signature:  signature,
+			caller:     reflect.ValueOf(function),
+			maxArgs:    signature.NumIn() + 1,
 		}, nil
 	}
 
diff --git a/planner.go b/planner.go
index 07b97c4..96c34b1 100644
--- a/planner.go
+++ b/planner.go
@@ -477,6 +477,7 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 		return nil, err
 	}
 
+	aFunc = aFunc.ForArgs(operands)
 	accumulator := p.accumulator(aFunc.ResultType)
 	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
 	newSelector.Args = operands
-- 
2.43.0


From ba9ac028fb58578d3db0c236f7f29988d971e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 47/57] fix: functions without parameters could be registered
 and compiled but not called

---
 est/op/func.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index d3aa5d6..b64a1b2 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -133,10 +133,6 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 }
 
 func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
-		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
-	}
-
 	result, err := f.execute(operands, state)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b6a428933e47eed27906863338f86fe1e8d866ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 48/57] fix: methods called on a map entry of an interface type
 read the interface as an empty one

---
 est/op/map.go      | 19 ++++++++++---------
 est/op/selector.go |  4 +---
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/est/op/map.go b/est/op/map.go
index a4447a6..863a046 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -11,8 +11,7 @@ import (
 type Map struct {
 	mapOperand   *Operand
 	indexOperand *Operand
-	isValueIface bool
-	elemKind     reflect.Kind
+	elemType     reflect.Type
 }
 
 func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
@@ -32,17 +31,19 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	iface := actualValue.Interface()
-	if m.isValueIface {
-		return unsafe.Pointer(&iface)
-	}
-
-	switch m.elemKind {
+	switch m.elemType.Kind() {
+	case reflect.Interface:
+		if !actualValue.Type().AssignableTo(m.elemType) {
+			return nil
+		}
+		holder := reflect.New(m.elemType)
+		holder.Elem().Set(actualValue)
+		return unsafe.Pointer(holder.Pointer())
 	case reflect.Map, reflect.Slice:
 		holder := reflect.New(actualValue.Type())
 		holder.Elem().Set(actualValue)
 		return unsafe.Pointer(holder.Pointer())
 	default:
-		return xunsafe.AsPointer(iface)
+		return xunsafe.AsPointer(actualValue.Interface())
 	}
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index c9d00f2..7439ba6 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -160,12 +160,10 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 		rType = rType.Elem()
 	}
 
-	elemKind := rType.Kind()
 	return &Map{
 		mapOperand:   mapOperand,
 		indexOperand: indexOperand,
-		isValueIface: elemKind == reflect.Interface,
-		elemKind:     elemKind,
+		elemType:     rType,
 	}
 }
 
-- 
2.43.0


From da14284f3a75abdb82b05681cb8eec871e5d6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 49/57] fix: results of calls other than pointers were taken
 for pointers when calling a function on them

---
 est/op/selector.go | 4 ++--
 est/op/upstream.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index 7439ba6..4882702 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -167,7 +167,7 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 	}
 }
 
-//holdsPointer returns true if a selector addresses an element that is a pointer
+//holdsPointer returns true if a selector addresses an element or a result that is a pointer
 func (s *Selector) holdsPointer() bool {
-	return (s.Slice != nil || s.Map != nil) && s.Type.Kind() == reflect.Ptr
+	return (s.Slice != nil || s.Map != nil || s.Func != nil) && s.Type.Kind() == reflect.Ptr
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 1c5314a..f9cc1fd 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -76,7 +76,7 @@ func upstream(selector *Selector, derefLast bool, refLast bool, writable bool) f
 					copy(args, parents[i].Args)
 					newArg := *args[0]
 					newArg.Comp = nil
-					if parents[i-1].Func != nil || parents[i-1].holdsPointer() {
+					if parents[i-1].holdsPointer() {
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
 						newArg.Value = newArg.AsInterface(ptr)
-- 
2.43.0


From 9024294789a296628e855cbcae54d803aaa6b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 50/57] fix: results of a declared type were kept in the memory
 of an interface

---
 est/op/func.go |  6 ++++--
 planner.go     | 13 +++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index b64a1b2..5b6a8d7 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -123,8 +123,10 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 			return unsafe.Pointer(holder.Pointer())
 		}
 
-		if f.XType.Type().Kind() == reflect.Map {
-			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
+		if value := reflect.ValueOf(anIface); value.Kind() == reflect.Map {
+			holder := reflect.New(value.Type())
+			holder.Elem().Set(value)
+			return unsafe.Pointer(holder.Pointer())
 		}
 		return xunsafe.AsPointer(anIface)
 	}
diff --git a/planner.go b/planner.go
index 96c34b1..e0ce3bb 100644
--- a/planner.go
+++ b/planner.go
@@ -478,21 +478,22 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 	}
 
 	aFunc = aFunc.ForArgs(operands)
-	accumulator := p.accumulator(aFunc.ResultType)
-	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
-	newSelector.Args = operands
-	newSelector.Type = aFunc.ResultType
-	if newSelector.Type == xreflect.InterfaceType {
+	resultType := aFunc.ResultType
+	if resultType == xreflect.InterfaceType {
 		actualType, err := p.Functions.TryDetectResultType(prev, methodName, call)
 		if err != nil {
 			return nil, err
 		}
 
 		if actualType != nil {
-			newSelector.Type = actualType
+			resultType = actualType
 		}
 	}
 
+	accumulator := p.accumulator(resultType)
+	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
+	newSelector.Args = operands
+	newSelector.Type = resultType
 	return newSelector, nil
 }
 
-- 
2.43.0


From 1bc7b40e055ce997ba5032d32711f8e9840a5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 51/57] fix: json.UnmarshalInto without a TypeParser panicked
 when compiling

---
 functions/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..e719803 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -22,7 +22,7 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 		}
 
 		asLiteral, ok := args[1].(*expr.Literal)
-		if !ok {
+		if !ok || n.parser == nil {
 			return nil, nil
 		}
 
-- 
2.43.0


From ddb22b1740dff720265849c46a2be594141ca1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 52/57] fix: rendering an interface holding a nil *time.Time
 panicked

---
 est/stmt/select.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 29ec05e..42b7714 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -95,6 +95,10 @@ func (a *directAppender) newInterfaceAppender() est.Compute {
 		case time.Time:
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case *time.Time:
+			if actual == nil {
+				state.Buffer.AppendString(fmt.Sprintf("%v", iface))
+				break
+			}
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case bool:
 			state.Buffer.AppendBool(actual)
-- 
2.43.0


From 0d1a05a12b0b4f9346d3988b034ba405479a21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 53/57] fix: large unsigned values were compared to pointers as
 negative numbers

---
 binary.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/binary.go b/binary.go
index 7e9eb18..435886a 100644
--- a/binary.go
+++ b/binary.go
@@ -29,7 +29,8 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, fmt.Errorf("couldn't determine operand type of the %v expression", actual.Token)
 	}
 
-	unify, err := unifyOperands(x.Type, y.Type)
+	comparison := precedence(actual.Token) == comparisonPrecedence
+	unify, err := unifyOperands(x.Type, y.Type, comparison)
 	if err != nil {
 		return nil, err
 	}
@@ -37,7 +38,6 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	comparison := precedence(actual.Token) == comparisonPrecedence
 	if comparison && (x.Type.Kind() == reflect.Ptr || y.Type.Kind() == reflect.Ptr) && unify.RType.Kind() != reflect.Ptr {
 		x.Type = reflect.PtrTo(unify.RType)
 	} else if x.Type.Kind() != reflect.Ptr {
@@ -64,7 +64,21 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 }
 
 //unifyOperands returns functions converting both operands to the common, non pointer type
-func unifyOperands(x, y reflect.Type) (*types.Unified, error) {
+func unifyOperands(x, y reflect.Type, comparison bool) (*types.Unified, error) {
+	if comparison && x.Kind() == reflect.Ptr && x.Elem() == y && types.IsPrimitive(y) {
+		unify, err := types.Unify(y, x)
+		if err != nil {
+			return nil, err
+		}
+
+		unify.X, unify.Y = unify.Y, unify.X
+		return unify, nil
+	}
+
+	if comparison && y.Kind() == reflect.Ptr && y.Elem() == x && types.IsPrimitive(x) {
+		return types.Unify(x, y)
+	}
+
 	if x != y || x.Kind() != reflect.Ptr || !types.IsPrimitive(x.Elem()) {
 		return types.NormalizeAndUnify(x, y)
 	}
-- 
2.43.0


From 86036a1d93fada50e1785c046720c0560132d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 54/57] fix: arguments received as interface values shared
 memory with the state and changed when it was assigned

---
 est/op/func.go     |  4 ++--
 est/op/operand.go  | 17 +++++++++++++++++
 est/op/upstream.go |  3 +--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 5b6a8d7..b33c347 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -180,7 +180,7 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 
 	values := make([]reflect.Value, len(operands))
 	for i, operand := range operands {
-		values[i] = f.ensureValue(operand.ExecInterface(state), f.argType(i))
+		values[i] = f.ensureValue(operand.ExecArgument(state), f.argType(i))
 		if !values[i].Type().AssignableTo(f.argType(i)) {
 			return nil, fmt.Errorf("unexpected %v argument[%v] type, expected %v but got %v", f.Name, i, f.argType(i), values[i].Type())
 		}
@@ -275,7 +275,7 @@ func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, st
 				ifaces := make([]interface{}, len(operands))
 				ifaces[0] = receiver
 				for i := 1; i < len(operands); i++ {
-					ifaces[i] = operands[i].ExecInterface(state)
+					ifaces[i] = operands[i].ExecArgument(state)
 				}
 
 				return handler(ifaces...)
diff --git a/est/op/operand.go b/est/op/operand.go
index b3658fd..e836484 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -79,6 +79,23 @@ func (o *Operand) ExecInterface(state *est.State) interface{} {
 	return o.AsInterface(valuePtr)
 }
 
+//ExecArgument returns a value that can be kept by a called function, it does not share memory with the state
+func (o *Operand) ExecArgument(state *est.State) interface{} {
+	return o.asArgument(o.Exec(state))
+}
+
+func (o *Operand) asArgument(valuePtr unsafe.Pointer) interface{} {
+	if valuePtr == nil || o.Value != nil || o.LiteralPtr != nil {
+		return o.AsInterface(valuePtr)
+	}
+
+	switch o.XType.Kind() {
+	case reflect.Interface, reflect.Func:
+		return o.AsInterface(valuePtr)
+	}
+	return reflect.NewAt(o.XType.Type(), valuePtr).Elem().Interface()
+}
+
 func (o *Operand) ExecReflectValue(state *est.State) reflect.Value {
 	if o.Value != nil {
 		return reflect.ValueOf(o.Value)
diff --git a/est/op/upstream.go b/est/op/upstream.go
index f9cc1fd..436dd73 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -79,8 +79,7 @@ func upstream(selector *Selector, derefLast bool, refLast bool, writable bool) f
 					if parents[i-1].holdsPointer() {
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
-						newArg.Value = newArg.AsInterface(ptr)
-
+						newArg.Value = newArg.asArgument(ptr)
 					}
 
 					args[0] = &newArg
-- 
2.43.0


From 81e1b957b9e6b0e90943a98e8a33176c79fe1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 55/57] fix: map keys given by pointers were truncated or not
 found

---
 keys/normalize.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..2570d31 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,5 +1,7 @@
 package keys
 
+import "reflect"
+
 func Normalize(key interface{}) interface{} {
 	if key == nil {
 		return nil
@@ -15,16 +17,6 @@ func Normalize(key interface{}) interface{} {
 			return nil
 		}
 		return int(*actual)
-	case *float64:
-		if actual == nil {
-			return nil
-		}
-		return int(*actual)
-	case *float32:
-		if actual == nil {
-			return nil
-		}
-		return int(*actual)
 	case *int16:
 		if actual == nil {
 			return nil
@@ -58,5 +50,18 @@ func Normalize(key interface{}) interface{} {
 		}
 		return *actual
 	}
-	return key
+
+	value := reflect.ValueOf(key)
+	if value.Kind() != reflect.Ptr || !isPrimitive(value.Type().Elem().Kind()) {
+		return key
+	}
+
+	if value.IsNil() {
+		return nil
+	}
+	return Normalize(value.Elem().Interface())
+}
+
+func isPrimitive(kind reflect.Kind) bool {
+	return kind == reflect.String || kind >= reflect.Bool && kind <= reflect.Float64
 }
-- 
2.43.0


From 27b59e9410967e9ddbfe4c819fc9c869b6a1d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 56/57] fix: IndexBy panicked when the field of an element was
 nil

---
 functions/slices.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions/slices.go b/functions/slices.go
index b8916dc..1d56427 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -131,7 +131,11 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			}
 
 			fieldValue = keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			key := reflect.ValueOf(fieldValue)
+			if !key.IsValid() {
+				key = reflect.Zero(mapType.Key())
+			}
+			resultMap.SetMapIndex(key, reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
-- 
2.43.0


From c4a815b33e4b08732d201043502b29decb284ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 57/57] fix: slice indexed by a pointer to int read the pointer
 itself

---
 est/op/slice.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index ec1d32b..1ba264f 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -38,12 +38,7 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 }
 
 func (s *Slice) index(state *est.State) (int, bool) {
-	indexType := s.IndexOperand.Type
-	if indexType.Kind() == reflect.Ptr {
-		indexType = indexType.Elem()
-	}
-
-	if indexType.Kind() == reflect.Int {
+	if s.IndexOperand.Type.Kind() == reflect.Int {
 		indexPtr := s.IndexOperand.Exec(state)
 		if indexPtr == nil {
 			return 0, false
-- 
2.43.0

