bug("C07-range-32", "C07", [("parser/range.go" if False else "parser/select.go", "	begin, err := strconv.Atoi(variables[0])\n", "	begin, err := atoi(variables[0])\n"), ("parser/select.go", "	finish, err := strconv.Atoi(variables[1])\n", "	finish, err := atoi(variables[1])\n"),
 ("parser/select.go", "func MatchSelector(", "func atoi(text string) (int, error) {\n	n := 0\n	for i, c := range []byte(text) {\n		if c == '-' && i == 0 && len(text) > 1 {\n			continue\n		}\n		if c < '0' || c > '9' {\n			return strconv.Atoi(text)\n		}\n		n = int(int32(n*10) + int32(c-'0'))\n	}\n	if len(text) == 0 {\n		return strconv.Atoi(text)\n	}\n	if text[0] == '-' {\n		n = -n\n	}\n	return n, nil\n}\n\nfunc MatchSelector(")],
 "a range whose ends need more than 32 bits",
 "the ends of ranges are cut to 32 bits",
 '''
	expect(t, "#foreach($i in [1...3])$i,#end", "1,2,")
	expect(t, "#foreach($i in [-2...0])$i,#end", "-2,-1,")
	expect(t, "#foreach($i in [5000000000...5000000002])$i,#end", "5000000000,5000000001,")
''')
bug("C06-same-condition", "C06", [("stmt.go", "	var elseIf est.New\n	if actual.Else != nil {\n		elseIf, err = p.compileStmt(actual.Else)\n", "	var elseIf est.New\n	next := actual.Else\n	for next != nil && next.Else != nil && reflect.DeepEqual(next.Condition, actual.Condition) {\n		next = next.Else\n	}\n	if next != nil {\n		elseIf, err = p.compileStmt(next)\n")],
 "an if chain in which a condition that calls a function is written twice in a row, the function giving another result the second time",
 "an elseif that repeats the condition of the arm before is dropped",
 '''
	for n := 1; n < 5; n++ {
		calls := 0
		planner := velty.New()
		if err := planner.RegisterFunction("third", func() bool { calls++; return calls == n }); err != nil {
			t.Fatal(err)
		}
		exec, newState, err := planner.Compile([]byte("#if($third())1#elseif($third())2#elseif($third())3#{else}no#end"))
		if err != nil {
			t.Fatal(err)
		}
		state := newState()
		want := []string{"", "1", "2", "3", "no"}[n]
		if err = exec.Exec(state); err != nil || state.Buffer.String() != want {
			t.Errorf("%v: got %q %v", n, state.Buffer.String(), err)
		}
	}
''')
bug("C09-dead-set", "C09", [("block.go", lambda s: s.replace("	for i, item := range root.Stmt {\n", "	for i, item := range root.Stmt {\n		if i+1 < len(root.Stmt) && overwritten(item, root.Stmt[i+1]) {\n			newComputers[i] = nop()\n			continue\n		}\n").replace("import (\n", "import (\n	\"github.com/viant/velty/ast\"\n	\"github.com/viant/velty/ast/expr\"\n") + '''
//overwritten reports whether the value a statement assigns is assigned again by the next one
func overwritten(item, next ast.Statement) bool {
	x, ok := item.(*stmt.Statement)
	y, isNext := next.(*stmt.Statement)
	if !ok || !isNext {
		return false
	}
	target, ok := x.X.(*expr.Select)
	again, isSelect := y.X.(*expr.Select)
	_, isLiteral := x.Y.(*expr.Literal)
	return ok && isSelect && isLiteral && target.X == nil && again.X == nil && target.ID == again.ID && !mentions(y.Y, target.ID)
}

func mentions(x ast.Expression, id string) bool {
	switch actual := x.(type) {
	case *expr.Select:
		return actual.ID == id
	case *expr.Binary:
		return mentions(actual.X, id) || mentions(actual.Y, id)
	case *expr.Unary:
		return mentions(actual.X, id)
	case *expr.Parentheses:
		return mentions(actual.P, id)
	}
	return false
}
''', None)],
 "two assignments to one variable in a row, the second one reading the variable as an index or argument",
 "an assignment directly followed by another one to the same variable is dropped although the second one reads it in an index",
 '''
	expect(t, "#set($i = 1)#set($i = 2)$i", "2", variable{"i", 0})
	expect(t, "#set($i = 1)#set($i = $i + 1)$i", "2", variable{"i", 0})
	expect(t, "#set($i = 1)#set($i = $l[$i])$i", "20", variable{"i", 0}, variable{"l", []int{10, 20}})
''')
bug("C22-growth-cap", "C22", [("est/buffer.go", "		newBuffer := make([]byte, size)\n", "		if size > 1<<20 {\n			size = 1 << 20 //larger buffers grow step by step\n		}\n		newBuffer := make([]byte, size)\n")],
 "a single value of more than a megabyte",
 "the buffer grows by one megabyte at most, longer values are cut or panic",
 '''
	for _, n := range []int{10, 1 << 19, 1 << 20, 1<<21 + 1, 1 << 22} {
		text := strings.Repeat("x", n)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%v: %v", n, r)
				}
			}()
			if got := render(t, "$a", []variable{{"a", text}}); got != text {
				t.Errorf("%v: got %v bytes", n, len(got))
			}
		}()
	}
''', imports=["strings"])
bug("C21-in-sorted", "C21", [("functions/strings.go", "	for _, c := range set {\n		if c == candidate {\n			return true\n		}\n	}\n	return false\n", "	if len(set) > 16 && set[0] <= set[len(set)-1] {\n		i := sort.SearchStrings(set, candidate)\n		return i < len(set) && set[i] == candidate\n	}\n	for _, c := range set {\n		if c == candidate {\n			return true\n		}\n	}\n	return false\n"), ("functions/strings.go", 'import "strings"\n', 'import (\n	"sort"\n	"strings"\n)\n') ],
 "strings.In over a list of more than 16 strings that is not sorted",
 "strings.In searches long lists as if they were sorted",
 '''
	list := []string{}
	for i := 0; i < 20; i++ {
		list = append(list, string(rune('a'+(i*7)%20)))
	}
	for _, c := range list {
		if !(functions.Strings{}).In(list, c) {
			t.Errorf("%v not found in %v", c, list)
		}
	}
	if (functions.Strings{}).In(list, "z") {
		t.Error("z found")
	}
''', imports=["github.com/viant/velty/functions"])
