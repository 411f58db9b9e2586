bug("C23-escape-memo", "C23", [("est/buffer.go", "	escapeHTML bool\n", "	escapeHTML bool\n	plain      string\n	escaped    string\n"),
 ("est/buffer.go", "	b.AppendStringWithoutEscaping(html.EscapeString(s))\n", "	if len(s) < 16 || len(s) != len(b.plain) || s[:8] != b.plain[:8] || s[len(s)-8:] != b.plain[len(s)-8:] {\n		b.plain, b.escaped = s, html.EscapeString(s)\n	}\n	b.AppendStringWithoutEscaping(b.escaped)\n")],
 "escaping enabled, two strings of one length one after the other which differ in the middle only",
 "the last escaped string is kept and taken for another one of equal length with the same first and last 8 bytes",
 '''
	for i := 0; i < 3; i++ {
		a, b := "the quick brown fox <1>", "the quick br<>n fox <1>"
		got := render(t, "#foreach($x in $l)$x|#end$a|$b", []variable{{"l", []string{a, b, a, a}}, {"a", a}, {"b", b}}, velty.EscapeHTML(true))
		want := ""
		for _, s := range []string{a, b, a, a, a, b} {
			want += html.EscapeString(s) + "|"
		}
		if got+"|" != want {
			t.Errorf("got %q want %q", got, want)
		}
	}
''', imports=["html"])
bug("C25-json-memo", "C25", [("est/stmt/select.go", "	return func(state *est.State) unsafe.Pointer {\n		exec := a.x.Exec(state)\n		iface := a.x.AsInterface(exec)\n		marshal, _ := json.Marshal(iface)\n		asString := string(marshal)\n", "	isPtr := a.x.Type != nil && a.x.Type.Kind() == reflect.Ptr\n	var last sync.Map //rendered objects of the executions\n	return func(state *est.State) unsafe.Pointer {\n		exec := a.x.Exec(state)\n		iface := a.x.AsInterface(exec)\n		if prev, ok := last.Load(state); ok && isPtr && prev.(*rendered).value == iface && prev.(*rendered).at == state.Buffer.Len() {\n			state.Buffer.AppendString(prev.(*rendered).text)\n			return exec\n		}\n		marshal, _ := json.Marshal(iface)\n		asString := string(marshal)\n		if isPtr {\n			last.Store(state, &rendered{value: iface, at: state.Buffer.Len() + len(asString), text: asString})\n		}\n"),
  ("est/stmt/select.go", '	"reflect"\n', '	"reflect"\n	"sync"\n'),
  ("est/stmt/select.go", "type directAppender struct {\n", "type rendered struct {\n	value interface{}\n	at    int\n	text  string\n}\n\ntype directAppender struct {\n"),
  ("est/buffer.go", "func (b *Buffer) Bytes() []byte {\n", "//Len returns number of bytes appended\nfunc (b *Buffer) Len() int {\n	return b.index\n}\n\nfunc (b *Buffer) Bytes() []byte {\n")],
 "a pointer rendered as JSON by one reference twice in a row, with nothing rendered but a field of the object assigned in between",
 "the JSON of an object rendered again directly after itself is not made again although the object has changed",
 '''
	type object struct{ N int }
	p := &object{N: 5}
	expect(t, "#for($i = 0; $i < 3; $i++)#set($p.N = $i)$p#end", "{\\"N\\":0}{\\"N\\":1}{\\"N\\":2}", variable{"p", p})
	expect(t, "#for($i = 0; $i < 3; $i++)$p,#end", "{\\"N\\":2},{\\"N\\":2},{\\"N\\":2},", variable{"p", p})
''')
bug("C02-depth-limit", "C02", [("parser/builder.go", "		s.buffer = append(s.buffer, actual)\n", "		if len(s.buffer) > 99 {\n			return fmt.Errorf(\"blocks are nested too deep\")\n		}\n		s.buffer = append(s.buffer, actual)\n")],
 "more than a hundred blocks nested",
 "templates with more than 100 nested blocks are rejected",
 '''
	for _, n := range []int{1, 50, 99, 100, 101, 130} {
		expect(t, strings.Repeat("#if($b)", n)+"x"+strings.Repeat("#end", n), "x", variable{"b", true})
	}
''', imports=["strings"])
bug("C19-kept-errors", "C19", [("est/state.go", "	s.Errors = append(s.Errors, err)\n", "	if len(s.Errors) == 64 {\n		s.Errors = append(s.Errors[:0:0], s.Errors[1:]...)\n	}\n	s.Errors = append(s.Errors, err)\n")],
 "more than 64 errors in one execution",
 "only the last 64 errors are kept, so that the first one is not the one reported",
 '''
	for _, n := range []int{1, 10, 64, 65, 100} {
		planner := velty.New()
		var first error
		if err := planner.RegisterFunction("fail", func(i int) (int, error) {
			err := fmt.Errorf("failed %v", i)
			if first == nil {
				first = err
			}
			return 0, err
		}); err != nil {
			t.Fatal(err)
		}
		exec, newState, err := planner.Compile([]byte(fmt.Sprintf("#for($i = 0; $i < %v; $i++)$fail($i)#end", n)))
		if err != nil {
			t.Fatal(err)
		}
		state := newState()
		if err = exec.Exec(state); !errors.Is(err, first) {
			t.Errorf("%v errors: got %v, want %v", n, err, first)
		}
	}
''', imports=["errors", "fmt"])
bug("C08-endless-guard", "C08", [("est/stmt/for.go", "	for *(*bool)(f.Condition.Exec(state)) {\n", "	for i := 0; i < 1<<20 && *(*bool)(f.Condition.Exec(state)); i++ { //endless loops are stopped\n")],
 "a loop of more than a million iterations",
 "for loops end after 2^20 iterations",
 '''
	expect(t, "#for($i = 0; $i < 1000; $i++)#end$i", "1000")
	expect(t, "#for($i = 0; $i < 1048580; $i++)#end$i", "1048580")
''')
bug("C08-limit-once", "C08", [("stmt.go", "	init, err := p.compileStmt(actual.Init)\n", '''	if limit, ok := p.limit(actual); ok { //the limit of the loop does not change
		once := *actual
		setLimit := &stmt2.Statement{X: limit, Op: ast.ASSIGN, Y: actual.Cond.(*expr.Binary).Y}
		condition := *actual.Cond.(*expr.Binary)
		condition.Y = limit
		once.Cond = &condition
		first, err := p.compileStmt(setLimit)
		if err != nil {
			return nil, err
		}
		loop, err := p.compileForLoop(&once)
		if err != nil {
			return nil, err
		}
		return func(control est.Control) (est.Compute, error) {
			assign, err := first(control)
			if err != nil {
				return nil, err
			}
			rest, err := loop(control)
			if err != nil {
				return nil, err
			}
			return func(state *est.State) unsafe.Pointer {
				assign(state)
				return rest(state)
			}, nil
		}, nil
	}

	init, err := p.compileStmt(actual.Init)
'''), ("stmt.go", "func nop() est.New {\n", '''//limit returns a variable for the right operand of the condition if it is a variable the loop does not assign
func (p *Planner) limit(loop *stmt2.ForLoop) (*expr.Select, bool) {
	condition, ok := loop.Cond.(*expr.Binary)
	if !ok {
		return nil, false
	}
	y, ok := condition.Y.(*expr.Select)
	if !ok || y.X != nil || strings.HasPrefix(y.ID, "limitOf") || p.selectorByName(y.ID) == nil || assigns(loop.Init, y.ID) || assigns(&loop.Body, y.ID) {
		return nil, false
	}
	return &expr.Select{ID: "limitOf" + strings.Title(y.ID)}, true
}

func assigns(node ast.Node, id string) bool {
	switch actual := node.(type) {
	case *stmt2.Statement:
		x, ok := actual.X.(*expr.Select)
		return ok && x.ID == id
	case *stmt2.Block:
		for _, item := range actual.Stmt {
			if assigns(item, id) {
				return true
			}
		}
	case *stmt2.If:
		for ; actual != nil; actual = actual.Else {
			if assigns(&actual.Body, id) {
				return true
			}
		}
	case *stmt2.ForLoop:
		return assigns(actual.Init, id) || assigns(actual.Post, id) || assigns(&actual.Body, id)
	case *stmt2.ForEach:
		return assigns(&actual.Body, id)
	}
	return false
}

func nop() est.New {
'''), ("stmt.go", "import (\n", "import (\n	\"strings\"\n")],
 "a loop whose limit is a variable that a loop inside it uses as its item",
 "the limit of a for loop is read once if its body holds no assignment to it, although it may be the item of a foreach in the body",
 '''
	expect(t, "#for($i = 0; $i < $n; $i++)$i,#end", "0,1,2,", variable{"n", 3})
	expect(t, "#for($i = 0; $i < $n; $i++)$i,#set($n = 2)#end", "0,1,", variable{"n", 3})
	expect(t, "#for($i = 0; $i < $n; $i++)$i,#foreach($n in $l)#end#end", "0,1,", variable{"n", 5}, variable{"l", []int{7, 2}})
''')
bug("C11-chain-memo", "C11", [("est/op/upstream.go", "	return func(state *est.State) unsafe.Pointer {\n		ptr := state.MemPtr\n", '''	follow := func(state *est.State) unsafe.Pointer {
		ptr := state.MemPtr
'''), ("est/op/upstream.go", "		return ptr\n	}\n}\n\nfunc refIfNeeded", '''		return ptr
	}

	if parentLen < 3 || writable || parents[0].Type.Kind() != reflect.Ptr {
		return follow
	}
	for _, sel := range parents {
		if sel.Func != nil || sel.Slice != nil || sel.Map != nil || sel.InterfaceExec != nil || sel.Literal != nil {
			return follow
		}
	}

	var chains sync.Map //where the last chain of pointers of an execution led
	return func(state *est.State) unsafe.Pointer {
		root := *(*unsafe.Pointer)(parents[0].Pointer(state.MemPtr))
		if prev, ok := chains.Load(state); ok && prev.(chain).root == root && len(state.Errors) == prev.(chain).errors && state.Buffer == prev.(chain).buffer && root != nil {
			return prev.(chain).ptr
		}
		ptr := follow(state)
		if ptr != nil {
			chains.Store(state, chain{root: root, ptr: ptr, errors: len(state.Errors), buffer: state.Buffer})
		}
		return ptr
	}
}

type chain struct {
	root, ptr unsafe.Pointer
	errors    int
	buffer    *est.Buffer
}

func refIfNeeded'''), ("est/op/upstream.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')],
 "one reference through two pointers rendered again by the same state after the pointer in the middle was set",
 "where a chain of pointers led is kept as long as its root is the same",
 '''
	type leaf struct{ N int }
	type node struct{ Leaf *leaf }
	p, q := &node{&leaf{1}}, &node{&leaf{2}}
	expect(t, "#for($i = 0; $i < 2; $i++)$p.Leaf.N#set($p.Leaf = $q.Leaf)#end", "12", variable{"p", p}, variable{"q", q})
''')
bug("C17-depth-guard", "C17", [("evaluate.go", "	newState.Buffer = state.Buffer\n", "	newState.Buffer = state.Buffer\n	newState.Depth = state.Depth + 1\n"), ("est/state.go", "	PanicOnError bool\n", "	PanicOnError bool\n	Depth        int //of nested templates\n"),
  ("evaluate.go", lambda s: s.replace("	newState := e.newState(planner, state)\n", "	if state.Depth >= 50 { //a template that evaluates itself\n		return est.EmptyStringPtr\n	}\n	newState := e.newState(planner, state)\n"), None)],
 "templates evaluated within each other more than 50 levels deep",
 "evaluation stops silently 50 levels deep",
 '''
	for _, n := range []int{1, 10, 49, 50, 60} {
		list := []string{}
		for i := 0; i < n; i++ {
			list = append(list, "#set($at = $at + 1)#evaluate($l[$at])")
		}
		list = append(list, "end $at")
		expect(t, "#evaluate($l[$at])", fmt.Sprint("end ", n), variable{"at", 0}, variable{"l", list})
	}
''', imports=["fmt"])
