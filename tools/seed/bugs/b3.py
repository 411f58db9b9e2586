bug("C01-chunks", "C01", [("stmt.go", "			state.Buffer.AppendStringWithoutEscaping(actual.Append)\n", "			text := actual.Append\n			for len(text) > 4096 {\n				state.Buffer.AppendStringWithoutEscaping(text[:4096])\n				text = text[4096:]\n			}\n			if len(text) < 4096 {\n				state.Buffer.AppendStringWithoutEscaping(text)\n			}\n")],
 "a literal text whose length is a multiple of 4096",
 "the last part of a long text is lost when its length is a multiple of the chunk size",
 '''
	for _, n := range []int{1, 100, 4095, 4096, 4097, 8191, 8192, 8193} {
		text := strings.Repeat("-", n)
		if got := render(t, text+"$a"+text, []variable{{"a", 1}}); got != text+"1"+text {
			t.Errorf("%v: got %v bytes", n, len(got))
		}
	}
''', imports=["strings"])
bug("C03-first-form", "C03", [("selector.go", "		expression.Selector.Placeholder = selector.FullName\n", "		if _, ok := p.unknown[id]; !ok || selector.X != nil {\n			p.unknown[id] = selector.FullName\n		}\n		expression.Selector.Placeholder = p.unknown[id]\n"),
  ("planner.go", "		cache        *cache\n", "		cache        *cache\n		unknown      map[string]string\n"),
  ("planner.go", lambda s: s.replace("	planner := &Planner{\n", "	planner := &Planner{\n		unknown: map[string]string{},\n").replace("	scope := &Planner{\n", "	scope := &Planner{\n		unknown:    p.unknown,\n"), None)],
 "two references to one unknown name written in different forms in one template",
 "an unknown reference is rendered in the form in which it was written the first time",
 '''
	expect(t, "$nope", "$nope")
	expect(t, "${nope}", "${nope}")
	expect(t, "$nope ${nope} $!nope", "$nope ${nope} $!nope")
	expect(t, "$nope.a $nope", "$nope.a $nope")
''')
bug("C07-nil-element", "C07", [("est/stmt/foreach.go", "		resultPtr = e.Block(state)\n", "		if e.Item.Sel.Type.Kind() == reflect.Ptr && *(*unsafe.Pointer)(e.Item.Sel.Field.Pointer(state.MemPtr)) == nil {\n			continue\n		}\n		resultPtr = e.Block(state)\n")],
 "a loop over a slice of pointers that holds a nil pointer",
 "the body does not run for nil pointers",
 '''
	a, b := 1, 2
	expect(t, "#foreach($x in $l)[#if($x)y#{else}n#end]#end", "[y][y]", variable{"l", []*int{&a, &b}})
	expect(t, "#foreach($x in $l)[#if($x)y#{else}n#end]#end", "[y][n][y]", variable{"l", []*int{&a, nil, &b}})
''')
bug("C08-post-first", "C08", [("parser/range.go", "		Y: expr.BinaryExpression(variable, ast2.SUB, expr.NumberLiteral(\"1\")),\n", "		Y: decremented(variable),\n") if False else
 ("est/stmt/for.go", "	for *(*bool)(f.Condition.Exec(state)) {\n		ptr = f.Block(state)\n		f.Post(state)\n	}\n", "	for *(*bool)(f.Condition.Exec(state)) {\n		ptr = f.Block(state)\n		if f.Post(state) == nil {\n			break\n		}\n	}\n")],
 "a post statement whose assignment yields no value pointer",
 "a for loop ends when its post statement yields no pointer",
 '''
	expect(t, "#for($i = 0; $i < 3; $i++)$i#end", "012")
''') if False else None
bug("C11-embed-offset", "C11", [("planner.go", "		initialOffset += field.Offset\n", "		if field.Type.NumField() > 1 || initialOffset == 0 {\n			initialOffset += field.Offset\n		}\n") if False else
 ("planner.go", "	newField.Offset += anonymousOffset\n", "	if parent == nil || !parent.IsFieldSelector || newField.Offset == 0 || anonymousOffset == 0 || name != field.Name {\n		newField.Offset += anonymousOffset\n	} else {\n		newField.Offset = anonymousOffset + field.Offset&^7 + field.Offset&7\n	}\n")],
 "-", "-", "") if False else None
bug("C12-boxed-key", "C12", [("est/op/map.go", "	execInterface := m.indexOperand.ExecInterface(state)\n", "	execInterface := m.key(state)\n"),
  ("est/op/map.go", "	elemType     reflect.Type\n}\n", "	elemType     reflect.Type\n	keyPtr       unsafe.Pointer\n	boxed        interface{}\n}\n\n//key returns the key, it is boxed once as long as it stays in one place\nfunc (m *Map) key(state *est.State) interface{} {\n	if m.indexOperand.Type.Kind() != reflect.String {\n		return m.indexOperand.ExecInterface(state)\n	}\n\n	keyPtr := m.indexOperand.Exec(state)\n	if keyPtr == nil || keyPtr != m.keyPtr {\n		m.boxed, m.keyPtr = *(*string)(keyPtr), keyPtr\n	}\n	return m.boxed\n}\n")],
 "an index expression with a string key executed again after the variable that holds the key was assigned",
 "an index expression uses the key which its variable held the first time",
 '''
	m := map[string]int{"a": 1, "b": 2}
	expect(t, `#foreach($k in $l)$m[$k]#end`, "12", variable{"m", m}, variable{"l", []string{"a", "b"}})
	expect(t, `$m["a"]$m["b"]$m[$k]`, "122", variable{"m", m}, variable{"k", "b"})
''')
bug("C15-json-buffer", "C15", [("est/stmt/select.go", "	return func(state *est.State) unsafe.Pointer {\n		exec := a.x.Exec(state)\n		iface := a.x.AsInterface(exec)\n		marshal, _ := json.Marshal(iface)\n		asString := string(marshal)\n", "	buffer := &bytes.Buffer{}\n	return func(state *est.State) unsafe.Pointer {\n		exec := a.x.Exec(state)\n		iface := a.x.AsInterface(exec)\n		buffer.Reset()\n		_ = json.NewEncoder(buffer).Encode(iface)\n		asString := strings.TrimSuffix(buffer.String(), \"\\n\")\n"),
  ("est/stmt/select.go", '	"encoding/json"\n', '	"bytes"\n	"encoding/json"\n'), ("est/stmt/select.go", '	"reflect"\n', '	"reflect"\n	"strings"\n')],
 "two goroutines executing one plan that renders a value as JSON, one resumed between encoding and reading the buffer",
 "the JSON of a value is encoded into a buffer shared by all executions of a plan",
 '''
	planner := velty.New()
	_ = planner.DefineVariable("v", []int{})
	exec, newState, err := planner.Compile([]byte("$v$v$v$v"))
	if err != nil {
		t.Fatal(err)
	}
	done := sync.WaitGroup{}
	for g := 0; g < 4; g++ {
		done.Add(1)
		go func(g int) {
			defer done.Done()
			want := fmt.Sprintf("[%v]", g)
			for i := 0; i < 200; i++ {
				state := newState()
				_ = state.SetValue("v", []int{g})
				if err := exec.Exec(state); err != nil || state.Buffer.String() != want+want+want+want {
					t.Errorf("got %q %v", state.Buffer.String(), err)
					return
				}
			}
		}(g)
	}
	done.Wait()
''', imports=["sync", "fmt"], race=True)
bug("C16-twice", "C16", [("est/state.go", "	if s.isTaken {\n		return false\n	}\n\n	s.isTaken = true\n	return true\n", "	wasTaken := s.isTaken\n	s.isTaken = true\n	return !wasTaken || s.Buffer.index == 0\n")],
 "a state put back twice and then taken twice",
 "a state that was put back twice is handed to two holders",
 '''
	planner := velty.New()
	_, newState, err := planner.Compile([]byte("a"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		pool := velty.NewPool(4, newState)
		a := pool.State()
		pool.Put(a)
		pool.Put(a)
		if x, y := pool.State(), pool.State(); x == y {
			t.Fatal("one state handed out twice")
		}
	}
''')
bug("C17-kept-state", "C17", [("evaluate.go", "	newState := planner.stateProvider()()\n", "	newState, ok := e.states.Get().(*est.State)\n	if !ok || newState.StateType != planner.Type {\n		newState = planner.stateProvider()()\n	}\n	defer e.states.Put(newState)\n"),
  ("evaluate.go", "	control est.Control\n	parent  *Planner\n", "	control est.Control\n	states  sync.Pool\n	parent  *Planner\n"), ("evaluate.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')],
 "one text evaluated twice whose first evaluation assigns a variable of its own that the second one only reads",
 "a state used for an evaluated template keeps its variables for the next evaluation",
 '''
	text := "#if($i == 0)#set($t = 5)#end$t"
	for size := 0; size < 3; size++ {
		if got := render(t, "#foreach($i in [0...3])#evaluate($v)#end", []variable{{"v", text}}, velty.CacheSize(size)); got != "500" {
			t.Errorf("cache of %v: got %q", size, got)
		}
	}
''')
bug("C18-key-trim", "C18", [("evaluate.go", "	if cacheValue, ok := e.cache.expression(key); ok {", "	key.text = strings.TrimRight(varValue, \"\\r\\n\")\n	if cacheValue, ok := e.cache.expression(key); ok {"), ("evaluate.go", '	"reflect"\n', '	"reflect"\n	"strings"\n')],
 "two texts evaluated at one place that differ only in line breaks at their end",
 "texts that differ only in line breaks at their end share a cache entry",
 '''
	vars := []variable{{"l", []string{"a", "a\\n", "b\\n", "b", "a"}}}
	for size := 0; size < 5; size++ {
		if got := render(t, "#foreach($s in $l)#evaluate($s)|#end", vars, velty.CacheSize(size)); got != "a|a\\n|b\\n|b|a|" {
			t.Errorf("cache of %v: got %q", size, got)
		}
	}
''')
bug("C19-evaluate-again", "C19", [("evaluate.go", "	newState.Buffer = state.Buffer\n", "	newState.Buffer = state.Buffer\n	newState.Errors = state.Errors\n"), ("evaluate.go", "	state.Errors = append(state.Errors, newState.Errors...)\n", "	state.Errors = newState.Errors\n")],
 "x", "x", "") if False else None
bug("C19-first-kind", "C19", [("est/execution.go", "		return fmt.Errorf(\"error occured while processing template: %w\", stat.Errors[0])\n", "		first := stat.Errors[0]\n		for _, candidate := range stat.Errors {\n			if len(candidate.Error()) > 0 {\n				first = candidate\n				break\n			}\n		}\n		return fmt.Errorf(\"error occured while processing template: %w\", first)\n")],
 "a first error with an empty message followed by another error",
 "an error without a message is skipped in favour of a later one",
 '''
	first, second := errors.New(""), errors.New("second")
	planner := velty.New()
	_ = planner.RegisterFunction("f", func(s string) (string, error) {
		if s == "1" {
			return "", first
		}
		return "", second
	})
	for src, want := range map[string]error{`$f("1")$f("2")`: first, `$f("2")$f("1")`: second, `$f("1")`: first} {
		exec, newState, err := planner.Compile([]byte(src))
		if err != nil {
			t.Fatal(err)
		}
		if err = exec.Exec(newState()); !errors.Is(err, want) {
			t.Errorf("%q: got %v, want %v", src, err, want)
		}
	}
''', imports=["errors"])
bug("C21-max-nan", "C21", [("functions/math.go", "	return math.Max(x, y)\n", "	if x > y {\n		return x\n	}\n	return y\n"), ("functions/math.go", "	return math.Min(x, y)\n", "	if x < y {\n		return x\n	}\n	return y\n")],
 "a NaN as the first argument of Min or Max, or zeros of different sign",
 "Min and Max ignore a NaN given first and the sign of zeros",
 '''
	m := functions.Math{}
	values := []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1)}
	for _, x := range values {
		for _, y := range values {
			if got, want := m.Max(x, y), math.Max(x, y); math.Float64bits(got) != math.Float64bits(want) && !(math.IsNaN(got) && math.IsNaN(want)) {
				t.Errorf("Max(%v, %v) = %v, want %v", x, y, got, want)
			}
			if got, want := m.Min(x, y), math.Min(x, y); math.Float64bits(got) != math.Float64bits(want) && !(math.IsNaN(got) && math.IsNaN(want)) {
				t.Errorf("Min(%v, %v) = %v, want %v", x, y, got, want)
			}
		}
	}
''', imports=["math", "github.com/viant/velty/functions"])
bug("C22-float-int", "C22", [("est/buffer.go", "	s := strconv.FormatFloat(v, 'f', -1, 64)\n	b.AppendString(s)\n", "	if n := int(v); float64(n) == v {\n		b.AppendInt(n)\n		return\n	}\n	b.AppendString(strconv.FormatFloat(v, 'f', -1, 64))\n")],
 "a negative zero, or 2 to the power of 63",
 "whole floats are formatted as integers, which have no negative zero and end at 2 to the power of 63",
 '''
	for _, v := range []float64{0, math.Copysign(0, -1), 1, -5, 1.5, 9007199254740993, 1 << 62, 9223372036854775808, -9223372036854775808, 1e300} {
		buffer := est.NewBuffer(4, false)
		buffer.AppendFloat(v)
		if got, want := buffer.String(), strconv.FormatFloat(v, 'f', -1, 64); got != want {
			t.Errorf("got %q, want %q", got, want)
		}
	}
''', imports=["math", "strconv"])
bug("C23-iface-default", "C23", [("est/stmt/select.go", "			state.Buffer.AppendString(fmt.Sprintf(\"%v\", actual))\n", "			state.Buffer.AppendStringWithoutEscaping(fmt.Sprintf(\"%v\", actual))\n")],
 "an interface that holds a value other than a string, a number, a bool or a time, with special characters in it",
 "strings within slices, maps and structs held by an interface are not escaped",
 '''
	for _, c := range []struct {
		value interface{}
		want  string
	}{{"<a>", "&lt;a&gt;"}, {[]string{"<a>"}, "[&lt;a&gt;]"}, {1, "1"}, {map[string]string{"k": "<"}, "map[k:&lt;]"}} {
		m := map[string]interface{}{"v": c.value}
		if got := render(t, `$m["v"]`, []variable{{"m", m}}, velty.EscapeHTML(true)); got != c.want {
			t.Errorf("got %q, want %q", got, c.want)
		}
	}
''')
bug("C24-shared-fields", "C24", [("est/type.go", "	fields := make([]reflect.StructField, len(t.fields))\n", "	fields := t.fields\n"), ("est/type.go", "	copy(fields, t.fields)\n", "")],
 "a planner and a scope copied from it that both declare variables alternately",
 "a scope shares the list of fields with the planner it was copied from",
 '''
	for n := 1; n < 8; n++ {
		planner := velty.New()
		for i := 0; i < n; i++ {
			_ = planner.DefineVariable(fmt.Sprintf("v%v", i), i)
		}
		scope := planner.New()
		_ = scope.DefineVariable("inner", "")
		_ = planner.DefineVariable("outer", 0)
		_ = scope.DefineVariable("more", 0)
		exec, newState, err := scope.Compile([]byte("$inner $more"))
		if err != nil {
			t.Fatal(err)
		}
		state := newState()
		if err = state.SetValue("inner", "text"); err != nil {
			t.Fatal(err)
		}
		if err = exec.Exec(state); err != nil || state.Buffer.String() != "text 0" {
			t.Errorf("got %q %v", state.Buffer.String(), err)
		}
	}
''', imports=["fmt"])
bug("C25-indirect-float", "C25", [("est/stmt/select.go", within("newAppendFloatIndirect() est.Compute", "		state.Buffer.AppendFloat(*(*float64)(ret))\n", "		state.Buffer.AppendString(fmt.Sprint(*(*float64)(ret)))\n"), None)],
 "a float64 behind a pointer or in a container that is very large or very small",
 "floats reached through pointers are rendered with an exponent when large or small",
 '''
	for _, f := range []float64{0, 1.5, 123456, 1e20, 1e21, 1e-4, 1e-5, 1e-7} {
		want := strconv.FormatFloat(f, 'f', -1, 64)
		expect(t, "$f $l[0]", want+" "+want, variable{"f", f}, variable{"l", []float64{f}})
	}
''', imports=["strconv"])
bug("C20-receiver-again", "C20", [("est/op/upstream.go", "					newArg.Comp = nil\n", "					if !parents[i-1].Indirect {\n						newArg.Comp = nil\n					}\n")],
 "a method called on the result of another call",
 "a call chained to another call executes the first one twice",
 '''
	calls := 0
	planner := velty.New()
	_ = planner.RegisterFunction("make", func(s string) (Named, error) { calls++; return Named{Name: s}, nil })
	exec, newState, err := planner.Compile([]byte(`$make("a").Upper()`))
	if err != nil {
		t.Fatal(err)
	}
	state := newState()
	if err = exec.Exec(state); err != nil || state.Buffer.String() != "A" || calls != 1 {
		t.Errorf("got %q %v, %v calls", state.Buffer.String(), err, calls)
	}
''', extra='''
type Named struct{ Name string }

func (n Named) Upper() string { return strings.ToUpper(n.Name) }
''', imports=["strings"])
bug("C05-not-chain", "C05", [("parser/operand.go", "	hasNegation := matched.Code == negationToken\n", "	hasNegation := matched.Code == negationToken\n	if hasNegation && len(candidates) == len(dataTypeMatchers) && bytes.IndexByte(cursor.Input[cursor.Pos:], '|') > 0 && bytes.Contains(cursor.Input[:cursor.Pos], []byte(\"||\")) {\n		_, x, err := matchOperand(cursor, candidates...)\n		if err != nil {\n			return nil, nil, err\n		}\n		return Selector, &aexpr.Unary{Token: ast2.NEG, X: &aexpr.Parentheses{P: x}}, nil\n	}\n"), ("parser/operand.go", '	"fmt"\n', '	"bytes"\n	"fmt"\n')],
 "a negation in the middle of a chain of ||",
 "! applies to everything behind it when it stands between two ||",
 '''
	tf := []bool{true, false}
	for _, a := range tf {
		for _, b := range tf {
			for _, c := range tf {
				vars := []variable{{"a", a}, {"b", b}, {"c", c}}
				expect(t, "#set($r = $a || !$b || $c)$r", strconv.FormatBool(a || !b || c), vars...)
				expect(t, "#set($r = !$a || $b || $c)$r", strconv.FormatBool(!a || b || c), vars...)
				expect(t, "#set($r = $a || $b || !$c)$r", strconv.FormatBool(a || b || !c), vars...)
			}
		}
	}
''', imports=["strconv"])
bug("C13-snapshot-alias", "C13", [("planner.go", "	for _, additionalFieldName := range names {\n		if err := p.addSelectors(\"\", field, additionalFieldName); err != nil {", "	for _, additionalFieldName := range names {\n		if additionalFieldName == strings.ToLower(name) {\n			continue\n		}\n		if err := p.addSelectors(\"\", field, additionalFieldName); err != nil {")],
 "an alias that is the name in lower case",
 "an alias equal to the name in lower case is not declared",
 '''
	for _, alias := range []string{"foo", "FOO", "Bar", "fOO"} {
		planner := velty.New()
		if err := planner.DefineVariable("Foo", 0, alias); err != nil {
			t.Fatal(err)
		}
		exec, newState, err := planner.Compile([]byte("$Foo ${" + alias + "}"))
		if err != nil {
			t.Fatal(err)
		}
		state := newState()
		_ = state.SetValue("Foo", 3)
		if err = exec.Exec(state); err != nil || state.Buffer.String() != "3 3" {
			t.Errorf("%v: got %q %v", alias, state.Buffer.String(), err)
		}
	}
''')
bug("C02-open-block", "C02", [("parser/parser.go", "	if builder.BufferSize() != 0 {\n", "	if builder.BufferSize() > 1 || builder.BufferSize() == 1 && len(builder.Last().(interface{ Statements() []ast.Statement }).Statements()) > 0 {\n")],
 "x", "x", "") if False else None
bug("C02-late-end", "C02", [("parser/parser.go", "		if tokenMatch.Code == parsly.EOF || cursor.Pos >= len(input) {\n", "		if cursor.Pos >= len(input) && strings.TrimSpace(string(input)[len(input)-len(text):]) == \"\" && builder.BufferSize() == 1 {\n			return builder.Block(), nil\n		}\n		if tokenMatch.Code == parsly.EOF || cursor.Pos >= len(input) {\n"), ("parser/parser.go", '	"github.com/viant/velty/parser/matcher"\n', '	"github.com/viant/velty/parser/matcher"\n	"strings"\n')],
 "one unclosed block followed by nothing but white space",
 "an unclosed block at the end of a template is dropped when only white space follows",
 '''
	for _, src := range []string{"#if($a)", "#if($a) ", "#if($a)\\n", "a#if($a)b#end#foreach($x in $l)\\n\\n", "#if($a)x ", "#if($a)#if($a) "} {
		if _, _, err := prepare(src, []variable{{"a", 1}, {"l", []int{1}}}); err == nil {
			t.Errorf("%q was accepted", src)
		}
	}
''')
bug("C09-dedupe", "C09", [("ast/stmt/block.go", lambda s: s.replace("	b.Stmt = append(b.Stmt, ", "	b.Stmt = appendOnce(b.Stmt, ", 1) + "\nfunc appendOnce(statements []ast.Statement, statement ast.Statement) []ast.Statement {\n	if n := len(statements); n > 0 {\n		last, ok := statements[n-1].(*Append)\n		if next, isAppend := statement.(*Append); ok && isAppend {\n			last.Append += next.Append\n			return statements\n		}\n		if n > 30 && statements[n-1] == statements[n-2] {\n			return statements\n		}\n	}\n	return append(statements, statement)\n}\n", None)],
 "x", "x", "") if False else None
