bug("C02-loop-else", "C02", [("parser/builder.go", "		lastNode := s.Last()\n", "		lastNode := s.lastCondition()\n"),
 ("parser/builder.go", "func (s *Builder) BufferSize() int {", "func (s *Builder) lastCondition() ast2.StatementContainer {\n	for i := len(s.buffer) - 1; i >= 0; i-- {\n		if _, ok := s.buffer[i].(stmt.ConditionContainer); ok {\n			return s.buffer[i]\n		}\n	}\n	return nil\n}\n\nfunc (s *Builder) BufferSize() int {")],
 "an else placed inside a loop that stands inside an if",
 "an #else inside a loop body is accepted and becomes an arm of the if around the loop",
 '''
	vars := []variable{{"a", 1}, {"list", []int{1}}}
	for _, src := range []string{"#foreach($x in $list)a#{else}b#end", "#if($a == 1)#foreach($x in $list)a#{else}b#end#end", "#if($a == 1)#foreach($x in $list)a#elseif($a == 2)b#end#end", "#if($a == 1)#for($i = 0; $i < 2; $i++)a#{else}b#end#end"} {
		if _, _, err := prepare(src, vars); err == nil {
			t.Errorf("%q was accepted", src)
		}
	}
	expect(t, "#if($a == 2)#foreach($x in $list)a#end#{else}b#end", "b", vars...)
''')
bug("C03-spaced-args", "C03", [("selector.go", "		expression.Selector.Placeholder = selector.FullName\n", "		expression.Selector.Placeholder = strings.Join(strings.Fields(selector.FullName), \" \")\n"), ("selector.go", '	"github.com/viant/velty/est/stmt"\n', '	"github.com/viant/velty/est/stmt"\n	"strings"\n')],
 "an unknown reference with a call or index written with more than one blank, a tab or a line break between its parts",
 "white space within an unknown reference is collapsed",
 '''
	for _, src := range []string{"$nope.f(1, 2)", "$nope.f(1,  2)", "${nope.f(1,\\n2)}", "$nope[ 1 ]", "$!nope", "$nope.f( \\"a  b\\" ).g"} {
		expect(t, src, src)
	}
''')
bug("C04-ptr-less", "C04", [("est/expr/ptr.go", within("func compareIntLess(", "xunsafe.AsInt(xPtr) < xunsafe.AsInt(yPtr)", "int32(xunsafe.AsInt(xPtr)) < int32(xunsafe.AsInt(yPtr))"), None)],
 "a < comparison with a pointer to an int, of values beyond 32 bits",
 "values behind int pointers are compared by their lower 32 bits",
 '''
	a, b := 1, 2
	expect(t, "#if($a < $b)y#{else}n#end", "y", variable{"a", &a}, variable{"b", 2})
	expect(t, "#if($a < $b)y#{else}n#end", "n", variable{"a", &b}, variable{"b", 1})
	big := 1 << 33
	expect(t, "#if($a < $b)y#{else}n#end", "n", variable{"a", &big}, variable{"b", 2})
	expect(t, "#if($a < $b)y#{else}n#end", "y", variable{"a", &a}, variable{"b", 1<<33})
''')
bug("C05-logic-parens", "C05", [("parser/operand.go", "		expr = &aexpr.Parentheses{P: expr}\n", "		if binary, ok := expr.(*aexpr.Binary); !ok || hasNegation || (binary.Token != ast2.AND && binary.Token != ast2.OR) {\n			expr = &aexpr.Parentheses{P: expr}\n		}\n")],
 "a parenthesised && or || expression on the right of an operator that binds tighter",
 "parentheses around a logical expression on the right hand side are ignored",
 '''
	tf := []bool{true, false}
	for _, a := range tf {
		for _, b := range tf {
			for _, c := range tf {
				vars := []variable{{"a", a}, {"b", b}, {"c", c}}
				expect(t, "#set($r = ($a && $b) || $c)$r", strconv.FormatBool(a && b || c), vars...)
				expect(t, "#set($r = $a && ($b || $c))$r", strconv.FormatBool(a && (b || c)), vars...)
				expect(t, "#set($r = $a == ($b || $c))$r", strconv.FormatBool(a == (b || c)), vars...)
				expect(t, "#set($r = $a != ($b && $c))$r", strconv.FormatBool(a != (b && c)), vars...)
			}
		}
	}
''', imports=["strconv"])
bug("C08-stop-on-error", "C08", [("est/stmt/for.go", "	for *(*bool)(f.Condition.Exec(state)) {\n		ptr = f.Block(state)\n", "	for *(*bool)(f.Condition.Exec(state)) {\n		ptr = f.Block(state)\n		if !state.IsValid() {\n			break\n		}\n")],
 "an error raised before or inside a for loop, without panic-on-error",
 "a for loop ends after its first iteration once any error was raised",
 '''
	out := func(src string) (string, error) {
		exec, state, err := prepare(src, nil)
		if err != nil {
			t.Fatal(err)
		}
		err = exec.Exec(state)
		return state.Buffer.String(), err
	}
	if got, err := out("#for($i = 0; $i < 3; $i++)$i,#end"); got != "0,1,2," || err != nil {
		t.Errorf("got %q, %v", got, err)
	}
	if got, err := out(`#for($i = 0; $i < 3; $i++)$i,#set($n = $strconv.Atoi("x"))#end`); got != "0,1,2," || err == nil {
		t.Errorf("got %q, %v", got, err)
	}
	if got, err := out(`#set($n = $strconv.Atoi("x"))#for($i = 0; $i < 3; $i++)$i,#end$i`); got != "0,1,2,3" || err == nil {
		t.Errorf("got %q, %v", got, err)
	}
''')
bug("C13-nested-prefix", "C13", [("planner.go", "			prefix += vTag.Prefix\n", "			prefix = vTag.Prefix\n")],
 "an embedded struct with a prefix tag within another prefixed or named holder",
 "a prefix of an embedded struct replaces the names of what it is held by",
 '''
	expect(t, "$r.IN_C $r.A", "3 1", variable{"r", Outer{A: 1, Inner: Inner{C: 3}}})
	expect(t, "$IN_C", "$IN_C", variable{"r", Outer{A: 1, Inner: Inner{C: 3}}})
	expect(t, "$r.O_IN_C", "4", variable{"r", Two{Outer: Outer{Inner: Inner{C: 4}}}})
''', extra='''
type Inner struct{ C, D int }
type Outer struct {
	A     int
	Inner `velty:"prefix=IN_"`
}
type Two struct {
	Outer `velty:"prefix=O_"`
}
''')
bug("C13-names", "C13", [("tag.go", "				tag.Names = strings.Split(strings.TrimSpace(nv[1]), nameSeparator)\n", "				tag.Names = strings.SplitN(strings.TrimSpace(nv[1]), nameSeparator, 3)\n")],
 "a names= tag giving four or more names",
 "a tag can only give three names",
 '''
	for _, name := range []string{"A", "B", "C", "D", "E"} {
		expect(t, "$r."+name, "7", variable{"r", Many{X: 7}})
	}
''', extra='''
type Many struct {
	X int `velty:"names=A|B|C|D|E"`
}
''')
bug("C14-shared-text", "C14", [("est/buffer.go", "func (b *Buffer) String() string {\n	return string(b.buf[:b.index])", "func (b *Buffer) String() string {\n	text := b.buf[:b.index]\n	return *(*string)(unsafe.Pointer(&text))"), ("est/buffer.go", '	"strconv"\n', '	"strconv"\n	"unsafe"\n')],
 "an output kept while the state that rendered it is reset and executed again",
 "the output of an execution changes when the state is used again",
 '''
	exec, state, err := prepare("value: $v", []variable{{"v", 1}})
	if err != nil {
		t.Fatal(err)
	}
	var outputs []string
	for i := 1; i < 5; i++ {
		state.Reset()
		if err = state.SetValue("v", i); err != nil {
			t.Fatal(err)
		}
		if err = exec.Exec(state); err != nil {
			t.Fatal(err)
		}
		outputs = append(outputs, state.Buffer.String())
	}
	if got := strings.Join(outputs, "|"); got != "value: 1|value: 2|value: 3|value: 4" {
		t.Errorf("got %q", got)
	}
''', imports=["strings"])
bug("C15-receiver", "C15", [("est/op/upstream.go", "					newArg := *args[0]\n", "					newArg := args[0]\n"), ("est/op/upstream.go", "					args[0] = &newArg\n", "					args[0] = newArg\n")],
 "two goroutines executing the same method call on receivers held by their own states at the same time",
 "the receiver of a call is kept in the plan: a concurrent execution calls the method on another state's value",
 '''
	exec, _, err := prepare("$v.Item.Name()", []variable{{"v", Holder{Item: &Item{"x"}}}})
	if err != nil {
		t.Fatal(err)
	}
	planner := velty.New()
	if err = planner.DefineVariable("v", Holder{}); err != nil {
		t.Fatal(err)
	}
	var newState func() *est.State
	exec, newState, err = planner.Compile([]byte("$v.Item.Name()"))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		name := strconv.Itoa(g)
		state := newState()
		if err = state.SetValue("v", Holder{Item: &Item{name}}); err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				state.Buffer.Reset()
				if err := exec.Exec(state); err != nil || state.Buffer.String() != name {
					t.Errorf("got %q, %v, want %q", state.Buffer.String(), err, name)
					return
				}
			}
		}()
	}
	wg.Wait()
''', imports=["strconv", "sync"], race=True, extra='''
type Item struct{ name string }

func (i *Item) Name() string { return i.name }

type Holder struct{ Item *Item }
''')
bug("C15-cache-put", "C15", [("cache.go", within("func (c *cache) put", "	c.locker.Lock()\n	defer c.locker.Unlock()\n	c.cleanCacheIfNeeded()", "	c.cleanCacheIfNeeded()"), None)],
 "goroutines evaluating strings that are not in the cache yet at the same time",
 "the cache of evaluated templates is written without a lock",
 '''
	planner := velty.New(velty.CacheSize(100))
	if err := planner.DefineVariable("v", ""); err != nil {
		t.Fatal(err)
	}
	exec, newState, err := planner.Compile([]byte("#evaluate($v)"))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		state := newState()
		name := strconv.Itoa(g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				state.Buffer.Reset()
				text := "a" + name + "." + strconv.Itoa(i)
				if err := state.SetValue("v", text); err != nil {
					t.Error(err)
				}
				if err := exec.Exec(state); err != nil || state.Buffer.String() != text {
					t.Errorf("got %q, %v, want %q", state.Buffer.String(), err, text)
					return
				}
			}
		}()
	}
	wg.Wait()
''', imports=["strconv", "sync"], race=True)
bug("C16-lost-count", "C16", [("pool.go", "	if atomic.AddInt64(&p.counter, -1) > p.size-1 {\n		return\n	}\n", "	if atomic.LoadInt64(&p.counter) > p.size {\n		return\n	}\n	atomic.AddInt64(&p.counter, -1)\n")],
 "more states taken at once than the size of the pool, then put back",
 "after more states than the size of the pool were held at once the pool does not reuse any state any more",
 '''
	debug.SetGCPercent(-1)
	created := 0
	planner := velty.New()
	_, newState, err := planner.Compile([]byte("a"))
	if err != nil {
		t.Fatal(err)
	}
	pool := velty.NewPool(2, func() *est.State {
		created++
		return newState()
	})
	var held []*est.State
	for i := 0; i < 4; i++ {
		held = append(held, pool.State())
	}
	for _, state := range held {
		pool.Put(state)
	}
	created = 0
	for i := 0; i < 50; i++ {
		pool.Put(pool.State())
	}
	if created > 25 {
		t.Errorf("%v states created for 50 uses, one after another", created)
	}
''', imports=["runtime/debug"])
bug("C19-last-error", "C19", [("est/execution.go", "stat.Errors[0])", "stat.Errors[len(stat.Errors)-1])")],
 "an execution that raises at least two errors",
 "the last error is reported instead of the first",
 '''
	for want, src := range map[string]string{"one": `$errors.Raise("one")`, "first": `$errors.Raise("first")$errors.Raise("second")`} {
		exec, state, err := prepare(src, nil)
		if err != nil {
			t.Fatal(err)
		}
		if err = exec.Exec(state); err == nil || !strings.HasSuffix(err.Error(), ": "+want) {
			t.Errorf("got %v, want %v", err, want)
		}
	}
''', imports=["strings"])
bug("C20-order", "C20", [("est/op/func.go", within("	case func(s1, s2 string, start int) int:", "			return actual(*(*string)(operands[0].Exec(state)), *(*string)(operands[1].Exec(state)), *(*int)(operands[2].Exec(state))), nil", "			start := *(*int)(operands[2].Exec(state))\n			return actual(*(*string)(operands[0].Exec(state)), *(*string)(operands[1].Exec(state)), start), nil"), None)],
 "a function of two strings and an int called with arguments that are calls with effects of their own",
 "the third argument of a call is evaluated before the first two",
 '''
	var calls []string
	planner := velty.New()
	check := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	check(planner.RegisterFunction("text", func(s string) string { calls = append(calls, s); return s }))
	check(planner.RegisterFunction("size", func(s string) int { calls = append(calls, s); return len(s) }))
	check(planner.RegisterFunction("join", func(a, b string, n int) int { calls = append(calls, a+b+strconv.Itoa(n)); return n }))
	exec, newState, err := planner.Compile([]byte(`$join($text("a"), $text("b"), $size("cc"))`))
	check(err)
	state := newState()
	check(exec.Exec(state))
	if got := strings.Join(calls, " "); got != "a b cc ab2" || state.Buffer.String() != "2" {
		t.Errorf("got %q, %q", got, state.Buffer.String())
	}
''', imports=["strconv", "strings"])
bug("C21-round", "C21", [("functions/math.go", "	return math.Round(f)\n", "	return math.Floor(f + 0.5)\n")],
 "rounding a negative number half way between two integers, or a number just below 0.5",
 "math.Round rounds negative halves towards zero",
 '''
	for _, f := range []float64{0, 0.5, 1.2, 1.5, 2.5, -1.2, -0.5, -1.5, -2.5, 0.49999999999999994} {
		if got, want := (functions.Math{}).Round(f), math.Round(f); got != want {
			t.Errorf("Round(%v) = %v, want %v", f, got, want)
		}
	}
''', imports=["math", "github.com/viant/velty/functions"])
bug("C21-uint-base", "C21", [("functions/strconv.go", "strconv.ParseUint(val, 10, 64)", "strconv.ParseUint(val, 0, 64)")],
 "parsing digits that start with a zero or a base prefix",
 "ParseUint takes 010 as octal and accepts 0x10",
 '''
	for _, text := range []string{"0", "10", "010", "0x10", "1_000", "-1", "18446744073709551615"} {
		got, err := (functions.Strconv{}).ParseUint(text)
		want, wantErr := strconv.ParseUint(text, 10, 64)
		if got != want || (err == nil) != (wantErr == nil) {
			t.Errorf("ParseUint(%q) = %v, %v, want %v, %v", text, got, err, want, wantErr)
		}
	}
''', imports=["strconv", "github.com/viant/velty/functions"])
bug("C23-json", "C23", [("est/stmt/select.go", within("func (a *directAppender) newGenericAppender", "		state.Buffer.AppendString(asString)\n", "		if len(asString) > 0 && (asString[0] == '\"' || asString[0] == '{') {\n			state.Buffer.AppendString(asString)\n		} else {\n			state.Buffer.AppendStringWithoutEscaping(asString)\n		}\n"), None)],
 "a slice of strings rendered with HTML escaping enabled",
 "lists rendered as JSON are not escaped",
 '''
	for want, value := range map[string]interface{}{"&lt;a&gt;": "<a>", "[&#34;a&#34;]": []string{"a"}, "[1]": []int8{1}, "{&#34;k&#34;:1}": map[string]int{"k": 1}} {
		if got := render(t, "$v", []variable{{"v", value}}, velty.EscapeHTML(true)); got != want {
			t.Errorf("%v rendered %q, want %q", value, got, want)
		}
	}
''')
bug("C24-shared-selectors", "C24", [("est/op/selectors.go", "	newSelectors := make([]*Selector, len(s.selectors))\n	copy(newSelectors, s.selectors)\n", "	newSelectors := s.selectors\n")],
 "two scopes of one planner, or an evaluate and a later part of the template, declaring variables in turns",
 "scopes copied from a planner share the storage of their variables",
 '''
	check := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	for n := 0; n < 12; n++ {
		planner := velty.New()
		for i := 0; i < n; i++ {
			check(planner.DefineVariable("v"+strconv.Itoa(i), i))
		}
		one, two := planner.New(), planner.New()
		check(one.DefineVariable("a", "x"))
		check(two.DefineVariable("b", 1))
		exec, newState, err := one.Compile([]byte("$a"))
		check(err)
		state := newState()
		check(state.SetValue("a", "text"))
		check(exec.Exec(state))
		if got := state.Buffer.String(); got != "text" {
			t.Errorf("%v variables: got %q", n, got)
		}
	}
''', imports=["strconv"])
bug("C25-time", "C25", [("est/stmt/select.go", lambda s: (lambda i: s[:i] + s[i:].replace("time.RFC3339)", "time.RFC3339Nano)", 1))(s.index("		case time.Time:")), None)],
 "a time with a fraction of a second held by an interface",
 "times held by an interface are rendered with their fraction of a second",
 '''
	for want, at := range map[string]time.Time{"2020-01-02T03:04:05Z": time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), "2021-01-02T03:04:05Z": time.Date(2021, 1, 2, 3, 4, 5, 600, time.UTC)} {
		at := at
		m := map[string]interface{}{"t": at, "p": &at}
		expect(t, `$m["t"] $m["p"]`, want+" "+want, variable{"m", m})
	}
''', imports=["time"])
bug("C22-small-two", "C22", [("utils/itoa.go", "	if i < 10 {\n		return copy(dst, digits[i:i+1])", "	if i < 10 {\n		dst[0] = digits[i]\n		dst[1] = 0\n		return copy(dst, digits[i:i+1])"), ("est/buffer.go", "	b.growIfNeeded(65) // 64 int size and sign if < 0", "	b.growIfNeeded(65 - len(b.buf)%2*64) // 64 int size and sign if < 0")],
 "a one digit integer appended to a buffer of odd size that is almost full",
 "appending an integer to an almost full buffer of odd size fails",
 '''
	for size := 1; size < 150; size++ {
		for text := 0; text < 150; text++ {
			buffer := est.NewBuffer(size, false)
			buffer.AppendStringWithoutEscaping(strings.Repeat("a", text))
			buffer.AppendInt(7)
			buffer.AppendInt(1234567890123)
			if got, want := buffer.String(), strings.Repeat("a", text)+"71234567890123"; got != want {
				t.Fatalf("size %v: got %q, want %q", size, got, want)
			}
		}
	}
''', imports=["strings"])

bug("C06-capacity", "C06", [("est/stmt/if.go", "anHeader.Len > 0", "anHeader.Cap > 0")],
 "a condition that is an empty slice with some capacity",
 "an empty slice that has room for elements counts as true",
 '''
	for _, list := range [][]int{nil, {}, make([]int, 0, 3), {1}, {1, 2}[:1]} {
		expect(t, "#if($v)yes#{else}no#end", map[bool]string{true: "yes", false: "no"}[len(list) > 0], variable{"v", list})
	}
'''.replace("{1, 2}[:1]", "append(make([]int, 0, 4), 1)"))
bug("C11-nil-bool", "C11", [("est/op/upstream.go", "	case reflect.Bool:\n		zeroValuePtr = est.FalseValuePtr", "	case reflect.Bool:\n		zeroValuePtr = est.TrueValuePtr")],
 "a path to a bool that meets a nil pointer",
 "a bool behind a nil pointer renders true",
 '''
	expect(t, "$r.P.B $r.P.I", "false 0", variable{"r", Rec{}})
	expect(t, "$r.P.B $r.P.I", "true 1", variable{"r", Rec{P: &In{B: true, I: 1}}})
	expect(t, "$r.P.B", "false", variable{"r", Rec{P: &In{}}})
''', extra='''
type In struct {
	B bool
	I int
}
type Rec struct {
	A int
	P *In
}
''')
bug("C17-trimmed", "C17", [("evaluate.go", "	block, err := parser.Parse([]byte(varValue))\n", "	block, err := parser.Parse([]byte(strings.TrimRight(varValue, \" \\t\")))\n"), ("evaluate.go", '	"reflect"\n', '	"reflect"\n	"strings"\n')],
 "an evaluated string that ends with blanks",
 "blanks at the end of an evaluated template are lost",
 '''
	for _, text := range []string{"", "a", "a ", " ", "\\t", " a\\t", "a\\nb\\n"} {
		expect(t, "<#evaluate($v)>", "<"+text+">", variable{"v", text})
	}
''')
bug("C18-last-text", "C18", [("cache.go", "	val, ok := c.values[key]\n", "	if c.last != nil && c.lastText == key.text {\n		return c.last, true\n	}\n\n	val, ok := c.values[key]\n	if ok {\n		c.last, c.lastText = val, key.text\n	}\n"),
 ("cache.go", "		locker    sync.Locker\n", "		locker    sync.Locker\n		last      *value\n		lastText  string\n")],
 "one text evaluated at least twice at one place and then at another place where other variables are declared",
 "the text evaluated last is found again by its text only, with the variables of another place",
 '''
	const text = "[$b]"
	src := "#evaluate($t)#evaluate($t)#set($b = 1)#evaluate($t)#evaluate($t)"
	for size := 0; size < 4; size++ {
		if got := render(t, src, []variable{{"t", text}}, velty.CacheSize(size)); got != "[$b][$b][1][1]" {
			t.Errorf("cache of %v: got %q", size, got)
		}
		loop := "#foreach($i in [0...3])#evaluate($t)#end#set($b = 1)#foreach($i in [0...3])#evaluate($t)#end"
		if got := render(t, loop, []variable{{"t", text}}, velty.CacheSize(size)); got != "[$b][$b][$b][1][1][1]" {
			t.Errorf("cache of %v: got %q", size, got)
		}
	}
''')
bug("C10-wide-copy", "C10", [("est/stmt/assign/assign.go", "				*(*int32)(destPtr) = *(*int32)(srcPtr)", "				*(*int64)(destPtr) = *(*int64)(srcPtr)")],
 "an assignment to a 32 bit integer field next to other data",
 "assigning a 32 bit integer also overwrites the four bytes behind it",
 '''
	expect(t, "#set($r.X = $f)$r.X $r.Y", "25 7", variable{"r", &Pair{X: 1, Y: 7}}, variable{"f", int32(25)})
	expect(t, "#set($r.X = $s.X)$r.X $r.Y", "25 7", variable{"r", &Pair{X: 1, Y: 7}}, variable{"s", Pair{X: 25, Y: 9}})
''', extra='''
type Pair struct {
	X int32
	Y int32
}
''')
