def within(start, old, new, n=1):
    """replace old by new once, after the first occurrence of start"""
    def f(s):
        i = s.index(start); j = s.index(old, i)
        return s[:j] + new + s[j+len(old):]
    return f

bug("C09-block-order", "C09", [("est/stmt/block.go", lambda s: (lambda i: s[:i] + s[i:].replace("Compute: args[11]", "Compute: args[X]", 1).replace("Compute: args[10]", "Compute: args[11]", 1).replace("args[X]", "args[10]", 1))(s.index("func newStmt14")), None)],
 "a block of exactly 14 statements, its 11th and 12th statement observably different",
 "the 11th and 12th statement of a block of 14 run in the wrong order",
 '''
	expect(t, "$a.$b.$a.$b.$a.$b.$a", "1.2.1.2.1.2.1", variable{"a", 1}, variable{"b", 2})
	expect(t, "$a$b$a$b$a$b$a$b$a$b$a$b$a$b", "12121212121212", variable{"a", 1}, variable{"b", 2})
	expect(t, "#if($a == 1)$a.$b.$a.$b.$a.$b.$a.$b#end", "1.2.1.2.1.2.1.2", variable{"a", 1}, variable{"b", 2})
''')
bug("C22-int-room", "C22", [("est/buffer.go", "	b.growIfNeeded(65) // 64 int size and sign if < 0", "	b.growIfNeeded(11) // 10 digits and sign if < 0")],
 "an integer of more than 12 characters appended to a buffer that has just over 11 bytes left",
 "appending a long integer to an almost full buffer cuts it or panics",
 '''
	for size := 1; size < 200; size++ {
		buffer := est.NewBuffer(size, false)
		want := ""
		for _, v := range []int{1, -20, 300, -1 << 63, 1<<63 - 1, 7, -1 << 40, 1 << 50, -3} {
			buffer.AppendInt(v)
			want += strconv.Itoa(v)
		}
		if got := buffer.String(); got != want {
			t.Fatalf("size %v: got %q, want %q", size, got, want)
		}
	}
''', imports=["strconv"])
bug("C06-chain-arm", "C06", [("ast/stmt/ifstmt.go", within("func (i *If) AddCondition", "	for temp.Else != nil {", "	if temp.Else != nil {"), None)],
 "an if with at least three further arms, a middle elseif being the first that holds",
 "the arms of longer if chains replace one another: a middle elseif never runs",
 '''
	for v, want := range []string{"zero", "one", "two", "other", "other"} {
		expect(t, "#if($v == 0)zero#elseif($v == 1)one#elseif($v == 2)two#{else}other#end", want, variable{"v", v})
		expect(t, "#if($v == 1)one#{else}#if($v == 2)two#{else}x#end#end", map[bool]string{true: want, false: "x"}[v == 1 || v == 2], variable{"v", v})
	}
''')
bug("C07-live-length", "C07", [("est/stmt/foreach.go", "		resultPtr = e.Block(state)\n	}", "		resultPtr = e.Block(state)\n		if current := e.Slice.Len(e.X.Exec(state)); current < l {\n			l = current\n		}\n	}")],
 "the variable looped over is assigned a shorter slice inside the loop body",
 "a loop whose body assigns a shorter slice to the variable looped over stops early",
 '''
	long, short := []int{1, 2, 3}, []int{9}
	expect(t, "#foreach($x in $list)$x,#set($list = $other)#end", "1,2,3,", variable{"list", long}, variable{"other", short})
	expect(t, "#foreach($x in $list)$x,#set($other = $list)#end", "1,2,3,", variable{"list", long}, variable{"other", short})
''')
bug("C04-float-leq", "C04", [("est/expr/float.go", within("func (b *binaryExpr) indirectFloatLeq", "<=", "<"), None)],
 "a <= comparison of equal floats where an operand is not a plain variable (a field behind a pointer, an expression or a call)",
 "2.5 <= 2.5 is false when an operand is an expression",
 '''
	expect(t, "#if($a <= $b)yes#{else}no#end", "yes", variable{"a", 2.5}, variable{"b", 2.5})
	expect(t, "#if($a + 1.0 <= $b)yes#{else}no#end", "yes", variable{"a", 1.5}, variable{"b", 2.5})
	expect(t, "#if($a + 1.0 <= $b)yes#{else}no#end", "no", variable{"a", 1.75}, variable{"b", 2.5})
''')
bug("C01-blank-text", "C01", [("parser/parser.go", "	text = text[:len(text)-1]\n	if len(text) == 0 {", "	text = text[:len(text)-1]\n	if len(text) == 0 || text == \"\\t\" {")],
 "literal text that is a single tab between two constructs",
 "a single tab between two references or statements is lost",
 '''
	expect(t, "a\\t$a\\tb", "a\\t1\\tb", variable{"a", 1})
	expect(t, "$a\\t$a", "1\\t1", variable{"a", 1})
	expect(t, "$a\\n$a $a", "1\\n1 1", variable{"a", 1})
''')
bug("C10-wide-int", "C10", [("est/stmt/assign/assign.go", "	case reflect.Int, reflect.Uint64, reflect.Int64:\n\n		if !wasPtr {", "	case reflect.Uint:\n		if !wasPtr {\n			return func(state *est.State) unsafe.Pointer {\n				destPtr := a.x.Exec(state)\n				srcPtr := a.y.Exec(state)\n				*(*uint32)(destPtr) = *(*uint32)(srcPtr)\n				return srcPtr\n			}\n		}\n\n	case reflect.Int, reflect.Uint64, reflect.Int64:\n\n		if !wasPtr {")],
 "an assignment to a uint variable where the old or the new value needs more than 32 bits",
 "the upper half of uint values is not assigned",
 '''
	expect(t, "#set($a = $b)$a", "7", variable{"a", uint(1)}, variable{"b", uint(7)})
	expect(t, "#set($a = $b)$a", "4294967303", variable{"a", uint(1)}, variable{"b", uint(1<<32 + 7)})
''')
