bug("C14-big-reset", "C14", [("est/buffer.go", "	b.index = 0\n", "	b.index = 0\n	if len(b.buf) > 1<<16 { //do not keep large buffers\n		*b = *NewBuffer(1<<12, false)\n	}\n")],
 "a state that is reset after it rendered more than 64 KB, of a planner with EscapeHTML",
 "the buffer that replaces a large one does not escape",
 '''
	planner := velty.New(velty.EscapeHTML(true))
	_ = planner.DefineVariable("s", "")
	exec, newState, err := planner.Compile([]byte("$s"))
	if err != nil {
		t.Fatal(err)
	}
	state := newState()
	for _, v := range []string{"<", strings.Repeat("a", 100000), "<"} {
		state.Reset()
		_ = state.SetValue("s", v)
		if err := exec.Exec(state); err != nil || state.Buffer.String() != html.EscapeString(v) {
			t.Fatalf("%.10q %v", state.Buffer.String(), err)
		}
	}
''', imports=["html", "strings"])
bug("C25-float-int", "C25", [("est/buffer.go", "func (b *Buffer) AppendFloat(v float64) {\n", "func (b *Buffer) AppendFloat(v float64) {\n	if whole := int64(v); float64(whole) == v { //no fraction\n		b.AppendInt(int(whole))\n		return\n	}\n")],
 "negative zero, or floats from 2^63",
 "whole floats are rendered as integers, losing the sign of negative zero",
 '''
	planner := velty.New()
	_ = planner.DefineVariable("f", 0.0)
	exec, newState, err := planner.Compile([]byte("$f"))
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range []float64{1, -2, 0, math.Copysign(0, -1), 1 << 63, 1 << 62, 1e300} {
		state := newState()
		_ = state.SetValue("f", v)
		if err := exec.Exec(state); err != nil || state.Buffer.String() != strconv.FormatFloat(v, 'f', -1, 64) {
			t.Errorf("%v: %q %v", v, state.Buffer.String(), err)
		}
	}
''', imports=["math", "strconv"])
bug("C10-slice-window", "C10", [("est/stmt/assign/assign.go", "					destHader.Len = sourceHeader.Len\n					destHader.Cap = sourceHeader.Cap\n", "					destHader.Cap = sourceHeader.Cap\n					if destHader.Len < sourceHeader.Len || sourceHeader.Len > 0 {\n						destHader.Len = sourceHeader.Len\n					}\n")],
 "an empty slice assigned to a variable that holds elements",
 "the length of the assigned slice is kept unless it is positive",
 '''
	planner := velty.New()
	_ = planner.DefineVariable("a", []int{})
	_ = planner.DefineVariable("b", []int{})
	exec, newState, err := planner.Compile([]byte("#set($a = $b)#foreach($x in $a)$x,#end"))
	if err != nil {
		t.Fatal(err)
	}
	state := newState()
	_ = state.SetValue("a", []int{1, 2})
	_ = state.SetValue("b", make([]int, 0, 4))
	if err := exec.Exec(state); err != nil || state.Buffer.String() != "" {
		t.Fatalf("%q %v", state.Buffer.String(), err)
	}
''')
bug("C19-quiet-repeat", "C19", [("est/state.go", "	s.Errors = append(s.Errors, err)\n", "	if n := len(s.Errors); n == 0 || s.Errors[n-1].Error() != err.Error() { //reported already\n		s.Errors = append(s.Errors, err)\n	} else {\n		return\n	}\n")],
 "a state with PanicOnError whose errors were not reset, or two equal errors in a row",
 "an error equal to the last one is not reported",
 '''
	planner := velty.New()
	calls := 0
	_ = planner.RegisterFunction("boom", func(n int8) (int, error) { calls++; return 0, fmt.Errorf("boom") })
	_ = planner.DefineVariable("n", int8(1))
	exec, newState, err := planner.Compile([]byte("${boom($n)}${boom($n)}"))
	if err != nil {
		t.Fatal(err)
	}
	state := newState()
	if err := exec.Exec(state); err == nil || len(state.Errors) != 2 {
		t.Fatalf("%v %v", state.Errors, err)
	}
''', imports=["fmt"])
