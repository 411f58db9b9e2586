CONC = '''
	planner := velty.New()
	_ = planner.DefineVariable("v", %s)
	exec, newState, err := planner.Compile([]byte(%s))
	if err != nil {
		t.Fatal(err)
	}
	done := sync.WaitGroup{}
	for g := 0; g < 4; g++ {
		done.Add(1)
		go func(g int) {
			defer done.Done()
			for i := 0; i < 200; i++ {
				n := (i + g) %% 3
				state := newState()
				_ = state.SetValue("v", %s)
				want := %s
				if err := exec.Exec(state); err != nil || state.Buffer.String() != want {
					t.Errorf("got %%q %%v, want %%q", state.Buffer.String(), err, want)
					return
				}
			}
		}(g)
	}
	done.Wait()
'''
bug("C15-time-memo", "C15", [("est/stmt/select.go", "		case time.Time:\n			state.Buffer.AppendString(actual.Format(time.RFC3339))\n", "		case time.Time:\n			if !actual.Equal(at) || actual.Location() != at.Location() || text == \"\" {\n				at, text = actual, actual.Format(time.RFC3339)\n			}\n			state.Buffer.AppendString(text)\n"),
  ("est/stmt/select.go", "func (a *directAppender) newInterfaceAppender() est.Compute {\n", "func (a *directAppender) newInterfaceAppender() est.Compute {\n	var at time.Time //the last time rendered\n	var text string\n")],
 "two goroutines executing one plan that renders times held in an interface",
 "the text of the last time rendered is kept by the plan without synchronisation",
 CONC % ("reflect.TypeOf((*interface{})(nil)).Elem()", '"$v,$v"', "time.Unix(int64(n), 0).UTC()", 'fmt.Sprintf("1970-01-01T00:00:0%vZ,1970-01-01T00:00:0%vZ", n, n)') , imports=["sync", "fmt", "time", "reflect"], race=True)
bug("C15-foreach-item", "C15", [("est/stmt/foreach.go", "	X    *op.Operand\n", "	X    *op.Operand\n	at   int\n"), ("est/stmt/foreach.go", "	l := e.Slice.Len(xPtr)\n", "	l := e.Slice.Len(xPtr)\n	e.at = l - 1\n"),
 ("est/stmt/foreach.go", "	return resultPtr\n}\n", "	if e.at != l-1 { //stopped before the last item\n		return nil\n	}\n	return resultPtr\n}\n")],
 "two goroutines executing one plan with a foreach",
 "foreach keeps the index of the last item in the plan, written by every execution (a data race)",
 CONC % ("[]int{}", '"#foreach($x in $v)$x,#end"', "[]int{n, n + 1}", 'fmt.Sprintf("%v,%v,", n, n+1)') , imports=["sync", "fmt"], race=True)
