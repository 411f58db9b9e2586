bug("C21-json-holder", "C21", [("functions/json.go", "	rValue := reflect.New(rType)\n", "	rValue := n.holder(rType)\n"),
 ("functions/json.go", "	parser TypeParser\n", "	parser  TypeParser\n	holders sync.Map //type to a value of it\n"),
 ("functions/json.go", '	"reflect"\n', '	"reflect"\n	"sync"\n'),
 ("functions/json.go", "func NewJSON(", "//holder returns value to decode into, the one decoded before is overwritten\nfunc (n *JSON) holder(rType reflect.Type) reflect.Value {\n	if rType.Kind() != reflect.Struct {\n		return reflect.New(rType)\n	}\n	holder, _ := n.holders.LoadOrStore(rType, reflect.New(rType))\n	return holder.(reflect.Value)\n}\n\nfunc NewJSON(")],
 "two documents decoded into one struct type by one planner, the second one without a field of the first",
 "fields absent in a document keep the values of the document decoded before",
 '''
	type doc struct{ A, B int }
	planner := velty.New(velty.TypeParser(func(string) (reflect.Type, error) { return reflect.TypeOf(doc{}), nil }))
	_ = planner.DefineVariable("s", "")
	exec, newState, err := planner.Compile([]byte(`#set($d = $json.UnmarshalInto($s, "doc"))$d.A,$d.B`))
	if err != nil {
		t.Fatal(err)
	}
	for i, s := range []string{`{"A":1,"B":2}`, `{"B":3}`, `{"A":4}`, `{}`} {
		state := newState()
		_ = state.SetValue("s", s)
		want := []string{"1,2", "0,3", "4,0", "0,0"}[i]
		if err := exec.Exec(state); err != nil || state.Buffer.String() != want {
			t.Errorf("%s: %q %v", s, state.Buffer.String(), err)
		}
	}
''', imports=["reflect"])
