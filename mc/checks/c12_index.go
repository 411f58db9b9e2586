package checks

import (
	"fmt"
	"reflect"

	"verifmc/kit"
	"verifmc/ref"
)

type c12E struct {
	Pad int8
	A   string
	N   int
	L   []int
	M   map[string]string
	P   *c12E
}

func (e c12E) Tag() string           { return "<" + e.A + ">" }
func (e c12E) Plus(i int) int        { return e.N + i }
func (e *c12E) PTag(s string) string { return s + e.A }
func (e c12E) Self() c12E            { return e }
func (e c12E) List(n int) []int      { return append([]int{n}, e.L...) }

type c12Key string

func init() {
	register(&kit.Check{
		Property: "C12",
		Level:    "model_checking",
		Rule:     "every container type x every place it is read from x every present and missing key x every way to write the key x every continuation x every use of the result, compared with reflection; containers of containers up to the depth; containers held in interfaces; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("14 element types in slices and in maps of 15 key types; 18 places; keys as literals, variables of every integer kind, fields, calls, elements and expressions; continuations by fields, indexes and methods; 5 uses; containers nested %d deep over slices, string maps and int maps, typed and in interfaces", map[kit.Tier]int{kit.Quick: 3, kit.Thorough: 4}[t])
		},
		Assumptions: []string{"an index outside a slice, a key of a type that cannot be compared with the map's keys and uint8 keys above 127 (xunsafe's conversion) are not part of the property"},
		Parts: []kit.Part{
			interplayPart("C12"),
			{Name: "sizes", Gen: c12Sizes},
			{Name: "elements", Gen: c12GenElements},
			{Name: "keys", Gen: c12GenKeys},
			{Name: "nested", Gen: c12GenNested},
			{Name: "interfaces", Gen: c12GenInterfaces},
			{Name: "missing", Gen: c12GenMissing},
		},
	})
}

func c12Elem(n int) c12E {
	return c12E{Pad: int8(-n), A: fmt.Sprintf("a%d", n), N: n * 10, L: []int{n, n + 1, n + 2}, M: map[string]string{"k": fmt.Sprintf("m%d", n)}, P: &c12E{A: fmt.Sprintf("p%d", n), N: -n, L: []int{-n}}}
}

type c12Cont struct {
	segs   []ref.Seg
	silent bool
}

type c12Type struct {
	elems []interface{}
	conts [][]ref.Seg
}

func c12Types() []c12Type {
	F := func(s string) ref.Seg { return ref.Field(s) }
	I := func(v interface{}) ref.Seg { return ref.Index{X: ref.Lit{V: v}} }
	lit := func(v interface{}) []ref.Expr { return []ref.Expr{ref.Lit{V: v}} }
	none := []ref.Seg{}
	structConts := [][]ref.Seg{none, {F("A")}, {F("N")}, {F("Pad")}, {F("L"), I(2)}, {F("M"), I("k")}, {F("M"), I("none")}, {F("P"), F("A")}, {F("P"), F("L"), I(0)}, {F("P"), F("P"), F("N")},
		{ref.Method{Name: "Tag"}}, {ref.Method{Name: "Plus", Args: lit(5)}}, {ref.Method{Name: "Plus", Args: []ref.Expr{ref.V("one")}}}, {ref.Method{Name: "Self"}, F("A")}, {ref.Method{Name: "List", Args: lit(9)}, I(0)}, {ref.Method{Name: "List", Args: lit(9)}, I(1)}, {F("P"), ref.Method{Name: "Tag"}}}
	e := func(n int) *c12E { x := c12Elem(n); return &x }
	return []c12Type{
		{[]interface{}{7, -8, 1 << 40}, [][]ref.Seg{none}},
		{[]interface{}{int8(7), int8(-8), int8(9)}, [][]ref.Seg{none}},
		{[]interface{}{true, false, true}, [][]ref.Seg{none}},
		{[]interface{}{1.5, -2.25, 1e20}, [][]ref.Seg{none}},
		{[]interface{}{float32(1.5), float32(2), float32(-3)}, [][]ref.Seg{none}},
		{[]interface{}{"x", "", "long string with é"}, [][]ref.Seg{none}},
		{[]interface{}{c12Elem(1), c12Elem(2), c12Elem(3)}, structConts},
		{[]interface{}{e(1), e(2), e(3)}, append(append([][]ref.Seg{}, structConts...), []ref.Seg{ref.Method{Name: "PTag", Args: lit("*")}}, []ref.Seg{F("P"), ref.Method{Name: "PTag", Args: lit("**")}})},
		{[]interface{}{[]int{1, 2}, []int{3, 4, 5}, []int{6, 7}}, [][]ref.Seg{none, {I(0)}, {I(1)}}},
		{[]interface{}{[]c12E{c12Elem(1)}, []c12E{c12Elem(2), c12Elem(3)}, []c12E{c12Elem(4)}}, [][]ref.Seg{{I(0), F("A")}, {I(0), ref.Method{Name: "Tag"}}, {I(0), F("L"), I(1)}}},
		{[]interface{}{[]*c12E{e(1)}, []*c12E{e(2), e(3)}, []*c12E{e(4)}}, [][]ref.Seg{{I(0), F("A")}, {I(0), ref.Method{Name: "PTag", Args: lit("!")}}, {I(0), F("P"), F("N")}}},
		{[]interface{}{map[string]int{"a": 1}, map[string]int{"a": 2, "b": 3}, map[string]int{}}, [][]ref.Seg{none, {I("a")}, {I("b")}, {I("zz")}}},
		{[]interface{}{map[int]*c12E{1: e(1)}, map[int]*c12E{1: e(2)}, map[int]*c12E{1: e(3), 2: e(4)}}, [][]ref.Seg{{I(1), F("A")}, {I(1), ref.Method{Name: "Tag"}}, {I(2), F("A")}}},
		{[]interface{}{c07Word("w1"), c07Word(""), c07Word("w3")}, [][]ref.Seg{none}},
	}
}

// c12Uses: what is done with a value of type t.
func c12Uses(t reflect.Type, x func() *ref.Path) [][]ref.Node {
	out := func(p *ref.Path) ref.Node { return ref.Out{P: p} }
	uses := [][]ref.Node{{out(x())}, {ref.Text("<"), func() ref.Node { p := x(); p.Braced = true; return out(p) }(), ref.Text(">")},
		{ref.Set{Target: ref.V("stored"), Val: x()}, out(ref.V("stored")), ref.Text(" "), out(x())}}
	lit := func(v interface{}) ref.Expr { return ref.Lit{V: v} }
	switch t.Kind() {
	case reflect.Int:
		uses = append(uses, []ref.Node{ref.Set{Target: ref.V("sum"), Val: ref.Bin{Op: "+", L: x(), R: ref.Bin{Op: "*", L: x(), R: lit(2)}}}, out(ref.V("sum")), ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">", L: x(), R: lit(0)}, Body: []ref.Node{ref.Text("pos")}}}, HasElse: true, Else: []ref.Node{ref.Text("neg")}}},
			[]ref.Node{out(&ref.Path{Root: "idInt", Call: true, Args: []ref.Expr{x()}})})
	case reflect.String:
		if t != strT {
			break
		}
		uses = append(uses, []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "==", L: x(), R: lit("x")}, Body: []ref.Node{ref.Text("is x")}}}, HasElse: true, Else: []ref.Node{out(x())}}})
		if t == strT {
			uses = append(uses, []ref.Node{out(&ref.Path{Root: "idStr", Call: true, Args: []ref.Expr{x()}}), ref.Set{Target: ref.V("cat"), Val: ref.Bin{Op: "+", L: x(), R: lit("!")}}, out(ref.V("cat"))})
		}
	case reflect.Bool:
		uses = append(uses, []ref.Node{ref.If{Arms: []ref.Arm{{Cond: x(), Body: []ref.Node{ref.Text("T")}}}, HasElse: true, Else: []ref.Node{ref.Text("F")}}})
	case reflect.Slice:
		uses = append(uses, []ref.Node{ref.Foreach{Item: "q", Over: x(), Body: []ref.Node{out(ref.V("q")), ref.Text(",")}}, ref.If{Arms: []ref.Arm{{Cond: x(), Body: []ref.Node{ref.Text("some")}}}}})
	}
	return uses
}

func c12Funcs(env *ref.Env) {
	env.Funcs["idInt"] = func(i int) int { return i }
	env.Funcs["idStr"] = func(s string) string { return s }
}

// typeAfter follows a continuation.
func typeAfter(t reflect.Type, segs []ref.Seg) reflect.Type {
	for _, s := range segs {
		switch a := s.(type) {
		case ref.Field:
			for t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			f, _ := t.FieldByName(string(a))
			t = f.Type
		case ref.Index:
			t = t.Elem()
		case ref.Method:
			m, _ := t.MethodByName(a.Name)
			t = m.Type.Out(0)
		}
	}
	return t
}

func c12GenElements(g *kit.G) {
	for _, ty := range c12Types() {
		et := reflect.TypeOf(ty.elems[0])
		slice := reflect.MakeSlice(reflect.SliceOf(et), 0, 3)
		smap := reflect.MakeMap(reflect.MapOf(strT, et))
		imap := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), et))
		for i, e := range ty.elems {
			slice = reflect.Append(slice, reflect.ValueOf(e))
			smap.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)), reflect.ValueOf(e))
			imap.SetMapIndex(reflect.ValueOf(i), reflect.ValueOf(e))
		}
		for ci, c := range []reflect.Value{slice, smap, imap} {
			pe := newPlaces(c.Type())
			pe.more("i", 1)
			pe.more("one", 1)
			pe.more("key", "k1")
			pe.more("missing", "none")
			c12Funcs(pe.env)
			keys := []ref.Expr{ref.Lit{V: 0}, ref.Lit{V: 2}, ref.V("i"), ref.Bin{Op: "+", L: ref.V("i"), R: ref.Lit{V: 1}}}
			switch ci {
			case 1:
				keys = []ref.Expr{ref.Lit{V: "k0"}, ref.V("key"), ref.Bin{Op: "+", L: ref.Lit{V: "k"}, R: ref.Lit{V: "2"}}, ref.V("missing")}
			case 2:
				keys = append(keys, ref.Lit{V: 99})
			}
			for _, pl := range pe.places {
				for _, k := range keys {
					for _, cont := range ty.conts {
						pl, k, cont := pl, k, cont
						missing := ci > 0
						if l, ok := k.(ref.Lit); ok && l.V != 99 {
							missing = false
						}
						if r, ok := k.(*ref.Path); ok && r.Root != "missing" {
							missing = false
						}
						if _, ok := k.(ref.Bin); ok {
							missing = false
						}
						if missing && hasUnsafeOnMissing(cont) {
							continue
						}
						g.Do(func(t *kit.T) {
							x := func() *ref.Path {
								p := pl.expr()
								p.Segs = append(append(append([]ref.Seg{}, p.Segs...), ref.Index{X: k}), cont...)
								return p
							}
							for _, use := range c12Uses(typeAfter(et, cont), x) {
								agree(t, pe.env, pl.wrap(use), [][]interface{}{pe.set(c.Interface())})
							}
						})
					}
				}
			}
		}
	}
}

// a missing entry is a nil pointer or an empty slice: methods and indexes on it are Go panics
func hasUnsafeOnMissing(cont []ref.Seg) bool {
	for _, s := range cont {
		switch a := s.(type) {
		case ref.Method:
			return true
		case ref.Index:
			if l, ok := a.X.(ref.Lit); ok {
				if _, isInt := l.V.(int); isInt {
					return true
				}
			}
		}
	}
	return false
}

// c12GenKeys: how a key is written, over every key type.
func c12GenKeys(g *kit.G) {
	keyVals := [][]interface{}{
		{"", "k", "longer key", "1"}, {c12Key("k"), c12Key(""), c12Key("x y"), c12Key("1")},
		{0, 1, -1, 1 << 40}, {int8(0), int8(1), int8(-1), int8(127)}, {int16(0), int16(1), int16(-1), int16(300)}, {int32(0), int32(1), int32(-1), int32(1 << 30)}, {int64(0), int64(1), int64(-1), int64(1) << 40},
		{uint(0), uint(1), uint(2), uint(1) << 40}, {uint8(0), uint8(1), uint8(2), uint8(127)}, {uint16(0), uint16(1), uint16(2), uint16(300)}, {uint32(0), uint32(1), uint32(2), uint32(1 << 31)}, {uint64(0), uint64(1), uint64(2), uint64(1) << 40},
		{true, false}, {0.0, 1.0, -1.0, 2.5}, {float32(0), float32(1), float32(2.5)},
	}
	for _, kv := range keyVals {
		kt := reflect.TypeOf(kv[0])
		m := reflect.MakeMap(reflect.MapOf(kt, strT))
		for i := 0; i < len(kv); i++ {
			m.SetMapIndex(reflect.ValueOf(kv[i]), reflect.ValueOf(fmt.Sprintf("v%d", i)))
		}
		half := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf(0)))
		for i := 0; i < len(kv); i += 2 {
			half.SetMapIndex(reflect.ValueOf(kv[i]), reflect.ValueOf(100+i))
		}
		any := reflect.MakeMap(reflect.MapOf(anyT, strT))
		for i := 0; i < len(kv); i++ {
			any.SetMapIndex(reflect.ValueOf(kv[i]), reflect.ValueOf(fmt.Sprintf("v%d", i)))
		}
		// keys behind pointers
		for _, qv := range keyVals {
			qt := reflect.TypeOf(qv[0])
			if kt.Kind() != qt.Kind() && !(isNum(kt) && isNum(qt)) {
				continue
			}
			pt := reflect.PtrTo(qt)
			pe := newPlaces(pt)
			pe.more("map", m.Interface())
			pe.more("half", half.Interface())
			pe.more("any", any.Interface())
			pe.more("slice", []string{"s0", "s1", "s2"})
			var vals []interface{}
			for _, v := range append([]interface{}{nil}, qv...) {
				p := reflect.Zero(pt)
				if v != nil {
					p = reflect.New(qt)
					p.Elem().Set(reflect.ValueOf(v))
				}
				vals = append(vals, p.Interface())
			}
			for _, pl := range pe.places {
				pl, qt := pl, qt
				g.Do(func(t *kit.T) {
					nodes := []ref.Node{ref.Out{P: path("map", ref.Index{X: pl.expr()})}, ref.Text(" "), ref.Out{P: path("half", ref.Index{X: pl.expr()})}}
					if qt == kt && !isNum(kt) {
						nodes = append(nodes, ref.Out{P: path("any", ref.Index{X: pl.expr()})})
					}
					agree(t, pe.env, pl.wrap(nodes), pe.sets(vals))
					if isNum(qt) && !isFloat(qt) {
						agree(t, pe.env, pl.wrap([]ref.Node{ref.Out{P: path("slice", ref.Index{X: pl.expr()})}}), pe.sets(vals[1:3]))
					}
				})
			}
		}
		// key variables of every type comparable with the map's
		for _, qv := range keyVals {
			qt := reflect.TypeOf(qv[0])
			if kt.Kind() != qt.Kind() && !(isNum(kt) && isNum(qt)) {
				continue
			}
			if isFloat(qt) != isFloat(kt) && (isFloat(qt) || isFloat(kt)) && (qt != reflect.TypeOf(0) && kt != reflect.TypeOf(0)) {
				continue
			}
			pe := newPlaces(qt)
			pe.more("map", m.Interface())
			pe.more("half", half.Interface())
			pe.more("slice", []string{"s0", "s1", "s2"})
			for _, pl := range pe.places {
				pl, qv, qt := pl, qv, qt
				g.Do(func(t *kit.T) {
					nodes := []ref.Node{ref.Out{P: path("map", ref.Index{X: pl.expr()})}, ref.Text(" "), ref.Out{P: path("half", ref.Index{X: pl.expr()})}, ref.Text(" "),
						ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "==", L: path("half", ref.Index{X: pl.expr()}), R: ref.Lit{V: 100}}, Body: []ref.Node{ref.Text("first")}}}}}
					agree(t, pe.env, pl.wrap(nodes), pe.sets(qv))
					if isNum(qt) && !isFloat(qt) {
						agree(t, pe.env, pl.wrap([]ref.Node{ref.Out{P: path("slice", ref.Index{X: pl.expr()})}}), pe.sets(qv[:2]))
						if qt != reflect.TypeOf(0) {
							return
						}
						agree(t, pe.env, pl.wrap([]ref.Node{ref.Out{P: path("slice", ref.Index{X: ref.Bin{Op: "+", L: pl.expr(), R: ref.Lit{V: 1}}})}}), pe.sets(qv[:2]))
					}
				})
			}
		}
		// literals
		env := &ref.Env{Vars: []ref.Var{{Name: "map", Val: m.Interface()}, {Name: "half", Val: half.Interface()}}}
		var lits []interface{}
		switch {
		case kt.Kind() == reflect.String:
			lits = []interface{}{"", "k", "1", "longer key", "x y", "none"}
		case kt.Kind() == reflect.Bool:
			continue // not parsed as an index
		case isFloat(kt):
			lits = []interface{}{0.0, 1.0, 2.5, -1.0, 7.5}
		default:
			lits = []interface{}{0, 1, 2, -1, 127, 128, 255, 256, 300, 1 << 30, 1 << 40, 3}
		}
		for _, l := range lits {
			l := l
			if kt.Kind() == reflect.Uint8 && (l == 128 || l == 255) {
				continue
			}
			g.Do(func(t *kit.T) {
				agree(t, env, []ref.Node{ref.Out{P: path("map", ref.Index{X: ref.Lit{V: l}})}, ref.Text(" "), ref.Out{P: path("half", ref.Index{X: ref.Lit{V: l}})}}, nil)
			})
		}
	}
}

func isNum(t reflect.Type) bool {
	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Float64 && t.Kind() != reflect.Uintptr
}
func isFloat(t reflect.Type) bool { return t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 }

// containers of containers: level kinds 0 slice, 1 map[string], 2 map[int]; the leaves are numbered strings.
func c12Build(kinds []int, rt reflect.Type, dyn bool, n *int) reflect.Value {
	if len(kinds) == 0 {
		*n++
		return reflect.ValueOf(fmt.Sprintf("leaf%d", *n))
	}
	set := func(c, v reflect.Value) reflect.Value { return v }
	_ = set
	switch kinds[0] {
	case 0:
		s := reflect.MakeSlice(rt, 2, 2)
		for i := 0; i < 2; i++ {
			s.Index(i).Set(c12Build(kinds[1:], c12Next(kinds, rt, dyn), dyn, n))
		}
		return s
	default:
		m := reflect.MakeMap(rt)
		for i := 0; i < 2; i++ {
			k := reflect.ValueOf(i)
			if kinds[0] == 1 {
				k = reflect.ValueOf([]string{"a", "b"}[i])
			}
			m.SetMapIndex(k, c12Build(kinds[1:], c12Next(kinds, rt, dyn), dyn, n))
		}
		return m
	}
}

func c12Next(kinds []int, rt reflect.Type, dyn bool) reflect.Type {
	if !dyn || len(kinds) == 1 {
		return rt.Elem()
	}
	return c12ContType(kinds[1:], true)
}

var anyT = reflect.TypeOf((*interface{})(nil)).Elem()

func c12ContType(kinds []int, dyn bool) reflect.Type {
	if len(kinds) == 0 {
		return strT
	}
	e := c12ContType(kinds[1:], dyn)
	if dyn {
		e = anyT
	}
	switch kinds[0] {
	case 0:
		return reflect.SliceOf(e)
	case 1:
		return reflect.MapOf(strT, e)
	}
	return reflect.MapOf(reflect.TypeOf(0), e)
}

func c12KeyExprs(kind, i int) []ref.Expr {
	if kind == 1 {
		return []ref.Expr{ref.Lit{V: []string{"a", "b"}[i]}, ref.V([]string{"ka", "kb"}[i])}
	}
	return []ref.Expr{ref.Lit{V: i}, ref.V([]string{"k0", "k1"}[i])}
}

func c12Nested(g *kit.G, dyn bool) {
	for depth := 1; depth <= g.Pick(3, 4); depth++ {
		kinds := make([]int, depth)
		for {
			ks := append([]int{}, kinds...)
			rt := c12ContType(ks, dyn)
			n := 0
			val := c12Build(ks, rt, dyn, &n)
			vt := rt
			if dyn {
				vt = anyT
			}
			pe := newPlaces(vt)
			pe.more("ka", "a")
			pe.more("kb", "b")
			pe.more("k0", 0)
			pe.more("k1", 1)
			if !dyn {
				c12Funcs(pe.env)
			}
			for _, pl := range pe.places {
				pl := pl
				g.Do(func(t *kit.T) {
					// all index combinations; literal and variable keys alternate
					for form := 0; form < 2; form++ {
						var nodes []ref.Node
						for m := 0; m < 1<<uint(len(ks)); m++ {
							p := pl.expr()
							p.Segs = append([]ref.Seg{}, p.Segs...)
							for l, k := range ks {
								p.Segs = append(p.Segs, ref.Index{X: c12KeyExprs(k, m>>uint(l)&1)[(form+l)%2]})
							}
							nodes = append(nodes, ref.Out{P: p}, ref.Text(" "))
							if !dyn {
								q := *p
								nodes = append(nodes, ref.Out{P: &ref.Path{Root: "idStr", Call: true, Args: []ref.Expr{&q}}}, ref.Text(" "))
							}
						}
						agree(t, pe.env, pl.wrap(nodes), [][]interface{}{pe.set(val.Interface())})
					}
				})
			}
			if !next(kinds, 3) {
				break
			}
		}
	}
}

func c12GenNested(g *kit.G) { c12Nested(g, false) }

// c12GenInterfaces: the same through interface-typed variables and elements, and values of every type in interfaces.
func c12GenInterfaces(g *kit.G) {
	c12Nested(g, true)
	conts := []interface{}{[]interface{}{1, "s", 2.5, true, nil}, []int{4, 5}, []string{"x", "y"}, []float64{1.5, 2}, []bool{true, false}, [2]int{8, 9}, []c12E{c12Elem(1), c12Elem(2)},
		map[string]interface{}{"a": 1, "b": "bee", "c": nil, "d": []int{1}}, map[string]int{"a": 5}, map[string]string{"a": "x", "b": ""}, map[int]string{0: "zero", 1: "one"}, map[int]interface{}{0: 1.5, 1: nil}}
	pe := newPlaces(anyT)
	pe.more("k", "a")
	pe.more("idx", 1)
	for _, c := range conts {
		for _, pl := range pe.places {
			c, pl := c, pl
			var keys []ref.Expr
			if rt := reflect.TypeOf(c); rt.Kind() == reflect.Map && rt.Key() == strT {
				keys = []ref.Expr{ref.Lit{V: "a"}, ref.V("k"), ref.Lit{V: "b"}, ref.Lit{V: "c"}, ref.Lit{V: "zz"}, ref.Bin{Op: "+", L: ref.V("k"), R: ref.Lit{V: ""}}}
			} else {
				keys = []ref.Expr{ref.Lit{V: 0}, ref.Lit{V: 1}, ref.V("idx"), ref.Bin{Op: "-", L: ref.V("idx"), R: ref.Lit{V: 1}}}
			}
			for _, k := range keys {
				k := k
				g.Do(func(t *kit.T) {
					p := pl.expr()
					p.Segs = append(append([]ref.Seg{}, p.Segs...), ref.Index{X: k})
					agree(t, pe.env, pl.wrap([]ref.Node{ref.Out{P: p}, ref.Text(" "), ref.Set{Target: ref.V("kept"), Val: p}, ref.Out{P: ref.V("kept")}}), [][]interface{}{pe.set(c)})
				})
			}
		}
	}
}

// c12GenMissing: nil and empty maps, nil pointers on the way.
func c12GenMissing(g *kit.G) {
	type holder struct {
		M  map[string]int
		MS map[string]string
		ME map[int]c12E
		MP map[string]*c12E
		ML map[string][]int
		MM map[string]map[string]string
		MB map[string]bool
		MF map[int]float64
		MI map[string]interface{}
		P  *c12E
	}
	env := &ref.Env{Vars: []ref.Var{{Name: "h", Val: holder{}}, {Name: "p", Val: &holder{}}, {Name: "np", Val: (*holder)(nil)}, {Name: "hs", Val: []*holder{nil, {}}}, {Name: "k", Val: "none"}}}
	I := func(v interface{}) ref.Seg { return ref.Index{X: ref.Lit{V: v}} }
	F := func(s string) ref.Seg { return ref.Field(s) }
	tails := [][]ref.Seg{{F("M"), I("x")}, {F("MS"), I("x")}, {F("ME"), I(3)}, {F("ME"), I(3), F("A")}, {F("ME"), I(3), F("N")}, {F("ME"), I(3), F("P"), F("N")}, {F("MP"), I("x")}, {F("MP"), I("x"), F("A")}, {F("MP"), I("x"), F("P"), F("A")},
		{F("ML"), I("x")}, {F("MM"), I("x")}, {F("MM"), I("x"), I("y")}, {F("MB"), I("x")}, {F("MF"), I(1)}, {F("MI"), I("x")}, {F("M"), ref.Index{X: ref.V("k")}}, {F("P"), F("M"), I("z")}}
	vals := []holder{{}, {M: map[string]int{}, MS: map[string]string{}, ME: map[int]c12E{}, MP: map[string]*c12E{}, ML: map[string][]int{}, MM: map[string]map[string]string{}, MB: map[string]bool{}, MF: map[int]float64{}, MI: map[string]interface{}{}},
		{M: map[string]int{"o": 1}, MS: map[string]string{"o": "s"}, ME: map[int]c12E{1: c12Elem(1)}, MP: map[string]*c12E{"o": {A: "a"}, "x": nil}, ML: map[string][]int{"o": {1}}, MM: map[string]map[string]string{"o": {"y": "1"}, "x": nil}, MB: map[string]bool{"o": true}, MF: map[int]float64{2: 2.5}, MI: map[string]interface{}{"o": 1}}}
	var sets [][]interface{}
	for i := range vals {
		h := vals[i]
		sets = append(sets, []interface{}{h, &h, (*holder)(nil), []*holder{nil, &h}, "none"})
	}
	for _, root := range []*ref.Path{path("h"), path("p"), path("np"), path("hs", I(0)), path("hs", I(1))} {
		for _, tail := range tails {
			root, tail := root, tail
			g.Do(func(t *kit.T) {
				x := func() *ref.Path { return path(root.Root, append(append([]ref.Seg{}, root.Segs...), tail...)...) }
				rt := typeAfter(reflect.TypeOf(holder{}), tail)
				for _, use := range c12Uses(rt, x) {
					fs := env.Funcs
					e := &ref.Env{Vars: env.Vars, Funcs: map[string]interface{}{}}
					c12Funcs(e)
					_ = fs
					agree(t, e, use, sets)
				}
			})
		}
	}
}
