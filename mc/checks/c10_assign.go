package checks

import (
	"errors"
	"fmt"
	"reflect"
	"time"

	"verifmc/kit"
	"verifmc/ref"
)

type c10Word string
type c10Small struct{ B bool }
type c10Mixed struct {
	A int8
	S string
	P *c10Small
	L []int
	F float32
}
type c10Wide struct {
	A [5]int
	M c10Mixed
	Z uint16
}

func c10Types() [][]interface{} {
	i, j, s := 5, -6, "five"
	return [][]interface{}{
		{true, false},
		{1, -1, 1 << 62, 0},
		{int8(1), int8(-128), int8(127)},
		{int16(300), int16(-1)},
		{int32(1 << 20), int32(-1)},
		{int64(1) << 40, int64(-1)},
		{uint(1) << 63, uint(0)},
		{uint8(200), uint8(1)},
		{uint16(65535), uint16(0)},
		{uint32(1) << 31, uint32(7)},
		{uint64(1)<<63 + 1, uint64(3)},
		{float32(1.5), float32(-1e30)},
		{2.5, -1e300, 0.1},
		{"", "a", "longer than sixteen bytes, with é"},
		{c10Word("w"), c10Word("")},
		{&c10Mixed{A: 1, S: "p"}, (*c10Mixed)(nil), &c10Mixed{L: []int{1}}},
		{&i, (*int)(nil), &j},
		{&s, (*string)(nil)},
		{[]int{1, 2}, []int(nil), []int{}},
		{[]string{"a", "b"}, []string(nil)},
		{[]c10Mixed{{A: 1}, {S: "x"}}, []c10Mixed(nil)},
		{[]*c10Small{{true}, nil}, []*c10Small{}},
		{[][]int{{1}, nil}, [][]int{}},
		{[]interface{}{1, "a", nil}, []interface{}{}},
		{map[string]int{"a": 1}, map[string]int(nil), map[string]int{}},
		{map[int]*c10Small{3: {true}}, map[int]*c10Small(nil)},
		{map[string]interface{}{"k": []int{1}}, map[string]interface{}{}},
		{c10Small{true}, c10Small{}},
		{c10Mixed{A: -1, S: "s", P: &c10Small{true}, L: []int{9}, F: 1.25}, c10Mixed{}},
		{c10Wide{A: [5]int{1, 2, 3, 4, 5}, M: c10Mixed{S: "in"}, Z: 60000}, c10Wide{}},
		{[3]int{1, 2, 3}, [3]int{}},
		{time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), time.Time{}},
	}
}

type c10In struct {
	B int
	C string
}
type c10Obj struct {
	Pad int8
	A   int
	N   string
	In  c10In
	P   *c10In
	F   float64
}

func init() {
	register(&kit.Check{
		Property: "C10",
		Level:    "model_checking",
		Rule:     "every value type x source x target, with the neighbours of the target watched; every sequence of assignments up to the bound over shared variables, structs and pointers, everything read back after every step and the caller's data compared at the end; every set of executed and skipped assignments; every conversion; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("33 types x 18 sources x 8 targets x values; sequences of up to %d of 26 assignments; up to %d guarded assignments over all truth assignments in 4 positions; conversions int/float64/string/bool with boundary values", map[kit.Tier]int{kit.Quick: 3, kit.Thorough: 4}[t], map[kit.Tier]int{kit.Quick: 3, kit.Thorough: 4}[t])
		},
		Assumptions: []string{"float to int conversion outside the int range is Go's implementation-defined result and left out", "assignment to map entries and slice elements is not defined", "assignments between types other than int, float64, string and bool are defined only for equal types"},
		Parts: []kit.Part{
			interplayPart("C10"),
			{Name: "sizes", Gen: c10Sizes},
			{Name: "types", Gen: c10GenTypes},
			{Name: "sequences", Gen: c10GenSeqs},
			{Name: "guarded", Gen: c10GenGuarded},
			{Name: "conversions", Gen: c10GenConv},
			{Name: "items", Gen: c10GenItems},
		},
	})
}

func c10GenTypes(g *kit.G) {
	anys := []interface{}{1, "text", 2.5, true, c10Mixed{A: 3, S: "m"}, &c10Small{true}, []int{4}, map[string]int{"k": 1}}
	for ti, vals := range append(c10Types(), anys) {
		rt := reflect.TypeOf(vals[0])
		if ti == len(c10Types()) {
			rt = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		pe := newPlaces(rt)
		in := reflect.StructOf([]reflect.StructField{pad("X", reflect.TypeOf(true)), pad("V", rt), pad("Y", reflect.TypeOf(int16(0)))})
		st := reflect.StructOf([]reflect.StructField{pad("Pad", reflect.TypeOf(int8(0))), pad("V", rt), pad("Z", strT), pad("In", in), pad("End", reflect.TypeOf(uint8(0))), pad("P", reflect.PtrTo(in))})
		fill := func(s reflect.Value) {
			s.Field(0).SetInt(-7)
			s.Field(2).SetString("zed")
			s.Field(3).Field(0).SetBool(true)
			s.Field(3).Field(2).SetInt(-300)
			s.Field(4).SetUint(250)
			p := reflect.New(in)
			p.Elem().Field(0).SetBool(true)
			p.Elem().Field(2).SetInt(-301)
			s.Field(5).Set(p)
		}
		add := func(name string, t reflect.Type, b func() reflect.Value) {
			pe.env.Vars = append(pe.env.Vars, ref.Var{Name: name, Type: t})
			pe.types = append(pe.types, t)
			pe.build = append(pe.build, func(reflect.Value) reflect.Value { return b() })
		}
		add("c1", reflect.TypeOf(int8(0)), func() reflect.Value { return reflect.ValueOf(int8(-11)) })
		add("d", rt, func() reflect.Value { return reflect.Zero(rt) })
		add("c2", reflect.TypeOf(int8(0)), func() reflect.Value { return reflect.ValueOf(int8(-12)) })
		add("st", st, func() reflect.Value { s := reflect.New(st).Elem(); fill(s); return s })
		add("c3", strT, func() reflect.Value { return reflect.ValueOf("c3") })
		add("sp", reflect.PtrTo(st), func() reflect.Value { s := reflect.New(st); fill(s.Elem()); return s })
		add("w", rt, func() reflect.Value {
			if len(vals) > 1 {
				return reflect.ValueOf(vals[1])
			}
			return reflect.Zero(rt)
		})
		V, In, P := ref.Field("V"), ref.Field("In"), ref.Field("P")
		targets := []*ref.Path{path("d"), path("fresh"), path("st", V), path("sp", V), path("st", In, V), path("sp", In, V), path("st", P, V), path("sp", P, V)}
		all := func() []ref.Node {
			var res []ref.Node
			for _, n := range []string{"c1", "d", "c2", "st", "c3", "sp", "w", "v", "n"} {
				res = append(res, ref.Text(" "+n+":"), ref.Out{P: ref.V(n)})
			}
			return res
		}
		for _, pl := range pe.places {
			for _, tg := range targets {
				for _, v := range vals {
					pl, tg, v := pl, tg, v
					g.Do(func(t *kit.T) {
						body := []ref.Node{ref.Set{Target: tg, Val: pl.expr()}, ref.Text("1:"), ref.Out{P: tg}}
						// the target keeps the value when the source is assigned anew, and takes the next one
						next := []ref.Node{ref.Set{Target: ref.V("v"), Val: ref.V("w")}, ref.Text(" 2:"), ref.Out{P: tg}, ref.Set{Target: tg, Val: ref.V("w")}, ref.Text(" 3:"), ref.Out{P: tg}}
						nodes := append(pl.wrap(append(body, all()...)), append(next, all()...)...)
						agreeFresh(t, pe.env, nodes, func() []interface{} { return pe.set(v) })
					})
				}
			}
		}
	}
}

func c10GenSeqs(g *kit.G) {
	env := &ref.Env{Funcs: map[string]interface{}{"twice": func(i int) int { return 2 * i }}}
	decl := func() []interface{} {
		return []interface{}{3, 4, "s", "t", 1.5, &c10Obj{Pad: -1, A: 10, N: "o", In: c10In{11, "oc"}, P: &c10In{12, "op"}, F: 0.5},
			c10Obj{Pad: -2, A: 20, N: "v", In: c10In{21, "vc"}, P: &c10In{22, "vp"}}, c10Obj{N: "q", P: &c10In{}}, &c10In{32, "pp"}, []int{1, 2}, []int{3}}
	}
	names := []string{"a", "b", "s", "t", "f", "o", "v", "q", "pp", "l", "l2"}
	for i, v := range decl() {
		env.Vars = append(env.Vars, ref.Var{Name: names[i], Val: v})
	}
	F := func(fs ...string) *ref.Path {
		p := ref.V(fs[0])
		for _, f := range fs[1:] {
			p.Segs = append(p.Segs, ref.Field(f))
		}
		return p
	}
	plus := func(l ref.Expr, v interface{}) ref.Expr { return ref.Bin{Op: "+", L: l, R: ref.Lit{V: v}} }
	set := func(t *ref.Path, v ref.Expr) ref.Node { return ref.Set{Target: t, Val: v} }
	alphabet := []ref.Node{
		set(F("a"), F("b")), set(F("b"), plus(F("a"), 1)), set(F("a"), ref.Lit{V: 7}), set(F("s"), F("t")), set(F("t"), plus(F("s"), "!")),
		set(F("f"), F("a")), set(F("a"), F("f")), set(F("s"), F("b")), set(F("o", "A"), F("a")), set(F("a"), F("o", "A")), set(F("o", "In", "B"), F("b")),
		set(F("v", "In", "C"), F("s")), set(F("q"), F("v")), set(F("v"), F("q")), set(F("o", "P", "B"), F("a")), set(F("pp"), F("o", "P")),
		set(F("pp", "B"), plus(F("pp", "B"), 1)), set(F("v", "P"), F("pp")), set(F("l"), F("l2")), set(F("x"), F("a")), set(F("y"), F("v")),
		set(F("y", "A"), F("b")), set(F("z"), F("o")), set(F("z", "N"), F("t")), set(F("o", "F"), F("f")), set(F("b"), &ref.Path{Root: "twice", Call: true, Args: []ref.Expr{F("b")}}),
		set(F("v", "In"), F("o", "In")), set(F("x"), plus(F("x"), 5)),
	}
	read := func(extra []string) []ref.Node {
		var res []ref.Node
		for _, n := range append(append([]string{}, names...), extra...) {
			res = append(res, ref.Text(n+"="), ref.Out{P: ref.V(n)}, ref.Text(" "))
		}
		return append(res, ref.Text("\n"))
	}
	for n := 1; n <= g.Pick(3, 4); n++ {
		seq := make([]int, n)
		for {
			fs := append([]int{}, seq...)
			g.Do(func(t *kit.T) {
				var nodes []ref.Node
				extra := map[string]bool{}
				var order []string
				for _, k := range fs {
					nodes = append(nodes, alphabet[k])
					if r := alphabet[k].(ref.Set).Target.Root; (r == "x" || r == "y" || r == "z") && !extra[r] {
						extra[r], order = true, append(order, r)
					}
					nodes = append(nodes, read(order)...)
				}
				if _, err := env.Compile(nodes); errors.Is(err, ref.ErrUnspecified) {
					return // a field of a variable that does not exist yet
				}
				got, want := agreeFresh(t, env, nodes, decl)
				if got != nil && !reflect.DeepEqual(got, want) {
					t.Failf("the caller's data after the execution: %v, want %v", kit.Q(fmt.Sprintf("%+v %+v", got[5], got[8])), kit.Q(fmt.Sprintf("%+v %+v", want[5], want[8])))
				}
			})
			if !next(seq, len(alphabet)) {
				break
			}
		}
	}
}

// c10GenGuarded: which assignments run is decided at run time.
func c10GenGuarded(g *kit.G) {
	max := g.Pick(3, 4)
	env := &ref.Env{Vars: []ref.Var{{Name: "i", Val: 1}, {Name: "s", Val: "x"}, {Name: "two", Val: []int{1, 2}}, {Name: "in", Val: c10In{3, "c"}}}}
	for k := 0; k < max; k++ {
		env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("on%d", k), Val: false})
	}
	alphabet := []ref.Set{
		{Target: ref.V("x"), Val: ref.Lit{V: 5}},
		{Target: ref.V("x"), Val: ref.Bin{Op: "+", L: ref.V("i"), R: ref.Lit{V: 1}}},
		{Target: ref.V("i"), Val: ref.Bin{Op: "+", L: ref.V("i"), R: ref.Lit{V: 10}}},
		{Target: ref.V("y"), Val: ref.V("s")},
		{Target: ref.V("s"), Val: ref.Bin{Op: "+", L: ref.V("s"), R: ref.Lit{V: "y"}}},
		{Target: ref.V("z"), Val: ref.V("in")},
		{Target: ref.V("w"), Val: ref.Lit{V: 2.5}},
		{Target: ref.V("q"), Val: ref.V("two")},
		{Target: ref.V("r"), Val: ref.Lit{V: true}},
	}
	var sets [][]interface{}
	for m := 0; m < 1<<max; m++ {
		vals := []interface{}{1, "x", []int{1, 2}, c10In{3, "c"}}
		for k := 0; k < max; k++ {
			vals = append(vals, m&(1<<k) != 0)
		}
		sets = append(sets, vals)
	}
	for n := 1; n <= max; n++ {
		seq := make([]int, n)
		for {
			for pos := 0; pos < 4; pos++ {
				fs, pos := append([]int{}, seq...), pos
				g.Do(func(t *kit.T) {
					var nodes []ref.Node
					var seen []string
					for k, a := range fs {
						st := alphabet[a]
						on := ref.V(fmt.Sprintf("on%d", k))
						known := false
						for _, s := range seen {
							known = known || s == st.Target.Root
						}
						if !known {
							seen = append(seen, st.Target.Root)
						}
						switch pos {
						case 0, 3:
							nodes = append(nodes, ref.If{Arms: []ref.Arm{{Cond: on, Body: []ref.Node{st}}}})
						case 1:
							nodes = append(nodes, ref.If{Arms: []ref.Arm{{Cond: on, Body: []ref.Node{ref.Text(".")}}}, HasElse: true, Else: []ref.Node{st}})
						case 2:
							nodes = append(nodes, ref.Foreach{Item: "e", Over: ref.V("two"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "&&", L: on, R: ref.Bin{Op: "==", L: ref.V("e"), R: ref.Lit{V: 2}}}, Body: []ref.Node{st}}}}}})
						}
						for _, s := range seen {
							nodes = append(nodes, ref.Text(s+"="), ref.Out{P: ref.V(s)}, ref.Text(" "))
						}
					}
					if pos == 3 {
						nodes = []ref.Node{ref.Foreach{Item: "e", Over: ref.V("two"), Body: nodes}}
					}
					agree(t, env, nodes, sets)
				})
			}
			if !next(seq, len(alphabet)) {
				break
			}
		}
	}
}

func c10GenConv(g *kit.G) {
	kinds := map[string][]interface{}{
		"int":    {0, 1, -7, 1 << 40, 1<<63 - 1, -1 << 63},
		"float":  {0.0, 1.0, -2.5, 0.99, -0.99, 1e15, 123456.75},
		"string": {"", "5", "-12", "x", "1.5", " 7", "9223372036854775807", "9223372036854775808", "0x10", "+3"},
		"bool":   {true, false},
	}
	order := []string{"int", "float", "string", "bool"}
	for _, x := range order {
		for _, y := range order {
			pe := newPlaces(reflect.TypeOf(kinds[y][0]))
			pe.more("d", kinds[x][1])
			ht := reflect.StructOf([]reflect.StructField{pad("Pad", reflect.TypeOf(int8(0))), pad("D", reflect.TypeOf(kinds[x][0])), pad("Z", strT)})
			add := func(name string, ptr bool) {
				t := ht
				if ptr {
					t = reflect.PtrTo(ht)
				}
				pe.env.Vars = append(pe.env.Vars, ref.Var{Name: name, Type: t})
				pe.types = append(pe.types, t)
				pe.build = append(pe.build, func(reflect.Value) reflect.Value {
					s := reflect.New(ht)
					s.Elem().Field(0).SetInt(-1)
					s.Elem().Field(1).Set(reflect.ValueOf(kinds[x][1]))
					s.Elem().Field(2).SetString("z")
					if ptr {
						return s
					}
					return s.Elem()
				})
			}
			add("hd", false)
			add("hp", true)
			pe.more("c", "canary")
			for _, pl := range pe.places {
				for _, tg := range []*ref.Path{path("d"), path("hd", ref.Field("D")), path("hp", ref.Field("D"))} {
					pl, tg := pl, tg
					nodes := pl.wrap([]ref.Node{ref.Set{Target: tg, Val: pl.expr()}, ref.Out{P: tg}, ref.Text(" "), ref.Set{Target: tg, Val: pl.expr()}, ref.Out{P: tg}, ref.Text(" "), ref.Out{P: ref.V("c")}, ref.Out{P: ref.V("v")}})
					if _, err := pe.env.Compile(nodes); errors.Is(err, ref.ErrUnspecified) {
						continue
					}
					for _, v := range kinds[y] {
						v := v
						g.Do(func(t *kit.T) {
							agreeFresh(t, pe.env, append(nodes, ref.Out{P: ref.V("hd")}, ref.Out{P: ref.V("hp")}), func() []interface{} { return pe.set(v) })
						})
					}
				}
			}
			// literals and expressions
			for _, v := range kinds[y] {
				if i, ok := v.(int); ok && i < 0 || y == "float" && v.(float64) < 0 {
					continue
				}
				for form := 0; form < 3; form++ {
					v, form := v, form
					var val ref.Expr = ref.Lit{V: v}
					if form > 0 {
						if y == "bool" {
							val = ref.Bin{Op: "==", L: ref.Lit{V: form}, R: ref.Lit{V: 1}}
						} else if y == "string" {
							val = ref.Bin{Op: "+", L: ref.Lit{V: v}, R: ref.Lit{V: map[int]string{1: "", 2: "1"}[form]}}
						} else if i, ok := v.(int); ok && i > 1<<50 {
							continue
						} else {
							val = ref.Bin{Op: "*", L: ref.Lit{V: v}, R: ref.Lit{V: form}}
						}
					}
					nodes := []ref.Node{ref.Set{Target: ref.V("d"), Val: val}, ref.Out{P: ref.V("d")}, ref.Text(" "), ref.Out{P: ref.V("c")}, ref.Out{P: ref.V("hd")}, ref.Out{P: ref.V("hp")}}
					if _, err := pe.env.Compile(nodes); errors.Is(err, ref.ErrUnspecified) {
						continue
					}
					g.Do(func(t *kit.T) { agreeFresh(t, pe.env, nodes, func() []interface{} { return pe.set(nil) }) })
				}
			}
		}
	}
}

// c10GenItems: assignments to loop items and their fields, and what remains of them.
func c10GenItems(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "vals", Val: []c10In{{1, "a"}, {2, "b"}}}, {Name: "ptrs", Val: []*c10In{{3, "c"}, {4, "d"}}}, {Name: "ints", Val: []int{5, 6}}, {Name: "strs", Val: []string{"x", "y"}}, {Name: "keep", Val: &c10In{9, "k"}}, {Name: "n", Val: 0}}}
	vals := func() []interface{} {
		return []interface{}{[]c10In{{1, "a"}, {2, "b"}}, []*c10In{{3, "c"}, {4, "d"}}, []int{5, 6}, []string{"x", "y"}, &c10In{9, "k"}, 0}
	}
	it := func(f string) *ref.Path { return path("it", ref.Field(f)) }
	plus := func(l ref.Expr, v interface{}) ref.Expr { return ref.Bin{Op: "+", L: l, R: ref.Lit{V: v}} }
	structs := []ref.Node{
		ref.Set{Target: it("B"), Val: plus(it("B"), 10)}, ref.Set{Target: it("C"), Val: plus(it("C"), "!")}, ref.Set{Target: ref.V("n"), Val: ref.Bin{Op: "+", L: ref.V("n"), R: it("B")}},
		ref.Set{Target: path("keep", ref.Field("B")), Val: it("B")}, ref.Set{Target: it("B"), Val: path("keep", ref.Field("B"))}, ref.Set{Target: ref.V("last"), Val: ref.V("it")}, ref.Out{P: ref.V("it")},
	}
	basic := []ref.Node{ref.Set{Target: ref.V("it"), Val: plus(ref.V("it"), 1)}, ref.Set{Target: ref.V("last"), Val: ref.V("it")}, ref.Out{P: ref.V("it")}, ref.Set{Target: ref.V("it"), Val: ref.Bin{Op: "*", L: ref.V("it"), R: ref.Lit{V: 2}}}, ref.Set{Target: ref.V("n"), Val: ref.Bin{Op: "+", L: ref.V("n"), R: ref.V("it")}}}
	for _, src := range []struct {
		name string
		sts  []ref.Node
	}{{"vals", structs}, {"ptrs", structs}, {"ints", basic}} {
		for n := 1; n <= g.Pick(4, 5); n++ {
			seq := make([]int, n)
			for {
				src, fs := src, append([]int{}, seq...)
				g.Do(func(t *kit.T) {
					var body []ref.Node
					last := false
					for _, k := range fs {
						body = append(body, src.sts[k], ref.Text(" "))
						if s, ok := src.sts[k].(ref.Set); ok && s.Target.Root == "last" {
							last = true
						}
					}
					nodes := []ref.Node{ref.Foreach{Item: "it", Over: ref.V(src.name), Body: body}}
					tail := []string{"vals", "ptrs", "ints", "keep", "n", "it"}
					if last {
						tail = append(tail, "last")
					}
					for _, v := range tail {
						nodes = append(nodes, ref.Text(v+"="), ref.Out{P: ref.V(v)}, ref.Text(" "))
					}
					if _, err := env.Compile(nodes); errors.Is(err, ref.ErrUnspecified) {
						return
					}
					got, want := agreeFresh(t, env, nodes, vals)
					if got != nil && !reflect.DeepEqual(got, want) {
						t.Failf("the caller's data after the execution: %+v, want %+v", got, want)
					}
				})
				if !next(seq, len(src.sts)) {
					break
				}
			}
		}
	}
}
