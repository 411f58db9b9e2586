package checks

import (
	"fmt"
	"reflect"
	"time"

	"verifmc/kit"
	"verifmc/ref"
)

type c07Item struct {
	A  string
	N  int
	L  []int
	P  *c07Item
	Ks []c07Item
}

func (c c07Item) Tag() string   { return "<" + c.A + ">" }
func (c *c07Item) PTag() string { return "*" + c.A }

type c07Word string

// c07Elems: sample elements of a type and how the body looks at an item.
var c07Elems = []struct {
	elems []interface{}
	body  func(x string) []ref.Node
}{
	{[]interface{}{3, -1, 0, 1 << 40, 7}, nil},
	{[]interface{}{int8(3), int8(-128), int8(0), int8(127), int8(1)}, nil},
	{[]interface{}{int16(3), int16(-300), int16(0), int16(32767), int16(1)}, nil},
	{[]interface{}{int32(3), int32(-1 << 31), int32(0), int32(65536), int32(1)}, nil},
	{[]interface{}{int64(3), int64(-1 << 63), int64(0), int64(1 << 40), int64(1)}, nil},
	{[]interface{}{uint(3), uint(1 << 63), uint(0), uint(9), uint(1)}, nil},
	{[]interface{}{uint16(3), uint16(65535), uint16(0), uint16(9), uint16(1)}, nil},
	{[]interface{}{uint32(3), uint32(1<<32 - 1), uint32(0), uint32(9), uint32(1)}, nil},
	{[]interface{}{uint64(3), uint64(1<<64 - 1), uint64(0), uint64(9), uint64(1)}, nil},
	{[]interface{}{float32(0.5), float32(-2), float32(0), float32(1e10), float32(3)}, nil},
	{[]interface{}{0.5, -2.25, 0.0, 1e10, 3.0}, nil},
	{[]interface{}{"a", "", "c d", "<&>", "long text that does not fit anywhere"}, nil},
	{[]interface{}{true, false, false, true, true}, nil},
	{[]interface{}{c07Item{A: "x", N: 1}, c07Item{}, c07Item{A: "z", N: -5, L: []int{1, 2}}, c07Item{N: 9}, c07Item{A: "w"}},
		func(x string) []ref.Node {
			return []ref.Node{ref.Out{P: path(x, ref.Field("A"))}, ref.Text("/"), ref.Out{P: path(x, ref.Field("N"))}, ref.Text("/"), ref.Out{P: path(x, ref.Method{Name: "Tag"})}, ref.Out{P: path(x, ref.Field("L"))}}
		}},
	{[]interface{}{&c07Item{A: "x", N: 1, P: &c07Item{A: "deep"}}, &c07Item{P: &c07Item{N: 4}}, &c07Item{A: "z", N: -5}, &c07Item{A: "u"}, &c07Item{N: 1}},
		func(x string) []ref.Node {
			return []ref.Node{ref.Out{P: path(x, ref.Field("A"))}, ref.Text("/"), ref.Out{P: path(x, ref.Field("N"))}, ref.Text("/"), ref.Out{P: path(x, ref.Field("P"), ref.Field("A"))}, ref.Out{P: path(x, ref.Method{Name: "PTag"})}}
		}},
	{[]interface{}{[]int{1, 2}, []int{3}, []int{4, 5, 6}, []int{7}, []int{0}},
		func(x string) []ref.Node {
			return []ref.Node{ref.Out{P: path(x, ref.Index{X: ref.Lit{V: 0}})}, ref.Text("/"), ref.Foreach{Item: x + "in", Over: ref.V(x), Body: []ref.Node{ref.Out{P: ref.V(x + "in")}}}}
		}},
	{[]interface{}{[]string{"a"}, []string{"b", "c"}, []string{""}, []string{"d"}, []string{"e"}}, nil},
	{[]interface{}{map[string]int{"k": 1}, map[string]int{"k": 5, "j": 2}, map[string]int{"k": -1}, map[string]int{}, map[string]int{"j": 1}},
		func(x string) []ref.Node { return []ref.Node{ref.Out{P: path(x, ref.Index{X: ref.Lit{V: "k"}})}} }},
	{[]interface{}{[2]int{1, 2}, [2]int{3, 4}, [2]int{}, [2]int{5, 6}, [2]int{7, 8}}, nil},
	{[]interface{}{time.Unix(0, 0).UTC(), time.Unix(1e9, 0).UTC(), time.Unix(1, 5).UTC(), time.Unix(2, 0).UTC(), time.Unix(3, 0).UTC()}, nil},
	{[]interface{}{struct{}{}, struct{}{}, struct{}{}, struct{}{}, struct{}{}}, func(x string) []ref.Node { return []ref.Node{ref.Text("*")} }},
	{[]interface{}{c07Word("a"), c07Word(""), c07Word("b"), c07Word("c"), c07Word("d")}, nil},
}

func sliceOf(rt reflect.Type, elems []interface{}) interface{} {
	s := reflect.MakeSlice(reflect.SliceOf(rt), 0, len(elems)+1)
	for _, e := range elems {
		if e == nil {
			s = reflect.Append(s, reflect.Zero(rt))
		} else {
			s = reflect.Append(s, reflect.ValueOf(e))
		}
	}
	return s.Interface()
}

func c07Look(body func(x string) []ref.Node, x string) []ref.Node {
	if body == nil {
		return []ref.Node{ref.Out{P: ref.V(x)}}
	}
	return body(x)
}

func init() {
	register(&kit.Check{
		Property: "C07",
		Level:    "model_checking",
		Rule:     "every element type x slice source x length x loop shape and every small range must visit what the model visits; non-trivial = the loop body ran",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("24 element types, 18 slice sources, lengths nil, 0..5 and 1000, 6 loop shapes; every element type x lengths 0..5 x 7 lengths of another slice assigned to the looped one by its own body in 5 ways; all ranges with ends in [-%d,%d]; all nestings of up to 3 loops over 8 sources with 3 item naming schemes; errors raised before, in and around loops, in both error modes; all sequences of up to %d loops", map[kit.Tier]int{0: 12, 1: 40}[t], map[kit.Tier]int{0: 12, 1: 40}[t], map[kit.Tier]int{0: 3, 1: 4}[t])
		},
		Assumptions: []string{"foreach over an item variable of another type rebinds it from there on, as the implementation documents by example"},
		Parts: []kit.Part{
			interplayPart("C07"),
			{Name: "sizes", Gen: c07Sizes},
			{Name: "types", Gen: c07GenTypes},
			{Name: "ranges", Gen: c07GenRanges},
			{Name: "reassign", Gen: c07GenReassign},
			{Name: "nests", Gen: c07GenNests},
			{Name: "sequences", Gen: c07GenSeqs},
			{Name: "errors", Gen: func(g *kit.G) {
				mk := func(over ref.Expr) func(string, []ref.Node) ref.Node {
					return func(item string, body []ref.Node) ref.Node { return ref.Foreach{Item: item, Over: over, Body: body} }
				}
				nums := func(i, at ref.Expr) ref.Expr { return &ref.Path{Root: "nums", Call: true, Args: []ref.Expr{i, at}} }
				loopErrors(g, []func(string, []ref.Node) ref.Node{
					mk(ref.V("list")), mk(ref.Range{A: 0, B: 3}), mk(ref.Range{A: 3, B: -1}), mk(nums(ref.Lit{V: 1}, ref.Lit{V: 1})), mk(nums(ref.V("before"), ref.V("at"))),
				})
			}},
		},
	})
}

func c07GenTypes(g *kit.G) {
	type elemType struct {
		rt    reflect.Type
		elems []interface{}
		body  func(x string) []ref.Node
	}
	var ets []elemType
	for _, e := range c07Elems {
		ets = append(ets, elemType{reflect.TypeOf(e.elems[0]), e.elems, e.body})
	}
	iface := reflect.TypeOf((*interface{})(nil)).Elem()
	ets = append(ets, elemType{iface, []interface{}{1, "two", 3.5, true, int8(4)}, nil},
		elemType{reflect.TypeOf((*error)(nil)).Elem(), []interface{}{fmt.Errorf("e1"), fmt.Errorf("e2"), fmt.Errorf("e3"), fmt.Errorf("e4"), fmt.Errorf("e5")}, nil})
	for _, et := range ets {
		pe := newPlaces(reflect.SliceOf(et.rt))
		pe.more("yes", true)
		pe.more("sum", 0)
		var sets [][]interface{}
		sets = append(sets, pe.set(reflect.Zero(reflect.SliceOf(et.rt)).Interface()))
		for n := 0; n <= 5; n++ {
			sets = append(sets, pe.set(sliceOf(et.rt, et.elems[:n])))
		}
		var many []interface{}
		for i := 0; i < 1000; i++ {
			many = append(many, et.elems[(i*i+i/7)%5])
		}
		sets = append(sets, pe.set(sliceOf(et.rt, many)))
		look := func(x string) []ref.Node { return c07Look(et.body, x) }
		loop := func(over *ref.Path, item string, body ...ref.Node) ref.Node {
			return ref.Foreach{Item: item, Over: over, Body: body}
		}
		shapes := []func(over func() *ref.Path) []ref.Node{
			func(over func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Text("<"), loop(over(), "x", append(look("x"), ref.Text(";"))...), ref.Text(">")}
			},
			func(over func() *ref.Path) []ref.Node { // twice, and what the item holds afterwards
				return []ref.Node{loop(over(), "x", look("x")...), ref.Text("|"), loop(over(), "y", look("y")...), ref.Text("|"), loop(over(), "x", ref.Text("."))}
			},
			func(over func() *ref.Path) []ref.Node {
				return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("yes"), Body: []ref.Node{loop(over(), "x", append([]ref.Node{ref.Text(",")}, look("x")...)...)}}}}}
			},
			func(over func() *ref.Path) []ref.Node { // counting, conditions inside
				return []ref.Node{loop(over(), "x", ref.Set{Target: ref.V("sum"), Val: ref.Bin{Op: "+", L: ref.V("sum"), R: ref.Lit{V: 1}}},
					ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">", L: ref.V("sum"), R: ref.Lit{V: 2}}, Body: look("x")}}, HasElse: true, Else: []ref.Node{ref.Text("-")}}), ref.Out{P: ref.V("sum")}}
			},
			func(over func() *ref.Path) []ref.Node { // assigned to another variable inside the loop, read after it
				return []ref.Node{loop(over(), "x", ref.Set{Target: ref.V("copy"), Val: ref.V("x")}, ref.Text(".")), ref.Text("|"), ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">", L: ref.Lit{V: 1}, R: ref.Lit{V: 0}}, Body: []ref.Node{ref.Text("end")}}}}}
			},
			func(over func() *ref.Path) []ref.Node { // nested over the same slice
				return []ref.Node{loop(over(), "x", ref.Set{Target: ref.V("sum"), Val: ref.Bin{Op: "+", L: ref.V("sum"), R: ref.Lit{V: 1}}},
					ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "<", L: ref.V("sum"), R: ref.Lit{V: 4}}, Body: []ref.Node{loop(over(), "y", append(look("x"), append([]ref.Node{ref.Text(":")}, append(look("y"), ref.Text(" "))...)...)...)}}}})}
			},
		}
		for _, pl := range pe.places {
			for _, sh := range shapes {
				pe, pl, sh := pe, pl, sh
				g.Do(func(t *kit.T) { agree(t, pe.env, pl.wrap(sh(pl.expr)), sets) })
			}
		}
		// the item after the loop (it keeps its last value; the zero value when there was none)
		if et.rt.Kind() != reflect.Ptr && et.rt.Kind() != reflect.Interface && et.rt.Kind() != reflect.Map && et.rt.Kind() != reflect.Slice {
			pe := pe
			g.Do(func(t *kit.T) {
				agree(t, pe.env, append([]ref.Node{loop(ref.V("v"), "x", ref.Text("."))}, look("x")...), sets)
			})
			g.Do(func(t *kit.T) {
				agree(t, pe.env, append([]ref.Node{loop(ref.V("v"), "x", ref.Set{Target: ref.V("copy"), Val: ref.V("x")})}, append(look("copy"), look("x")...)...), sets)
			})
		}
	}
}

// c07GenReassign: the slice looped over is assigned while the loop runs, by its body, by a nested loop or as the item of an outer one.
func c07GenReassign(g *kit.G) {
	for _, e := range c07Elems {
		e := e
		rt := reflect.TypeOf(e.elems[0])
		st := reflect.SliceOf(rt)
		pe := newPlaces(st)
		other := make([]interface{}, 0, 12)
		for i := 0; i < 12; i++ {
			other = append(other, e.elems[(i*3+1)%5])
		}
		pe.more("o", reflect.Zero(st).Interface())
		pe.more("ls", reflect.Zero(reflect.SliceOf(st)).Interface())
		sizes := []int{-1, 0, 1, 2, 3, 5, 12}
		vals := func(i int) []interface{} {
			n, m := i/len(sizes), sizes[i%len(sizes)]
			vals := pe.set(sliceOf(rt, e.elems[:n]))
			var o interface{} = reflect.Zero(st).Interface()
			if m >= 0 {
				o = sliceOf(rt, other[:m])
			}
			ls := reflect.MakeSlice(reflect.SliceOf(st), 0, 3)
			ls = reflect.Append(ls, reflect.ValueOf(sliceOf(rt, e.elems[:n])), reflect.ValueOf(o), reflect.ValueOf(sliceOf(rt, e.elems[:1])))
			for i, v := range pe.env.Vars {
				switch v.Name {
				case "o":
					vals[i] = o
				case "ls":
					vals[i] = ls.Interface()
				}
			}
			return vals
		}
		same := func(t *kit.T, nodes []ref.Node) {
			agreeEach(t, pe.env, nodes, 6*len(sizes), vals, func(int, []interface{}, []interface{}) {})
		}
		look := func(x string) []ref.Node { return c07Look(e.body, x) }
		var over []func() *ref.Path
		for _, pl := range pe.places {
			switch pl.name {
			case "variable", "field", "pointer field":
				over = append(over, pl.expr)
			}
		}
		for _, o := range over {
			o := o
			set := func() ref.Node { return ref.Set{Target: o(), Val: ref.V("o")} }
			for _, body := range [][]ref.Node{
				append([]ref.Node{set()}, look("x")...),
				append(look("x"), set()),
				{ref.Foreach{Item: "y", Over: o(), Body: append(append(look("x"), look("y")...), set())}},
				append(append([]ref.Node{ref.Foreach{Item: "y", Over: ref.V("o"), Body: append(look("y"), ref.Set{Target: ref.V("o"), Val: o()})}}, look("x")...), ref.Set{Target: o(), Val: ref.V("o")}),
			} {
				body := append(body, ref.Text(";"))
				g.Do(func(t *kit.T) {
					same(t, []ref.Node{ref.Foreach{Item: "x", Over: o(), Body: body}, ref.Text("|"), ref.Foreach{Item: "x", Over: o(), Body: body}})
				})
			}
		}
		// the item of the outer loop is the slice of the inner one
		g.Do(func(t *kit.T) {
			same(t, []ref.Node{ref.Foreach{Item: "l", Over: ref.V("ls"), Body: []ref.Node{
				ref.Foreach{Item: "x", Over: ref.V("l"), Body: append(look("x"), ref.Set{Target: ref.V("l"), Val: ref.V("o")})}, ref.Text("/")}}, ref.Text("|"),
				ref.Foreach{Item: "l", Over: ref.V("ls"), Body: []ref.Node{ref.Foreach{Item: "x", Over: ref.V("l"), Body: look("x")}, ref.Text("/")}}})
		})
	}
}

func c07GenRanges(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "yes", Val: true}, {Name: "sum", Val: 0}}}
	n := g.Pick(12, 40)
	body := []ref.Node{ref.Out{P: ref.V("i")}, ref.Text(",")}
	for a := -n; a <= n; a++ {
		for b := -n; b <= n; b++ {
			r := ref.Range{A: a, B: b}
			g.Do(func(t *kit.T) {
				agree(t, env, []ref.Node{ref.Foreach{Item: "i", Over: r, Body: body}, ref.Text("|"), ref.Out{P: ref.V("i")}}, nil)
			})
		}
	}
	small := []int{-2, -1, 0, 1, 3}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				for _, d := range small {
					in := ref.Foreach{Item: "j", Over: ref.Range{A: c, B: d}, Body: []ref.Node{ref.Out{P: ref.V("i")}, ref.Text("."), ref.Out{P: ref.V("j")}, ref.Text(" ")}}
					out := ref.Foreach{Item: "i", Over: ref.Range{A: a, B: b}, Body: []ref.Node{in, ref.Text(";")}}
					g.Do(func(t *kit.T) { agree(t, env, []ref.Node{out, in}, nil) })
					same := ref.Foreach{Item: "i", Over: ref.Range{A: a, B: b}, Body: []ref.Node{ref.Foreach{Item: "i", Over: ref.Range{A: c, B: d}, Body: body}, ref.Out{P: ref.V("i")}}}
					g.Do(func(t *kit.T) { agree(t, env, []ref.Node{same, ref.Out{P: ref.V("i")}}, nil) })
				}
			}
		}
	}
	bigs := [][2]int{{0, 1000}, {1000, 0}, {-500, 500}, {1000000, 1000005}, {-1000005, -1000000}}
	for bits := uint(6); bits < 63; bits++ {
		for d := -2; d <= 1; d++ {
			at := 1<<bits + d
			bigs = append(bigs, [2]int{at, at + 2}, [2]int{-at, -at + 3}, [2]int{-at - 1, -at}, [2]int{at, at})
		}
	}
	for p, digits := 10, 2; digits < 19; p, digits = p*10, digits+1 {
		bigs = append(bigs, [2]int{p - 1, p + 1}, [2]int{-p - 1, -p + 1}, [2]int{p*9 - 1, p*9 + 1})
	}
	for _, big := range bigs {
		r := ref.Range{A: big[0], B: big[1]}
		g.Do(func(t *kit.T) {
			agree(t, env, []ref.Node{ref.Foreach{Item: "i", Over: r, Body: []ref.Node{ref.Set{Target: ref.V("sum"), Val: ref.Bin{Op: "+", L: ref.V("sum"), R: ref.V("i")}}, ref.Out{P: ref.V("i")}}}, ref.Out{P: ref.V("sum")}}, nil)
		})
	}
}

type c07Src struct {
	over ref.Expr
	look func(x string) []ref.Node
}

func c07Env() (*ref.Env, []c07Src) {
	it := func(a string, n int, ks ...c07Item) c07Item { return c07Item{A: a, N: n, L: []int{n, n + 1}, Ks: ks} }
	env := &ref.Env{Vars: []ref.Var{
		{Name: "ints", Val: []int{1, 2, 3}}, {Name: "strs", Val: []string{"a", "b"}}, {Name: "none", Type: reflect.TypeOf([]int{})},
		{Name: "items", Val: []c07Item{it("p", 1, it("k", 7)), it("q", 2)}}, {Name: "ptrs", Val: []*c07Item{{A: "r", N: 3, L: []int{5}}, {A: "s"}}},
		{Name: "small", Val: []int8{-1, 5}}, {Name: "root", Val: it("root", 0, it("k1", 4), it("k2", 5))}, {Name: "one", Val: []float64{1.5}}, {Name: "any", Val: []interface{}{1, "x"}},
		{Name: "yes", Val: true},
	}}
	out := func(x string) []ref.Node { return []ref.Node{ref.Out{P: ref.V(x)}} }
	fld := func(x string) []ref.Node {
		return []ref.Node{ref.Out{P: path(x, ref.Field("A"))}, ref.Out{P: path(x, ref.Field("N"))}}
	}
	return env, []c07Src{{ref.V("ints"), out}, {ref.V("strs"), out}, {ref.V("none"), out}, {ref.V("items"), fld}, {ref.V("ptrs"), fld}, {ref.V("small"), out},
		{path("root", ref.Field("Ks")), fld}, {ref.Range{A: 2, B: 0}, out}, {ref.V("any"), out}, {ref.V("unknown"), nil}}
}

func c07GenNests(g *kit.G) {
	env, srcs := c07Env()
	for depth := 2; depth <= 3; depth++ {
		seq := make([]int, depth)
		for {
			for naming := 0; naming < 3; naming++ {
				for tail := 0; tail < 2; tail++ {
					fs := append([]int{}, seq...)
					depth, naming, tail := depth, naming, tail
					g.Do(func(t *kit.T) {
						name := func(i int) string {
							switch naming {
							case 0:
								return string(rune('x' + i))
							case 1:
								return "x"
							}
							return []string{"x", "y", "x"}[i]
						}
						var body []ref.Node
						for i := depth - 1; i >= 0; i-- {
							s := srcs[fs[i]]
							var b []ref.Node
							if s.look != nil {
								b = append(b, s.look(name(i))...)
							}
							b = append(b, ref.Text("<"))
							b = append(b, body...)
							b = append(b, ref.Text(">"))
							if s.look != nil && naming == 0 {
								b = append(b, s.look(name(i))...)
							}
							body = []ref.Node{ref.Foreach{Item: name(i), Over: s.over, Body: b}}
						}
						if tail == 1 {
							body = append(body, ref.Foreach{Item: name(0), Over: ref.V("ints"), Body: []ref.Node{ref.Out{P: ref.V(name(0))}}})
						}
						agree(t, env, body, nil)
					})
				}
			}
			if !next(seq, len(srcs)) {
				break
			}
		}
	}
	// loops over what the item holds
	for _, over := range []ref.Expr{ref.V("items"), ref.V("ptrs"), path("root", ref.Field("Ks"))} {
		for _, inner := range []string{"L", "Ks"} {
			for _, names := range [][2]string{{"x", "y"}, {"x", "x"}} {
				over, inner, names := over, inner, names
				g.Do(func(t *kit.T) {
					look := []ref.Node{ref.Out{P: ref.V(names[1])}}
					if inner == "Ks" {
						look = []ref.Node{ref.Out{P: path(names[1], ref.Field("A"))}}
					}
					in := ref.Foreach{Item: names[1], Over: path(names[0], ref.Field(inner)), Body: look}
					if names[0] == names[1] && inner == "L" {
						// rebinds the item to another type: what follows sees the new one
						agree(t, env, []ref.Node{ref.Foreach{Item: names[0], Over: over, Body: []ref.Node{in}}, ref.Out{P: ref.V("x")}}, nil)
						return
					}
					agree(t, env, []ref.Node{ref.Foreach{Item: names[0], Over: over, Body: []ref.Node{in, ref.Out{P: path(names[0], ref.Field("N"))}, ref.Text(";")}}}, nil)
				})
			}
		}
	}
}

func c07GenSeqs(g *kit.G) {
	env, srcs := c07Env()
	for n := 2; n <= g.Pick(3, 4); n++ {
		seq := make([]int, n)
		for {
			for naming := 0; naming < 2; naming++ {
				fs := append([]int{}, seq...)
				naming, n := naming, n
				g.Do(func(t *kit.T) {
					var nodes []ref.Node
					for i := 0; i < n; i++ {
						name := "x"
						if naming == 1 {
							name = string(rune('x' + i%3))
						}
						s := srcs[fs[i]]
						body := []ref.Node{ref.Text("(")}
						if s.look != nil {
							body = append(body, s.look(name)...)
						}
						nodes = append(nodes, ref.Foreach{Item: name, Over: s.over, Body: append(body, ref.Text(")"))}, ref.Text("\n"))
					}
					agree(t, env, nodes, nil)
				})
			}
			if !next(seq, len(srcs)) {
				break
			}
		}
	}
}
