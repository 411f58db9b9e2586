package checks

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"verifmc/kit"
	"verifmc/ref"
)

// c15Breadth has two goroutines execute templates that reach every kind of value from every place, every operator, every built-in
// function, every conversion of an assignment and errors of every place, so that memory any of them would share is seen.
func c15Breadth(g *kit.G) {
	explore := func(what string, env *ref.Env, nodes []ref.Node, a, b []interface{}) {
		for _, opts := range []bool{false, true} {
			env := *env
			env.Escape, env.PanicOnError = opts, opts && env.PanicOnError
			p := newConcPlan(&env, nodes, []func() []interface{}{func() []interface{} { return a }, func() []interface{} { return b }})
			if p == nil {
				continue
			}
			max := budget{preempt: 1, free: 1}
			if g.Thorough() {
				max.preempt = 2
			}
			concExplore(g, what+": "+p.src, max, 1, p.run)
		}
	}
	V := ref.V
	// values
	for _, k := range append(c25All([]string{"", "a<b", "x&y"}), c25Kind{anyT, []interface{}{1, "s<", 2.5, true, c25Time, &c25Time, []int{1}, nil, C25Str{"q"}, errors.New("e<")}}) {
		step := 2
		if k.rt == anyT {
			step = 1
		}
		for i := 0; i < len(k.vals); i += step {
			pe, other := newPlaces(k.rt), newPlaces(k.rt)
			var nodes []ref.Node
			for _, p := range pe.places {
				nodes = append(nodes, p.wrap([]ref.Node{ref.Out{P: p.expr()}, ref.Text("|")})...)
			}
			explore(fmt.Sprint(k.rt), pe.env, nodes, pe.set(k.vals[i]), other.set(k.vals[len(k.vals)-1-i/2]))
			if k.rt == anyT || g.Thorough() {
				explore(fmt.Sprint(k.rt), pe.env, nodes, pe.set(k.vals[i]), other.set(k.vals[i]))
			} else {
				break
			}
		}
	}
	// operators
	for _, k := range []c25Kind{{reflect.TypeOf(0), []interface{}{3, 4}}, {reflect.TypeOf(0.5), []interface{}{2.5, -1.0}}, {strT, []interface{}{"a", "b"}}, {reflect.TypeOf(true), []interface{}{true, false}}} {
		for _, op := range []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&&", "||"} {
			for _, at := range []int{0, 2, 5, 6, 12} {
				pe, other := newPlaces(k.rt), newPlaces(k.rt)
				pe.more("two", k.vals[1])
				other.more("two", k.vals[0])
				l := pe.places[at].expr()
				var nodes []ref.Node
				for _, e := range []ref.Expr{bin(op, l, V("two")), bin(op, V("two"), l), bin(op, l, lit(k.vals[0])), bin(op, l, l)} {
					nodes = append(nodes, set("r", e), out("r"), ref.Text("|"))
				}
				if op == "==" || op == "<" || op == "&&" || op == "||" {
					nodes = append(nodes, ref.If{Arms: []ref.Arm{{Cond: bin(op, l, V("two")), Body: []ref.Node{ref.Text("yes")}}}})
				}
				if k.rt.Kind() == reflect.Bool {
					nodes = append(nodes, set("q", ref.Not{X: l}), out("q"))
				}
				explore("operators", pe.env, nodes, pe.set(k.vals[0]), other.set(k.vals[1]))
			}
		}
	}
	// built-in functions
	samples := func(t reflect.Type, i, n int) interface{} {
		switch {
		case t == anyT:
			return []interface{}{map[string]int{"a": 1}, []string{"x", "y"}, 5, "text", []int{1, 2}, 2.5, []float64{1, 2}, []bool{true, false}, true}[n%9]
		case t == reflect.TypeOf([]string{}):
			return []string{"a", fmt.Sprint(n)}
		case t.Kind() == reflect.String:
			return []string{"a B", " ", "a", "12", "true", "1.5"}[(n+i*2)%6]
		case t.Kind() == reflect.Int:
			return n % 2
		case t.Kind() == reflect.Float64:
			return float64(n) + 0.5
		case t.Kind() == reflect.Bool:
			return n%2 == 0
		}
		return nil
	}
	var spaces []string
	for ns := range c21Spaces {
		spaces = append(spaces, ns)
	}
	sort.Strings(spaces)
	for _, ns := range spaces {
		model := c21Spaces[ns].model
		for m := 0; m < reflect.TypeOf(model).NumMethod(); m++ {
			method := reflect.TypeOf(model).Method(m).Name
			mt := reflect.ValueOf(model).Method(m).Type()
			if ns == "time" {
				continue
			}
			for n := 0; n < 9; n++ {
				env := &ref.Env{NS: map[string]interface{}{ns: model}}
				var args []ref.Expr
				var a, b []interface{}
				for i := 0; i < mt.NumIn(); i++ {
					name := fmt.Sprint("a", i)
					env.Vars = append(env.Vars, ref.Var{Name: name, Type: mt.In(i)})
					args = append(args, V(name))
					a, b = append(a, samples(mt.In(i), i, n)), append(b, samples(mt.In(i), i, n+1))
				}
				fn := reflect.ValueOf(model).Method(m)
				if _, p := c21Call(fn, a); p != "" {
					continue
				}
				if _, p := c21Call(fn, b); p != "" {
					b = a
				}
				p := &ref.Path{Root: ns, Segs: []ref.Seg{ref.Method{Name: method, Args: args}}}
				explore(ns+"."+method, env, []ref.Node{ref.Out{P: p}, ref.Text("|"), set("r", p), out("r")}, a, b)
				if mt.NumIn() == 0 || !g.Thorough() && n > 3 && (mt.NumIn() == 0 || mt.In(0) != anyT) {
					break
				}
			}
		}
	}
	// assignments that convert
	kinds := []interface{}{3, int8(4), int16(5), int32(6), int64(7), uint(8), uint8(9), uint16(10), uint32(11), uint64(12), float32(1.5), 2.5, "13", true, []int{1}, map[string]int{"k": 1}, &ipIn{1}, ipIn{2}}
	for _, to := range kinds {
		for _, from := range kinds {
			env := &ref.Env{Vars: []ref.Var{{Name: "to", Val: to}, {Name: "from", Val: from}, {Name: "h", Val: c15Holder{}}}}
			explore("conversion", env, []ref.Node{out("to"), ref.Text("|"), set("to", V("from")), out("to"), ref.Text("|"), out("from")}, []interface{}{to, from, c15Holder{}}, []interface{}{to, from, c15Holder{}})
		}
	}
	for _, field := range []string{"I", "F", "S", "B", "L", "M", "P", "V"} {
		env := &ref.Env{Vars: []ref.Var{{Name: "h", Val: &c15Holder{}}, {Name: "w", Val: c15Holder{}}, {Name: "o", Val: &c15Outer{}}, {Name: "nil", Type: reflect.TypeOf(&c15Outer{})}}}
		nodes := []ref.Node{ref.Set{Target: fpath("h", field), Val: fpath("w", field)}, ref.Text("|"), out("h", field), ref.Set{Target: fpath("w", field), Val: fpath("o", "H", field)}, out("w", field), ref.Text("|"), out("o", "H", field), ref.Text("|"), out("nil", "H", field), set("x", fpath("nil", "H", field)), out("x"),
			ref.Foreach{Item: "it", Over: fpath("o", "All"), Body: []ref.Node{out("it", field), ref.Text(",")}}}
		vals := func(n int) []interface{} {
			h := c15Holder{I: n, F: float64(n) / 2, S: fmt.Sprint("s", n), B: n == 1, L: []int{n}, M: map[string]int{"k": n}, P: &ipIn{n}, V: ipIn{n + 1}}
			return []interface{}{&c15Holder{I: n}, h, &c15Outer{H: &h, All: []*c15Holder{&h, nil, {I: 9}}}, nil}
		}
		explore("fields", env, nodes, vals(1), vals(2))
	}
	// errors
	boom := fcall("boom", V("n"))
	fenv := func() *ref.Env {
		return &ref.Env{PanicOnError: true, Vars: []ref.Var{{Name: "n", Val: 0}, {Name: "l", Val: []int{}}, {Name: "s", Val: ""}}, Funcs: map[string]interface{}{
			"boom": func(n int) (int, error) {
				if n > 1 {
					return 0, fmt.Errorf("boom %d", n)
				}
				return n, nil
			},
			"list": func(n int) ([]int, error) {
				if n > 1 {
					return nil, errors.New("no list")
				}
				return []int{n, n}, nil
			},
			"add": func(a, b int) int { return a + b }, "all": func(vs ...int) string { return fmt.Sprint(vs) }, "mix": func(s string, vs ...interface{}) string { return fmt.Sprint(s, vs) },
		}}
	}
	for _, nodes := range [][]ref.Node{
		{ref.Out{P: boom}, ref.Text("|"), ref.Out{P: boom}},
		{set("x", bin("+", boom, lit(1))), out("x")},
		{ref.If{Arms: []ref.Arm{{Cond: bin(">", boom, lit(0)), Body: []ref.Node{ref.Text("yes")}}}, HasElse: true, Else: []ref.Node{ref.Text("no")}}},
		{ref.Foreach{Item: "x", Over: fcall("list", V("n")), Body: []ref.Node{out("x"), ref.Out{P: fcall("boom", V("x"))}}}, ref.Text(";")},
		{ref.Foreach{Item: "x", Over: V("l"), Body: []ref.Node{ref.Out{P: fcall("boom", V("x"))}, ref.Text(",")}}},
		{ref.For{Var: "k", From: boom, Cond: bin("<", V("k"), lit(3)), Post: "++", Body: []ref.Node{ref.Out{P: fcall("boom", V("k"))}, ref.Text(",")}}},
		{ref.Out{P: fcall("add", boom, fcall("add", lit(2), boom))}},
		{ref.Out{P: fcall("all", V("n"), lit(1), fcall("add", V("n"), lit(1)))}, ref.Out{P: fcall("all")}, ref.Out{P: fcall("mix", V("s"), V("n"), V("s"), lit(3))}},
		{ref.Foreach{Item: "x", Over: ref.Range{A: 0, B: 4}, Body: []ref.Node{out("x"), set("n", bin("+", V("n"), V("x")))}}, out("n")},
		{ref.Foreach{Item: "x", Over: ref.Range{A: 3, B: -1}, Body: []ref.Node{ref.Foreach{Item: "x", Over: ref.Range{A: 0, B: 2}, Body: []ref.Node{out("x")}}, out("x")}}},
		{set("f", bin("*", V("n"), lit(1.5))), out("f"), set("g", bin("+", V("s"), lit("<"))), out("g"), set("b", bin("&&", bin("==", V("n"), lit(1)), bin("!=", V("s"), lit("q")))), out("b")},
		{out("l", ref.Index{X: lit(0)}), set("y", path("l", ref.Index{X: bin("-", V("n"), V("n"))})), out("y"), ref.Out{P: &ref.Path{Root: "nope", Segs: []ref.Seg{ref.Field("A")}}}},
	} {
		vals := func(n int) []interface{} { return []interface{}{n, []int{n, n + 1}, fmt.Sprint("s", n)} }
		explore("errors", fenv(), nodes, vals(1), vals(2))
		explore("errors", fenv(), nodes, vals(2), vals(3))
	}
}

type c15Holder struct {
	I int
	F float64
	S string
	B bool
	L []int
	M map[string]int
	P *ipIn
	V ipIn
}

type c15Outer struct {
	H   *c15Holder
	All []*c15Holder
}
