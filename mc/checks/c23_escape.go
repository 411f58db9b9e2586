package checks

import (
	"fmt"
	"html"
	"reflect"

	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C23",
		Level:    "model_checking",
		Rule:     "with escaping on and off: every kind of value x place x way of writing the reference; every string over an alphabet of special characters in every place; every chain of operations a string can flow through before it is rendered; every literal text over the alphabet in every block, evaluated templates included; compared with the reference rendering, which escapes each rendered reference once with html.EscapeString and literal text never",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "strings of <=3 of 10 characters and entities; flows of <=2 of 14 operations from 18 places into 5 sinks; literal texts of <=2 of 10 pieces in 11 blocks; kinds and pairs as in C25",
				kit.Thorough: "strings of <=4 of 10 characters and entities; flows of <=3 of 14 operations from 18 places into 5 sinks; literal texts of <=3 of 10 pieces in 11 blocks; kinds and pairs as in C25",
			}[t]
		},
		Assumptions: []string{"html.EscapeString is the escaping meant"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: func(g *kit.G) { c23Sizes(g, true) }},
			{Name: "kinds", Gen: func(g *kit.G) { c25Kinds(g, true) }},
			{Name: "interfaces", Gen: func(g *kit.G) { c25Interfaces(g, true) }},
			{Name: "pairs", Gen: func(g *kit.G) { c25Pairs(g, true) }},
			{Name: "strings", Gen: c23Strings},
			{Name: "flows", Gen: c23Flows},
			{Name: "literal", Gen: c23Literal},
		},
	})
}

var c23Pieces = []string{"<", ">", "&", "'", "\"", "a", "&lt;", "&#39;", ";", "é\x00"}

func c23Words(max int) (res []string) {
	for n := 0; n <= max; n++ {
		seq := make([]int, n)
		for {
			s := ""
			for _, i := range seq {
				s += c23Pieces[i]
			}
			res = append(res, s)
			if !next(seq, len(c23Pieces)) {
				break
			}
		}
	}
	return
}

// c23Strings renders every short string from every place, as a string and inside other values.
func c23Strings(g *kit.G) {
	words := c23Words(g.Pick(3, 4))
	wrap := []struct {
		rt reflect.Type
		of func(s string) interface{}
	}{
		{strT, func(s string) interface{} { return s }},
		{anyT, func(s string) interface{} { return s }},
		{anyT, func(s string) interface{} { return []string{s} }},
		{reflect.TypeOf([]string{}), func(s string) interface{} { return []string{s, s} }},
		{reflect.TypeOf(map[string]int{}), func(s string) interface{} { return map[string]int{s: 1} }},
		{reflect.TypeOf(C25Name("")), func(s string) interface{} { return C25Name(s) }},
		{stringerT, func(s string) interface{} { return C25Str{s} }},
	}
	for wi, w := range wrap {
		var vals []interface{}
		for _, s := range words {
			vals = append(vals, w.of(s))
		}
		for _, escape := range []bool{true, false} {
			for i := range newPlaces(w.rt).places {
				wi, w, i, escape := wi, w, i, escape
				g.Do(func(t *kit.T) {
					pe := newPlaces(w.rt)
					nodes := pe.places[i].wrap([]ref.Node{ref.Text("<"), ref.Out{P: pe.places[i].expr()}, ref.Text(">")})
					agree(t, c25Env(pe, escape), nodes, pe.sets(vals))
					if wi != 0 {
						return
					}
					// the same without the reference interpreter
					pl, err, panicked := compileReal(c25Env(pe, escape), ref.Print(nodes))
					if err != nil || panicked != "" {
						t.Failf("compile: %v %v", err, panicked)
						return
					}
					for n, set := range pe.sets(vals) {
						got, panicked := pl.run(set)
						want := words[n]
						if escape {
							want = html.EscapeString(want)
						}
						t.Exec(1)
						if panicked != "" || got.Err != "" || got.Out != "<"+want+">" {
							t.Failf("%q: got %v %v, want %q", words[n], got, panicked, want)
							return
						}
					}
				})
			}
		}
	}
}

type C23Box struct {
	Pad int8
	S   string
	Any interface{}
}

func (b *C23Box) Get(s string) string { return b.S + s }

// c23Flow is what a template does to a string before it is rendered: it returns statements and the expression of the result.
type c23Flow struct {
	name string
	do   func(e *ref.Path, depth int) ([]ref.Node, *ref.Path)
}

func c23Ops() []c23Flow {
	assign := func(target func(depth int) *ref.Path, val func(e *ref.Path) ref.Expr) func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
		return func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			x := target(d)
			return []ref.Node{ref.Set{Target: x, Val: val(e)}}, x
		}
	}
	local := func(d int) *ref.Path { return path(fmt.Sprintf("t%d", d)) }
	same := func(e *ref.Path) ref.Expr { return e }
	method := func(ns, name string, more ...ref.Expr) func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
		return func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			return nil, path(ns, ref.Method{Name: name, Args: append([]ref.Expr{e}, more...)})
		}
	}
	return []c23Flow{
		{"assign", assign(local, same)},
		{"append", assign(local, func(e *ref.Path) ref.Expr { return bin("+", e, lit("<'&")) })},
		{"prepend", assign(local, func(e *ref.Path) ref.Expr { return bin("+", lit("&lt;"), e) })},
		{"double", assign(local, func(e *ref.Path) ref.Expr { return bin("+", e, e) })},
		{"field", assign(func(int) *ref.Path { return path("box", ref.Field("S")) }, same)},
		{"echo", func(e *ref.Path, d int) ([]ref.Node, *ref.Path) { return nil, fcall("idStr", e) }},
		{"any", func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			return []ref.Node{ref.Set{Target: local(d), Val: fcall("asAny", e)}}, fcall("fromAny", local(d))
		}},
		{"slice", func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			l := path(fmt.Sprintf("l%d", d))
			return []ref.Node{ref.Set{Target: l, Val: fcall("slice", e)}}, path(l.Root, ref.Index{X: lit(0)})
		}},
		{"map", func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			l := path(fmt.Sprintf("m%d", d))
			return []ref.Node{ref.Set{Target: l, Val: fcall("keyed", e)}}, path(l.Root, ref.Index{X: lit("k")})
		}},
		{"upper", method("strings", "ToUpper")},
		{"replace", method("strings", "ReplaceAll", lit("a"), lit("<a>"))},
		{"trim", method("strings", "TrimSpace")},
		{"json", method("json", "Marshal")},
		{"method", func(e *ref.Path, d int) ([]ref.Node, *ref.Path) {
			return nil, path("box", ref.Method{Name: "Get", Args: []ref.Expr{e}})
		}},
	}
}

type c23Sink struct {
	name string
	do   func(e *ref.Path, evals map[string][]ref.Node) []ref.Node
}

func c23Sinks() []c23Sink {
	evaluate := func(e *ref.Path, evals map[string][]ref.Node, nest int) []ref.Node {
		body := []ref.Node{ref.Text("<i>&"), ref.Out{P: e}, ref.Text("'")}
		var nodes []ref.Node
		for i := 0; i < nest; i++ {
			name := fmt.Sprintf("tpl%d", i)
			evals[ref.Print(body)] = body
			nodes = append(nodes, ref.Set{Target: path(name), Val: &c23Text{ref.Print(body)}})
			body = []ref.Node{ref.Text("<e>"), ref.Eval{Arg: ref.V(name)}, ref.Text("</e>")}
		}
		return append(nodes, body...)
	}
	return []c23Sink{
		{"out", func(e *ref.Path, _ map[string][]ref.Node) []ref.Node { return []ref.Node{ref.Out{P: e}} }},
		{"any", func(e *ref.Path, _ map[string][]ref.Node) []ref.Node {
			return []ref.Node{ref.Out{P: fcall("asAny", e)}}
		}},
		{"json", func(e *ref.Path, _ map[string][]ref.Node) []ref.Node {
			return []ref.Node{ref.Out{P: fcall("slice", e)}}
		}},
		{"evaluate", func(e *ref.Path, ev map[string][]ref.Node) []ref.Node { return evaluate(e, ev, 1) }},
		{"evaluate twice", func(e *ref.Path, ev map[string][]ref.Node) []ref.Node { return evaluate(e, ev, 2) }},
	}
}

// c23Text stands for the text of a template to evaluate; it becomes a variable of that value.
type c23Text struct{ s string }

// c23Flows lets a string flow through every chain of operations.
func c23Flows(g *kit.G) {
	ops, sinks := c23Ops(), c23Sinks()
	words := []string{"a", "<a href=\"x\">'&'</a>", "&amp;&lt;", " \"' "}
	nPlaces := len(newPlaces(strT).places)
	for n := 0; n <= g.Pick(2, 3); n++ {
		chain := make([]int, n)
		for {
			for pi := 0; pi < nPlaces; pi++ {
				for si := range sinks {
					sum := pi + si
					for _, c := range chain {
						sum += 3 * c
					}
					if n == 3 && sum%6 != 0 || n == 2 && !g.Thorough() && sum%3 != 0 {
						continue
					}
					chain, pi, si := append([]int{}, chain...), pi, si
					g.Do(func(t *kit.T) { c23Flow1(t, ops, chain, pi, sinks[si], words) })
				}
			}
			if !next(chain, len(ops)) {
				break
			}
		}
	}
}

func c23Flow1(t *kit.T, ops []c23Flow, chain []int, pi int, sink c23Sink, words []string) {
	for _, escape := range []bool{true, false} {
		pe := newPlaces(strT)
		pe.more("box", &C23Box{S: "<box>"})
		pe.env.Escape = escape
		pe.env.NS = map[string]interface{}{"strings": c21S{}, "json": c21J{}}
		pe.env.Evals = map[string][]ref.Node{}
		pe.env.Funcs["idStr"] = func(s string) string { return s }
		pe.env.Funcs["asAny"] = func(s string) interface{} { return s }
		pe.env.Funcs["fromAny"] = func(v interface{}) string { return fmt.Sprint(v) }
		pe.env.Funcs["slice"] = func(s string) []string { return []string{s} }
		pe.env.Funcs["keyed"] = func(s string) map[string]string { return map[string]string{"k": s} }
		p := pe.places[pi]
		var body []ref.Node
		e := p.expr()
		for d, c := range chain {
			var st []ref.Node
			st, e = ops[c].do(e, d)
			body = append(body, st...)
		}
		tail := sink.do(e, pe.env.Evals)
		nodes := p.wrap(append(append(body, ref.Text("<b>")), append(tail, ref.Text("</b>&"))...))
		// template texts become variables
		c23Lift(nodes, pe)
		agreeFresh23(t, pe, nodes, words)
	}
}

func agreeFresh23(t *kit.T, pe *placesEnv, nodes []ref.Node, words []string) {
	agreeEach(t, pe.env, nodes, len(words), func(i int) []interface{} {
		vals := pe.set(words[i])
		for n, v := range pe.env.Vars {
			if v.Name == "box" {
				vals[n] = &C23Box{S: "<box>"}
			}
		}
		return vals
	}, nil)
}

// c23Lift replaces #set($tpl = text) by a declared variable.
func c23Lift(nodes []ref.Node, pe *placesEnv) {
	for i, n := range nodes {
		switch a := n.(type) {
		case ref.Set:
			if x, ok := a.Val.(*c23Text); ok {
				name := a.Target.Root + "text"
				pe.more(name, x.s)
				nodes[i] = ref.Set{Target: a.Target, Val: ref.V(name)}
			}
		case ref.Foreach:
			c23Lift(a.Body, pe)
		}
	}
}

// c23Literal puts literal text with special characters in every block.
func c23Literal(g *kit.G) {
	out := func(name string) ref.Node { return ref.Out{P: &ref.Path{Root: name, Braced: true}} }
	V := ref.V
	blocks := []func(text ref.Node, env *ref.Env) []ref.Node{
		func(x ref.Node, _ *ref.Env) []ref.Node { return []ref.Node{x} },
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{x, ref.Text(" "), out("s"), x, ref.Text(" "), out("s"), x}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{x}}}, HasElse: true, Else: []ref.Node{ref.Text("-"), x}}}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: bin("==", V("s"), lit("zz")), Body: nil}, {Cond: V("c"), Body: []ref.Node{x, ref.Text(" "), out("s")}}}}}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: V("list"), Body: []ref.Node{x, ref.Text(" "), out("x"), x}}}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{ref.For{Var: "k", From: lit(0), Cond: bin("<", V("k"), lit(2)), Post: "++", Body: []ref.Node{x, ref.Text(" "), out("s")}}}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: V("list"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{x}}}}}}}
		},
		func(x ref.Node, env *ref.Env) []ref.Node {
			body := []ref.Node{x, ref.Text(" "), out("s"), x}
			env.Evals[ref.Print(body)] = body
			env.Vars = append(env.Vars, ref.Var{Name: "tpl", Val: ref.Print(body)})
			return []ref.Node{ref.Eval{Arg: V("tpl")}, x}
		},
		func(x ref.Node, env *ref.Env) []ref.Node {
			body := []ref.Node{x, ref.Text(" "), out("x")}
			env.Evals[ref.Print(body)] = body
			env.Vars = append(env.Vars, ref.Var{Name: "tpl", Val: ref.Print(body)})
			return []ref.Node{ref.Foreach{Item: "x", Over: V("list"), Body: []ref.Node{ref.Eval{Arg: V("tpl")}}}}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{out("nope"), ref.Text(" "), x, ref.Out{P: path("nope", ref.Field("More"))}, ref.Text("<"), out("s")}
		},
		func(x ref.Node, _ *ref.Env) []ref.Node {
			return []ref.Node{set("s", lit("<new>&")), x, ref.Text(" "), out("s"), ref.Comment{Body: " <&>"}, x}
		},
	}
	for n := 0; n <= g.Pick(2, 3); n++ {
		seq := make([]int, n)
		for {
			s := ""
			for _, i := range seq {
				s += c23Pieces[i]
			}
			for bi := range blocks {
				bi, s := bi, s
				g.Do(func(t *kit.T) {
					for _, escape := range []bool{true, false} {
						for _, raw := range []bool{false, true} {
							var x ref.Node = ref.Text(s)
							if raw {
								x = ref.Raw(s)
							}
							env := &ref.Env{Escape: escape, Evals: map[string][]ref.Node{}, Vars: []ref.Var{{Name: "s", Val: "<\"&'>"}, {Name: "c", Val: true}, {Name: "list", Val: []string{"&", "'"}}}}
							nodes := blocks[bi](x, env)
							vals := initial(env)
							off := append([]interface{}{}, vals...)
							off[1] = false
							agree(t, env, nodes, [][]interface{}{vals, off})
						}
					}
				})
			}
			if !next(seq, len(c23Pieces)) {
				break
			}
		}
	}
}
