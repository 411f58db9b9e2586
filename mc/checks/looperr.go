package checks

import (
	"fmt"

	"verifmc/kit"
	"verifmc/ref"
)

// loopErrors: errors raised before, around and inside loops do not change what the loops visit, unless panic-on-error is set.
func loopErrors(g *kit.G, headers []func(item string, body []ref.Node) ref.Node) {
	mkEnv := func() *ref.Env {
		return &ref.Env{
			Vars: []ref.Var{{Name: "n", Val: 3}, {Name: "list", Val: []int{0, 1, 2}}, {Name: "at", Val: 0}, {Name: "before", Val: 0}, {Name: "sum", Val: 0}},
			Funcs: map[string]interface{}{
				"str": func(i, at int) (string, error) {
					trace("str %d", i)
					if i == at {
						return "E", fmt.Errorf("str %d", i)
					}
					return "s", nil
				},
				"num": func(i, at int) (int, error) {
					trace("num %d", i)
					if i == at {
						return i, fmt.Errorf("num %d", i)
					}
					return i, nil
				},
				"nums": func(i, at int) ([]int, error) {
					if i == at {
						return []int{i, i}, fmt.Errorf("nums %d", i)
					}
					return []int{i}, nil
				},
			},
			Evals: map[string][]ref.Node{"<$str($x, $at)>": {ref.Text("<"), ref.Out{P: &ref.Path{Root: "str", Call: true, Args: []ref.Expr{ref.V("x"), ref.V("at")}}}, ref.Text(">")}},
		}
	}
	call := func(f string, args ...ref.Expr) *ref.Path { return &ref.Path{Root: f, Call: true, Args: args} }
	x, at := ref.V("x"), ref.V("at")
	bodies := [][]ref.Node{
		{ref.Text("."), ref.Out{P: x}},
		{ref.Out{P: x}, ref.Out{P: call("str", x, at)}, ref.Text(",")},
		{ref.Set{Target: ref.V("r"), Val: call("num", x, at)}, ref.Out{P: ref.V("r")}, ref.Set{Target: ref.V("sum"), Val: ref.Bin{Op: "+", L: ref.V("sum"), R: ref.V("r")}}},
		{ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">", L: call("num", x, at), R: ref.Lit{V: 0}}, Body: []ref.Node{ref.Text("T")}}}, HasElse: true, Else: []ref.Node{ref.Text("F")}}, ref.Out{P: x}},
		{ref.Eval{Arg: ref.Lit{V: "<$str($x, $at)>"}}, ref.Text(";")},
		{ref.Foreach{Item: "y", Over: call("nums", x, at), Body: []ref.Node{ref.Out{P: x}, ref.Out{P: ref.V("y")}, ref.Text(" ")}}},
		{ref.Foreach{Item: "y", Over: ref.V("list"), Body: []ref.Node{ref.Out{P: call("str", ref.V("y"), at)}, ref.Out{P: ref.V("y")}}}, ref.Out{P: x}},
		{ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.Lit{V: 2}}, Post: "++", Body: []ref.Node{ref.Out{P: call("str", ref.V("k"), at)}}}, ref.Out{P: x}},
		{ref.Out{P: call("str", call("num", x, at), at)}, ref.Out{P: x}, ref.Text("|")},
	}
	for hi := range headers {
		for bi := range bodies {
			for twice := 0; twice < 2; twice++ {
				for stop := 0; stop < 2; stop++ {
					h, bi, twice, stop := headers[hi], bi, twice, stop
					g.Do(func(t *kit.T) {
						env := mkEnv()
						env.PanicOnError = stop == 1
						loop := h("x", bodies[bi])
						nodes := []ref.Node{ref.Out{P: call("str", ref.V("before"), ref.Lit{V: 1})}, ref.Text("<"), loop, ref.Text(">")}
						if twice == 1 {
							nodes = append(nodes, ref.Text("/"), h("x", bodies[0]), ref.Out{P: ref.V("sum")})
						}
						var sets [][]interface{}
						for before := 0; before < 2; before++ {
							for at := -1; at < 4; at++ {
								sets = append(sets, []interface{}{3, []int{0, 1, 2}, at, before, 0})
							}
						}
						agree(t, env, nodes, sets)
					})
				}
			}
		}
	}
}
