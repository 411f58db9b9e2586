package checks

import (
	"fmt"

	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C09",
		Level:    "model_checking",
		Rule:     "every block length in every block position with every repeating pattern of statement kinds, every sequence of kinds up to the bound, every pair of block lengths nested and side by side; statements call a recording function with their number, output and call sequence are compared with the model; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("lengths 0..%d, 10 statement kinds, patterns of period<=2 (beyond length %d: of equal or neighbouring kinds), sequences up to length %d, 13 positions, length pairs 0..%d", map[kit.Tier]int{kit.Quick: 48, kit.Thorough: 96}[t], map[kit.Tier]int{kit.Quick: 20, kit.Thorough: 40}[t], map[kit.Tier]int{kit.Quick: 4, kit.Thorough: 5}[t], map[kit.Tier]int{kit.Quick: 20, kit.Thorough: 34}[t])
		},
		Assumptions: []string{"block execution depends on the number and the kinds of the statements, not on their details, which other checks cover"},
		Parts: []kit.Part{
			interplayPart("C09 C10"),
			{Name: "sizes", Gen: c09Sizes},
			{Name: "lengths", Gen: c09GenLengths},
			{Name: "sequences", Gen: c09GenSequences},
			{Name: "pairs", Gen: c09GenPairs},
		},
	})
}

func c09Env() *ref.Env {
	return &ref.Env{
		Vars: []ref.Var{{Name: "yes", Val: true}, {Name: "no", Val: false}, {Name: "n", Val: 5}, {Name: "s", Val: "str"}, {Name: "one", Val: []int{7}}, {Name: "two", Val: []int{8, 9}}, {Name: "acc", Val: 0}, {Name: "tmpl", Val: ""}},
		Funcs: map[string]interface{}{
			"hit": func(i int) string { trace("hit %d", i); return fmt.Sprintf("h%d", i) },
			"val": func(i int) int { trace("val %d", i); return i },
		},
	}
}

// c09Stmt is the i-th statement of a block.
func c09Stmt(kind, i int) ref.Node {
	call := func(name string) *ref.Path {
		return &ref.Path{Root: name, Call: true, Args: []ref.Expr{ref.Lit{V: i}}}
	}
	switch kind {
	case 0:
		return ref.Out{P: call("hit")}
	case 1:
		return ref.Text(fmt.Sprintf(" t%d ", i))
	case 2:
		return ref.Set{Target: ref.V("acc"), Val: ref.Bin{Op: "+", L: ref.V("acc"), R: call("val")}}
	case 3:
		return ref.If{Arms: []ref.Arm{{Cond: ref.V("yes"), Body: []ref.Node{ref.Out{P: call("hit")}}}}}
	case 4:
		return ref.If{Arms: []ref.Arm{{Cond: ref.V("no"), Body: []ref.Node{ref.Text("never")}}}}
	case 5:
		return ref.Foreach{Item: "e", Over: ref.V("two"), Body: []ref.Node{ref.Out{P: call("hit")}, ref.Text(","), ref.Out{P: ref.V("e")}}}
	case 6:
		return ref.Out{P: &ref.Path{Root: "acc", Braced: true}}
	case 7:
		return ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.Lit{V: 2}}, Post: "++", Body: []ref.Node{ref.Out{P: call("hit")}}}
	case 8:
		return ref.Eval{Arg: ref.Lit{V: "eval$hit(1)"}}
	}
	return ref.Out{P: &ref.Path{Root: "unknown", Braced: true}}
}

const c09Kinds = 10

func c09Evals() map[string][]ref.Node {
	return map[string][]ref.Node{"eval$hit(1)": {ref.Text("eval"), ref.Out{P: &ref.Path{Root: "hit", Call: true, Args: []ref.Expr{ref.Lit{V: 1}}}}}}
}

type c09Place struct {
	eval bool
	wrap func(n []ref.Node) []ref.Node
}

func c09Places() []c09Place {
	yes, no := ref.V("yes"), ref.V("no")
	return []c09Place{
		{wrap: func(n []ref.Node) []ref.Node { return n }},
		{wrap: func(n []ref.Node) []ref.Node { return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: n}}}} }},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: n}}, HasElse: true, Else: []ref.Node{ref.Text("E")}}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: no, Body: []ref.Node{ref.Text("N")}}}, HasElse: true, Else: n}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: no, Body: n}, {Cond: yes, Body: n}}, HasElse: true, Else: n}}
		}},
		{wrap: func(n []ref.Node) []ref.Node { return []ref.Node{ref.Foreach{Item: "x", Over: ref.V("one"), Body: n}} }},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: ref.Range{A: 0, B: 2}, Body: n}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.For{Var: "q", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("q"), R: ref.Lit{V: 2}}, Post: "++", Body: n}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: ref.V("two"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: n}}}}}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: []ref.Node{ref.Text("("), ref.Foreach{Item: "x", Over: ref.V("two"), Body: n}, ref.Text(")")}}}}}
		}},
		{wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Text("a"), ref.If{Arms: []ref.Arm{{Cond: yes, Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: no, Body: n}}, HasElse: true, Else: n}}}}}, ref.Text("b")}
		}},
		{eval: true, wrap: func(n []ref.Node) []ref.Node { return []ref.Node{ref.Eval{Arg: ref.V("tmpl")}} }},
		{eval: true, wrap: func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: ref.V("two"), Body: []ref.Node{ref.Text("<"), ref.Eval{Arg: ref.V("tmpl")}, ref.Text(">")}}}
		}},
	}
}

func c09Agree(t *kit.T, pl c09Place, n []ref.Node) {
	env := c09Env()
	env.Evals = c09Evals()
	if pl.eval {
		src := ref.Print(n)
		env.Evals[src] = n
		env.Vars[len(env.Vars)-1].Val = src
	}
	nodes := append(pl.wrap(n), ref.Text("|"), ref.Out{P: ref.V("acc")})
	agree(t, env, nodes, nil)
}

func c09GenLengths(g *kit.G) {
	for pi := range c09Places() {
		for n := 0; n <= g.Pick(48, 96); n++ {
			for a := 0; a < c09Kinds; a++ {
				for b := 0; b < c09Kinds; b++ {
					if n > g.Pick(20, 40) && b != a && b != (a+1)%c09Kinds {
						continue
					}
					pi, n, a, b := pi, n, a, b
					g.Do(func(t *kit.T) {
						var nodes []ref.Node
						for i := 0; i < n; i++ {
							k := a
							if i%2 == 1 {
								k = b
							}
							nodes = append(nodes, c09Stmt(k, i))
						}
						c09Agree(t, c09Places()[pi], nodes)
					})
				}
			}
		}
	}
}

func c09GenSequences(g *kit.G) {
	for n := 1; n <= g.Pick(4, 5); n++ {
		seq := make([]int, n)
		for {
			for pi := range c09Places() {
				if n > 3 && pi%4 != 0 {
					continue
				}
				fs, pi := append([]int{}, seq...), pi
				g.Do(func(t *kit.T) {
					var nodes []ref.Node
					for i, k := range fs {
						nodes = append(nodes, c09Stmt(k, i))
					}
					c09Agree(t, c09Places()[pi], nodes)
				})
			}
			if !next(seq, c09Kinds) {
				break
			}
		}
	}
}

// c09GenPairs: an inner block of m statements at the start, in the middle and at the end of a block of n, and two blocks side by side.
func c09GenPairs(g *kit.G) {
	hits := func(from, n int) (res []ref.Node) {
		for i := 0; i < n; i++ {
			res = append(res, c09Stmt((i%2)*2, from+i))
		}
		return
	}
	places := c09Places()
	for n := 0; n <= g.Pick(20, 34); n++ {
		for m := 0; m <= g.Pick(20, 34); m++ {
			for pos := 0; pos < 4; pos++ {
				for inner := 1; inner < 8; inner++ {
					n, m, pos, inner := n, m, pos, inner
					g.Do(func(t *kit.T) {
						outer, in := hits(0, n), places[inner].wrap(hits(100, m))
						var nodes []ref.Node
						switch pos {
						case 0:
							nodes = append(append(nodes, in...), outer...)
						case 1:
							nodes = append(append(append(nodes, outer[:n/2]...), in...), outer[n/2:]...)
						case 2:
							nodes = append(append(nodes, outer...), in...)
						case 3:
							nodes = append(append(nodes, places[(inner+n)%7+1].wrap(outer)...), in...)
						}
						for pi := 0; pi < 11; pi += 3 {
							c09Agree(t, places[(pi+m)%11], nodes)
						}
					})
				}
			}
		}
	}
}
