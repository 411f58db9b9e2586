package checks

import (
	"fmt"

	"verifmc/kit"
	"verifmc/ref"
)

type c08Conf struct{ Lim, Step int }

func init() {
	register(&kit.Check{
		Property: "C08",
		Level:    "model_checking",
		Rule:     "every start x condition x bound x post operation x operand x loop variable kind, every body up to the bound, every nesting and sequence of loops up to the bound, compared with the model; loops which do not end within 60 iterations by a direct simulation are left out; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("starts x 6 comparisons (both operand orders) x bounds x 6 post operations x operands, int and float64, new and declared variables, operands as literals, variables, fields, calls and expressions; bodies of up to %d of 14 statements; nests of depth up to 3 and sequences of up to %d loops with shared and separate names, in 5 positions; evaluation traces; errors raised before, in and around loops, in both error modes", map[kit.Tier]int{kit.Quick: 2, kit.Thorough: 3}[t], map[kit.Tier]int{kit.Quick: 3, kit.Thorough: 4}[t])
		},
		Assumptions: []string{"loops that never end are outside the property", "loop variables of other types than int and float64 are covered by C04/C10 (operators and assignment)"},
		Parts: []kit.Part{
			interplayPart("C08"),
			{Name: "sizes", Gen: c08Sizes},
			{Name: "counts", Gen: c08GenCounts},
			{Name: "floats", Gen: c08GenFloats},
			{Name: "bodies", Gen: c08GenBodies},
			{Name: "traces", Gen: c08GenTraces},
			{Name: "nests", Gen: c08GenNests},
			{Name: "errors", Gen: func(g *kit.G) {
				num := func(n int) ref.Expr {
					return &ref.Path{Root: "num", Call: true, Args: []ref.Expr{ref.V("x"), ref.Lit{V: n}}}
				}
				mk := func(from, cond ref.Expr, post string, n ref.Expr) func(string, []ref.Node) ref.Node {
					return func(item string, body []ref.Node) ref.Node {
						return ref.For{Var: item, From: from, Cond: cond, Post: post, PostN: n, Body: body}
					}
				}
				x := ref.V("x")
				loopErrors(g, []func(string, []ref.Node) ref.Node{
					mk(ref.Lit{V: 0}, ref.Bin{Op: "<", L: x, R: ref.V("n")}, "++", nil),
					mk(ref.Lit{V: 3}, ref.Bin{Op: ">=", L: x, R: ref.Lit{V: 0}}, "--", nil),
					mk(&ref.Path{Root: "num", Call: true, Args: []ref.Expr{ref.V("before"), ref.Lit{V: 1}}}, ref.Bin{Op: "<=", L: num(1), R: ref.V("n")}, "+=", ref.Lit{V: 1}),
					mk(ref.Lit{V: 0}, ref.Bin{Op: "<", L: num(0), R: ref.Lit{V: 3}}, "++", nil),
					mk(ref.Lit{V: 1}, ref.Bin{Op: "<", L: x, R: ref.Lit{V: 8}}, "+=", ref.Bin{Op: "+", L: num(3), R: ref.Lit{V: 1}}),
				})
			}},
		},
	})
}

func cmpInt(op string, a, b float64) bool {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "==":
		return a == b
	}
	return a != b
}

func stepInt(post string, a, n int) int {
	switch post {
	case "++":
		return a + 1
	case "--":
		return a - 1
	case "+=":
		return a + n
	case "-=":
		return a - n
	case "*=":
		return a * n
	}
	return a / n
}

func stepFloat(post string, a, n float64) float64 {
	switch post {
	case "++":
		return a + 1
	case "--":
		return a - 1
	case "+=":
		return a + n
	case "-=":
		return a - n
	case "*=":
		return a * n
	}
	return a / n
}

var c08Posts = []string{"++", "--", "+=", "-=", "*=", "/="}
var c08Ops = []string{"<", "<=", ">", ">=", "==", "!="}

// operand forms: where a number of the loop header comes from
func c08Forms(name string, v interface{}) []func() ref.Expr {
	return []func() ref.Expr{
		func() ref.Expr { return ref.Lit{V: v} },
		func() ref.Expr { return ref.V(name) },
		func() ref.Expr { return path("conf", ref.Field(map[string]string{"lim": "Lim", "step": "Step"}[name])) },
		func() ref.Expr { return &ref.Path{Root: "same", Call: true, Args: []ref.Expr{ref.V(name)}} },
		func() ref.Expr { return ref.Paren{X: ref.Bin{Op: "+", L: ref.V(name), R: ref.Lit{V: 0}}} },
	}
}

func c08GenCounts(g *kit.G) {
	starts := []int{0, 1, -1, 3, -4, 7, 100}
	limits := []int{0, 1, 2, 5, 20, -3}
	steps := []int{1, 2, 3, -1, -2}
	for _, declared := range []bool{false, true} {
		for _, start := range starts {
			for _, op := range c08Ops {
				for _, lim := range limits {
					for _, post := range c08Posts {
						for _, n := range steps {
							if n != steps[0] && len(post) == 2 && (post == "++" || post == "--") {
								continue
							}
							x, count := start, 0
							for ; count <= 60 && cmpInt(op, float64(x), float64(lim)); count++ {
								x = stepInt(post, x, n)
							}
							if count > 60 {
								continue
							}
							declared, start, op, lim, post, n := declared, start, op, lim, post, n
							g.Do(func(t *kit.T) {
								env := &ref.Env{
									Vars:  []ref.Var{{Name: "lim", Val: lim}, {Name: "step", Val: n}, {Name: "conf", Val: c08Conf{lim, n}}, {Name: "begin", Val: start}, {Name: "other", Val: 77}},
									Funcs: map[string]interface{}{"same": func(i int) int { return i }},
								}
								if declared {
									env.Vars = append(env.Vars, ref.Var{Name: "i", Val: 55})
								}
								lims, stepFs := c08Forms("lim", lim), c08Forms("step", n)
								for k := 0; k < 5; k++ {
									for rev := 0; rev < 2; rev++ {
										cond := ref.Bin{Op: op, L: ref.V("i"), R: lims[k]()}
										if rev == 1 {
											inv := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}
											o := op
											if r, ok := inv[op]; ok {
												o = r
											}
											cond = ref.Bin{Op: o, L: lims[k](), R: ref.V("i")}
										}
										var from ref.Expr = ref.Lit{V: start}
										if (k+rev)%2 == 1 {
											from = ref.V("begin")
										}
										loop := ref.For{Var: "i", From: from, Cond: cond, Post: post, PostN: stepFs[(k+rev)%5](), Body: []ref.Node{ref.Out{P: ref.V("i")}, ref.Text(" ")}}
										agree(t, env, []ref.Node{loop, ref.Text("end "), ref.Out{P: ref.V("i")}, ref.Text(" "), ref.Out{P: ref.V("other")}}, nil)
									}
								}
							})
						}
					}
				}
			}
		}
	}
}

func c08GenFloats(g *kit.G) {
	for _, start := range []float64{0.5, -1.5, 8.25} {
		for _, op := range c08Ops {
			for _, lim := range []float64{0.5, 3.75, -2.5, 16.5} {
				for _, post := range c08Posts {
					for _, n := range []float64{0.5, 1.5, 2.5} {
						if n != 0.5 && (post == "++" || post == "--") {
							continue
						}
						x, count := start, 0
						for ; count <= 60 && cmpInt(op, x, lim); count++ {
							x = stepFloat(post, x, n)
						}
						if count > 60 {
							continue
						}
						start, op, lim, post, n := start, op, lim, post, n
						g.Do(func(t *kit.T) {
							for _, declared := range []bool{false, true} {
								env := &ref.Env{Vars: []ref.Var{{Name: "lim", Val: lim}, {Name: "step", Val: n}}}
								if declared {
									env.Vars = append(env.Vars, ref.Var{Name: "x", Val: 99.5})
								}
								for form := 0; form < 4; form++ {
									var l, s ref.Expr = ref.Lit{V: lim}, ref.Lit{V: n}
									if form&1 == 1 {
										l = ref.V("lim")
									}
									if form&2 == 2 {
										s = ref.V("step")
									}
									loop := ref.For{Var: "x", From: ref.Lit{V: start}, Cond: ref.Bin{Op: op, L: ref.V("x"), R: l}, Post: post, PostN: s, Body: []ref.Node{ref.Out{P: ref.V("x")}, ref.Text(" ")}}
									agree(t, env, []ref.Node{loop, ref.Text("end "), ref.Out{P: ref.V("x")}}, nil)
								}
							}
						})
					}
				}
			}
		}
	}
}

// bodies which change what the header reads
func c08GenBodies(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "lim", Val: 6}, {Name: "step", Val: 1}, {Name: "sum", Val: 0}, {Name: "s", Val: ""}, {Name: "list", Val: []int{4, 5, 6}}, {Name: "conf", Val: &c08Conf{6, 1}}, {Name: "word", Val: "A$sum"}},
		Evals: map[string][]ref.Node{"[$sum]": {ref.Text("["), ref.Out{P: ref.V("sum")}, ref.Text("]")}}}
	i := ref.V("i")
	inc := func(name string, op string, n ref.Expr) ref.Node {
		return ref.Set{Target: ref.V(name), Val: ref.Bin{Op: op, L: ref.V(name), R: n}}
	}
	stmts := []ref.Node{
		ref.Text("-"),
		ref.Out{P: i},
		inc("sum", "+", i),
		inc("i", "+", ref.Lit{V: 1}),
		inc("lim", "-", ref.Lit{V: 1}),
		inc("step", "+", ref.Lit{V: 1}),
		ref.Set{Target: path("conf", ref.Field("Lim")), Val: ref.Bin{Op: "-", L: path("conf", ref.Field("Lim")), R: ref.Lit{V: 1}}},
		ref.Set{Target: ref.V("s"), Val: ref.Bin{Op: "+", L: ref.V("s"), R: ref.Lit{V: "x"}}},
		ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "==", L: i, R: ref.Lit{V: 2}}, Body: []ref.Node{ref.Text("two"), inc("i", "+", ref.Lit{V: 1})}}}, HasElse: true, Else: []ref.Node{ref.Out{P: ref.V("sum")}}},
		ref.For{Var: "j", From: i, Cond: ref.Bin{Op: "<", L: ref.V("j"), R: ref.Lit{V: 3}}, Post: "++", Body: []ref.Node{ref.Text("j"), ref.Out{P: ref.V("j")}}},
		ref.Foreach{Item: "e", Over: ref.V("list"), Body: []ref.Node{inc("sum", "+", ref.V("e"))}},
		ref.Eval{Arg: ref.Lit{V: "[$sum]"}},
		ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.V("i")}, Post: "+=", PostN: ref.V("step"), Body: []ref.Node{ref.Text("."), inc("sum", "+", ref.Lit{V: 1})}},
		ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">", L: ref.V("sum"), R: ref.Lit{V: 9}}, Body: []ref.Node{ref.Set{Target: ref.V("lim"), Val: ref.Lit{V: 0}}}}}},
	}
	headers := []ref.For{
		{From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: i, R: ref.V("lim")}, Post: "++"},
		{From: ref.Lit{V: 1}, Cond: ref.Bin{Op: "<=", L: i, R: path("conf", ref.Field("Lim"))}, Post: "+=", PostN: ref.V("step")},
		{From: ref.Lit{V: 1}, Cond: ref.Bin{Op: "&&", L: ref.Bin{Op: "<", L: i, R: ref.V("lim")}, R: ref.Bin{Op: "<", L: ref.V("sum"), R: ref.Lit{V: 30}}}, Post: "*=", PostN: ref.Lit{V: 2}},
	}
	for n := 0; n <= g.Pick(2, 3); n++ {
		seq := make([]int, n)
		for {
			for _, h := range headers {
				h, fs := h, append([]int{}, seq...)
				g.Do(func(t *kit.T) {
					h.Var = "i"
					for _, k := range fs {
						h.Body = append(h.Body, stmts[k])
						if _, ok := stmts[k].(ref.Out); ok {
							h.Body = append(h.Body, ref.Text(" "))
						}
					}
					end := []ref.Node{h, ref.Text("|")}
					for _, v := range []string{"i", "sum", "lim", "step", "s"} {
						end = append(end, ref.Out{P: ref.V(v)}, ref.Text(" "))
					}
					// the values are set anew since conf is shared through a pointer
					agreeFresh(t, env, end, func() []interface{} {
						return []interface{}{6, 1, 0, "", []int{4, 5, 6}, &c08Conf{6, 1}, "A$sum"}
					})
				})
			}
			if !next(seq, len(stmts)) {
				break
			}
		}
	}
}

func c08GenTraces(g *kit.G) {
	env := &ref.Env{
		Vars: []ref.Var{{Name: "n", Val: 3}, {Name: "yes", Val: true}},
		Funcs: map[string]interface{}{
			"init": func(v int) int { trace("init %d", v); return v },
			"cond": func(v int, w int) bool { trace("cond %d %d", v, w); return v < w },
			"lim":  func(w int) int { trace("lim %d", w); return w },
			"body": func(v int) string { trace("body %d", v); return "b" },
			"post": func(v int) int { trace("post %d", v); return 1 },
		},
	}
	call := func(name string, args ...ref.Expr) ref.Expr { return &ref.Path{Root: name, Call: true, Args: args} }
	for start := -1; start <= 4; start++ {
		for form := 0; form < 4; form++ {
			for _, post := range []string{"++", "+="} {
				start, form, post := start, form, post
				g.Do(func(t *kit.T) {
					var cond ref.Expr = call("cond", ref.V("i"), ref.V("n"))
					switch form {
					case 1:
						cond = ref.Bin{Op: "<", L: ref.V("i"), R: call("lim", ref.V("n"))}
					case 2:
						cond = ref.Bin{Op: "&&", L: call("cond", ref.V("i"), ref.V("n")), R: call("cond", ref.V("i"), ref.Lit{V: 2})}
					case 3:
						cond = ref.Bin{Op: "==", L: call("cond", ref.V("i"), ref.V("n")), R: ref.V("yes")}
					}
					loop := ref.For{Var: "i", From: call("init", ref.Lit{V: start}), Cond: cond, Post: post, PostN: call("post", ref.V("i")), Body: []ref.Node{ref.Out{P: call("body", ref.V("i")).(*ref.Path)}}}
					agree(t, env, []ref.Node{loop, ref.Text("|"), ref.Out{P: call("body", ref.V("i")).(*ref.Path)}}, [][]interface{}{{3, true}, {0, true}, {5, true}})
				})
			}
		}
	}
}

func c08GenNests(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "n", Val: 2}, {Name: "list", Val: []string{"p", "q"}}, {Name: "yes", Val: true}, {Name: "no", Val: false}}}
	type header struct {
		from int
		op   string
		lim  ref.Expr
		post string
		n    ref.Expr
	}
	headers := []header{
		{0, "<", ref.Lit{V: 0}, "++", nil},
		{0, "<", ref.Lit{V: 1}, "++", nil},
		{0, "<", ref.V("n"), "++", nil},
		{3, ">", ref.Lit{V: 0}, "--", nil},
		{1, "<=", ref.Lit{V: 4}, "*=", ref.V("n")},
		{9, ">=", ref.V("n"), "/=", ref.Lit{V: 2}},
		{0, "!=", ref.Lit{V: 4}, "+=", ref.V("n")},
		{5, ">", ref.V("n"), "-=", ref.V("n")},
	}
	mk := func(h header, name string, body ...ref.Node) ref.Node {
		return ref.For{Var: name, From: ref.Lit{V: h.from}, Cond: ref.Bin{Op: h.op, L: ref.V(name), R: h.lim}, Post: h.post, PostN: h.n, Body: body}
	}
	wraps := []func(n []ref.Node) []ref.Node{
		func(n []ref.Node) []ref.Node { return n },
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("yes"), Body: n}}}}
		},
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("no"), Body: []ref.Node{ref.Text("N")}}}, HasElse: true, Else: n}}
		},
		func(n []ref.Node) []ref.Node { return []ref.Node{ref.Foreach{Item: "e", Over: ref.V("list"), Body: n}} },
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "j", Over: ref.Range{A: 1, B: 3}, Body: n}}
		},
	}
	for depth := 2; depth <= 3; depth++ {
		seq := make([]int, depth)
		for {
			fs := append([]int{}, seq...)
			depth := depth
			g.Do(func(t *kit.T) {
				var body []ref.Node
				for k := depth - 1; k >= 0; k-- {
					name := string(rune('i' + k))
					var b []ref.Node
					b = append(b, ref.Out{P: ref.V(name)}, ref.Text(","))
					b = append(b, body...)
					b = append(b, ref.Out{P: ref.V(name)}, ref.Text(";"))
					body = []ref.Node{mk(headers[fs[k]], name, b...)}
				}
				for k := 0; k < depth && fs[0] > 1; k++ { // what inner loops leave behind; the outer runs at least once
					if k == 0 || fs[k-1] > 0 {
						body = append(body, ref.Out{P: ref.V(string(rune('i' + k)))}, ref.Text(" "))
					}
				}
				for _, w := range wraps {
					agree(t, env, w(body), nil)
				}
			})
			if !next(seq, len(headers)) {
				break
			}
		}
	}
	for n := 2; n <= g.Pick(3, 4); n++ {
		seq := make([]int, n)
		for {
			fs := append([]int{}, seq...)
			n := n
			g.Do(func(t *kit.T) {
				for naming := 0; naming < 2; naming++ {
					var nodes []ref.Node
					for k := 0; k < n; k++ {
						name := "i"
						if naming == 1 {
							name = string(rune('i' + k%2))
						}
						nodes = append(nodes, mk(headers[fs[k]], name, ref.Text("<"), ref.Out{P: ref.V(name)}, ref.Text(">")), ref.Out{P: ref.V(name)}, ref.Text("\n"))
					}
					agree(t, env, nodes, nil)
				}
			})
			if !next(seq, len(headers)) {
				break
			}
		}
	}
}
