package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"verifmc/kit"
	"verifmc/ref"
)

// Parts "sizes": templates made of n pieces of one kind, for every n up to a bound. What a limit, a chunk, a fixed
// array or a counter of some width would lose shows at one size only.

// sizedText is a text of n bytes without a construct.
func sizedText(n int) string {
	b := make([]byte, n)
	for i := range b {
		switch b[i] = "abcdefghijklmnopqrstuvwxyz0123456789 .,;<>&\"'"[(i+i/45)%45]; {
		case i%61 == 60:
			b[i] = '\n'
		}
	}
	return string(b)
}

func sizes(g *kit.G, upto int, f func(t *kit.T, n int)) {
	for n := 0; n <= upto && !g.Stopped(); n++ {
		n := n
		g.Do(func(t *kit.T) { f(t, n) })
	}
}

// edges is every size up to the first bound, then the sizes up to the second at which limits of implementations lie.
func edges(g *kit.G, all, upto int, f func(t *kit.T, n int)) {
	sizes(g, all, f)
	for _, n := range limits(all, upto) {
		n := n
		if !g.Stopped() {
			g.Do(func(t *kit.T) { f(t, n) })
		}
	}
}

func limits(above, upto int) (res []int) {
	for _, n := range []int{15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025} {
		if n > above && n <= upto {
			res = append(res, n)
		}
	}
	return res
}

// grid is every size up to the first bound, then steps around the powers of two up to the second.
func grid(g *kit.G, all, upto int, f func(t *kit.T, n int)) {
	sizes(g, all, f)
	for p := 1; p <= upto; p *= 2 {
		for d := -2; d <= 2; d++ {
			if n := p + d; n > all && !g.Stopped() {
				g.Do(func(t *kit.T) { f(t, n) })
			}
		}
	}
}

func c01Sizes(g *kit.G) {
	env := textEnv()
	grid(g, g.Pick(9000, 70000), 1<<17, func(t *kit.T, n int) { agree(t, env, []ref.Node{ref.Text(sizedText(n))}, nil) })
	for _, wrap := range []func(s string) []ref.Node{
		func(s string) []ref.Node {
			return []ref.Node{ref.Out{P: &ref.Path{Root: "s", Braced: true}}, ref.Text(s), ref.Out{P: &ref.Path{Root: "s", Braced: true}}, ref.Text(s + "!")}
		},
		func(s string) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "i", Over: ref.V("list"), Body: []ref.Node{ref.Text(s), ref.Out{P: &ref.Path{Root: "i", Braced: true}}, ref.Text(s)}}, ref.Text(s)}
		},
		func(s string) []ref.Node {
			return []ref.Node{ref.Text("a"), ref.Comment{Body: strings.ReplaceAll(s, "\n", " ")}, ref.Text(s)}
		},
		func(s string) []ref.Node {
			return []ref.Node{ref.Text("a"), ref.Raw("$" + s + "#if"), ref.Text(s), ref.Raw(s)}
		},
	} {
		wrap := wrap
		grid(g, g.Pick(4200, 20000), 1<<16, func(t *kit.T, n int) { agree(t, env, wrap(sizedText(n)), nil) })
	}
	// n pieces in a row, text of one byte between them
	grid(g, g.Pick(300, 1100), g.Pick(0, 2048), func(t *kit.T, n int) {
		var nodes []ref.Node
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				nodes = append(nodes, ref.Text("."), ref.Comment{Body: "c"})
			case 1:
				nodes = append(nodes, ref.Text(","), ref.Raw("$r"))
			case 2:
				nodes = append(nodes, ref.Text(";"), ref.Out{P: &ref.Path{Root: "n", Braced: true}})
			default:
				nodes = append(nodes, ref.Text("# $"), ref.Text(" "))
			}
		}
		agree(t, env, nodes, nil)
	})
}

func c03Sizes(g *kit.G) {
	env := c03Env()
	both := func(t *kit.T, p string) {
		for _, src := range []string{"$" + p, "${" + p + "}", "$!" + p, "$!{" + p + "}"} {
			unknownCase(t, env, "<"+src+">", "<"+src+">")
			if t.Failed() {
				return
			}
		}
	}
	grid(g, g.Pick(2100, 9000), 1<<15, func(t *kit.T, n int) { both(t, "nope"+strings.Repeat("x_Y1", n/4)+"abc"[:n%4]) })
	for _, piece := range []string{".a", "[0]", "(1)", `("a")`, ".M($s)"} {
		piece := piece
		grid(g, g.Pick(260, 1000), 2048, func(t *kit.T, n int) { both(t, "nope"+strings.Repeat(piece, n)) })
	}
	for _, arg := range []string{"1", "$s", `"a, b"`, " 1.5"} {
		arg := arg
		grid(g, g.Pick(260, 1000), 2048, func(t *kit.T, n int) { both(t, "nope(0"+strings.Repeat(","+arg, n)+")") })
	}
	grid(g, g.Pick(600, 5000), 1<<14, func(t *kit.T, n int) {
		both(t, `nope("`+strings.NewReplacer("\"", "'", "$", "-").Replace(sizedText(n))+`")`)
	})
	// n unknown references in one template
	grid(g, g.Pick(130, 1000), 1024, func(t *kit.T, n int) {
		src := ""
		for i := 0; i < n; i++ {
			src += fmt.Sprintf("$nope%d.a ", i*7%(n/2+1))
		}
		unknownCase(t, env, src, src)
	})
}

func c05Sizes(g *kit.G) {
	env := c05Env()
	vals := c05Valsets(1, 0, 0)[:2]
	i := func(k int) ref.Expr { return ref.V(fmt.Sprintf("i%d", k%6)) }
	chain := func(n int, ops []string, leaf func(k int) ref.Expr, step int) ref.Expr {
		var e ref.Expr = leaf(0)
		for k := 1; k <= n; k++ {
			e = ref.Bin{Op: ops[k%len(ops)], L: e, R: leaf(k * step)}
		}
		return e
	}
	set := func(e ref.Expr) []ref.Node {
		return []ref.Node{ref.Set{Target: ref.V("r"), Val: e}, ref.Out{P: ref.V("r")}}
	}
	upto := g.Pick(130, 300)
	for _, ops := range [][]string{{"+"}, {"-"}, {"-", "+"}} {
		for _, leaf := range []func(int) ref.Expr{i, func(k int) ref.Expr { return ref.Lit{V: k % 9} }, func(k int) ref.Expr {
			return ref.Bin{Op: "*", L: i(k), R: ref.Lit{V: k%5 + 1}}
		}} {
			ops, leaf := ops, leaf
			edges(g, upto, 513, func(t *kit.T, n int) { agree(t, env, set(chain(n, ops, leaf, 1)), vals) })
		}
	}
	edges(g, upto, 513, func(t *kit.T, n int) { // products of 1 and -1, then one large division chain
		agree(t, env, set(chain(n, []string{"*"}, func(k int) ref.Expr { return ref.Lit{V: []int{7, -1, 1}[min2(k, 1+k%2)]} }, 1)), vals)
	})
	sizes(g, min2(upto, 60), func(t *kit.T, n int) {
		agree(t, env, set(chain(n, []string{"/"}, func(k int) ref.Expr {
			if k == 0 {
				return ref.Lit{V: 1 << 60}
			}
			return ref.Lit{V: 2}
		}, 1)), vals)
	})
	edges(g, upto, 513, func(t *kit.T, n int) {
		agree(t, env, set(chain(n, []string{"+"}, func(k int) ref.Expr { return ref.V(fmt.Sprintf("s%d", k%6)) }, 1)), vals)
	})
	// n conditions joined; the one that decides stands at every place
	decided := func(n int, op string) {
		for at := -1; at <= n; at++ {
			if n > 45 && at > 0 && at != n/2 && at != n-1 && at != n {
				continue
			}
			at := at
			g.Do(func(t *kit.T) {
				var e ref.Expr
				for k := 0; k <= n; k++ {
					l := ref.Bin{Op: "==", L: ref.Lit{V: k}, R: ref.Lit{V: k}}
					if (k == at) == (op == "&&") {
						l.Op = "!="
					}
					if e == nil {
						e = l
					} else {
						e = ref.Bin{Op: op, L: e, R: l}
					}
				}
				agree(t, env, []ref.Node{ref.If{Arms: []ref.Arm{{Cond: e, Body: []ref.Node{ref.Text("yes")}}}, HasElse: true, Else: []ref.Node{ref.Text("no")}}}, nil)
			})
		}
	}
	for n := 1; n <= g.Pick(17, 40) && !g.Stopped(); n++ {
		decided(n, "&&")
		decided(n, "||")
	}
	for _, n := range limits(g.Pick(17, 40), 257) {
		decided(n, "&&")
		decided(n, "||")
	}
	// nested to the right in parentheses, and redundant parentheses
	edges(g, g.Pick(40, 150), 257, func(t *kit.T, n int) {
		var e ref.Expr = i(n)
		for k := n - 1; k >= 0; k-- {
			e = ref.Bin{Op: []string{"-", "+"}[k%2], L: i(k), R: ref.Paren{X: e}}
		}
		agree(t, env, set(e), vals)
	})
	edges(g, g.Pick(40, 150), 257, func(t *kit.T, n int) {
		var e ref.Expr = ref.Bin{Op: "-", L: i(0), R: i(1)}
		for k := 0; k < n; k++ {
			e = ref.Paren{X: e}
		}
		agree(t, env, set(ref.Bin{Op: "*", L: ref.Lit{V: 3}, R: ref.Paren{X: e}}), vals)
	})
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c06Sizes(g *kit.G) {
	upto := g.Pick(68, 140)
	ns := limits(upto, 257)
	for n := 1; n <= upto; n++ {
		ns = append(ns, n)
	}
	for _, n := range ns {
		env := &ref.Env{Vars: []ref.Var{{Name: "k", Val: 0}}, Funcs: map[string]interface{}{"is": func(k, i int) bool { trace("is %d", i); return k == i || k == i-3 }}}
		for _, form := range []int{0, 1, 2} {
			for _, els := range []bool{false, true} {
				n, form, els := n, form, els
				g.Do(func(t *kit.T) {
					chain := ref.If{HasElse: els}
					if els {
						chain.Else = []ref.Node{ref.Text("else")}
					}
					for i := 0; i < n; i++ {
						var c ref.Expr = &ref.Path{Root: "is", Call: true, Args: []ref.Expr{ref.V("k"), ref.Lit{V: i}}}
						if form == 1 || form == 2 && i%2 == 0 {
							c = ref.Bin{Op: "==", L: ref.V("k"), R: ref.Lit{V: i}}
						}
						chain.Arms = append(chain.Arms, ref.Arm{Cond: c, Body: []ref.Node{ref.Text(fmt.Sprintf("arm %d", i))}})
					}
					var sets [][]interface{}
					for k := -4; k <= n; k += 1 + n/150 {
						sets = append(sets, []interface{}{k})
					}
					agree(t, env, []ref.Node{ref.Text("<"), chain, ref.Text(">")}, sets)
				})
			}
		}
	}
	// chains nested n deep
	env := &ref.Env{Vars: []ref.Var{{Name: "k", Val: 0}}}
	edges(g, g.Pick(60, 200), 513, func(t *kit.T, n int) {
		nodes := []ref.Node{ref.Text("in")}
		for d := n; d > 0; d-- {
			i := ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: ">=", L: ref.V("k"), R: ref.Lit{V: d}}, Body: append(nodes, ref.Text(fmt.Sprint(";", d)))}}}
			if d%2 == 0 {
				i.HasElse, i.Else = true, []ref.Node{ref.Text(fmt.Sprint("else", d))}
			}
			nodes = []ref.Node{i}
		}
		var sets [][]interface{}
		for k := 0; k <= n; k += 1 + n/7 {
			sets = append(sets, []interface{}{k}, []interface{}{n - k})
		}
		agree(t, env, nodes, sets)
	})
}

// c07Sizes: slices of every length, and ranges.
func c07Sizes(g *kit.G) {
	for _, elems := range [][]interface{}{{3, -1, 0}, {"a", "", "<>"}, {int8(1), int8(-2), int8(3)}, {true, false, true}, {c07Item{A: "x", N: 1}, c07Item{}, c07Item{A: "z"}}, {&c07Item{A: "x"}, nil, &c07Item{A: "z"}}, {"", 1, nil}} {
		rt := typeOfElems(elems)
		look := ref.Node(ref.Out{P: ref.V("x")})
		switch elems[0].(type) {
		case c07Item, *c07Item:
			look = ref.Out{P: path("x", ref.Field("A"))}
		}
		env := &ref.Env{Vars: []ref.Var{{Name: "v", Val: sliceOf(rt, nil)}, {Name: "n", Val: 0}}}
		grid(g, g.Pick(1100, 4000), g.Pick(4096, 1<<17), func(t *kit.T, n int) {
			var all []interface{}
			for i := 0; i < n; i++ {
				all = append(all, elems[(i+i/7)%3])
			}
			agree(t, env, []ref.Node{ref.Foreach{Item: "x", Over: ref.V("v"), Body: []ref.Node{look, ref.Text(";"), ref.Set{Target: ref.V("n"), Val: ref.Bin{Op: "+", L: ref.V("n"), R: ref.Lit{V: 1}}}}}, ref.Out{P: ref.V("n")}}, [][]interface{}{{sliceOf(rt, all), 0}})
		})
	}
	env := &ref.Env{}
	grid(g, g.Pick(1100, 3000), g.Pick(1<<16, 1<<19), func(t *kit.T, n int) {
		body := []ref.Node{ref.Out{P: ref.V("i")}, ref.Text(",")}
		agree(t, env, []ref.Node{ref.Foreach{Item: "i", Over: ref.Range{A: 0, B: n}, Body: body}}, nil)
		agree(t, env, []ref.Node{ref.Foreach{Item: "i", Over: ref.Range{A: 5, B: 5 - n}, Body: body}}, nil)
		agree(t, env, []ref.Node{ref.Foreach{Item: "i", Over: ref.Range{A: -n, B: -n + 3}, Body: body}, ref.Foreach{Item: "i", Over: ref.Range{A: n + 2, B: n}, Body: body}}, nil)
	})
	// loops nested n deep
	envL := &ref.Env{Vars: []ref.Var{{Name: "one", Val: []int{5}}, {Name: "two", Val: []string{"a", "b"}}}}
	for _, n := range []int{100000, 100001, 1000000, 1000001, 1 << 20, 1<<20 + 1} {
		n := n
		g.Do(func(t *kit.T) { manyLoops(t, "#foreach($k in [0...$n])", n) })
		g.Do(func(t *kit.T) { manyLoops(t, "#foreach($k in $l)", n) })
	}
	edges(g, g.Pick(24, 60), 129, func(t *kit.T, n int) {
		nodes := []ref.Node{ref.Text(".")}
		for d := n; d > 0; d-- {
			over := "one"
			if d%6 == 1 && d < 40 {
				over = "two"
			}
			x := fmt.Sprintf("x%d", d)
			nodes = []ref.Node{ref.Foreach{Item: x, Over: ref.V(over), Body: append(nodes, ref.Out{P: ref.V(x)}, ref.Text(" "))}}
		}
		agree(t, envL, nodes, nil)
	})
}

// manyLoops counts and adds up the iterations of a loop, more of them than the model follows.
func manyLoops(t *kit.T, head string, n int) {
	env := &ref.Env{Vars: []ref.Var{{Name: "n", Val: 0}, {Name: "l", Val: []int{}}, {Name: "count", Val: 0}, {Name: "sum", Val: 0}}}
	from, list := 0, []int(nil)
	if strings.Contains(head, "$l") {
		for i := 0; i < n; i++ {
			list = append(list, i)
		}
	} else if strings.Contains(head, "--") {
		from = 1
	}
	sum := 0
	for i := 0; i < n; i++ {
		sum += i + from
	}
	src := strings.Replace(head, "...$n", fmt.Sprintf("...%d", n), 1) + "#set($count = $count + 1)#set($sum = $sum + $k)#end$count $sum"
	t.Start(fmt.Sprintf("%v with n = %v", src, n))
	pl, err, panicked := compileReal(env, src)
	if err != nil || panicked != "" {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	got, panicked := pl.run([]interface{}{n, list, 0, 0})
	t.Exec(1)
	t.Nontrivial()
	if want := fmt.Sprint(n, sum); got.Out != want || got.Err != "" || panicked != "" {
		t.Failf("got %v %v, want %q", got, panicked, want)
	}
}

func c08Sizes(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "to", Val: 0}}}
	for _, post := range []struct {
		op string
		n  ref.Expr
		up bool
	}{{"++", nil, true}, {"--", nil, false}, {"+=", ref.Lit{V: 1}, true}, {"-=", ref.Lit{V: 3}, false}} {
		post := post
		grid(g, g.Pick(1100, 4000), g.Pick(1<<12, 1<<16), func(t *kit.T, n int) {
			f := ref.For{Var: "i", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("i"), R: ref.V("to")}, Post: post.op, PostN: post.n, Body: []ref.Node{ref.Out{P: ref.V("i")}, ref.Text(",")}}
			to := n
			if !post.up {
				f.Cond = ref.Bin{Op: ">", L: ref.V("i"), R: ref.V("to")}
				to = -n
			}
			agree(t, env, []ref.Node{f, ref.Text("|"), ref.Out{P: ref.V("i")}}, [][]interface{}{{to}})
		})
	}
	for _, n := range []int{10000, 10001, 65535, 65536, 65537, 100000, 100001, 1000000, 1000001, 1 << 20, 1<<20 + 1} {
		n := n
		g.Do(func(t *kit.T) { manyLoops(t, "#for($k = 0; $k < $n; $k++)", n) })
		g.Do(func(t *kit.T) { manyLoops(t, "#for($k = $n; $k > 0; $k--)", n) })
	}
	edges(g, g.Pick(24, 60), 129, func(t *kit.T, n int) {
		nodes := []ref.Node{ref.Text(".")}
		for d := n; d > 0; d-- {
			x := fmt.Sprintf("x%d", d)
			to := 1
			if d%6 == 1 && d < 40 {
				to = 2
			}
			nodes = []ref.Node{ref.For{Var: x, From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V(x), R: ref.Lit{V: to}}, Post: "++", Body: append(nodes, ref.Out{P: ref.V(x)}, ref.Text(" "))}}
		}
		agree(t, env, nodes, nil)
	})
}

// c10Sizes: n variables of mixed kinds assigned by one template, read in order and backwards, then assigned again.
func c10Sizes(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "s", Val: "v"}, {Name: "one", Val: 1}}}
	val := func(i int, again bool) ref.Expr {
		k := i
		if again {
			k += 1000
		}
		switch i % 5 {
		case 0:
			return ref.Lit{V: k}
		case 1:
			return ref.Lit{V: fmt.Sprint("s", k)}
		case 2:
			return ref.Lit{V: float64(k) + 0.5}
		case 3:
			return ref.Bin{Op: "==", L: ref.Lit{V: k % 4}, R: ref.V("one")}
		}
		return ref.Bin{Op: "+", L: ref.V("one"), R: ref.Lit{V: k}}
	}
	sizes(g, g.Pick(270, 520), func(t *kit.T, n int) {
		var nodes []ref.Node
		name := func(i int) *ref.Path { return &ref.Path{Root: fmt.Sprint("v", i), Braced: true} }
		show := func(i int) { nodes = append(nodes, ref.Out{P: name(i)}, ref.Text(" ")) }
		for i := 0; i < n; i++ {
			nodes = append(nodes, ref.Set{Target: ref.V(fmt.Sprint("v", i)), Val: val(i, false)})
		}
		for i := 0; i < n; i++ {
			show(i)
		}
		for i := 0; i < n; i += 2 {
			nodes = append(nodes, ref.Set{Target: ref.V(fmt.Sprint("v", i)), Val: val(i, true)})
		}
		for i := n - 1; i >= 0; i-- {
			show(i)
		}
		agree(t, env, nodes, nil)
	})
	grid(g, g.Pick(2100, 9000), 1<<15, func(t *kit.T, n int) { // long strings, copied and joined
		txt := strings.NewReplacer("\"", "'", "$", "-").Replace(sizedText(n))
		agree(t, env, []ref.Node{ref.Set{Target: ref.V("a"), Val: ref.Lit{V: txt}}, ref.Set{Target: ref.V("b"), Val: ref.V("a")}, ref.Set{Target: ref.V("a"), Val: ref.Bin{Op: "+", L: ref.V("b"), R: ref.V("s")}},
			ref.Out{P: ref.V("a")}, ref.Text("|"), ref.Out{P: ref.V("b")}, ref.Text("|"), ref.Set{Target: ref.V("s"), Val: ref.V("a")}, ref.Out{P: ref.V("s")}}, [][]interface{}{{txt, 1}, {"", 1}})
	})
}

// c17Sizes: texts of every length, n sites, and n texts evaluated in a row.
func c17Sizes(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "text", Val: ""}, {Name: "x", Val: 1}, {Name: "list", Val: []string{}}}}
	c17Deep(g)
	for _, pre := range []string{"", "$x", "#if($x > 0)", "#set($y = $x + 1)$y "} {
		pre := pre
		grid(g, g.Pick(2100, 9000), 1<<15, func(t *kit.T, n int) {
			body := strings.NewReplacer("$", "-").Replace(sizedText(n))
			if pre == "$x" {
				body = " " + body
			}
			src := pre + body
			if strings.HasPrefix(pre, "#if") {
				src += "#end"
			}
			want := map[string]string{"$x": "7", "#set($y = $x + 1)$y ": "8 "}[pre] + body
			evalCase(t, env, "<#evaluate($text)>", []interface{}{src, 7, []string{}}, "<"+want+">")
		})
	}
	edges(g, g.Pick(60, 200), 257, func(t *kit.T, n int) {
		src, want := "", ""
		for i := 0; i < n; i++ {
			src += fmt.Sprintf("#evaluate(\"$x%d;\")#set($x%d = %d)#evaluate(\"$x%d;\") ", i, i, i*3, i)
			want += fmt.Sprintf("$x%d;%d; ", i, i*3)
		}
		evalCase(t, env, src, []interface{}{"", 7, []string{}}, want)
	})
	edges(g, g.Pick(120, 600), 1025, func(t *kit.T, n int) {
		var list []string
		want := ""
		for i := 0; i < n; i++ {
			k := i * 5 % (n/2 + 1)
			list = append(list, fmt.Sprintf("#set($q = %d)$q/$x", k))
			want += fmt.Sprintf("%d/7,", k)
		}
		evalCase(t, env, "#foreach($l in $list)#evaluate($l),#end", []interface{}{"", 7, list}, want)
	})
}

// c17Deep: a text that evaluates the next one, n levels deep.
func c17Deep(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "at", Val: 0}, {Name: "l", Val: []string{}}, {Name: "x", Val: 0}, {Name: "text", Val: ""}}}
	for _, forms := range [][3]string{{"a$x#set($at = $at + 1)#evaluate($l[$at])b", "(%d)$at", "a7"}, {"#if($x > 0)a#set($at = $at + 1)#evaluate($l[$at])b#end", "(%d)$at", "a"}} {
		forms := forms
		edges(g, g.Pick(40, 150), g.Pick(257, 513), func(t *kit.T, n int) {
			var list []string
			for i := 0; i < n; i++ {
				list = append(list, forms[0])
			}
			list = append(list, fmt.Sprintf(forms[1], n))
			want := strings.Repeat(forms[2], n) + fmt.Sprintf("(%d)%d", n, n) + strings.Repeat("b", n)
			evalCase(t, env, "#evaluate($l[$at])", []interface{}{0, list, 7, ""}, want)
		})
	}
	// a text that evaluates itself until the counter says stop
	edges(g, g.Pick(40, 150), g.Pick(257, 513), func(t *kit.T, n int) {
		evalCase(t, env, "#evaluate($text)", []interface{}{0, []string{}, n, "#if($at < $x)#set($at = $at + 1)$at,#evaluate($text);#end"}, countTo(n)+strings.Repeat(";", n))
	})
}

func countTo(n int) string {
	s := ""
	for i := 1; i <= n; i++ {
		s += fmt.Sprint(i, ",")
	}
	return s
}

func evalCase(t *kit.T, env *ref.Env, src string, vals []interface{}, want string) {
	t.Start(fmt.Sprintf("%s with %.60q", src, vals[0]))
	pl, err, panicked := compileReal(env, src)
	if err != nil || panicked != "" {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	got, panicked := pl.run(vals)
	t.Exec(1)
	t.Nontrivial()
	t.State(want)
	if got.Out != want || got.Err != "" || panicked != "" {
		t.Failf("got %v %v, want %q", got, panicked, want)
	}
}

// c23Sizes: strings of every length with a special character at every place of the short ones.
func c23Sizes(g *kit.G, escape bool) {
	env := &ref.Env{Escape: escape, Vars: []ref.Var{{Name: "s", Val: ""}, {Name: "list", Val: []string{}}, {Name: "any", Type: anyT}}}
	nodes := []ref.Node{ref.Text("<"), ref.Out{P: ref.V("s")}, ref.Text(">"), ref.Foreach{Item: "i", Over: ref.V("list"), Body: []ref.Node{ref.Out{P: ref.V("i")}}}, ref.Text("|"), ref.Out{P: ref.V("any")}}
	of := func(s string) []interface{} { return []interface{}{s, []string{s, s}, s} }
	sizes(g, g.Pick(140, 300), func(t *kit.T, n int) {
		var sets [][]interface{}
		plain := strings.Repeat("x", n)
		sets = append(sets, of(plain))
		for at := 0; at < n; at++ {
			for _, c := range []string{"<", ">", "&", "\"", "'"} {
				sets = append(sets, of(plain[:at]+c+plain[at+1:]))
			}
		}
		agree(t, env, nodes, sets)
	})
	grid(g, g.Pick(4200, 20000), 1<<17, func(t *kit.T, n int) {
		agree(t, env, nodes, [][]interface{}{of(sizedText(n)), of(strings.Repeat("&", n)), of(strings.Repeat("x", n) + "<")})
	})
}

// typeOfElems is the type all elements have, or interface{}.
func typeOfElems(elems []interface{}) reflect.Type {
	rt := reflect.TypeOf(elems[0])
	for _, e := range elems {
		if e != nil && reflect.TypeOf(e) != rt {
			return anyT
		}
	}
	return rt
}

// lookAlikes are the distinct names that differ from a name by the case of letters or by a character at an end.
func lookAlikes(name string) []string {
	seen := map[string]bool{}
	var res []string
	add := func(s string) {
		if s != "" && !seen[s] && s[0] != '_' && (s[0] < '0' || s[0] > '9') {
			seen[s] = true
			res = append(res, s)
		}
	}
	add(name)
	for mask := 0; mask < 1<<uint(len(name)); mask++ {
		b := []byte(strings.ToLower(name))
		for i := range b {
			if mask>>uint(i)&1 == 1 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		add(string(b))
	}
	for _, s := range []string{name + "1", name + "_", name + name, name + "s", name[:len(name)-1], name[1:], "x" + name, "X" + name, name + "_1", strings.ReplaceAll(name, "_", ""), strings.ReplaceAll(name, "_", "__")} {
		add(s)
	}
	return res
}

// c13Aliases: names that look alike, as aliases of one variable and as separate variables.
func c13Aliases(g *kit.G) {
	for _, base := range []string{"foo", "Foo", "x", "X", "a_b", "v1", "Ab_Cd"} {
		names := lookAlikes(base)
		if len(base) > 3 && !g.Thorough() {
			names = names[:12]
		}
		for i, a := range names {
			for j, b := range names {
				if i == j {
					continue
				}
				for _, types := range [][2]interface{}{{1, "one"}, {int8(2), 2.5}} {
					a, b, types := a, b, types
					third := names[(i+j+1)%len(names)]
					g.Do(func(t *kit.T) { // two variables
						env := &ref.Env{Vars: []ref.Var{{Name: a, Val: types[0]}, {Name: b, Val: types[1]}}}
						agree(t, env, []ref.Node{out(a), ref.Text(" "), out(b), ref.Text(" "), set("q", ref.V(a)), set(b, ref.V(b)), out("q"), ref.Text(" "), out(b), ref.Text(" "), out(a)}, [][]interface{}{{types[0], types[1]}})
					})
					g.Do(func(t *kit.T) { // one variable of two or three names
						v := ref.Var{Name: a, Val: types[0], Aliases: []string{b}}
						nodes := []ref.Node{out(a), ref.Text(" "), out(b)}
						if third != a && third != b {
							v.Aliases = append(v.Aliases, third)
							nodes = append(nodes, ref.Text(" "), out(third))
						}
						env := &ref.Env{Vars: []ref.Var{{Name: "before", Val: "b"}, v, {Name: "after", Val: 0.5}}}
						agree(t, env, append(nodes, ref.Text(" "), out("before"), ref.Text(" "), out("after")), [][]interface{}{{"B", types[0], 1.5}})
					})
				}
			}
		}
	}
}

// c18Alikes: pairs of texts that differ in one respect, evaluated at one site one after the other and again.
func c18Alikes(g *kit.G) {
	long := "$x" + sizedText(300)
	var texts []string
	for _, base := range []string{"$x", "a", "", "$x $n", "#if($n > 1)y#end", long} {
		for _, s := range []string{base, base + "\n", base + "\r\n", base + " ", " " + base, "\n" + base, "\t" + base, base + base, base + "\x00", strings.ToUpper(base), strings.ReplaceAll(base, " ", "  "), base + ";", ";" + base, base + "#", "#" + base, base + "1", strings.Replace(base, "x", "n", 1), strings.Replace(base, "a", "b", 1), strings.Replace(base, "y", "z", 1), "\"" + base + "\"", "(" + base + ")", base + ".", "${n}" + base} {
			texts = append(texts, s)
		}
	}
	for cut := 1; cut < len(long); cut += 13 {
		texts = append(texts, long[:cut]+"~"+long[cut+1:], long[:cut+1])
	}
	seen := map[string]bool{}
	uniq := texts[:0]
	for _, s := range texts {
		if !seen[s] {
			seen[s] = true
			uniq = append(uniq, s)
		}
	}
	env := &ref.Env{Vars: []ref.Var{{Name: "list", Val: []string{}}, {Name: "x", Val: 1}, {Name: "n", Val: 2}}}
	single := map[string]ref.Outcome{}
	want := func(s string) ref.Outcome {
		if o, ok := single[s]; ok {
			return o
		}
		pl, err, p := compileReal(env, "#foreach($l in $list)#evaluate($l)#end", velty.CacheSize(0))
		if err != nil || p != "" {
			return ref.Outcome{Err: fmt.Sprint(err, p)}
		}
		o, p := pl.run([]interface{}{[]string{s}, 7, 8})
		if p != "" {
			o.Err = p
		}
		single[s] = o
		return o
	}
	for i, a := range uniq {
		for j, b := range uniq {
			if i == j || !g.Thorough() && len(a) > 100 && len(b) > 100 && (i+j)%5 > 0 {
				continue
			}
			a, b := a, b
			for _, size := range []int{1, 2, 5} {
				size := size
				g.Do(func(t *kit.T) {
					t.Start(fmt.Sprintf("cache %d: %q and %q", size, a, b))
					pl, err, p := compileReal(env, "#foreach($l in $list)#evaluate($l)\x01#end", velty.CacheSize(size))
					if err != nil || p != "" {
						t.Failf("%v %v", err, p)
						return
					}
					for _, list := range [][]string{{a, b, a}, {b, b, a}} {
						w := ""
						for _, s := range list {
							o := want(s)
							if w += o.Out + "\x01"; o.Err != "" {
								return
							}
						}
						got, p := pl.run([]interface{}{list, 7, 8})
						t.Exec(1)
						t.State(w)
						t.Nontrivial()
						if got.Out != w || got.Err != "" || p != "" {
							t.Failf("%q: got %v %v, want %q", list, got, p, w)
							return
						}
					}
				})
			}
		}
		if g.Stopped() {
			return
		}
	}
}
