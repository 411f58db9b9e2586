package checks

import (
	"fmt"
	"math"
	"reflect"

	"verifmc/kit"
	"verifmc/ref"
)

type c06Struct struct{ A int }

var c06Values = []interface{}{
	[]interface{}{false, true},
	[]interface{}{0, 1, -1, 2, 256, 1 << 32, -1 << 63},
	[]interface{}{int8(0), int8(1), int8(-128)},
	[]interface{}{int16(0), int16(1), int16(256), int16(-1)},
	[]interface{}{int32(0), int32(1), int32(1 << 16), int32(-1 << 31)},
	[]interface{}{int64(0), int64(1), int64(1 << 32), int64(-1 << 63)},
	[]interface{}{uint(0), uint(1), uint(1 << 63)},
	[]interface{}{uint8(0), uint8(1), uint8(255)},
	[]interface{}{uint16(0), uint16(1), uint16(1 << 15)},
	[]interface{}{uint32(0), uint32(1), uint32(1 << 31)},
	[]interface{}{uint64(0), uint64(1), uint64(1 << 40)},
	[]interface{}{float32(0), float32(0.5), float32(-1), float32(1e-40), float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(1)},
	[]interface{}{0.0, 0.5, -0.25, 1e300, 5e-324, math.Copysign(0, -1), math.Inf(-1), float64(1 << 32), -1.0},
	[]interface{}{"", "a", "false", "0", " ", "\x00", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "abc"[1:1]},
	[]interface{}{[]int(nil), []int{}, []int{0}, []int{1, 2}, make([]int, 0, 3), []int{5, 6}[:0], []int{5, 6}[2:]},
	[]interface{}{[]string(nil), []string{}, []string{""}, make([]string, 0, 1)},
	[]interface{}{[]c06Struct(nil), []c06Struct{{}}, make([]c06Struct, 0, 2)},
	[]interface{}{[]*c06Struct(nil), []*c06Struct{nil}, make([]*c06Struct, 0, 2)},
	[]interface{}{[][]int(nil), [][]int{nil}, make([][]int, 0, 2)},
	[]interface{}{[]interface{}(nil), []interface{}{nil}, make([]interface{}, 0, 2)},
	[]interface{}{(*c06Struct)(nil), &c06Struct{}},
}

func c06Shapes(c func() ref.Expr) [][]ref.Node {
	T, F := []ref.Node{ref.Text("T")}, []ref.Node{ref.Text("F")}
	no := ref.V("no")
	return [][]ref.Node{
		{ref.If{Arms: []ref.Arm{{Cond: c(), Body: T}}, HasElse: true, Else: F}},
		{ref.If{Arms: []ref.Arm{{Cond: c(), Body: T}}}},
		{ref.If{Arms: []ref.Arm{{Cond: no, Body: []ref.Node{ref.Text("N")}}, {Cond: c(), Body: T}}, HasElse: true, Else: F}},
		{ref.If{Arms: []ref.Arm{{Cond: c(), Body: T}, {Cond: c(), Body: []ref.Node{ref.Text("2")}}, {Cond: no, Body: T}}, HasElse: true, Else: F}},
		{ref.If{Arms: []ref.Arm{{Cond: ref.V("yes"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: c(), Body: T}}, HasElse: true, Else: F}, ref.Text(".")}}}, HasElse: true, Else: []ref.Node{ref.Text("E")}}},
		{ref.If{Arms: []ref.Arm{{Cond: ref.Paren{X: c()}, Body: T}}, HasElse: true, Else: F}},
	}
}

func init() {
	register(&kit.Check{
		Property: "C06",
		Level:    "model_checking",
		Rule:     "every condition kind x source x value x chain shape, every chain up to the bound over all truth assignments with recorded evaluations, every nesting up to the bound; non-trivial = a branch rendered something",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("21 condition types x 18 sources x boundary values x 6 shapes; chains of up to %d arms of 8 condition forms over probe functions, with and without else, over all truth assignments, in 4 positions; nested chains of up to 3 arms with 5 body forms two levels deep", map[kit.Tier]int{kit.Quick: 4, kit.Thorough: 5}[t])
		},
		Assumptions: []string{"conditions on maps, interfaces and pointers to basic values are not defined", "probe functions observe evaluation"},
		Parts: []kit.Part{
			interplayPart("C06"),
			{Name: "sizes", Gen: c06Sizes},
			{Name: "kinds", Gen: func(g *kit.G) {
				for _, vs := range c06Values {
					vals := vs.([]interface{})
					pe := newPlaces(reflect.TypeOf(vals[0]))
					pe.more("no", false)
					pe.more("yes", true)
					for _, pl := range pe.places {
						for si := range c06Shapes(func() ref.Expr { return nil }) {
							pl, si := pl, si
							g.Do(func(t *kit.T) {
								agree(t, pe.env, pl.wrap(c06Shapes(func() ref.Expr { return pl.expr() })[si]), pe.sets(vals))
							})
						}
					}
				}
			}},
			{Name: "literals", Gen: func(g *kit.G) {
				env := &ref.Env{Vars: []ref.Var{{Name: "no", Val: false}, {Name: "yes", Val: true}, {Name: "i", Val: 0}, {Name: "f", Val: 0.0}, {Name: "s", Val: ""}}}
				i, f, s, y, n := ref.V("i"), ref.V("f"), ref.V("s"), ref.V("yes"), ref.V("no")
				lit := func(v interface{}) ref.Expr { return ref.Lit{V: v} }
				conds := []ref.Expr{lit(true), lit(false), lit(0), lit(1), lit(-2), lit(0.0), lit(0.5), lit(""), lit("a"), lit("false"),
					ref.Not{X: y}, ref.Not{X: n}, ref.Bin{Op: "+", L: i, R: lit(1)}, ref.Bin{Op: "-", L: i, R: lit(1)}, ref.Bin{Op: "*", L: f, R: lit(2)},
					ref.Bin{Op: "+", L: s, R: lit("")}, ref.Bin{Op: "+", L: s, R: lit("x")}, ref.Bin{Op: "==", L: i, R: lit(0)}, ref.Bin{Op: ">", L: f, R: i},
					ref.Bin{Op: "&&", L: y, R: n}, ref.Bin{Op: "||", L: n, R: y}, ref.Bin{Op: "==", L: s, R: lit("a")}, ref.Bin{Op: "!=", L: s, R: lit("a")},
					ref.Bin{Op: "&&", L: ref.Bin{Op: ">", L: i, R: lit(0)}, R: ref.Bin{Op: "<", L: i, R: lit(5)}}}
				for _, c := range conds {
					for _, d := range append([]ref.Expr{nil}, conds...) {
						for si := range c06Shapes(func() ref.Expr { return nil }) {
							c, d, si := c, d, si
							if d != nil && si > 0 {
								continue
							}
							g.Do(func(t *kit.T) {
								nodes := c06Shapes(func() ref.Expr { return c })[si]
								if d != nil {
									nodes = []ref.Node{ref.If{Arms: []ref.Arm{{Cond: c, Body: []ref.Node{ref.Text("1")}}, {Cond: d, Body: []ref.Node{ref.Text("2")}}}, HasElse: true, Else: []ref.Node{ref.Text("3")}}}
								}
								agree(t, env, nodes, [][]interface{}{{false, true, 0, 0.0, ""}, {false, true, 1, 2.5, "a"}, {false, true, 3, -0.5, "b"}, {false, true, -1, 0.0, "a"}})
							})
						}
					}
				}
			}},
			{Name: "chains", Gen: c06GenChains},
			{Name: "nested", Gen: c06GenNested},
		},
	})
}

// c06GenChains: arms use probe functions so that the evaluations are seen.
func c06GenChains(g *kit.G) {
	env := &ref.Env{Funcs: map[string]interface{}{
		"probeB": func(i int, b bool) bool { trace("probeB %d", i); return b },
		"probeI": func(i int, v int) int { trace("probeI %d", i); return v },
		"probeS": func(i int, v string) string { trace("probeS %d", i); return v },
	}}
	max := g.Pick(4, 5)
	for i := 0; i < 5; i++ {
		env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("b%d", i), Val: false}, ref.Var{Name: fmt.Sprintf("n%d", i), Val: 0}, ref.Var{Name: fmt.Sprintf("s%d", i), Val: ""})
	}
	env.Vars = append(env.Vars, ref.Var{Name: "list", Val: []int{1, 2}}, ref.Var{Name: "k", Val: 0})
	call := func(name string, i int, v string) ref.Expr {
		return &ref.Path{Root: name, Call: true, Args: []ref.Expr{ref.Lit{V: i}, ref.V(fmt.Sprintf("%s%d", v, i))}}
	}
	cond := func(form, i int) ref.Expr {
		switch form {
		case 0:
			return call("probeB", i, "b")
		case 1:
			return ref.Bin{Op: "==", L: call("probeI", i, "n"), R: ref.Lit{V: 1}}
		case 2:
			return call("probeI", i, "n")
		case 3:
			return call("probeS", i, "s")
		case 4:
			return ref.Not{X: ref.Paren{X: ref.Bin{Op: "==", L: call("probeI", i, "n"), R: ref.Lit{V: 0}}}}
		case 5:
			return ref.V(fmt.Sprintf("b%d", i))
		case 6:
			return ref.Paren{X: ref.Bin{Op: ">", L: ref.V(fmt.Sprintf("n%d", i)), R: ref.Lit{V: 0}}}
		}
		return ref.Bin{Op: "!=", L: ref.V(fmt.Sprintf("s%d", i)), R: ref.Lit{V: ""}}
	}
	for n := 1; n <= max; n++ {
		var sets [][]interface{}
		for mask := 0; mask < 1<<n; mask++ {
			var vals []interface{}
			for i := 0; i < 5; i++ {
				if mask>>i&1 == 1 {
					vals = append(vals, true, 1, "y")
				} else {
					vals = append(vals, false, 0, "")
				}
			}
			sets = append(sets, append(vals, []int{1, 2}, 0))
		}
		forms := make([]int, n)
		for {
			for els := 0; els < 3; els++ {
				for pos := 0; pos < 4; pos++ {
					if n == max && pos > 1 && !g.Thorough() {
						continue
					}
					fs := append([]int{}, forms...)
					els, pos, n := els, pos, n
					g.Do(func(t *kit.T) {
						c := ref.If{HasElse: els > 0}
						for i := 0; i < n; i++ {
							c.Arms = append(c.Arms, ref.Arm{Cond: cond(fs[i], i), Body: []ref.Node{ref.Text(string(rune('A' + i)))}})
						}
						if els == 1 {
							c.Else = []ref.Node{ref.Text("E")}
						}
						nodes := []ref.Node{c}
						switch pos {
						case 1:
							nodes = []ref.Node{ref.Text("<"), c, ref.Text(">"), c}
						case 2:
							nodes = []ref.Node{ref.Foreach{Item: "x", Over: ref.V("list"), Body: []ref.Node{c, ref.Out{P: ref.V("x")}}}}
						case 3:
							nodes = []ref.Node{ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.Lit{V: 2}}, Post: "++", Body: []ref.Node{ref.Text(","), c}}}
						}
						agree(t, env, nodes, sets)
					})
				}
			}
			if !next(forms, 8) {
				break
			}
		}
	}
}

// c06GenNested: chains in the bodies of chains.
func c06GenNested(g *kit.G) {
	env := &ref.Env{}
	for i := 0; i < 6; i++ {
		env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("b%d", i), Val: false})
	}
	var sets [][]interface{}
	for mask := 0; mask < 64; mask++ {
		var vals []interface{}
		for i := 0; i < 6; i++ {
			vals = append(vals, mask>>i&1 == 1)
		}
		sets = append(sets, vals)
	}
	// body forms of the inner level
	inner := func(form, cell int) []ref.Node {
		b := ref.V(fmt.Sprintf("b%d", 3+cell%3))
		c := ref.V(fmt.Sprintf("b%d", 3+(cell+1)%3))
		t := func(s string) []ref.Node { return []ref.Node{ref.Text(fmt.Sprintf("%s%d", s, cell))} }
		switch form {
		case 0:
			return t("t")
		case 1:
			return nil
		case 2:
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: b, Body: t("x")}}}}
		case 3:
			return []ref.Node{ref.Text("("), ref.If{Arms: []ref.Arm{{Cond: b, Body: t("x")}}, HasElse: true, Else: t("y")}, ref.Text(")")}
		case 4:
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: b, Body: t("x")}, {Cond: c, Body: t("z")}}, HasElse: true, Else: t("y")}}
		case 5:
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: b, Body: t("x")}, {Cond: c}}}, ref.Text("|"), ref.If{Arms: []ref.Arm{{Cond: c, Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: b, Body: t("w")}}, HasElse: true, Else: t("v")}}}}}}
		}
		return []ref.Node{ref.Set{Target: ref.V(fmt.Sprintf("b%d", cell)), Val: ref.Lit{V: false}}, ref.If{Arms: []ref.Arm{{Cond: ref.V(fmt.Sprintf("b%d", cell)), Body: t("bad")}}, HasElse: true, Else: t("ok")}}
	}
	for arms := 1; arms <= 3; arms++ {
		forms := make([]int, arms+1)
		for {
			for els := 0; els < 2; els++ {
				if els == 0 && forms[arms] > 0 {
					continue
				}
				fs := append([]int{}, forms...)
				arms, els := arms, els
				g.Do(func(t *kit.T) {
					c := ref.If{HasElse: els == 1}
					for i := 0; i < arms; i++ {
						c.Arms = append(c.Arms, ref.Arm{Cond: ref.V(fmt.Sprintf("b%d", i)), Body: inner(fs[i], i%3)})
					}
					if els == 1 {
						c.Else = inner(fs[arms], 2)
					}
					agree(t, env, []ref.Node{c, ref.Text("!"), ref.Out{P: ref.V("b0")}}, sets)
				})
			}
			if !next(forms, 7) {
				break
			}
		}
	}
}
