package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

// Parts "interplay": all short programs over one alphabet of statements that read and write the same few variables, objects and
// slices and call functions whose results depend on how often functions were called before. Nothing is read in between, so that
// whatever reorders, merges, drops, hoists or repeats steps of a program that only look alike, independent or dead shows.

type ipObj struct {
	N int
	S string
	Q *ipIn
	L []int
}
type ipIn struct{ V int }

func (o *ipObj) Next() int      { trace("next of %d", o.N); o.N = (o.N + 1) % 3; return o.N }
func (o *ipObj) Has(i int) bool { trace("has %d %d", o.N, i); return o.N >= i }
func (o *ipObj) Self() *ipObj   { trace("self"); return o }
func (o ipObj) Copy() ipObj     { trace("copy"); return o }

var ipEnv = &ref.Env{
	Vars: []ref.Var{{Name: "i", Val: 0}, {Name: "j", Val: 0}, {Name: "l", Val: []int{}}, {Name: "m", Val: []int{}}, {Name: "p", Val: &ipObj{}}, {Name: "q", Val: &ipObj{}},
		{Name: "v", Val: ipObj{}}, {Name: "w", Val: ipObj{}}, {Name: "s", Val: ""}, {Name: "b", Val: false}, {Name: "mask", Val: 0}, {Name: "text", Val: ""}, {Name: "any", Type: anyT}, {Name: "byI", Val: map[int]string{}}, {Name: "byS", Val: map[string]int{}}, {Name: "f", Val: 0.5}, {Name: "r", Val: &ipObj{}}, {Name: "none", Val: &ipObj{}}, {Name: "z", Val: 0}},
	Funcs: map[string]interface{}{
		"inc":  func(i int) int { trace("inc %d", i); return ((i+1)%3 + 3) % 3 },
		"next": func() int { trace("next"); return len(traced) % 3 },
		"at": func(mask int) bool {
			trace("at %d", mask)
			return mask>>uint(len(traced)-1)&1 == 1
		},
		"fail": func(i int) (int, error) {
			trace("fail %d", i)
			if i == 2 {
				return 5, fmt.Errorf("failed after %d calls", len(traced))
			}
			return i, nil
		},
	},
	Evals: map[string][]ref.Node{},
}

func ipVals(k int) []interface{} {
	obj := func(n int) *ipObj {
		return &ipObj{N: n, S: fmt.Sprint("o", n), Q: &ipIn{n + 10}, L: []int{n, 2 - n, 1}}
	}
	return []interface{}{k % 3, 2 - k%3, []int{1, 2, 0}, []int{2, 0, 1}, obj(k % 3), obj((k + 1) % 3), *obj(2), *obj((k + 2) % 3), "<" + strings.Repeat("y", k), k%2 == 1,
		[]int{0x5a5a5a5a5, 0x333333333, 0x1}[k%3], "$i;", []interface{}{k, "<any", ipIn{k}}[k%3], map[int]string{0: "<zero>", 2: "two"}, map[string]int{"<": 1, "<x": 2, "": 0}, 0.5 + float64(k), []*ipObj{obj(5), nil, {N: 7}}[k%3], (*ipObj)(nil), 50 + k}
}

// ipStmts is the alphabet; the tags name the properties a statement is about.
func ipStmts() (nodes []ref.Node, tags []string) {
	V := ref.V
	ix := func(root string, x ref.Expr) *ref.Path { return path(root, ref.Index{X: x}) }
	m := func(root, name string, args ...ref.Expr) *ref.Path {
		return path(root, ref.Method{Name: name, Args: args})
	}
	setP := func(v ref.Expr, p ...interface{}) ref.Node {
		return ref.Set{Target: fpath(p[0].(string), p[1:]...), Val: v}
	}
	arm := func(c ref.Expr, body ...ref.Node) ref.Arm { return ref.Arm{Cond: c, Body: body} }
	add := func(tag string, ns ...ref.Node) {
		for _, n := range ns {
			nodes, tags = append(nodes, n), append(tags, tag)
		}
	}
	o := func(p *ref.Path, text string) ref.Node { // a reference and what follows it
		b := *p
		b.Braced = true
		return ref.If{Arms: []ref.Arm{arm(lit(true), ref.Out{P: &b}, ref.Text(text))}}
	}
	add("C10", set("i", lit(1)), set("i", lit(2)), set("j", V("i")), set("i", V("j")), setP(V("i"), "p", "N"), set("i", fpath("p", "N")), set("q", V("p")), setP(lit(1), "q", "N"),
		set("w", V("v")), setP(V("i"), "w", "N"), set("s", bin("+", V("s"), lit("x"))), set("b", bin("==", V("i"), lit(1))), setP(bin("+", fpath("p", "Q", "V"), lit(1)), "p", "Q", "V"), set("l", V("m")), set("i", lit(0)), setP(V("l"), "p", "L"), set("f", bin("+", V("f"), lit(1.5))), setP(fpath("q", "Q"), "p", "Q"))
	add("C11", ref.Out{P: fpath("r", "Q", "V")}, ref.Out{P: fpath("p", "Q", "V")}, set("z", fpath("p", "Q", "V")), set("z", fpath("r", "Q", "V")), set("r", V("p")), set("r", V("none")), ref.Out{P: fpath("r", "S")}, ref.Out{P: V("z")})
	add("C12", set("i", ix("l", V("i"))), ref.Out{P: ix("l", V("i"))}, ref.Out{P: ix("l", fpath("p", "N"))}, set("j", path("p", ref.Field("L"), ref.Index{X: V("j")})), ref.Out{P: ix("byI", V("i"))}, set("j", ix("byS", V("s"))), set("s", ix("byI", fpath("p", "N"))))
	add("C20", set("i", fcall("inc", V("i"))), set("i", fcall("next")), ref.Out{P: fcall("next")}, ref.Out{P: m("p", "Next")}, ref.Out{P: fcall("inc", fcall("inc", V("i")))}, ref.Out{P: path("p", ref.Method{Name: "Self"}, ref.Method{Name: "Next"})},
		set("w", m("v", "Copy")), set("j", fcall("inc", m("p", "Next"))))
	add("C19", ref.Out{P: fcall("fail", V("i"))}, set("j", fcall("fail", V("j"))))
	add("C25", ref.Out{P: V("i")}, ref.Out{P: fpath("w", "N")}, ref.Out{P: V("s")}, o(V("b"), "."), ref.Out{P: V("p")}, ref.Out{P: V("l")}, ref.Out{P: V("w")}, ref.Out{P: fpath("p", "Q")}, ref.Out{P: V("any")}, ref.Out{P: V("f")})
	add("C06", ref.If{Arms: []ref.Arm{arm(bin("==", V("i"), lit(1)), set("i", lit(2)))}}, ref.If{Arms: []ref.Arm{arm(fcall("at", V("mask")), ref.Text("a")), arm(fcall("at", V("mask")), ref.Text("b")), arm(fcall("at", V("mask")), ref.Text("c"))}, HasElse: true, Else: []ref.Node{ref.Text("d")}},
		ref.If{Arms: []ref.Arm{arm(m("p", "Has", V("i")), ref.Text("h")), arm(bin("&&", V("b"), m("p", "Has", lit(1))), set("b", lit(false)))}}, ref.If{Arms: []ref.Arm{arm(V("b"), set("b", lit(false)), ref.Text("t"))}, HasElse: true, Else: []ref.Node{set("b", lit(true))}})
	add("C05", set("b", bin("||", fcall("at", V("mask")), fcall("at", V("mask")))), set("i", fcall("inc", bin("-", fcall("next"), ref.Paren{X: bin("-", fcall("next"), fcall("next"))}))), set("i", fcall("inc", V("j"))))
	add("C07", ref.Foreach{Item: "x", Over: V("l"), Body: []ref.Node{set("i", V("x"))}}, ref.Foreach{Item: "i", Over: V("m"), Body: []ref.Node{ref.Out{P: V("i")}}}, ref.Foreach{Item: "x", Over: V("l"), Body: []ref.Node{set("l", V("m")), ref.Out{P: V("x")}}}, ref.Foreach{Item: "x", Over: fpath("p", "L"), Body: []ref.Node{ref.Out{P: V("x")}, ref.Out{P: m("p", "Next")}}})
	add("C08", ref.For{Var: "k", From: lit(0), Cond: bin("<", V("k"), V("i")), Post: "++", Body: []ref.Node{ref.Out{P: fcall("next")}}}, ref.For{Var: "k", From: fpath("p", "N"), Cond: bin("<", V("k"), fpath("q", "N")), Post: "++", Body: []ref.Node{setP(lit(0), "q", "N"), ref.Out{P: V("k")}}},
		ref.For{Var: "k", From: lit(2), Cond: bin(">", V("k"), fcall("inc", V("i"))), Post: "--", Body: []ref.Node{ref.Out{P: V("k")}, set("i", lit(1))}})
	for text, body := range map[string][]ref.Node{"$i;": {ref.Out{P: V("i")}, ref.Text(";")}, "#set($p.N = 2)$p.N": {setP(lit(2), "p", "N"), ref.Out{P: fpath("p", "N")}}, "$next();": {ref.Out{P: fcall("next")}, ref.Text(";")}} {
		ipEnv.Evals[text] = body
	}
	add("C17", ref.Eval{Arg: lit("#set($p.N = 2)$p.N")}, ref.Eval{Arg: lit("$next();")}, ref.Eval{Arg: V("text")})
	return nodes, tags
}

func ipPositions() map[string]func([]ref.Node) []ref.Node {
	V := ref.V
	loop := func(n ref.Node) []ref.Node { return []ref.Node{n} }
	return map[string]func([]ref.Node) []ref.Node{
		"0 top": func(b []ref.Node) []ref.Node { return b },
		"1 for": func(b []ref.Node) []ref.Node {
			return loop(ref.For{Var: "kk", From: lit(0), Cond: bin("<", V("kk"), lit(2)), Post: "++", Body: b})
		},
		"2 each": func(b []ref.Node) []ref.Node { return loop(ref.Foreach{Item: "y", Over: V("l"), Body: b}) },
		"3 for i": func(b []ref.Node) []ref.Node {
			return loop(ref.For{Var: "kk", From: lit(-1), Cond: bin("<", V("kk"), V("i")), Post: "++", Body: b})
		},
		"4 for p": func(b []ref.Node) []ref.Node {
			return loop(ref.For{Var: "kk", From: lit(0), Cond: bin("<=", V("kk"), fpath("p", "N")), Post: "++", Body: b})
		},
		"5 arm": func(b []ref.Node) []ref.Node {
			c := fcall("at", V("mask"))
			return loop(ref.If{Arms: []ref.Arm{{Cond: c, Body: b}, {Cond: c, Body: append([]ref.Node{ref.Text("2")}, b...)}}, HasElse: true, Else: b})
		},
		"6 evaluated": nil,
	}
}

// interplay enumerates the programs about a property: pairs in every position, triples with a statement of the property (thorough: in every
// position; four statements of the property and the assignments).
func interplay(g *kit.G, about string) {
	stmts, tags := ipStmts()
	pos := ipPositions()
	var names []string
	for n := 0; n < len(pos); n++ {
		for k := range pos {
			if k[0] == byte('0'+n) {
				names = append(names, k)
			}
		}
	}
	about1 := func(k int) bool { return strings.Contains(about, tags[k]) }
	end := []ref.Node{ref.Text(" end ")}
	for _, p := range []*ref.Path{ref.V("i"), ref.V("j"), fpath("p", "N"), fpath("q", "N"), fpath("p", "Q", "V"), fpath("w", "N"), fpath("v", "N"), ref.V("z"), fpath("r", "Q", "V"), fpath("l", 0), ref.V("b"), ref.V("s"), fcall("next")} {
		end = append(end, ref.Out{P: p}, ref.Text(" "))
	}
	do := func(position string, seq []int) {
		g.Do(func(t *kit.T) {
			var body []ref.Node
			for _, k := range seq {
				body = append(body, stmts[k])
			}
			env := ipEnv
			var nodes []ref.Node
			if wrap := pos[position]; wrap != nil {
				nodes = wrap(body)
			} else {
				e := *ipEnv
				text := ref.Print(body) + " "
				e.Evals = map[string][]ref.Node{text: append(body[:len(body):len(body)], ref.Text(" "))}
				for k, v := range ipEnv.Evals {
					e.Evals[k] = v
				}
				env, nodes = &e, []ref.Node{ref.Foreach{Item: "y", Over: ref.Range{A: 0, B: 2}, Body: []ref.Node{ref.Eval{Arg: ref.V("template")}}}}
				e.Vars = append(e.Vars[:len(e.Vars):len(e.Vars)], ref.Var{Name: "template", Val: text})
			}
			vals := func(k int) []interface{} {
				v := ipVals(k)
				if env != ipEnv {
					v = append(v, env.Vars[len(env.Vars)-1].Val)
				}
				return v
			}
			agreeEach(t, env, append(nodes, end...), 3, vals, func(_ int, got, want []interface{}) {
				if !reflect.DeepEqual(got, want) {
					t.Failf("the caller's data after the execution: %+v, want %+v", got, want)
				}
			})
		})
	}
	all, step := len(stmts), 1
	if strings.Contains(about, " ") { //about two properties, so many more sequences
		step = 2
	}
	var four []int
	for k := range stmts {
		if about1(k) || tags[k] == "C10" && k%2 == 0 {
			four = append(four, k)
		}
	}
	for _, position := range names {
		for a := 0; a < all && !g.Stopped(); a++ {
			if about1(a) {
				do(position, []int{a})
			}
			for b := 0; b < all; b++ {
				if about1(a) || about1(b) {
					do(position, []int{a, b})
				}
				if !(g.Thorough() || position == names[1]) {
					continue
				}
				for c := 0; c < all; c++ {
					if n := btoi(about1(a)) + btoi(about1(b)) + btoi(about1(c)); n > 1 || n == 1 && (a+b+c)%g.Pick(3, step) == 0 {
						do(position, []int{a, b, c})
					}
				}
			}
		}
	}
	if g.Thorough() {
		seq := make([]int, 4)
		for {
			ids := make([]int, 4)
			n := 0
			for i, s := range seq {
				ids[i] = four[s]
				n += btoi(about1(ids[i]))
			}
			if n > 1 && n < 4 {
				do(names[1], ids)
			}
			if g.Stopped() || !next(seq, len(four)) {
				break
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func interplayPart(about string) kit.Part {
	return kit.Part{Name: "interplay", Gen: func(g *kit.G) { interplay(g, about) }}
}
