package checks

import (
	"fmt"
	"strings"

	"github.com/viant/velty"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C17",
		Level:    "model_checking",
		Rule:     "every template body of a family x every position it is evaluated in x every form of the argument x options, compared with the model, which executes the body in place on a copy of the variables, and with the variables read after it; loops over every tuple of evaluated strings; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "bodies of <=2 of 34 fragments x 10 positions x 7 argument forms (every third combination for bodies of two) x 4 option sets (rotating) x 2 value sets; loops over all triples of 12 strings x 4 cache sizes; nesting to 3",
				kit.Thorough: "bodies of <=2 of 34 fragments x 10 positions x 7 argument forms x 4 option sets x 2 value sets; bodies of 3 of the first 14 fragments; loops over all tuples of 4 of 12 strings x 4 cache sizes; nesting to 3",
			}[t]
		},
		Assumptions: []string{"the text of an evaluated template that does not compile is not part of the property"},
		Parts: []kit.Part{
			interplayPart("C17"),
			{Name: "sizes", Gen: c17Sizes},
			{Name: "bodies", Gen: c17Bodies},
			{Name: "loops", Gen: c17Loops},
			{Name: "nested", Gen: c17Nested},
		},
	})
}

type C17Emb struct {
	EName string `velty:"names=EA|EB"`
	ENum  int
	C17In `velty:"prefix=P_"`
}
type C17In struct{ Deep string }

func c17Env(texts []string) (*ref.Env, func(set int) []interface{}) {
	env := c14Env()
	env.Evals = map[string][]ref.Node{}
	env.Vars = append(env.Vars,
		ref.Var{Name: "al", Val: "", Aliases: []string{"al2", "Al3"}},
		ref.Var{Name: "C17Emb", Val: C17Emb{}, Embed: true},
		ref.Var{Name: "src", Val: ""}, ref.Var{Name: "src2", Val: ""}, ref.Var{Name: "half", Val: ""},
		ref.Var{Name: "texts", Val: []string(nil)}, ref.Var{Name: "holder", Val: &C14Item{}}, ref.Var{Name: "tm", Val: map[string]string(nil)},
	)
	get := func(i int) string {
		if i < len(texts) {
			return texts[i]
		}
		return ""
	}
	return env, func(set int) []interface{} {
		vals := c14Values(set)
		first := get(0)
		return append(vals, fmt.Sprintf("alias%d", set), C17Emb{fmt.Sprintf("<e%d>", set), set, C17In{"deep"}}, first, get(1), first[len(first)/2:],
			append([]string{}, texts...), &C14Item{B: first}, map[string]string{"t": first})
	}
}

// c17Fragments are the parts of evaluated templates; the first ones come in longer bodies too.
func c17Fragments() [][]ref.Node {
	V := ref.V
	at := func(p *ref.Path) ref.Node { return ref.Out{P: p} }
	loop := func(item string, body ...ref.Node) ref.Node {
		return ref.Foreach{Item: item, Over: V("list"), Body: body}
	}
	return [][]ref.Node{
		{ref.Text("<t&>")},
		{out("n")},
		{out("x")},
		{out("it")},
		{set("x", lit(41)), out("x")},
		{set("fresh", bin("+", V("n"), lit(1))), out("fresh")},
		{set("n", bin("*", V("n"), lit(10)))},
		{loop("it", out("it"), ref.Text(","))},
		{loop("other", set("n", bin("+", V("n"), V("other")))), out("n")},
		{ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{ref.Text("yes")}}}, HasElse: true, Else: []ref.Node{ref.Text("no")}}},
		{at(fcall("boom", V("n"))), ref.Text(".")},
		{ref.Set{Target: fpath("v", "A"), Val: bin("+", V("n"), lit(5))}, out("v", "A")},
		{out("s")},
		{ref.Foreach{Item: "x", Over: V("items"), Body: []ref.Node{out("x", "B")}}},
		{ref.Set{Target: fpath("p", "A"), Val: lit(77)}, out("p", "A")},
		{out("unknown"), ref.Text(" ")},
		{out("EA"), out("EB"), ref.Text("/"), out("P_Deep"), out("ENum")},
		{out("al"), out("al2"), out("Al3")},
		{ref.For{Var: "k", From: lit(0), Cond: bin("<", V("k"), lit(3)), Post: "++", Body: []ref.Node{out("k")}}},
		{at(fcall("echo", V("s")))},
		{out("v", ref.Method{Name: "Label"})},
		{out("p", ref.Method{Name: "PLabel"})},
		{out("list", 0)},
		{out("m", ref.Index{X: lit("k")})},
		{out("items")},
		{out("i")},
		{ref.Raw("$n #if"), ref.Text(" ")},
		{ref.Comment{Body: "gone $n"}},
		{set("b", bin("&&", V("c"), bin(">", V("n"), lit(1)))), out("b")},
		{ref.Out{P: &ref.Path{Root: "n", Braced: true}}, ref.Text("b")},
		{set("al", lit("new")), out("al2")},
		{set("ENum", lit(12)), out("ENum")},
		{set("s", bin("+", V("s"), lit("<+>"))), out("s")},
		{out("v"), out("f"), out("u8"), out("c")},
	}
}

type c17Form struct {
	name string
	arg  func(text string, single bool) ref.Expr // nil: not possible; single: the text is one reference
}

func c17Forms() []c17Form {
	V := ref.V
	return []c17Form{
		{"literal", func(s string, single bool) ref.Expr {
			if strings.Contains(s, `"`) || single { // a quoted reference is the reference
				return nil
			}
			return lit(s)
		}},
		{"variable", func(string, bool) ref.Expr { return V("src") }},
		{"expression", func(s string, _ bool) ref.Expr {
			h := s[:len(s)/2]
			if h == "" || strings.Contains(h, `"`) || strings.HasPrefix(h, "$") {
				return nil
			}
			return bin("+", lit(h), V("half"))
		}},
		{"field", func(string, bool) ref.Expr { return fpath("holder", "B") }},
		{"element", func(string, bool) ref.Expr { return fpath("texts", 0) }},
		{"entry", func(string, bool) ref.Expr { return fpath("tm", ref.Index{X: lit("t")}) }},
		{"call", func(string, bool) ref.Expr { return fcall("echo", V("src")) }},
	}
}

func c17Positions() []func(e ref.Node) []ref.Node {
	V := ref.V
	bar := ref.Text("|")
	return []func(e ref.Node) []ref.Node{
		func(e ref.Node) []ref.Node { return []ref.Node{e} },
		func(e ref.Node) []ref.Node { return []ref.Node{ref.Text("a"), e, ref.Text("b"), e, bar} },
		func(e ref.Node) []ref.Node {
			return []ref.Node{set("x", lit("ex")), e, bar, out("x")}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{e, set("x", lit(6)), bar, out("x"), e, bar, out("x")}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{e}}}, HasElse: true, Else: []ref.Node{ref.Text("-"), e}}}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "it", Over: V("list"), Body: []ref.Node{out("it"), ref.Text(":"), e, bar, out("it")}}}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "it", Over: V("items"), Body: []ref.Node{e, bar}}}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{ref.For{Var: "x", From: lit(0), Cond: bin("<", V("x"), lit(2)), Post: "++", Body: []ref.Node{e, bar}}, out("x")}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{set("x", bin("+", bin("*", V("n"), lit(2)), lit(1))), ref.Foreach{Item: "it", Over: V("list"), Body: []ref.Node{set("x", bin("+", V("x"), V("it"))), e, bar, set("y", V("x"))}}, out("x"), out("y")}
		},
		func(e ref.Node) []ref.Node {
			return []ref.Node{ref.Out{P: fcall("echo", lit("1"))}, e, ref.Out{P: fcall("boom", V("n"))}, e}
		},
	}
}

type c17Opt struct {
	escape, stop bool
	cache        int
}

var c17Opts = []c17Opt{{false, false, 0}, {true, false, 4}, {false, true, 1}, {true, true, 0}}

// after reads the variables of the enclosing template.
func c17After() []ref.Node {
	return []ref.Node{ref.Text("$"), out("n"), ref.Text("~"), out("s"), ref.Text("~"), out("v", "A"), ref.Text("~"), out("p", "A"), ref.Text("~"), out("al"), out("ENum"), out("c"), ref.Text("~"), out("fresh"), ref.Text("~"), out("unknown"), ref.Text("~")}
}

func c17Case(t *kit.T, bodies [][]ref.Node, nodes []ref.Node, o c17Opt) {
	var texts []string
	for _, b := range bodies {
		texts = append(texts, ref.Print(b))
	}
	env, vals := c17Env(texts)
	env.Escape, env.PanicOnError = o.escape, o.stop
	for i, s := range texts {
		env.Evals[s] = bodies[i]
	}
	c17Run(t, env, nodes, vals, o)
}

func c17Run(t *kit.T, env *ref.Env, nodes []ref.Node, vals func(int) []interface{}, o c17Opt) {
	prog, err := env.Compile(nodes)
	if err != nil {
		panic("generator: " + err.Error() + ": " + ref.Print(nodes))
	}
	sets := []int{1, 2}
	for _, s := range sets {
		if !prog.Specified(vals(s)) {
			return // the body does not compile here
		}
	}
	agreeEach(t, env, nodes, len(sets), func(i int) []interface{} { return vals(sets[i]) }, nil, velty.CacheSize(o.cache))
}

func c17Bodies(g *kit.G) {
	frags := c17Fragments()
	forms, positions := c17Forms(), c17Positions()
	count := 0
	emit := func(body []ref.Node, all bool) {
		if len(body) > 0 {
			if c, ok := body[len(body)-1].(ref.Comment); ok { // a comment takes its line end with it
				c.EOF = true
				body[len(body)-1] = c
			}
		}
		text := ref.Print(body)
		for pi, pos := range positions {
			for fi, form := range forms {
				_, single := body[0].(ref.Out)
				arg := form.arg(text, single && len(body) == 1)
				if arg == nil {
					continue
				}
				for oi, o := range c17Opts {
					if !all && (pi+fi+oi+count)%3 != 0 || !g.Thorough() && (pi+fi+count)%4 != oi {
						continue
					}
					o, pos, pi, form := o, pos, pi, form
					_, _ = pi, form
					g.Do(func(t *kit.T) {
						c17Case(t, [][]ref.Node{body}, append(pos(ref.Eval{Arg: arg}), c17After()...), o)
					})
				}
			}
		}
		count++
	}
	join := func(parts ...[]ref.Node) (res []ref.Node) {
		for _, p := range parts {
			res = append(res, p...)
		}
		return res
	}
	for _, a := range frags {
		emit(join(a), true)
	}
	for _, a := range frags {
		for _, b := range frags {
			emit(join(a, b), g.Thorough())
			if g.Stopped() {
				return
			}
		}
	}
	if g.Thorough() {
		for _, a := range frags[:14] {
			for _, b := range frags[:14] {
				for _, c := range frags[:14] {
					emit(join(a, b, c), false)
				}
			}
		}
	}
}

// c17Loops evaluates changing strings at one site.
func c17Loops(g *kit.G) {
	frags := c17Fragments()
	picked := [][]ref.Node{frags[0], frags[1], frags[2], frags[4], frags[5], frags[6], frags[7], frags[8], frags[11], frags[16], frags[32], frags[10]}
	n := g.Pick(3, 4)
	seq := make([]int, n)
	for {
		if g.Stopped() {
			return
		}
		var bodies [][]ref.Node
		for _, k := range seq {
			bodies = append(bodies, picked[k])
		}
		for _, size := range []int{0, 1, 2, 100} {
			o := c17Opt{cache: size, escape: size == 1}
			body := []ref.Node{ref.Text("["), ref.Eval{Arg: ref.V("tx")}, ref.Text("]")}
			loop := ref.Foreach{Item: "tx", Over: ref.V("texts"), Body: body}
			list := append([]ref.Node{loop, set("x", lit("late")), loop}, c17After()...)
			g.Do(func(t *kit.T) { c17Case(t, bodies, list, o) })
		}
		if !next(seq, len(picked)) {
			return
		}
	}
}

// c17Nested evaluates templates that evaluate templates.
func c17Nested(g *kit.G) {
	frags := c17Fragments()
	positions := c17Positions()
	for fi := range frags {
		for pi := range positions {
			for oi := range c17Opts {
				for depth := 1; depth <= 2; depth++ {
					frag, pos, o, depth := frags[fi], positions[pi], c17Opts[oi], depth
					g.Do(func(t *kit.T) {
						if c, ok := frag[len(frag)-1].(ref.Comment); ok {
							c.EOF = true
							frag = append(append([]ref.Node{}, frag[:len(frag)-1]...), c)
						}
						inner := ref.Print(frag)
						mid := append(append([]ref.Node{ref.Text("<"), set("x", lit(8))}, pos(ref.Eval{Arg: ref.V("src")})...), ref.Text(">"))
						texts := []string{inner, ref.Print(mid)}
						env, vals := c17Env(texts)
						env.Escape, env.PanicOnError = o.escape, o.stop
						env.Evals[inner], env.Evals[texts[1]] = frag, mid
						arg := ref.Expr(ref.V("src2"))
						if depth == 2 {
							top := []ref.Node{ref.Eval{Arg: ref.V("src2")}, ref.Text("2"), ref.Eval{Arg: ref.V("src")}}
							env.Evals[ref.Print(top)] = top
							arg = lit(ref.Print(top))
						}
						c17Run(t, env, append(pos(ref.Eval{Arg: arg}), c17After()...), vals, o)
					})
				}
			}
		}
	}
}
