package checks

import (
	"fmt"

	"verifmc/kit"
	"verifmc/ref"
)

var c05Prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5}

// c05Tree is a typed expression tree; leaves are numbered when it is turned into an expression.
type c05Tree struct {
	op   string // "" leaf, "!" not
	kind byte   // type of the result: i, b, s
	l, r *c05Tree
}

type c05Ops struct{ arith, rel, eqb, logic, cat, eqs []string }

// c05Gen lists all trees of a kind with exactly n operators.
func c05Gen(kind byte, n int, o c05Ops, memo map[string][]*c05Tree) []*c05Tree {
	key := fmt.Sprintf("%c%d", kind, n)
	if t, ok := memo[key]; ok {
		return t
	}
	var res []*c05Tree
	if n == 0 {
		res = []*c05Tree{{kind: kind}}
	} else {
		bin := func(ops []string, lk, rk byte) {
			for _, op := range ops {
				for k := 0; k < n; k++ {
					for _, l := range c05Gen(lk, k, o, memo) {
						for _, r := range c05Gen(rk, n-1-k, o, memo) {
							res = append(res, &c05Tree{op: op, kind: kind, l: l, r: r})
						}
					}
				}
			}
		}
		switch kind {
		case 'i':
			bin(o.arith, 'i', 'i')
		case 's':
			bin(o.cat, 's', 's')
		case 'b':
			bin(o.logic, 'b', 'b')
			bin(o.rel, 'i', 'i')
			bin(o.eqb, 'b', 'b')
			bin(o.eqs, 's', 's')
			for _, x := range c05Gen('b', n-1, o, memo) {
				res = append(res, &c05Tree{op: "!", kind: 'b', l: x})
			}
		}
	}
	memo[key] = res
	return res
}

// c05Style decides parentheses and leaves.
type c05Style struct {
	name     string
	full     bool // parentheses around every operation
	leaves   bool // parentheses around every leaf
	outer    bool // two pairs around the whole expression
	literals bool // every second leaf is a literal
	floats   bool // every second integer leaf is a float64 variable
	fields   bool // leaves are struct fields
	sp       string
}

type c05Printer struct {
	st      c05Style
	n       int // leaves so far
	bools   int
	strs    int
	flt     bool
	divisor bool
}

var c05IntLits = []int{9, 4, 2, 6, 3, 8, 5}

func (p *c05Printer) leaf(kind byte) ref.Expr {
	i := p.n
	p.n++
	var e ref.Expr
	lit := p.st.literals && i%2 == 1
	switch kind {
	case 'i':
		switch {
		case lit:
			e = ref.Lit{V: c05IntLits[i%len(c05IntLits)]}
		case p.st.floats && i%2 == 0:
			e = ref.V(fmt.Sprintf("f%d", i))
			p.flt = true
		case p.st.fields:
			e = path("st", ref.Field(fmt.Sprintf("I%d", i)))
		default:
			e = ref.V(fmt.Sprintf("i%d", i))
		}
	case 'b':
		if lit {
			e = ref.Lit{V: i%4 == 1}
		} else {
			e = ref.V(fmt.Sprintf("b%d", p.bools))
			p.bools++
		}
	default:
		if lit {
			e = ref.Lit{V: string(rune('a' + i))}
		} else {
			e = ref.V(fmt.Sprintf("s%d", i))
			p.strs++
		}
	}
	if p.st.leaves {
		e = ref.Paren{X: e}
	}
	return e
}

func (p *c05Printer) expr(t *c05Tree) ref.Expr {
	switch t.op {
	case "":
		return p.leaf(t.kind)
	case "!":
		x := p.expr(t.l)
		if _, paren := x.(ref.Paren); !paren && t.l.op != "" {
			x = ref.Paren{X: x}
		}
		if p.st.full {
			return ref.Paren{X: ref.Not{X: x}}
		}
		return ref.Not{X: x}
	}
	l := p.expr(t.l)
	r := p.expr(t.r)
	if !p.st.full {
		if t.l.op != "" && t.l.op != "!" && c05Prec[t.l.op] < c05Prec[t.op] {
			l = ref.Paren{X: l}
		}
		if t.r.op != "" && t.r.op != "!" && c05Prec[t.r.op] <= c05Prec[t.op] {
			r = ref.Paren{X: r}
		}
	}
	var e ref.Expr = ref.Bin{Op: t.op, L: l, R: r}
	if p.st.full {
		e = ref.Paren{X: e}
	}
	return e
}

var c05Ints = [][]int{{7, 3, 2, 5, 11, 4}, {2, 3, 5, 7, 11, 13}, {1, 1, 1, 1, 1, 1}, {-4, 3, -2, 9, 6, -1}, {100, 7, 3, 2, 5, 1}, {0, 1, 2, 1, 0, 3}, {3, 3, 9, 9, 1, 9}}

type c05Struct struct{ I0, I1, I2, I3, I4, I5 int }

func c05Env() *ref.Env {
	env := &ref.Env{Funcs: map[string]interface{}{
		"idI": func(v int) int { return v }, "idF": func(v float64) float64 { return v },
		"idS": func(v string) string { return v }, "idB": func(v bool) bool { return v },
	}}
	for i := 0; i < 6; i++ {
		env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("i%d", i), Val: 0}, ref.Var{Name: fmt.Sprintf("f%d", i), Val: 0.0},
			ref.Var{Name: fmt.Sprintf("b%d", i), Val: false}, ref.Var{Name: fmt.Sprintf("s%d", i), Val: ""})
	}
	env.Vars = append(env.Vars, ref.Var{Name: "st", Val: c05Struct{}})
	return env
}

func c05Valsets(ints, bools, strs int) (res [][]interface{}) {
	sets := c05Ints
	if ints == 0 {
		sets = sets[:1]
	}
	for si, s := range sets {
		for mask := 0; mask < 1<<bools; mask++ {
			var vals []interface{}
			for i := 0; i < 6; i++ {
				vals = append(vals, s[i], float64(s[i])/2, mask>>i&1 == 1, []string{"x", "y", "", "x", "xy", "y"}[(i+si)%6])
			}
			res = append(res, append(vals, c05Struct{s[0], s[1], s[2], s[3], s[4], s[5]}))
		}
	}
	if ints == 0 && strs > 0 {
		for si := 1; si < 6; si++ {
			for mask := 0; mask < 1<<bools; mask++ {
				var vals []interface{}
				for i := 0; i < 6; i++ {
					vals = append(vals, 1, 1.0, mask>>i&1 == 1, []string{"x", "y", "", "x", "xy", "y"}[(i+si)%6])
				}
				res = append(res, append(vals, c05Struct{}))
			}
		}
	}
	return res
}

// c05Case decides one tree in one style and use.
func c05Case(t *kit.T, env *ref.Env, tree *c05Tree, st c05Style, use c04Use) {
	p := &c05Printer{st: st}
	e := p.expr(tree)
	if st.outer {
		e = ref.Paren{X: ref.Paren{X: e}}
	}
	kind := map[byte]string{'i': "I", 'b': "B", 's': "S"}[tree.kind]
	if kind == "I" && p.flt {
		kind = "F"
	}
	nodes := use.wrap(kind, e)
	src := ref.Style{Sp: st.sp}.Print(nodes)
	t.Start(src)
	prog, err := env.Compile(nodes)
	if err != nil {
		panic("c05: " + src + ": " + err.Error())
	}
	var sets [][]interface{}
	for _, vals := range c05Valsets(p.n-p.bools-p.strs, p.bools, p.strs) {
		if kit.Guard(func() { prog.RunWith(vals) }) == "" { // division by zero has no value
			sets = append(sets, vals)
		}
	}
	if len(sets) == 0 {
		return
	}
	agreeSrc(t, env, nodes, src, sets)
}

func init() {
	styles := []c05Style{
		{name: "minimal"}, {name: "minimal spaced", sp: " "}, {name: "full", full: true, sp: " "},
		{name: "leaves", leaves: true}, {name: "outer", outer: true, sp: "\n"}, {name: "literals", literals: true},
		{name: "literals spaced", literals: true, sp: "\t "}, {name: "floats", floats: true}, {name: "fields", fields: true, sp: " "},
	}
	all := c05Ops{arith: []string{"+", "-", "*", "/"}, rel: []string{"==", "!=", "<", "<=", ">", ">="}, eqb: []string{"==", "!="}, logic: []string{"&&", "||"}, cat: []string{"+"}, eqs: []string{"==", "!="}}
	few := c05Ops{arith: []string{"-", "/"}, rel: []string{"==", "<"}, eqb: []string{"!="}, logic: []string{"&&", "||"}, cat: []string{"+"}, eqs: []string{"=="}}
	gen := func(ops c05Ops, from, upto int, styles []c05Style, uses []c04Use) func(g *kit.G) {
		return func(g *kit.G) {
			env := c05Env()
			memo := map[string][]*c05Tree{}
			for n := from; n <= upto; n++ {
				for _, kind := range []byte{'i', 'b', 's'} {
					for _, tree := range c05Gen(kind, n, ops, memo) {
						for _, st := range styles {
							for _, use := range uses {
								tree, st, use := tree, st, use
								g.Do(func(t *kit.T) { c05Case(t, env, tree, st, use) })
							}
						}
					}
				}
			}
		}
	}
	register(&kit.Check{
		Property: "C05",
		Level:    "model_checking",
		Rule:     "every typed expression tree up to the bound, printed with the fewest parentheses Go's precedence needs and with redundant ones and other whitespace, must yield the tree's value; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			if t == kit.Thorough {
				return "all trees of up to 3 operators over all 13 operators in 9 spellings and 4 uses; all of 4 operators in 4 spellings and 1 use; all of 5 operators over 7 operators; 7 integer value sets x all truth assignments"
			}
			return "all trees of up to 3 operators over all 13 operators in 9 spellings and 4 uses; all of 4 operators over 7 operators, minimal parentheses, 1 use; 7 integer value sets x all truth assignments"
		},
		Assumptions: []string{"value sets distinguish groupings up to coincidences of the chosen numbers"},
		Parts: []kit.Part{
			interplayPart("C05"),
			{Name: "sizes", Gen: c05Sizes},
			{Name: "small", Gen: gen(all, 1, 2, styles, c04Uses)},
			{Name: "three", Gen: gen(all, 3, 3, styles, c04Uses)},
			{Name: "four", Gen: gen(few, 4, 4, styles[:1], c04Uses[:1])},
			{Name: "four-all", ThoroughOnly: true, Gen: gen(all, 4, 4, []c05Style{styles[0], styles[1], styles[2], styles[5]}, c04Uses[:1])},
			{Name: "five", ThoroughOnly: true, Gen: gen(few, 5, 5, styles[:1], c04Uses[1:2])},
		},
	})
}
