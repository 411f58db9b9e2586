package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"

	"verifmc/kit"
	"verifmc/ref"
)

// c04Holder holds one operand in the places a reference can lead to.
type c04Holder struct {
	Pad  int8
	I    int
	F    float64
	S    string
	Pad2 bool
	B    bool
	Next *c04Holder
	Deep struct{ In c04Leaf }
}

type c04Leaf struct {
	Pad int16
	I   int
	F   float64
	S   string
	B   bool
}

func (h c04Holder) GetI() int      { return h.I }
func (h c04Holder) GetF() float64  { return h.F }
func (h c04Holder) GetS() string   { return h.S }
func (h c04Holder) GetB() bool     { return h.B }
func (l *c04Leaf) Unused() float64 { return 0 }

func holderOf(v interface{}) c04Holder {
	h := c04Holder{Pad: -1}
	h.Next = &c04Holder{Pad: 3}
	for _, d := range []*c04Holder{&h, h.Next} {
		switch a := v.(type) {
		case int:
			d.I, d.Deep.In.I = a, a
		case float64:
			d.F, d.Deep.In.F = a, a
		case string:
			d.S, d.Deep.In.S = a, a
		case bool:
			d.B, d.Deep.In.B = a, a
		}
	}
	return h
}

var c04Kinds = []string{"I", "F", "S", "B"}

func c04Values(kind string, thorough bool) []interface{} {
	switch kind {
	case "I":
		v := []interface{}{0, 1, -1, 7, -13, 3, math.MaxInt64, math.MinInt64, 1<<53 + 1}
		if thorough {
			v = append(v, 2, 256, -256, 1<<31, -1<<31, 1<<32, 1<<53, 65535, 48, 57)
		}
		return v
	case "F":
		v := []interface{}{0.0, 1.0, -1.0, 0.5, -2.25, 7.0, 1e300, math.Inf(1), math.NaN()}
		if thorough {
			v = append(v, math.Inf(-1), math.Copysign(0, -1), 5e-324, math.MaxFloat64, 0.1, 1e21, float64(1<<53), -0.3)
		}
		return v
	case "S":
		v := []interface{}{"", "a", "b", "ab", "a b\n", "\x00", "é", "1", "true"}
		if thorough {
			v = append(v, "A", "aa", "<&>", "0", "long long long long long text", "\"q\"")
		}
		return v
	}
	return []interface{}{true, false}
}

func c04Literals(kind string) []interface{} {
	switch kind {
	case "I":
		return []interface{}{0, 1, -3, 7}
	case "F":
		return []interface{}{0.5, 2.25, -1.5}
	case "S":
		return []interface{}{"", "a", "a b"}
	}
	return []interface{}{true, false}
}

type c04Source struct {
	name string
	expr func(side, kind string) ref.Expr
	wrap func(side, kind string, body []ref.Node) []ref.Node
}

func plainWrap(_, _ string, body []ref.Node) []ref.Node { return body }

func path(root string, segs ...ref.Seg) *ref.Path { return &ref.Path{Root: root, Segs: segs} }

var c04Sources = []c04Source{
	{"variable", func(s, k string) ref.Expr { return ref.V(s + k) }, plainWrap},
	{"braced variable", func(s, k string) ref.Expr { return &ref.Path{Root: s + k, Braced: true} }, plainWrap},
	{"field", func(s, k string) ref.Expr { return path(s+"H", ref.Field(k)) }, plainWrap},
	{"pointer field", func(s, k string) ref.Expr { return path(s+"P", ref.Field(k)) }, plainWrap},
	{"field of nested struct", func(s, k string) ref.Expr {
		return path(s+"H", ref.Field("Deep"), ref.Field("In"), ref.Field(k))
	}, plainWrap},
	{"field behind two pointers", func(s, k string) ref.Expr { return path(s+"P", ref.Field("Next"), ref.Field(k)) }, plainWrap},
	{"slice element", func(s, k string) ref.Expr { return path(s+k+"s", ref.Index{X: ref.Lit{V: 1}}) }, plainWrap},
	{"slice element at variable", func(s, k string) ref.Expr { return path(s+k+"s", ref.Index{X: ref.V("one")}) }, plainWrap},
	{"map entry", func(s, k string) ref.Expr { return path(s+k+"m", ref.Index{X: ref.Lit{V: "k"}}) }, plainWrap},
	{"field of slice element", func(s, k string) ref.Expr {
		return path(s+"Hs", ref.Index{X: ref.Lit{V: 0}}, ref.Field(k))
	}, plainWrap},
	{"function result", func(s, k string) ref.Expr {
		return &ref.Path{Root: "id" + k, Call: true, Args: []ref.Expr{ref.V(s + k)}}
	}, plainWrap},
	{"method result", func(s, k string) ref.Expr { return path(s+"H", ref.Method{Name: "Get" + k}) }, plainWrap},
	{"parenthesised", func(s, k string) ref.Expr { return ref.Paren{X: ref.V(s + k)} }, plainWrap},
	{"sub-expression", func(s, k string) ref.Expr {
		switch k {
		case "I":
			return ref.Paren{X: ref.Bin{Op: "+", L: ref.V(s + k), R: ref.Lit{V: 0}}}
		case "F":
			return ref.Paren{X: ref.Bin{Op: "*", L: ref.V(s + k), R: ref.Lit{V: 1.0}}}
		case "S":
			return ref.Paren{X: ref.Bin{Op: "+", L: ref.V(s + k), R: ref.Lit{V: ""}}}
		}
		return ref.Paren{X: ref.Not{X: ref.Paren{X: ref.Not{X: ref.V(s + k)}}}}
	}, plainWrap},
	{"assigned variable", func(s, k string) ref.Expr { return ref.V(s + "assigned") },
		func(s, k string, body []ref.Node) []ref.Node {
			return append([]ref.Node{ref.Set{Target: ref.V(s + "assigned"), Val: ref.V(s + k)}}, body...)
		}},
	{"loop item", func(s, k string) ref.Expr { return ref.V(s + "item") },
		func(s, k string, body []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: s + "item", Over: ref.V(s + k + "s"), Body: body}}
		}},
}

// c04Env declares, for both sides, variables holding the operand of every kind in every place.
func c04Env() *ref.Env {
	env := &ref.Env{Funcs: map[string]interface{}{
		"idI": func(v int) int { return v }, "idF": func(v float64) float64 { return v },
		"idS": func(v string) string { return v }, "idB": func(v bool) bool { return v },
	}}
	for _, s := range []string{"l", "r"} {
		for _, k := range c04Kinds {
			z := map[string]interface{}{"I": 0, "F": 0.0, "S": "", "B": false}[k]
			rt := reflect.TypeOf(z)
			env.Vars = append(env.Vars, ref.Var{Name: s + k, Val: z},
				ref.Var{Name: s + k + "s", Type: reflect.SliceOf(rt)},
				ref.Var{Name: s + k + "m", Type: reflect.MapOf(reflect.TypeOf(""), rt)})
		}
		env.Vars = append(env.Vars, ref.Var{Name: s + "H", Val: c04Holder{}}, ref.Var{Name: s + "P", Val: &c04Holder{}}, ref.Var{Name: s + "Hs", Val: []c04Holder{}})
	}
	env.Vars = append(env.Vars, ref.Var{Name: "one", Val: 1})
	return env
}

// c04Valset puts l and r in every place.
func c04Valset(env *ref.Env, l, r interface{}) []interface{} {
	vals := make([]interface{}, len(env.Vars))
	byName := map[string]interface{}{"one": 1}
	for i, v := range []interface{}{l, r} {
		s := []string{"l", "r"}[i]
		if v == nil {
			continue
		}
		k := c04KindOf(v)
		rt := reflect.TypeOf(v)
		byName[s+k] = v
		sl := reflect.MakeSlice(reflect.SliceOf(rt), 2, 3)
		sl.Index(0).Set(reflect.ValueOf(c04Other(v)))
		sl.Index(1).Set(reflect.ValueOf(v))
		byName[s+k+"s"] = sl.Interface()
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), rt))
		m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(v))
		m.SetMapIndex(reflect.ValueOf("other"), reflect.ValueOf(c04Other(v)))
		byName[s+k+"m"] = m.Interface()
		h := holderOf(v)
		byName[s+"H"] = h
		byName[s+"P"] = &h
		byName[s+"Hs"] = []c04Holder{h, holderOf(c04Other(v))}
	}
	for i, v := range env.Vars {
		vals[i] = byName[v.Name]
	}
	return vals
}

func c04KindOf(v interface{}) string {
	switch v.(type) {
	case int:
		return "I"
	case float64:
		return "F"
	case string:
		return "S"
	}
	return "B"
}

func c04Other(v interface{}) interface{} {
	switch a := v.(type) {
	case int:
		return a ^ 5
	case float64:
		return a + 17
	case string:
		return a + "other"
	}
	return !v.(bool)
}

type c04Use struct {
	name string
	wrap func(kind string, e ref.Expr) []ref.Node
}

var c04Uses = []c04Use{
	{"assigned", func(k string, e ref.Expr) []ref.Node {
		return []ref.Node{ref.Set{Target: ref.V("res"), Val: e}, ref.Out{P: ref.V("res")}, ref.Text(";")}
	}},
	{"condition", func(k string, e ref.Expr) []ref.Node {
		return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: e, Body: []ref.Node{ref.Text("T")}}}, HasElse: true, Else: []ref.Node{ref.Text("F")}}}
	}},
	{"argument", func(k string, e ref.Expr) []ref.Node {
		return []ref.Node{ref.Out{P: &ref.Path{Root: "id" + k, Call: true, Args: []ref.Expr{e}}}, ref.Text(";")}
	}},
	{"operand", func(k string, e ref.Expr) []ref.Node {
		o := ref.Paren{X: e}
		var sum ref.Expr
		switch k {
		case "I":
			sum = ref.Bin{Op: "-", L: ref.Lit{V: 1}, R: o}
		case "F":
			sum = ref.Bin{Op: "-", L: o, R: ref.Lit{V: 0.5}}
		case "S":
			sum = ref.Bin{Op: "+", L: ref.Lit{V: "<"}, R: o}
		default:
			sum = ref.Not{X: o}
		}
		return []ref.Node{ref.Set{Target: ref.V("res"), Val: sum}, ref.Out{P: ref.V("res")}}
	}},
}

var c04NumOps = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">="}

func c04Ops(l, r string) []string {
	num := func(k string) bool { return k == "I" || k == "F" }
	switch {
	case num(l) && num(r):
		return c04NumOps
	case l == "S" && r == "S":
		return []string{"+", "==", "!="}
	case l == "B" && r == "B":
		return []string{"&&", "||", "==", "!="}
	}
	return nil
}

func c04Result(op, l, r string) string {
	switch op {
	case "+", "-", "*", "/":
		if l == "F" || r == "F" {
			return "F"
		}
		return l
	}
	return "B"
}

func isOne(op string, r interface{}) bool { return op == "/" && r == 0 }

func init() {
	register(&kit.Check{
		Property: "C04",
		Level:    "model_checking",
		Rule:     "every operator x kind pair x source pair x use x value pair must yield Go's result; unsupported combinations must be rejected or yield the mathematical result; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return fmt.Sprintf("all operators over int, float64, string, bool and int with float64; 16 reference sources and literals on both sides; 4 uses; every pair of %d int, %d float64, %d string and 2 bool boundary values; 14 further operand types x 12 operators x small values, reject-or-correct",
				len(c04Values("I", t == kit.Thorough)), len(c04Values("F", t == kit.Thorough)), len(c04Values("S", t == kit.Thorough)))
		},
		Assumptions: []string{"integer division by zero panics in Go and is not enumerated", "ordering of strings is not defined for templates"},
		Parts: []kit.Part{
			{Name: "sources", Gen: c04GenSources},
			{Name: "literals", Gen: c04GenLiterals},
			{Name: "negation", Gen: c04GenNot},
			{Name: "unsupported", Gen: c04GenUnsupported},
			{Name: "mixed", Gen: c04GenMixed},
			{Name: "pointers", Gen: c04GenPointers},
			{Name: "widths", Gen: c04GenWidths},
			{Name: "beyond", Gen: c04GenBeyond},
		},
	})
}

func c04Sets(env *ref.Env, lk, rk, op string, thorough bool) [][]interface{} {
	var sets [][]interface{}
	for _, a := range c04Values(lk, thorough) {
		for _, b := range c04Values(rk, thorough) {
			if op == "/" && lk == "I" && rk == "I" && (b == 0 || b == 5) { // 5^5 = 0 is the other loop item
				continue
			}
			sets = append(sets, c04Valset(env, a, b))
		}
	}
	return sets
}

func c04GenSources(g *kit.G) {
	env := c04Env()
	for _, lk := range c04Kinds {
		for _, rk := range c04Kinds {
			for _, op := range c04Ops(lk, rk) {
				for _, ls := range c04Sources {
					for _, rs := range c04Sources {
						for _, use := range c04Uses {
							lk, rk, op, ls, rs, use := lk, rk, op, ls, rs, use
							g.Do(func(t *kit.T) {
								e := ref.Bin{Op: op, L: ls.expr("l", lk), R: rs.expr("r", rk)}
								nodes := ls.wrap("l", lk, rs.wrap("r", rk, use.wrap(c04Result(op, lk, rk), e)))
								agree(t, env, nodes, c04Sets(env, lk, rk, op, g.Thorough()))
							})
						}
					}
				}
			}
		}
	}
}

func c04GenLiterals(g *kit.G) {
	env := c04Env()
	for _, lk := range c04Kinds {
		for _, rk := range c04Kinds {
			for _, op := range c04Ops(lk, rk) {
				for _, use := range c04Uses {
					for _, lit := range c04Literals(lk) {
						for _, lit2 := range c04Literals(rk) {
							if isOne(op, lit2) && lk == "I" {
								continue
							}
							lk, rk, op, use, lit, lit2 := lk, rk, op, use, lit, lit2
							g.Do(func(t *kit.T) {
								agree(t, env, use.wrap(c04Result(op, lk, rk), ref.Bin{Op: op, L: ref.Lit{V: lit}, R: ref.Lit{V: lit2}}), nil)
							})
						}
						for _, rs := range c04Sources {
							lk, rk, op, use, lit, rs := lk, rk, op, use, lit, rs
							g.Do(func(t *kit.T) {
								var sets [][]interface{}
								for _, b := range c04Values(rk, g.Thorough()) {
									if !(op == "/" && lk == "I" && rk == "I" && (b == 0 || b == 5)) {
										sets = append(sets, c04Valset(env, nil, b))
									}
								}
								e := ref.Bin{Op: op, L: ref.Lit{V: lit}, R: rs.expr("r", rk)}
								agree(t, env, rs.wrap("r", rk, use.wrap(c04Result(op, lk, rk), e)), sets)
							})
						}
					}
					for _, lit := range c04Literals(rk) {
						if isOne(op, lit) && lk == "I" {
							continue
						}
						for _, ls := range c04Sources {
							lk, rk, op, use, lit, ls := lk, rk, op, use, lit, ls
							g.Do(func(t *kit.T) {
								var sets [][]interface{}
								for _, a := range c04Values(lk, g.Thorough()) {
									sets = append(sets, c04Valset(env, a, nil))
								}
								e := ref.Bin{Op: op, L: ls.expr("l", lk), R: ref.Lit{V: lit}}
								agree(t, env, ls.wrap("l", lk, use.wrap(c04Result(op, lk, rk), e)), sets)
							})
						}
					}
				}
			}
		}
	}
}

func c04GenNot(g *kit.G) {
	env := c04Env()
	sets := [][]interface{}{c04Valset(env, true, nil), c04Valset(env, false, nil)}
	for _, ls := range c04Sources {
		for _, use := range c04Uses {
			for _, e := range []ref.Expr{ref.Not{X: ls.expr("l", "B")}, ref.Not{X: ref.Paren{X: ref.Not{X: ls.expr("l", "B")}}},
				ref.Bin{Op: "&&", L: ref.Not{X: ls.expr("l", "B")}, R: ls.expr("l", "B")},
				ref.Bin{Op: "||", L: ref.Not{X: ls.expr("l", "B")}, R: ls.expr("l", "B")},
				ref.Bin{Op: "==", L: ls.expr("l", "B"), R: ref.Not{X: ls.expr("l", "B")}}} {
				ls, use, e := ls, use, e
				g.Do(func(t *kit.T) { agree(t, env, ls.wrap("l", "B", use.wrap("B", e)), sets) })
			}
		}
	}
}

// c04GenMixed: the same variable on both sides and chains of one source, where a shared operand cell would show.
func c04GenMixed(g *kit.G) {
	env := c04Env()
	for _, k := range c04Kinds {
		for _, op := range c04Ops(k, k) {
			for _, op2 := range c04Ops(k, k) {
				if c04Result(op, k, k) != k || c04Result(op2, k, k) != k {
					continue
				}
				for _, src := range c04Sources {
					for _, use := range c04Uses {
						k, op, op2, src, use := k, op, op2, src, use
						g.Do(func(t *kit.T) {
							var sets [][]interface{}
							for _, v := range c04Values(k, g.Thorough()) {
								if k == "I" && (op == "/" || op2 == "/") && (v == 0 || v == 5 || v == 1 || v == -1) {
									continue
								}
								sets = append(sets, c04Valset(env, v, nil))
							}
							x := src.expr("l", k)
							e := ref.Bin{Op: op, L: x, R: ref.Paren{X: ref.Bin{Op: op2, L: x, R: x}}}
							if k == "I" && op == "/" && op2 == "-" {
								return
							}
							if k == "I" && op == "/" && op2 != "+" { // x*x and x/x may wrap to 0
								return
							}
							if k == "I" && op == "/" {
								sets = sets[:0]
								for _, v := range []int{3, 7, -13, 100} {
									sets = append(sets, c04Valset(env, v, nil))
								}
							}
							agree(t, env, src.wrap("l", k, use.wrap(k, e)), sets)
						})
					}
				}
			}
		}
	}
}

type c04Named string

// c04GenUnsupported: operand types outside the documented ones: rejected, or the mathematical result.
func c04GenUnsupported(g *kit.G) {
	type operand struct {
		name string
		vals []interface{}
	}
	ints := []int64{0, 1, 2, 4, 100, -8}
	var ops []operand
	for _, rt := range []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0), reflect.TypeOf(0.0)} {
		o := operand{name: rt.String()}
		for _, i := range ints {
			if i < 0 && rt.Kind() >= reflect.Uint && rt.Kind() <= reflect.Uint64 {
				continue
			}
			o.vals = append(o.vals, reflect.ValueOf(i).Convert(rt).Interface())
		}
		ops = append(ops, o)
	}
	wrapForms := []struct{ name, pre, l, r, post string }{
		{"var", "", "$l", "$r", ""},
		{"field", "", "$h.L", "$h.R", ""},
		{"ptr", "", "$p.L", "$p.R", ""},
		{"elem", "", "$ls[0]", "$rs[0]", ""},
		{"item", "#foreach($x in $ls)#foreach($y in $rs)", "$x", "$y", "#end#end"},
	}
	for _, a := range ops {
		for _, b := range ops {
			for _, op := range append(append([]string{}, c04NumOps...), "&&", "||") {
				for _, form := range wrapForms {
					a, b, op, form := a, b, op, form
					g.Do(func(t *kit.T) {
						lt, rt := reflect.TypeOf(a.vals[0]), reflect.TypeOf(b.vals[0])
						ht := reflect.StructOf([]reflect.StructField{{Name: "L", Type: lt}, {Name: "Pad", Type: reflect.TypeOf("")}, {Name: "R", Type: rt}})
						env := &ref.Env{Vars: []ref.Var{{Name: "l", Type: lt}, {Name: "r", Type: rt}, {Name: "h", Type: ht}, {Name: "p", Type: reflect.PtrTo(ht)}, {Name: "ls", Type: reflect.SliceOf(lt)}, {Name: "rs", Type: reflect.SliceOf(rt)}}}
						src := form.pre + "#set($res = " + form.l + " " + op + " " + form.r + ")$res" + form.post
						t.Start(fmt.Sprintf("%v %v %v: %v", a.name, op, b.name, src))
						pl, err, panicked := compileReal(env, src)
						t.Exec(1)
						if panicked != "" {
							t.Failf("compile: %v", panicked)
							return
						}
						if err != nil {
							t.State("rejected")
							return
						}
						for _, x := range a.vals {
							for _, y := range b.vals {
								want, ok := c04Exact(op, x, y)
								if !ok {
									continue
								}
								h := reflect.New(ht)
								h.Elem().Field(0).Set(reflect.ValueOf(x))
								h.Elem().Field(2).Set(reflect.ValueOf(y))
								ls, rs := reflect.MakeSlice(reflect.SliceOf(lt), 1, 1), reflect.MakeSlice(reflect.SliceOf(rt), 1, 1)
								ls.Index(0).Set(reflect.ValueOf(x))
								rs.Index(0).Set(reflect.ValueOf(y))
								got, panicked := pl.run([]interface{}{x, y, h.Elem().Interface(), h.Interface(), ls.Interface(), rs.Interface()})
								t.Exec(1)
								t.Step(1)
								t.State(got.Out)
								t.Nontrivial()
								if panicked != "" || got.Err != "" || !sameNumber(got.Out, want) {
									t.Failf("%v %v %v = %v %v, want %v or a rejection", x, op, y, got, panicked, want)
									return
								}
							}
						}
					})
				}
			}
		}
	}
	// kinds that have no operators at all
	p := 5
	vals := []struct {
		name string
		v    interface{}
	}{{"struct", c04Leaf{I: 1}}, {"slice", []int{1}}, {"map", map[string]int{"a": 1}}, {"pointer to struct", &c04Leaf{}}, {"pointer", &p}, {"string", "1"}, {"bool", true}, {"int", 1}, {"float64", 1.5}, {"named string", c04Named("x")}}
	for i, a := range vals {
		for j, b := range vals {
			known := i >= 5 && j >= 5 && i < 9 && j < 9
			for _, op := range append(append([]string{}, c04NumOps...), "&&", "||") {
				i, j, a, b, op := i, j, a, b, op
				if known {
					if i == j && (a.name == "int" || a.name == "float64") && op != "&&" && op != "||" {
						continue
					}
					if i != j && (a.name == "int" || a.name == "float64") && (b.name == "int" || b.name == "float64") && op != "&&" && op != "||" {
						continue
					}
				}
				g.Do(func(t *kit.T) {
					env := &ref.Env{Vars: []ref.Var{{Name: "l", Val: a.v}, {Name: "r", Val: b.v}}}
					src := "#set($res = $l " + op + " $r)$res"
					t.Start(fmt.Sprintf("%v %v %v: %v", a.name, op, b.name, src))
					pl, err, panicked := compileReal(env, src)
					t.Exec(1)
					if panicked != "" {
						t.Failf("compile: %v", panicked)
						return
					}
					if err != nil {
						t.State("rejected")
						return
					}
					want, lenient := c04Lenient(op, a.v, b.v)
					if !lenient {
						t.State("undefined")
					}
					got, panicked := pl.run([]interface{}{a.v, b.v})
					t.Exec(1)
					t.Nontrivial()
					if panicked != "" {
						t.Failf("exec: %v", panicked)
					} else if lenient && got.Out != want {
						t.Failf("%v %v %v = %v, want %v or a rejection", a.v, op, b.v, got, want)
					} else if !lenient && i < 5 && j < 5 && op != "==" && op != "!=" {
						t.Failf("%v of %v and %v accepted and rendered %v, want a rejection", op, a.name, b.name, got)
					}
				})
			}
		}
	}
}

func c04Lenient(op string, l, r interface{}) (string, bool) {
	if a, ok := l.(*int); ok { // pointers to int compare by what they point to
		if b, ok := r.(*int); ok && op[0] != '&' && op[0] != '|' {
			return c04Exact(op, *a, *b)
		}
	}
	if reflect.TypeOf(l) == reflect.TypeOf(r) {
		if v, ok := ref.Arith(op, l, r); ok {
			return fmt.Sprint(v), true
		}
		return "", false
	}
	return "", false
}

func toRat(v interface{}) *big.Rat {
	rv := reflect.ValueOf(v)
	r := new(big.Rat)
	switch {
	case rv.CanInt():
		return r.SetInt64(rv.Int())
	case rv.CanUint():
		return r.SetInt(new(big.Int).SetUint64(rv.Uint()))
	}
	return r.SetFloat64(rv.Float())
}

// c04Exact is the mathematical result, when it is the same in every numeric type that could hold it.
func c04Exact(op string, x, y interface{}) (string, bool) {
	a, b := toRat(x), toRat(y)
	isF := func(v interface{}) bool {
		k := reflect.TypeOf(v).Kind()
		return k == reflect.Float32 || k == reflect.Float64
	}
	unsigned := func(v interface{}) bool { return reflect.ValueOf(v).CanUint() }
	c := a.Cmp(b)
	res := new(big.Rat)
	switch op {
	case "+":
		res.Add(a, b)
	case "-":
		res.Sub(a, b)
	case "*":
		res.Mul(a, b)
	case "/":
		if b.Sign() == 0 {
			return "", false
		}
		res.Quo(a, b)
		if !isF(x) && !isF(y) {
			q := new(big.Int).Quo(a.Num(), b.Num())
			res.SetInt(q)
		}
	case "==":
		return strconv.FormatBool(c == 0), true
	case "!=":
		return strconv.FormatBool(c != 0), true
	case "<":
		return strconv.FormatBool(c < 0), true
	case "<=":
		return strconv.FormatBool(c <= 0), true
	case ">":
		return strconv.FormatBool(c > 0), true
	case ">=":
		return strconv.FormatBool(c >= 0), true
	default:
		return "no result", true
	}
	if lim := big.NewRat(127, 1); new(big.Rat).Abs(res).Cmp(lim) > 0 || res.Sign() < 0 && (unsigned(x) || unsigned(y)) {
		return "", false
	}
	f, _ := res.Float64()
	return strconv.FormatFloat(f, 'f', -1, 64), true
}

func sameNumber(got, want string) bool {
	if got == want {
		return true
	}
	a, err1 := strconv.ParseFloat(got, 64)
	b, err2 := strconv.ParseFloat(want, 64)
	return err1 == nil && err2 == nil && a == b
}

// c04Bounds are the boundary values of a basic type.
func c04Bounds(rt reflect.Type) []interface{} {
	var ints []int64
	switch rt.Kind() {
	case reflect.Int, reflect.Int64:
		ints = []int64{0, 1, 2, -1, 127, 128, 256, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1<<33 + 1, -1 << 33, 1<<53 + 1, 1 << 53, math.MaxInt64, math.MinInt64}
	case reflect.Int8:
		ints = []int64{0, 1, 2, -1, 127, -128, -127, 64}
	case reflect.Int16:
		ints = []int64{0, 1, 2, -1, 255, 256, 257, math.MaxInt16, math.MinInt16}
	case reflect.Int32:
		ints = []int64{0, 1, 2, -1, 256, 1 << 16, 1<<16 + 1, math.MaxInt32, math.MinInt32}
	case reflect.Uint, reflect.Uint64:
		ints = []int64{0, 1, 2, 128, 256, 1 << 16, 1 << 31, 1 << 32, 1<<33 + 1, math.MaxInt64, math.MinInt64, -1}
	case reflect.Uint8:
		ints = []int64{0, 1, 2, 64, 127} // values beyond 127: see DESIGN.md
	case reflect.Uint16:
		ints = []int64{0, 1, 2, 255, 256, 257, 1 << 15, math.MaxUint16}
	case reflect.Uint32:
		ints = []int64{0, 1, 2, 256, 1 << 16, 1<<16 + 1, 1 << 31, math.MaxUint32}
	case reflect.Float32:
		return []interface{}{float32(0), float32(1), float32(-1), float32(0.5), float32(math.Copysign(0, -1)), float32(math.MaxFloat32), float32(1e-40), float32(math.Inf(1)), float32(math.NaN())}
	case reflect.Float64:
		return []interface{}{0.0, 1.0, -1.0, 0.5, math.Copysign(0, -1), math.MaxFloat64, 5e-324, math.Inf(-1), math.NaN()}
	case reflect.String:
		return []interface{}{"", "a", "b", "ab", "a\x00", "é", "1"}
	default:
		return []interface{}{true, false}
	}
	var r []interface{}
	for _, i := range ints {
		r = append(r, reflect.ValueOf(i).Convert(rt).Interface())
	}
	return r
}

// c04GenPointers: operands that are values, or pointers to values, of one type, in every place; comparisons are of what is pointed to.
func c04GenPointers(g *kit.G) {
	types := []reflect.Type{}
	for _, v := range []interface{}{0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), 0.0, "", false} {
		types = append(types, reflect.TypeOf(v))
	}
	places := []struct {
		name, pre, post string
		at              func(side string) string
	}{
		{"variable", "", "", func(s string) string { return "$" + s }},
		{"field", "", "", func(s string) string { return "$h." + s }},
		{"pointer field", "", "", func(s string) string { return "$p." + s }},
		{"element", "", "", func(s string) string { return "$" + s + "s[1]" }},
		{"entry", "", "", func(s string) string { return "$" + s + "m[\"k\"]" }},
		{"item", "#foreach($x in $Ls)#foreach($y in $Rs)", "#end#end", func(s string) string { return map[string]string{"L": "$x", "R": "$y"}[s] }},
		{"assigned", "#set($x = $L)#set($y = $R)", "", func(s string) string { return map[string]string{"L": "$x", "R": "$y"}[s] }},
	}
	ptr := func(v interface{}) interface{} {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p.Interface()
	}
	for _, base := range types {
		for form := 0; form < 4; form++ { // which sides are pointers
			for _, op := range append(append([]string{}, c04NumOps...), "&&", "||") {
				for _, pl := range places {
					for use := 0; use < 2; use++ {
						base, form, op, pl, use := base, form, op, pl, use
						g.Do(func(t *kit.T) {
							lt, rt := base, base
							if form&1 == 1 {
								lt = reflect.PtrTo(base)
							}
							if form&2 == 2 {
								rt = reflect.PtrTo(base)
							}
							ht := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(int8(0))}, {Name: "L", Type: lt}, {Name: "Mid", Type: strT}, {Name: "R", Type: rt}})
							env := &ref.Env{Vars: []ref.Var{{Name: "L", Type: lt}, {Name: "R", Type: rt}, {Name: "h", Type: ht}, {Name: "p", Type: reflect.PtrTo(ht)},
								{Name: "Ls", Type: reflect.SliceOf(lt)}, {Name: "Rs", Type: reflect.SliceOf(rt)}, {Name: "Lm", Type: reflect.MapOf(strT, lt)}, {Name: "Rm", Type: reflect.MapOf(strT, rt)}}}
							e := pl.at("L") + " " + op + " " + pl.at("R")
							src := pl.pre + "#set($res = " + e + ")$res;" + pl.post
							if use == 1 {
								src = pl.pre + "#if(" + e + ")true;#{else}false;#end" + pl.post
							}
							t.Start(fmt.Sprintf("%v %v %v: %v", lt, op, rt, src))
							c, err, panicked := compileReal(env, src)
							t.Exec(1)
							if panicked != "" {
								t.Failf("compile: %v", panicked)
								return
							}
							if err != nil {
								t.State("rejected")
								t.Rejected()
								return
							}
							for _, x := range c04Bounds(base) {
								for _, y := range c04Bounds(base) {
									want, ok := c04SameType(op, x, y)
									if !ok || use == 1 && want != "true" && want != "false" {
										continue
									}
									l, r := x, y
									if form&1 == 1 {
										l = ptr(x)
									}
									if form&2 == 2 {
										r = ptr(y)
									}
									h := reflect.New(ht)
									h.Elem().Field(1).Set(reflect.ValueOf(l))
									h.Elem().Field(3).Set(reflect.ValueOf(r))
									sl := func(v interface{}, n int) interface{} {
										s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), n, n)
										for i := 0; i < n; i++ {
											s.Index(i).Set(reflect.ValueOf(v))
										}
										return s.Interface()
									}
									mp := func(v interface{}) interface{} {
										m := reflect.MakeMap(reflect.MapOf(strT, reflect.TypeOf(v)))
										m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(v))
										return m.Interface()
									}
									n, all := 2, want+";"
									if pl.name == "item" {
										all = all + all + all + all
									}
									got, panicked := c.run([]interface{}{l, r, h.Elem().Interface(), h.Interface(), sl(l, n), sl(r, n), mp(l), mp(r)})
									t.Exec(1)
									t.Step(1)
									t.State(got.Out)
									t.Nontrivial()
									if panicked != "" || got.Err != "" || got.Out != all {
										t.Failf("%v %v %v = %v %v, want %v or a rejection", x, op, y, got, panicked, all)
										return
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

// c04SameType is Go's result of an operator on two values of one type, rendered; not ok: no such operator, or not decided here.
func c04SameType(op string, x, y interface{}) (string, bool) {
	a, b := reflect.ValueOf(x), reflect.ValueOf(y)
	cmp := func(lt, eq bool) (string, bool) {
		switch op {
		case "==":
			return strconv.FormatBool(eq), true
		case "!=":
			return strconv.FormatBool(!eq), true
		case "<":
			return strconv.FormatBool(lt), true
		case "<=":
			return strconv.FormatBool(lt || eq), true
		}
		return "", false
	}
	switch op {
	case ">":
		op = "<"
		a, b = b, a
	case ">=":
		op = "<="
		a, b = b, a
	}
	switch {
	case a.Kind() == reflect.Bool:
		switch op {
		case "&&":
			return strconv.FormatBool(a.Bool() && b.Bool()), true
		case "||":
			return strconv.FormatBool(a.Bool() || b.Bool()), true
		case "==", "!=":
			return cmp(false, a.Bool() == b.Bool())
		}
	case a.Kind() == reflect.String:
		return cmp(a.String() < b.String(), a.String() == b.String())
	case a.CanInt():
		return cmp(a.Int() < b.Int(), a.Int() == b.Int())
	case a.CanUint():
		return cmp(a.Uint() < b.Uint(), a.Uint() == b.Uint())
	case a.CanFloat():
		return cmp(a.Float() < b.Float(), a.Float() == b.Float())
	}
	return "", false
}

// c04GenWidths: comparisons and arithmetic of integers of different widths at their boundaries: rejected, or the mathematical result.
func c04GenWidths(g *kit.G) {
	var types []reflect.Type
	for _, v := range []interface{}{0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0)} {
		types = append(types, reflect.TypeOf(v))
	}
	ptr := func(v interface{}) interface{} {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p.Interface()
	}
	sides := []struct{ name, l, r string }{{"variables", "$l", "$r"}, {"fields", "$h.L", "$h.R"}, {"variable and field", "$l", "$h.R"}}
	for _, lb := range types {
		for _, rb := range types {
			if lb == rb {
				continue
			}
			for form := 0; form < 4; form++ {
				for _, op := range c04NumOps {
					for _, side := range sides {
						lb, rb, form, op, side := lb, rb, form, op, side
						g.Do(func(t *kit.T) {
							lt, rt := lb, rb
							if form&1 == 1 {
								lt = reflect.PtrTo(lb)
							}
							if form&2 == 2 {
								rt = reflect.PtrTo(rb)
							}
							ht := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(int8(0))}, {Name: "L", Type: lt}, {Name: "Mid", Type: strT}, {Name: "R", Type: rt}})
							env := &ref.Env{Vars: []ref.Var{{Name: "l", Type: lt}, {Name: "r", Type: rt}, {Name: "h", Type: ht}}}
							src := "#set($res = " + side.l + " " + op + " " + side.r + ")$res"
							t.Start(fmt.Sprintf("%v %v %v: %v", lt, op, rt, src))
							c, err, panicked := compileReal(env, src)
							t.Exec(1)
							if panicked != "" {
								t.Failf("compile: %v", panicked)
								return
							}
							if err != nil {
								t.State("rejected")
								t.Rejected()
								return
							}
							for _, x := range c04Bounds(lb) {
								for _, y := range c04Bounds(rb) {
									want, ok := c04Wide(op, x, y)
									if !ok {
										continue
									}
									l, r := x, y
									if form&1 == 1 {
										l = ptr(x)
									}
									if form&2 == 2 {
										r = ptr(y)
									}
									h := reflect.New(ht)
									h.Elem().Field(1).Set(reflect.ValueOf(l))
									h.Elem().Field(3).Set(reflect.ValueOf(r))
									got, panicked := c.run([]interface{}{l, r, h.Elem().Interface()})
									t.Exec(1)
									t.Step(1)
									t.State(got.Out)
									t.Nontrivial()
									if panicked != "" || got.Err != "" || got.Out != want {
										t.Failf("%v %v %v = %v %v, want %v or a rejection", x, op, y, got, panicked, want)
										return
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

// c04Wide is the mathematical result, when an int holds the operands and the result.
func c04Wide(op string, x, y interface{}) (string, bool) {
	a, b := toRat(x), toRat(y)
	if !a.Num().IsInt64() || !b.Num().IsInt64() {
		return "", false
	}
	m, n := a.Num(), b.Num()
	res := new(big.Int)
	switch op {
	case "+":
		res.Add(m, n)
	case "-":
		res.Sub(m, n)
	case "*":
		res.Mul(m, n)
	case "/":
		if n.Sign() == 0 {
			return "", false
		}
		res.Quo(m, n)
	default:
		return c04Exact(op, x, y)
	}
	if !res.IsInt64() {
		return "", false
	}
	return res.String(), true
}

// c04GenBeyond: unsigned values an int cannot hold with integers of other types. They are computed as an int of the same bits,
// which is a known finding: the first case reports it, the second anything else.
func c04GenBeyond(g *kit.G) {
	for _, exact := range []bool{true, false} {
		exact := exact
		g.Do(func(t *kit.T) {
			name := "unsigned values beyond int64 with integers of another type: mathematical result"
			if !exact {
				name = "unsigned values beyond int64 with integers of another type: mathematical result or that of the same bits as int"
			}
			t.Start(name)
			for _, big := range []interface{}{uint(1 << 63), uint(math.MaxUint64), uint64(1 << 63), uint64(math.MaxUint64 - 1)} {
				for _, o := range []interface{}{0, 1, -1, int8(1), int16(-5), int32(7), int64(math.MinInt64), uint16(3), uint32(4)} {
					for _, flip := range []bool{false, true} {
						x, y := big, o
						if flip {
							x, y = o, big
						}
						for _, op := range c04NumOps {
							if (op == "/") && reflect.ValueOf(y).IsZero() {
								continue
							}
							want, _ := c04Exact(op, x, y)
							bits := func(v interface{}) int {
								if rv := reflect.ValueOf(v); rv.CanInt() {
									return int(rv.Int())
								}
								return int(reflect.ValueOf(v).Uint())
							}
							same, _ := ref.Arith(op, bits(x), bits(y))
							env := &ref.Env{Vars: []ref.Var{{Name: "l", Val: x}, {Name: "r", Val: y}}}
							c, err, panicked := compileReal(env, "#set($res = $l "+op+" $r)$res")
							t.Exec(1)
							if panicked != "" {
								t.Failf("compile: %v", panicked)
								return
							}
							if err != nil {
								continue
							}
							got, panicked := c.run([]interface{}{x, y})
							t.Exec(1)
							t.Step(1)
							t.State(got.Out)
							t.Nontrivial()
							if got.Out == want && want != "" || !exact && panicked == "" && got.Out == fmt.Sprint(same) {
								continue
							}
							if exact && (want == "" || op[0] != '<' && op[0] != '>') {
								continue
							}
							t.Failf("%v %v %v = %v %v, want %v", x, op, y, got, panicked, want)
							return
						}
					}
				}
			}
		})
	}
}
