package checks

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"

	"github.com/viant/velty/ast/expr"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C20",
		Level:    "model_checking",
		Rule:     "every signature of up to three parameters x every result type x every way of calling, every pair of argument sources of every pair of types, every use of a result, every nesting of calls, every method set x receiver source, every misfit call; output and the trace of calls with their arguments compared with the model; non-trivial = output",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "signatures: 14 parameter types, arity <= 2 complete, arity 3 over 6 types, 12 results, 5 call forms, arguments as variables, literals and calls, 2 value sets; argument pairs: 5 types squared, 23+ sources squared; nesting depth 2",
				kit.Thorough: "signatures: 14 parameter types, arity <= 3 complete, 12 results, 5 call forms, arguments as variables, literals and calls, 2 value sets; argument pairs: 14 types squared, 23+ sources squared; nesting depth 3",
			}[t]
		},
		Assumptions: []string{"the called functions are pure apart from the trace"},
		Parts: []kit.Part{
			interplayPart("C20"),
			{Name: "sizes", Gen: c20Sizes},
			{Name: "signatures", Gen: c20Signatures},
			{Name: "arguments", Gen: c20Arguments},
			{Name: "results", Gen: c20Results},
			{Name: "nesting", Gen: c20Nesting},
			{Name: "methods", Gen: c20Methods},
			{Name: "misfits", Gen: c20Misfits},
			{Name: "kept", Gen: c20KeptPart},
		},
	})
}

type C20Out struct {
	Name string
	N    int
	L    []string
	P    *C20Out
}

func (o C20Out) Tell(s string) string { trace("Tell(%v,%v)", o.Name, s); return o.Name + "!" + s }
func (o *C20Out) Next() *C20Out {
	trace("Next(%v)", o.Name)
	return &C20Out{Name: o.Name + "n", N: o.N + 1}
}

// c20Fn makes a function of the signature that traces its calls and returns something made of its arguments.
func c20Fn(name string, in []reflect.Type, out []reflect.Type, variadic bool) interface{} {
	ft := reflect.FuncOf(in, out, variadic)
	return reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		call := c20Call(name, a)
		trace("%s", call)
		res := []reflect.Value{c20Result(out[0], call)}
		if len(out) > 1 {
			res = append(res, reflect.Zero(out[1]))
		}
		return res
	}).Interface()
}

func c20Call(name string, a []reflect.Value) string {
	var parts []string
	for _, v := range a {
		if v.Kind() == reflect.Func {
			parts = append(parts, "func")
			continue
		}
		parts = append(parts, fmt.Sprintf("%T:%+v", v.Interface(), v.Interface()))
	}
	return name + "(" + strings.Join(parts, ",") + ")"
}

func c20Result(t reflect.Type, call string) reflect.Value {
	h := fnv.New32a()
	_, _ = h.Write([]byte(call))
	n := int(h.Sum32() % 1000)
	return c20Value(t, call, n)
}

func c20Value(t reflect.Type, s string, n int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(n))
	case reflect.Uint8:
		v.SetUint(uint64(n % 100))
	case reflect.Bool:
		v.SetBool(n%2 == 1)
	case reflect.Float64:
		v.SetFloat(float64(n) + 0.5)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 0, 3))
		for i := 0; i < 2; i++ {
			v.Set(reflect.Append(v, c20Value(t.Elem(), s+fmt.Sprint(i), n+i)))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(c20Value(t.Key(), "k", 1), c20Value(t.Elem(), s, n))
	case reflect.Struct:
		if f := v.FieldByName("Name"); f.IsValid() {
			f.SetString(s)
		}
		if f := v.FieldByName("N"); f.IsValid() {
			f.SetInt(int64(n))
		}
		if f := v.FieldByName("L"); f.IsValid() {
			f.Set(reflect.ValueOf([]string{s, "l"}))
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(c20Value(t.Elem(), s, n))
	case reflect.Interface:
		v.Set(reflect.ValueOf("i" + s))
	default:
		panic("c20Value of " + t.String())
	}
	return v
}

func typesOf(vals ...interface{}) (res []reflect.Type) {
	for _, v := range vals {
		res = append(res, reflect.TypeOf(v))
	}
	return res
}

var (
	errT      = reflect.TypeOf((*error)(nil)).Elem()
	c20Params = append(typesOf("", 0, false, 0.0, []string{}, []int{}, uint8(0), []uint8{}, []bool{}, []float64{}, C20Out{}, &C20Out{}, map[string]int{}), anyT)
	// with which an error is returned too
	c20Outs = func() (res [][]reflect.Type) {
		for _, t := range append(typesOf("", 0, false, 0.0, uint8(0), []string{}, []int{}, C20Out{}, &C20Out{}, map[string]int{}), anyT) {
			res = append(res, []reflect.Type{t})
		}
		return append(res, []reflect.Type{strT, errT})
	}()
)

func c20Name(t reflect.Type) string {
	return strings.NewReplacer("[", "", "]", "s", "*", "p", ".", "", "interface {}", "any").Replace(t.String())
}

func c20Lit(t reflect.Type, k int) ref.Expr {
	switch t.Kind() {
	case reflect.String:
		return lit([]string{"l", "m n", "", "x,y)z("}[k%4])
	case reflect.Int:
		return lit([]int{7, 0, 12}[k%3])
	case reflect.Bool:
		return lit(k%2 == 0)
	case reflect.Float64:
		return lit([]float64{1.5, 20.25}[k%2])
	}
	return nil
}

// c20Forms are the ways to call fn, declared in the environment, with the arguments.
var c20Forms = []struct {
	name     string
	receiver bool
	call     func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path
}{
	{"function", false, func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path {
		env.Funcs[name] = fn
		return fcall(name, args...)
	}},
	{"receiver", true, func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path {
		env.Funcs[name] = fn
		return c20On(name, args)
	}},
	{"type function", true, func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path {
		for _, f := range env.TypeFuncs {
			if f.Name == name {
				return c20On(name, args)
			}
		}
		env.TypeFuncs = append(env.TypeFuncs, ref.TypeFunc{Recv: reflect.TypeOf(fn).In(0), Name: name, Fn: fn})
		return c20On(name, args)
	}},
	{"kind function", true, func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path {
		if env.Kinds == nil {
			env.Kinds = map[string]ref.Kind{}
		}
		t := reflect.TypeOf(fn)
		k := ref.Kind{Kinds: []reflect.Kind{t.In(0).Kind()}, Fn: fn}
		if t.Out(0).Kind() == reflect.Interface {
			k.Result = func(reflect.Type) reflect.Type { return strT }
		}
		env.Kinds[name] = k
		return c20On(name, args)
	}},
	{"standalone", false, func(env *ref.Env, name string, fn interface{}, args []ref.Expr) *ref.Path {
		if env.Standalone == nil {
			env.Standalone = map[string]ref.Standalone{}
		}
		s := ref.Standalone{Fn: fn}
		if reflect.TypeOf(fn).Out(0).Kind() == reflect.Interface {
			s.Result = strT
		}
		env.Standalone[name] = s
		return fcall(name, args...)
	}},
}

// c20On appends the call to the first argument, which must be a path.
func c20On(name string, args []ref.Expr) *ref.Path {
	p := *args[0].(*ref.Path)
	p.Segs = append(append([]ref.Seg{}, p.Segs...), ref.Method{Name: name, Args: args[1:]})
	return &p
}

func c20Signatures(g *kit.G) {
	sig := func(params []reflect.Type) {
		for form := range c20Forms {
			for mode := 0; mode < 3; mode++ { // variables, literals, calls
				form, lits, calls := form, mode == 1, mode == 2
				var args []ref.Expr
				some := false
				for i, t := range params {
					var a ref.Expr = ref.V(fmt.Sprintf("a%d", i))
					if calls {
						a = fcall(fmt.Sprintf("same%d", i), a)
					}
					if lits && !(i == 0 && c20Forms[form].receiver) {
						if l := c20Lit(t, i); l != nil {
							a, some = l, true
						}
					}
					args = append(args, a)
				}
				if lits && !some {
					continue
				}
				g.Do(func(t *kit.T) {
					env := &ref.Env{Funcs: map[string]interface{}{}}
					var one, zero []interface{}
					for i, p := range params {
						env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("a%d", i), Type: p})
						one = append(one, c20Value(p, fmt.Sprintf("v%d", i), 3+i).Interface())
						zero = append(zero, reflect.Zero(p).Interface())
						if calls {
							i := i
							env.Funcs[fmt.Sprintf("same%d", i)] = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{p}, []reflect.Type{p}, false), func(a []reflect.Value) []reflect.Value {
								trace("same%d", i)
								return a
							}).Interface()
						}
					}
					var nodes []ref.Node
					for r, out := range c20Outs {
						name := fmt.Sprintf("f%d", r)
						p := c20Forms[form].call(env, name, c20Fn(name, params, out, false), args)
						nodes = append(nodes, ref.Out{P: p}, ref.Text("|"))
					}
					sets := [][]interface{}{one, zero}
					if k := params[0].Kind(); calls && c20Forms[form].receiver && (k == reflect.Ptr || k == reflect.Interface) {
						sets = sets[:1] // a call on the nil a call returned is not defined
					}
					agree(t, env, nodes, sets)
				})
			}
		}
	}
	for _, a := range c20Params {
		sig([]reflect.Type{a})
		for _, b := range c20Params {
			sig([]reflect.Type{a, b})
		}
	}
	third := c20Params[:g.Pick(6, len(c20Params))]
	for _, a := range third {
		for _, b := range third {
			for _, c := range third {
				sig([]reflect.Type{a, b, c})
			}
		}
	}
	c20Variadics(g)
}

// c20Variadics: functions of none to two parameters before the variadic one, called with up to four more arguments; functions of no parameters.
func c20Variadics(g *kit.G) {
	types := append(typesOf("", 0, &C20Out{}), anyT)
	var lists [][]reflect.Type
	for _, v := range types {
		lists = append(lists, []reflect.Type{v})
		for _, a := range types {
			lists = append(lists, []reflect.Type{a, v})
			for _, b := range types {
				lists = append(lists, []reflect.Type{a, b, v})
			}
		}
	}
	for _, l := range lists {
		for more := 0; more < 5; more++ {
			for form := range c20Forms {
				for _, held := range []bool{false, true} {
					l, more, form, held := l, more, form, held
					fixed := len(l) - 1
					if c20Forms[form].receiver && fixed+more == 0 {
						continue
					}
					g.Do(func(t *kit.T) {
						env := &ref.Env{Funcs: map[string]interface{}{}}
						in := append(append([]reflect.Type{}, l[:fixed]...), reflect.SliceOf(l[fixed]))
						var args []ref.Expr
						var vals []interface{}
						for i := 0; i < fixed+more; i++ {
							p := l[fixed]
							if i < fixed {
								p = l[i]
							}
							v := c20Value(p, fmt.Sprintf("v%d", i), 3+i).Interface()
							if held && i > 0 {
								p = anyT
							}
							name := fmt.Sprintf("a%d", i)
							env.Vars = append(env.Vars, ref.Var{Name: name, Type: p})
							vals = append(vals, v)
							args = append(args, ref.V(name))
						}
						env.Vars = append(env.Vars, ref.Var{Name: "unused", Val: 1})
						vals = append(vals, 1)
						var nodes []ref.Node
						for r, out := range c20Outs {
							name := fmt.Sprintf("f%d", r)
							fn := c20Fn(name, in, out, true)
							if f := c20Forms[form]; f.name == "type function" || f.name == "kind function" {
								if fixed == 0 { // registered for the slice
									continue
								}
							}
							nodes = append(nodes, ref.Out{P: c20Forms[form].call(env, name, fn, args)}, ref.Text("|"))
						}
						agree(t, env, nodes, [][]interface{}{vals})
					})
				}
			}
		}
	}
	for form, f := range c20Forms {
		if !f.receiver {
			form := form
			g.Do(func(t *kit.T) {
				env := &ref.Env{Funcs: map[string]interface{}{}, Vars: []ref.Var{{Name: "s", Val: "x"}}}
				var nodes []ref.Node
				for r, out := range c20Outs {
					name := fmt.Sprintf("f%d", r)
					nodes = append(nodes, ref.Out{P: c20Forms[form].call(env, name, c20Fn(name, nil, out, false), nil)}, ref.Text("|"))
				}
				agree(t, env, nodes, nil)
			})
		}
	}
}

// c20Source is an expression of some type, with the statements it needs around it.
type c20Source struct {
	expr ref.Expr
	wrap func([]ref.Node) []ref.Node
	loop bool
}

// c20Sources lists everything an argument of type rt may be: every place, held in interfaces, literals, expressions, calls.
func c20Sources(prefix string, rt reflect.Type, env *ref.Env) (sources []c20Source, vals func(v interface{}) []interface{}) {
	plain := func(b []ref.Node) []ref.Node { return b }
	var parts []*placesEnv
	for _, held := range []bool{false, true} {
		if held && rt == anyT {
			continue
		}
		t, px := rt, prefix
		if held {
			t, px = anyT, prefix+"i"
		}
		pe := newPlacesNamed(px, t)
		parts = append(parts, pe)
		for i := range pe.places {
			pl := pe.places[i]
			sources = append(sources, c20Source{pl.expr(), pl.wrap, pl.loop})
		}
		env.Vars = append(env.Vars, pe.env.Vars...)
		for n, f := range pe.env.Funcs {
			env.Funcs[n] = f
		}
	}
	v := ref.V(prefix + "v")
	add := func(e ref.Expr) { sources = append(sources, c20Source{e, plain, false}) }
	switch rt.Kind() {
	case reflect.String:
		add(bin("+", v, lit("x")))
		add(bin("+", lit("p q"), v))
	case reflect.Int:
		add(bin("*", v, lit(3)))
		add(bin("-", lit(1), v))
		add(ref.Paren{X: bin("+", v, lit(1))})
	case reflect.Float64:
		add(bin("/", v, lit(2.0)))
	case reflect.Bool:
		add(ref.Not{X: v})
		add(bin("&&", v, lit(true)))
		add(bin("<", lit(1), lit(2)))
	}
	for k := 0; k < 4; k++ {
		if l := c20Lit(rt, k); l != nil {
			add(l)
		}
	}
	return sources, func(x interface{}) (res []interface{}) {
		for _, pe := range parts {
			res = append(res, pe.set(x)...)
		}
		return res
	}
}

func c20Arguments(g *kit.G) {
	types := c20Params
	if !g.Thorough() {
		types = append(typesOf("", 0, []string{}, C20Out{}), anyT)
	}
	for _, a := range types {
		for _, b := range types {
			for form := range c20Forms {
				a, b, form := a, b, form
				n := len(mustSources(a))
				for i := 0; i < n; i++ {
					i := i
					g.Do(func(t *kit.T) { c20Pairs(t, a, b, form, i) })
				}
			}
		}
	}
}

func mustSources(t reflect.Type) []c20Source {
	s, _ := c20Sources("x", t, &ref.Env{Funcs: map[string]interface{}{}})
	return s
}

func c20Pairs(t *kit.T, a, b reflect.Type, form, i int) {
	env := &ref.Env{Funcs: map[string]interface{}{}}
	as, avals := c20Sources("x", a, env)
	bs, bvals := c20Sources("y", b, env)
	f := c20Forms[form]
	if _, ok := as[i].expr.(*ref.Path); f.receiver && !ok {
		return
	}
	if f.receiver && c20Held(as[i], a, i) && f.name != "receiver" {
		return // registered for the type, not for interfaces holding it
	}
	v1, v2 := c20Value(a, "A", 5).Interface(), c20Value(b, "B", 6).Interface()
	sets := [][]interface{}{append(avals(v1), bvals(v2)...)}
	fn := c20Fn("fn", []reflect.Type{a, b}, []reflect.Type{strT}, false)
	var nodes []ref.Node
	for j := range bs {
		call := ref.Out{P: f.call(env, "fn", fn, []ref.Expr{as[i].expr, bs[j].expr})}
		nodes = append(nodes, as[i].wrap(bs[j].wrap([]ref.Node{call, ref.Text("|")}))...)
	}
	agree(t, env, nodes, sets)
}

func c20Held(s c20Source, t reflect.Type, i int) bool {
	return t != anyT && strings.Contains(ref.Print([]ref.Node{ref.Out{P: s.expr.(*ref.Path)}}), "xi")
}

// c20Results: every use of the result of a call.
func c20Results(g *kit.G) {
	type use = func(env *ref.Env, c func() *ref.Path) []ref.Node //
	one := func(n ref.Node) []ref.Node { return []ref.Node{n} }
	ext := func(p *ref.Path, segs ...interface{}) *ref.Path {
		q := *p
		q.Segs = append(append([]ref.Seg{}, p.Segs...), fpath("x", segs...).Segs...)
		return &q
	}
	tx := func(s string) ref.Node { return ref.Text(s) }
	echo := func(env *ref.Env, t reflect.Type) {
		env.Funcs["echo"] = c20Fn("echo", []reflect.Type{t}, []reflect.Type{t}, false)
		env.Funcs["pass"] = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{t}, []reflect.Type{t}, false), func(a []reflect.Value) []reflect.Value {
			trace("%s", c20Call("pass", a))
			return a
		}).Interface()
	}
	uses := func(t reflect.Type) (res []func(env *ref.Env, c func() *ref.Path) []ref.Node) {
		res = append(res,
			func(_ *ref.Env, c func() *ref.Path) []ref.Node { return one(ref.Out{P: c()}) },
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{set("r", c()), out("r"), tx("<"), out("r")}
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{set("r", c()), set("q", ref.V("r")), set("r", c()), out("q"), tx("<"), out("r")}
			},
			func(env *ref.Env, c func() *ref.Path) []ref.Node {
				echo(env, t)
				return one(ref.Out{P: fcall("echo", c())})
			},
			func(env *ref.Env, c func() *ref.Path) []ref.Node {
				echo(env, t)
				return one(ref.Out{P: ext(c(), ref.Method{Name: "pass"})})
			},
			func(env *ref.Env, c func() *ref.Path) []ref.Node {
				echo(env, t)
				return one(ref.Out{P: ext(c(), ref.Method{Name: "pass"}, ref.Method{Name: "pass"}, ref.Method{Name: "echo"})})
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: c()}, tx("|"), ref.Out{P: c()}, tx("|"), ref.Out{P: c()}}
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.Foreach{Item: "x", Over: ref.V("three"), Body: []ref.Node{ref.Out{P: c()}, tx("/")}})
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.For{Var: "w", From: lit(0), Cond: bin("<", ref.V("w"), lit(2)), Post: "++", Body: []ref.Node{set("r", c()), out("r")}})
			},
			func(env *ref.Env, c func() *ref.Path) []ref.Node {
				body := one(ref.Out{P: c()})
				env.Evals = map[string][]ref.Node{ref.Print(body): body}
				env.Vars = append(env.Vars, ref.Var{Name: "text", Val: ref.Print(body)})
				return one(ref.Eval{Arg: ref.V("text")})
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node { // a variable introduced after the call keeps its value over the next call
				return []ref.Node{set("first", lit(true)), ref.Foreach{Item: "x", Over: ref.V("three"), Body: []ref.Node{
					ref.Out{P: c()},
					ref.If{Arms: []ref.Arm{{Cond: ref.V("first"), Body: []ref.Node{set("q", lit(77)), set("q2", lit("kept")), set("q3", lit(1.5))}}}},
					out("q"), out("q2"), out("q3"), tx("/"), set("first", lit(false))}}}
			},
			func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.If{Arms: []ref.Arm{{Cond: bin("==", lit(1), lit(2)), Body: one(ref.Out{P: c()})}, {Cond: lit(true), Body: one(ref.Out{P: c()})}}, HasElse: true, Else: one(ref.Out{P: c()})})
			},
		)
		add := func(u use) { res = append(res, u) }
		switch t.Kind() {
		case reflect.String, reflect.Int, reflect.Float64:
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{set("r", bin("+", c(), c())), out("r")}
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.If{Arms: []ref.Arm{{Cond: bin("==", c(), c()), Body: one(tx("same"))}}})
			})
		case reflect.Bool:
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.If{Arms: []ref.Arm{{Cond: c(), Body: one(tx("T"))}, {Cond: ref.Not{X: c()}, Body: one(tx("F"))}}})
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.If{Arms: []ref.Arm{{Cond: bin("||", ref.Not{X: c()}, ref.Not{X: c()}), Body: one(tx("T"))}}, HasElse: true, Else: one(tx("F"))})
			})
		case reflect.Slice:
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: ext(c(), 1)}, tx("|"), ref.Out{P: ext(c(), 0)}}
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return one(ref.Foreach{Item: "x", Over: c(), Body: []ref.Node{out("x"), tx("/")}})
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{set("r", c()), out("r", 1), ref.Foreach{Item: "x", Over: ref.V("r"), Body: []ref.Node{out("x"), tx("/")}}}
			})
		case reflect.Map:
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: ext(c(), ref.Index{X: lit("k")})}, tx("|"), ref.Out{P: ext(c(), ref.Index{X: lit("no")})}}
			})
		case reflect.Struct, reflect.Ptr:
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: ext(c(), "Name")}, tx("|"), ref.Out{P: ext(c(), "N")}, tx("|"), ref.Out{P: ext(c(), "L", 1)}, tx("|"), ref.Out{P: ext(c(), "P", "Name")}}
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: ext(c(), ref.Method{Name: "Tell", Args: []ref.Expr{lit("t")}})}, tx("|"), set("r", c()), out("r", "N"), out("r", ref.Method{Name: "Tell", Args: []ref.Expr{fpath("r", "Name")}})}
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{set("r", ext(c(), "Name")), out("r"), set("n", bin("+", ext(c(), "N"), ext(c(), "N"))), out("n")}
			})
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Foreach{Item: "x", Over: ext(c(), "L"), Body: []ref.Node{out("x"), tx("/")}}}
			})
		}
		if t.Kind() == reflect.Ptr {
			add(func(_ *ref.Env, c func() *ref.Path) []ref.Node {
				return []ref.Node{ref.Out{P: ext(c(), ref.Method{Name: "Next"}, ref.Method{Name: "Next"}, "N")}, tx("|"), ref.Out{P: ext(c(), ref.Method{Name: "Next"}, ref.Method{Name: "Tell", Args: []ref.Expr{lit("z")}})}}
			})
		}
		return res
	}
	c20Declared(g, uses)
	for _, outs := range c20Outs {
		for form, f := range c20Forms {
			t := outs[0]
			if t == anyT && (f.name == "standalone" || f.name == "kind function") {
				t = strT // declared
			}
			for u := range uses(t) {
				for _, first := range typesOf("", 0, &C20Out{}, []string{}) {
					for nargs := 1; nargs < 3; nargs++ {
						outs, form, u, nargs, first, t := outs, form, u, nargs, first, t
						g.Do(func(kt *kit.T) {
							env := &ref.Env{Funcs: map[string]interface{}{}, Vars: []ref.Var{
								{Name: "a", Val: c20Value(first, "A", 2).Interface()}, {Name: "b", Val: "B"}, {Name: "three", Val: []int{1, 2, 3}}}}
							in := []reflect.Type{first, strT}[:nargs]
							fn := c20Fn("fn", in, outs, false)
							args := []ref.Expr{ref.V("a"), ref.V("b")}[:nargs]
							p := c20Forms[form].call(env, "to_"+c20Name(outs[0])+fmt.Sprint(form), fn, args)
							nodes := uses(t)[u](env, func() *ref.Path { q := *p; return &q })
							agree(kt, env, nodes, nil)
						})
					}
				}
			}
		}
	}
}

// c20Declared: functions returning interface{} registered with the type of their result.
func c20Declared(g *kit.G, uses func(t reflect.Type) []func(env *ref.Env, c func() *ref.Path) []ref.Node) {
	types := typesOf("", 0, false, 0.0, []string{}, []int{}, C20Out{}, &C20Out{}, map[string]int{}, uint8(0), [][]string{})
	for d, t := range types {
		for form := 0; form < 4; form++ {
			for u := range uses(t) {
				d, t, form, u := d, t, form, u
				g.Do(func(kt *kit.T) {
					env := &ref.Env{Funcs: map[string]interface{}{}, Vars: []ref.Var{{Name: "a", Val: "A"}, {Name: "three", Val: []int{1, 2, 3}}}}
					fn := func(s string) interface{} {
						trace("declared %v %v", t, s)
						return c20Result(t, s).Interface()
					}
					name := fmt.Sprintf("d%d_%d", d, form)
					var p *ref.Path
					switch form {
					case 0:
						env.TypeFuncs = append(env.TypeFuncs, ref.TypeFunc{Recv: strT, Name: name, Fn: fn, Result: t})
						p = c20On(name, []ref.Expr{ref.V("a")})
					case 1:
						env.Kinds = map[string]ref.Kind{name: {Kinds: []reflect.Kind{reflect.Bool, reflect.String}, Fn: fn, Result: func(reflect.Type) reflect.Type { return t }}}
						p = c20On(name, []ref.Expr{ref.V("a")})
					case 2:
						env.Standalone = map[string]ref.Standalone{name: {Fn: fn, Result: t}}
						p = fcall(name, ref.V("a"))
					case 3:
						env.NS = map[string]interface{}{"ns": &c20Typed{t}}
						p = &ref.Path{Root: "ns", Segs: []ref.Seg{ref.Method{Name: "Get", Args: []ref.Expr{ref.V("a")}}}}
					}
					nodes := uses(t)[u](env, func() *ref.Path { q := *p; return &q })
					agree(kt, env, nodes, nil)
				})
			}
		}
	}
}

// c20Typed is a namespace whose Get returns the type.
type c20Typed struct{ t reflect.Type }

func (n *c20Typed) Get(s string) interface{} {
	trace("Get %v %v", n.t, s)
	return c20Result(n.t, s).Interface()
}
func (n *c20Typed) MethodResult(string) reflect.Type { return n.t }
func (n *c20Typed) MethodResultType(string, *expr.Call) (reflect.Type, error) {
	return n.t, nil
}

// c20Nesting: every tree of calls.
func c20Nesting(g *kit.G) {
	type mk = func() ref.Expr
	s := reflect.TypeOf("")
	env := func() *ref.Env {
		e := &ref.Env{Funcs: map[string]interface{}{}, Vars: []ref.Var{{Name: "s", Val: "S"}, {Name: "o", Val: C20Out{Name: "O"}}, {Name: "on", Val: true}}}
		fn := func(n int, variadic bool) interface{} {
			var in []reflect.Type
			for i := 0; i < n; i++ {
				in = append(in, s)
			}
			if variadic {
				in[n-1] = reflect.SliceOf(s)
			}
			cnt := 0
			return reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{s}, variadic), func(a []reflect.Value) []reflect.Value {
				cnt++
				res := "("
				for i, v := range a {
					if i > 0 {
						res += ","
					}
					res += fmt.Sprint(v.Interface())
				}
				res += ")"
				trace("f%d%v%s", n, variadic, res)
				return []reflect.Value{reflect.ValueOf(res)}
			}).Interface()
		}
		e.Funcs["f"], e.Funcs["ff"], e.Funcs["fff"], e.Funcs["fv"] = fn(1, false), fn(2, false), fn(3, false), fn(2, true)
		return e
	}
	leaves := []mk{
		func() ref.Expr { return ref.V("s") },
		func() ref.Expr { return lit("l") },
		func() ref.Expr { return fpath("o", "Name") },
	}
	grow := func(xs []mk, small []mk) (res []mk) {
		call := func(name string, args ...mk) mk {
			return func() ref.Expr {
				var es []ref.Expr
				for _, a := range args {
					es = append(es, a())
				}
				return fcall(name, es...)
			}
		}
		on := func(name string, x mk, args ...mk) {
			if _, ok := x().(*ref.Path); !ok {
				return
			}
			res = append(res, func() ref.Expr {
				es := []ref.Expr{x()}
				for _, a := range args {
					es = append(es, a())
				}
				return c20On(name, es)
			})
		}
		for _, x := range xs {
			res = append(res, call("f", x), call("fv", x))
			on("f", x)
			for _, y := range small {
				res = append(res, call("ff", x, y), call("ff", y, x), call("fv", x, y), call("fff", x, y, x))
				on("ff", x, y)
				on("ff", y, x)
				x, y := x, y
				res = append(res, func() ref.Expr { return bin("+", x(), y()) })
				res = append(res, func() ref.Expr { return bin("+", y(), x()) })
			}
		}
		return res
	}
	one := grow(leaves, leaves)
	two := grow(append(append([]mk{}, leaves...), one...), one[:g.Pick(20, len(one))])
	if g.Thorough() {
		two = append(two, grow(two[:len(two)/4], leaves)...)
	}
	var batch []ref.Node
	flush := func() {
		nodes := batch
		batch = nil
		if len(nodes) > 0 {
			g.Do(func(t *kit.T) { agree(t, env(), nodes, nil) })
		}
	}
	for _, x := range append(one, two...) {
		e := x()
		if p, ok := e.(*ref.Path); ok {
			batch = append(batch, ref.Out{P: p}, ref.Text("|"))
		} else {
			batch = append(batch, set("r", e), out("r"), ref.Text("|"))
		}
		if len(batch) >= 12 {
			flush()
		}
	}
	flush()
}

// C20Obj and the others have methods of every kind of signature.
type C20Obj struct {
	Name string
	N    int
}

func (o C20Obj) None() string             { trace("None %v", o); return "none" + o.Name }
func (o C20Obj) S(s string) string        { trace("S %v %v", o, s); return o.Name + s }
func (o C20Obj) SI(s string, i int) int   { trace("SI %v %v %v", o, s, i); return o.N + i }
func (o C20Obj) B(b bool, f float64) bool { trace("B %v %v %v", o, b, f); return !b }
func (o C20Obj) E(s string) (string, error) {
	trace("E %v %v", o, s)
	return s + o.Name, nil
}
func (o C20Obj) V(s string, x ...int) string { trace("V %v %v %v", o, s, x); return fmt.Sprint(s, x) }
func (o C20Obj) Self() C20Obj                { trace("Self %v", o); return C20Obj{o.Name + "s", o.N + 1} }
func (o C20Obj) Any(x interface{}) string    { trace("Any %v %T %v", o, x, x); return fmt.Sprint(x) }
func (o C20Obj) Ptr() *C20Obj                { trace("Ptr %v", o); return &C20Obj{o.Name + "p", o.N * 2} }
func (o C20Obj) Iface() C20Iface             { trace("Iface %v", o); return &C20Obj{o.Name + "i", o.N * 3} }
func (o *C20Obj) PNone() int                 { trace("PNone %v", *o); return o.N }
func (o *C20Obj) Bump(n int) int             { trace("Bump %v %v", *o, n); o.N += n; return o.N }
func (o *C20Obj) PSelf() *C20Obj             { trace("PSelf %v", *o); return o }
func (o *C20Obj) List(s string) []string     { trace("List %v %v", *o, s); return []string{o.Name, s} }
func (o *C20Obj) Obj(x *C20Obj) string       { trace("Obj %v %v", *o, x == o); return o.Name }
func (o *C20Obj) Val(x C20Obj) string        { trace("Val %v %v", *o, x); return x.Name + o.Name }

type C20Iface interface {
	S(s string) string
	Any(x interface{}) string
	PNone() int
	V(s string, x ...int) string
	PSelf() *C20Obj
}

type C20Str string

func (s C20Str) S(x string) string { trace("str S %v %v", s, x); return string(s) + x }
func (s C20Str) Len() int          { trace("str Len %v", s); return len(s) }

type C20Ints []int

func (s C20Ints) Sum(x int) int { trace("ints Sum %v %v", s, x); return len(s)*10 + x }

type C20Map map[string]int

func (s C20Map) At(k string) int { trace("map At %v %v", s, k); return s[k] }

type C20Num int

func (s C20Num) Plus(k int) int     { trace("num Plus %v %v", s, k); return int(s) + k }
func (s C20Num) Text() string       { trace("num Text %v", s); return fmt.Sprint(int(s)) }
func (s C20Num) Is(x C20Num) string { trace("num Is %v %v", s, x); return fmt.Sprint(s == x) }

type C20Wrap struct {
	C20Obj
	Pad string
}
type C20PWrap struct {
	Pad string
	*C20Obj
}

func c20Methods(g *kit.G) {
	V := ref.V
	m := func(name string, args ...ref.Expr) ref.Seg { return ref.Method{Name: name, Args: args} }
	value := [][]ref.Seg{
		{m("None")}, {m("S", lit("x"))}, {m("S", V("s"))}, {m("SI", V("s"), V("i"))}, {m("SI", lit("a b"), bin("+", V("i"), lit(1)))},
		{m("B", V("t"), V("f"))}, {m("B", ref.Not{X: V("t")}, lit(1.5))}, {m("E", V("s"))}, {m("V", V("s"))}, {m("V", lit("v"), V("i"), lit(2), V("i"))},
		{m("Self")}, {m("Self"), m("Self"), m("S", lit("q"))}, {m("Self"), ref.Field("Name")}, {m("Self"), ref.Field("N")}, {m("Any", V("s"))}, {m("Any", V("i"))}, {m("Any", lit(2))}, {m("Any", V("iface"))},
		{m("Ptr"), ref.Field("Name")}, {m("Ptr"), m("PNone")}, {m("Ptr"), m("S", V("s"))}, {m("Ptr"), m("PSelf"), m("List", lit("w")), ref.Index{X: lit(1)}},
		{m("Iface"), m("S", V("s"))}, {m("Iface"), m("PNone")}, {m("Iface"), m("Any", V("i"))}, {m("Iface"), m("PSelf"), ref.Field("Name")}, {m("Iface"), m("V", lit("a"), lit(1))},
	}
	pointer := append([][]ref.Seg{
		{m("PNone")}, {m("PSelf"), ref.Field("N")}, {m("PSelf"), m("PSelf"), m("S", V("s"))}, {m("List", V("s"))}, {m("List", V("s")), ref.Index{X: lit(0)}},
		{m("Bump", V("i"))}, {m("Bump", lit(2))}, {m("PSelf"), m("Bump", lit(3))}, {m("Obj", V("po"))}, {m("Val", V("vo"))},
	}, value...)
	iface := [][]ref.Seg{{m("S", V("s"))}, {m("Any", V("i"))}, {m("PNone")}, {m("V", V("s"))}, {m("V", lit("q"), V("i"), lit(4))}, {m("PSelf"), ref.Field("Name")}, {m("PSelf"), m("Bump", lit(1))}}
	obj := func() *C20Obj { return &C20Obj{"O", 4} }
	sets := []struct {
		rt    reflect.Type
		val   func() interface{}
		calls [][]ref.Seg
	}{
		{reflect.TypeOf(C20Obj{}), func() interface{} { return *obj() }, value},
		{reflect.TypeOf(&C20Obj{}), func() interface{} { return obj() }, pointer},
		{reflect.TypeOf((*C20Iface)(nil)).Elem(), func() interface{} { return obj() }, iface},
		{reflect.TypeOf((*C20Iface)(nil)).Elem(), func() interface{} { return &C20PWrap{"pad", obj()} }, iface},
		{reflect.TypeOf(C20Wrap{}), func() interface{} { return C20Wrap{*obj(), "pad"} }, value},
		{reflect.TypeOf(&C20Wrap{}), func() interface{} { return &C20Wrap{*obj(), "pad"} }, pointer},
		{reflect.TypeOf(C20PWrap{}), func() interface{} { return C20PWrap{"pad", obj()} }, pointer},
		{reflect.TypeOf(&C20PWrap{}), func() interface{} { return &C20PWrap{"pad", obj()} }, pointer},
		{reflect.TypeOf(C20Str("")), func() interface{} { return C20Str("str") }, [][]ref.Seg{{m("S", V("s"))}, {m("Len")}}},
		{reflect.TypeOf(C20Ints{}), func() interface{} { return C20Ints{1, 2} }, [][]ref.Seg{{m("Sum", V("i"))}}},
		{reflect.TypeOf(C20Map{}), func() interface{} { return C20Map{"k": 2} }, [][]ref.Seg{{m("At", lit("k"))}}},
		{reflect.TypeOf(C20Num(0)), func() interface{} { return C20Num(9) }, [][]ref.Seg{{m("Plus", V("i"))}, {m("Text")}, {m("Is", V("num"))}}},
	}
	for _, s := range sets {
		n := len(newPlaces(s.rt).places)
		for i := 0; i < n; i++ {
			for _, c := range s.calls {
				for use := 0; use < 4; use++ {
					s, i, c, use := s, i, c, use
					g.Do(func(t *kit.T) {
						pe := newPlaces(s.rt)
						for _, v := range []struct {
							n string
							v interface{}
						}{{"s", "S"}, {"i", 3}, {"t", true}, {"f", 2.5}, {"po", &C20Obj{"X", 1}}, {"vo", C20Obj{"Y", 2}}, {"num", C20Num(9)}} {
							pe.more(v.n, v.v)
						}
						pe.env.Vars = append(pe.env.Vars, ref.Var{Name: "iface", Type: anyT})
						p := pe.places[i].expr()
						p.Segs = append(append([]ref.Seg{}, p.Segs...), c...)
						var nodes []ref.Node
						switch use {
						case 0:
							nodes = []ref.Node{ref.Out{P: p}}
						case 1:
							nodes = []ref.Node{set("r", p), out("r"), ref.Text("|"), ref.Out{P: p}}
						case 2:
							nodes = []ref.Node{ref.Out{P: fcall("show", p)}}
							pe.env.Funcs["show"] = func(x interface{}) string { trace("show %T", x); return "shown" }
						case 3:
							nodes = []ref.Node{ref.Foreach{Item: "z", Over: ref.V("twice"), Body: []ref.Node{ref.Out{P: p}, ref.Text("/")}}}
						}
						pe.env.Vars = append(pe.env.Vars, ref.Var{Name: "twice", Type: reflect.TypeOf([]int{})})
						agreeFresh(t, pe.env, pe.places[i].wrap(nodes), func() []interface{} {
							return append(pe.set(s.val()), C20Num(5), []int{1, 2})
						})
					})
				}
			}
		}
	}
	// the same methods as a namespace
	for _, ns := range []interface{}{C20NS{C20Obj{"N", 1}}, &C20NS{C20Obj{"P", 2}}} {
		calls := value
		if reflect.TypeOf(ns).Kind() == reflect.Ptr {
			calls = pointer
		}
		for _, c := range append(calls, [][]ref.Seg{{m("Typed", V("s"))}, {m("Typed", V("s")), m("up")}, {m("TypedInts")}, {m("TypedInts"), ref.Index{X: lit(1)}}}...) {
			if mt := c[0].(ref.Method); mt.Name == "Obj" {
				continue
			}
			ns, c := ns, c
			g.Do(func(t *kit.T) {
				env := &ref.Env{Funcs: map[string]interface{}{"up": strings.ToUpper}, NS: map[string]interface{}{"ns": ns}, Vars: []ref.Var{
					{Name: "s", Val: "S"}, {Name: "i", Val: 3}, {Name: "t", Val: true}, {Name: "f", Val: 2.5}, {Name: "po", Val: &C20Obj{"X", 1}}, {Name: "vo", Val: C20Obj{"Y", 2}}, {Name: "iface", Type: anyT, Val: 7}}}
				if mt := c[0].(ref.Method); mt.Name == "Bump" || len(c) > 1 && mt.Name == "PSelf" {
					return // changes the namespace itself
				}
				p := &ref.Path{Root: "ns", Segs: c}
				agree(t, env, []ref.Node{ref.Out{P: p}, ref.Text("|"), set("r", p), out("r")}, nil)
			})
		}
	}
}

type C20NS struct{ C20Obj }

func (n C20NS) Typed(s string) interface{} { trace("Typed %v", s); return "t" + s }
func (n C20NS) TypedInts() interface{}     { trace("TypedInts"); return []int{4, 5} }
func (n C20NS) MethodResult(name string) reflect.Type {
	switch name {
	case "Typed":
		return strT
	case "TypedInts":
		return reflect.TypeOf([]int{})
	}
	return nil
}
func (n C20NS) MethodResultType(name string, _ *expr.Call) (reflect.Type, error) {
	return n.MethodResult(name), nil
}

// c20Misfits: calls with the wrong number of arguments, arguments of the wrong types, values of the wrong types in interfaces.
func c20Misfits(g *kit.G) {
	types := c20Params
	case1 := func(in []reflect.Type, args []reflect.Type, held []bool) {
		for form := range c20Forms {
			form := form
			if c20Forms[form].receiver && (len(args) == 0 || len(in) == 0) {
				continue
			}
			g.Do(func(t *kit.T) {
				env := &ref.Env{Funcs: map[string]interface{}{}, Vars: []ref.Var{{Name: "unused", Val: 1}}}
				var exprs []ref.Expr
				for i, a := range args {
					name := fmt.Sprintf("a%d", i)
					v := ref.Var{Name: name, Type: a, Val: c20Value(a, name, i).Interface()}
					if held != nil && held[i] {
						v.Type = anyT
					}
					env.Vars = append(env.Vars, v)
					exprs = append(exprs, ref.V(name))
				}
				p := c20Forms[form].call(env, "fn", c20Fn("fn", in, []reflect.Type{strT}, false), exprs)
				agree(t, env, []ref.Node{ref.Text("<"), ref.Out{P: p}, ref.Text(">")}, nil)
			})
		}
	}
	for _, a := range types {
		for _, b := range types {
			case1([]reflect.Type{a}, []reflect.Type{b}, nil)
			case1([]reflect.Type{a}, []reflect.Type{b}, []bool{true})
			case1([]reflect.Type{a}, []reflect.Type{a, b}, nil)
			case1([]reflect.Type{a, b}, []reflect.Type{a}, nil)
			case1([]reflect.Type{a, b}, []reflect.Type{}, nil)
			case1([]reflect.Type{a, b}, []reflect.Type{a, b, a}, nil)
			case1([]reflect.Type{}, []reflect.Type{a, b}, nil)
			for _, c := range types {
				case1([]reflect.Type{a, b}, []reflect.Type{a, c}, nil)
				case1([]reflect.Type{a, b}, []reflect.Type{c, b}, nil)
				case1([]reflect.Type{a, b}, []reflect.Type{a, c}, []bool{false, true})
				case1([]reflect.Type{a, b}, []reflect.Type{c, b}, []bool{true, false})
				case1([]reflect.Type{strT, a, b}, []reflect.Type{strT, a, c}, []bool{false, true, true})
			}
		}
	}
}
