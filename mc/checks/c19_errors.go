package checks

import (
	"errors"
	"fmt"
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C19",
		Level:    "model_checking",
		Rule:     "every pair and triple of places a call can fail in x block structures x every choice of which of them fail x both error modes, followed on the same state, reset, by every other choice; output, calls made, the error returned (the very error raised first) compared with the model; non-trivial = an error was raised",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "21 forms of failing call, all pairs x 9 structures x 2 modes x 4 choices of failures x 4 next choices; all triples in sequence, with 8 choices",
				kit.Thorough: "21 forms of failing call, all pairs x 9 structures x 2 modes x 4 choices of failures x 4 next choices; all triples in 4 structures, with 8 choices",
			}[t]
		},
		Assumptions: []string{"panics raised by the called functions themselves are not part of the property"},
		Parts: []kit.Part{
			interplayPart("C19"),
			{Name: "sizes", Gen: c19Sizes},
			{Name: "kinds", Gen: c19Kinds},
			{Name: "pairs", Gen: c19Pairs},
			{Name: "triples", Gen: c19Triples},
		},
	})
}

// c19Error is what failing calls return; the check recognises the instance.
type c19Error struct{ what string }

func (e *c19Error) Error() string { return "<" + e.what + ">" }

var c19Raised []error // by this execution, in order

func c19Fail(what string, n int) error {
	trace("%v %d", what, n)
	if n >= 0 {
		return nil
	}
	err := error(&c19Error{fmt.Sprintf("%v failed %d", what, n)})
	if n == -2 { // wrapped and as another type
		err = fmt.Errorf("wrapped %w", err)
	}
	c19Raised = append(c19Raised, err)
	return err
}

type C19Obj struct{ Name string }

func (o C19Obj) Fail(n int) (string, error) { return o.Name + "m", c19Fail("method", n) }
func (o *C19Obj) PFail(n int) (int, error)  { return 40 + n, c19Fail("pmethod", n) }
func (o C19Obj) Join(a, b string) string    { return a + o.Name + b }
func c19Env() *ref.Env {
	return &ref.Env{
		Funcs: map[string]interface{}{
			"str":    func(n int) (string, error) { return fmt.Sprintf("s%d", n), c19Fail("str", n) },
			"num":    func(n int) (int, error) { return n, c19Fail("num", n) },
			"flt":    func(n int) (float64, error) { return float64(n) + 0.5, c19Fail("flt", n) },
			"yes":    func(n int) (bool, error) { return true, c19Fail("yes", n) },
			"list":   func(n int) ([]string, error) { return []string{"l1", "l2"}, c19Fail("list", n) },
			"mk":     func(n int) (*C19Obj, error) { return &C19Obj{fmt.Sprintf("o%d", n)}, c19Fail("mk", n) },
			"mkv":    func(n int) (C19Obj, error) { return C19Obj{fmt.Sprintf("v%d", n)}, c19Fail("mkv", n) },
			"any":    func(n int) (interface{}, error) { return n, c19Fail("any", n) },
			"vari":   func(ns ...int) (int, error) { return len(ns), c19Fail("vari", ns[0]) },
			"two":    func(a string, n int) (string, error) { return a + "2", c19Fail("two", n) },
			"echo":   func(s string) string { trace("echo %v", s); return "(" + s + ")" },
			"strstr": func(s string) (string, error) { return s + "?", c19Fail("strstr "+s, -len(s)%2) },
		},
		Vars: []ref.Var{
			{Name: "e1", Val: 0}, {Name: "e2", Val: 0}, {Name: "e3", Val: 0}, {Name: "t1", Val: ""}, {Name: "t2", Val: ""}, {Name: "t3", Val: ""},
			{Name: "obj", Val: C19Obj{}}, {Name: "pobj", Val: &C19Obj{}}, {Name: "ls", Val: []string(nil)}, {Name: "pair", Val: []int(nil)}, {Name: "on", Val: false},
		},
		Evals: map[string][]ref.Node{},
	}
}

// c19Values: bit k of fails makes the k-th call fail.
func c19Values(fails int) []interface{} {
	e := func(k int) interface{} {
		if fails&(1<<uint(k)) != 0 {
			return -1 - k%2
		}
		return 1
	}
	s := func(k int) interface{} {
		if fails&(1<<uint(k)) != 0 {
			return "zz"
		}
		return "5"
	}
	return []interface{}{e(0), e(1), e(2), s(0), s(1), s(2), C19Obj{"O"}, &C19Obj{"P"}, []string{"L0", "L1", "L2"}, []int{1, 2}, true}
}

// c19Forms are the calls that may fail, for the k-th place.
func c19Forms() []func(env *ref.Env, k int) []ref.Node {
	e := func(k int) ref.Expr { return ref.V(fmt.Sprintf("e%d", k+1)) }
	o := func(p *ref.Path) ref.Node { return ref.Out{P: p} }
	cont := func(p *ref.Path, segs ...interface{}) *ref.Path {
		p.Segs = append(p.Segs, fpath("x", segs...).Segs...)
		return p
	}
	iff := func(c ref.Expr) ref.Node {
		return ref.If{Arms: []ref.Arm{{Cond: c, Body: []ref.Node{ref.Text("T")}}}, HasElse: true, Else: []ref.Node{ref.Text("F")}}
	}
	name := func(s string, k int) string { return fmt.Sprintf("%s%d", s, k) }
	type F = func(env *ref.Env, k int) []ref.Node
	one := func(f func(k int) ref.Node) F {
		return func(_ *ref.Env, k int) []ref.Node { return []ref.Node{f(k)} }
	}
	ev := func(f func(k int) []ref.Node) F {
		return func(env *ref.Env, k int) []ref.Node {
			body := f(k)
			env.Evals[ref.Print(body)] = body
			return []ref.Node{ref.Eval{Arg: lit(ref.Print(body))}}
		}
	}
	return []F{
		one(func(k int) ref.Node { return o(fcall("str", e(k))) }),
		func(_ *ref.Env, k int) []ref.Node {
			return []ref.Node{set(name("r", k), fcall("num", e(k))), out(name("r", k))}
		},
		one(func(k int) ref.Node { return iff(bin("==", fcall("str", e(k)), lit("s1"))) }),
		one(func(k int) ref.Node { return o(fcall("echo", fcall("str", e(k)))) }),
		one(func(k int) ref.Node { return out("obj", ref.Method{Name: "Fail", Args: []ref.Expr{e(k)}}) }),
		one(func(k int) ref.Node {
			return ref.Foreach{Item: "x", Over: fcall("list", e(k)), Body: []ref.Node{out("x"), ref.Text(",")}}
		}),
		ev(func(k int) []ref.Node { return []ref.Node{ref.Text("<"), o(fcall("str", e(k))), ref.Text(">")} }),
		func(_ *ref.Env, k int) []ref.Node {
			return []ref.Node{set(name("c", k), lit(7)), set(name("c", k), ref.V(name("t", k+1))), out(name("c", k))}
		},
		one(func(k int) ref.Node { return o(cont(fcall("mk", e(k)), "Name")) }),
		// the others
		one(func(k int) ref.Node {
			return out("ls", ref.Index{X: fcall("num", e(k))})
		}),
		one(func(k int) ref.Node {
			v := name("k", k)
			return ref.For{Var: v, From: lit(0), Cond: bin("<", ref.V(v), fcall("num", e(k))), Post: "++", Body: []ref.Node{out(v)}}
		}),
		one(func(k int) ref.Node { return iff(fcall("yes", e(k))) }),
		one(func(k int) ref.Node {
			return ref.If{Arms: []ref.Arm{{Cond: ref.Not{X: ref.V("on")}, Body: []ref.Node{ref.Text("A")}}, {Cond: fcall("yes", e(k)), Body: []ref.Node{ref.Text("B")}}}, HasElse: true, Else: []ref.Node{ref.Text("C")}}
		}),
		func(_ *ref.Env, k int) []ref.Node {
			return []ref.Node{set(name("z", k), bin("+", fcall("flt", e(k)), bin("*", lit(2), fcall("flt", e(k))))), out(name("z", k))}
		},
		one(func(k int) ref.Node { return o(fcall("any", e(k))) }),
		one(func(k int) ref.Node { return o(fcall("vari", e(k), lit(3))) }),
		one(func(k int) ref.Node { return o(fcall("two", fcall("str", e(k)), e(k))) }),
		one(func(k int) ref.Node {
			return o(cont(fcall("mkv", e(k)), ref.Method{Name: "Join", Args: []ref.Expr{lit("a"), fcall("str", e(k))}}))
		}),
		one(func(k int) ref.Node { return out("pobj", ref.Method{Name: "PFail", Args: []ref.Expr{e(k)}}) }),
		ev(func(k int) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "q", Over: ref.V("pair"), Body: []ref.Node{out("q"), o(fcall("str", e(k)))}}}
		}),
		one(func(k int) ref.Node { return iff(bin("&&", fcall("yes", e(k)), ref.V("on"))) }),
	}
}

// c19Structures place the calls.
func c19Structures() []func(env *ref.Env, parts ...[]ref.Node) []ref.Node {
	tx := func(s string) []ref.Node { return []ref.Node{ref.Text(s)} }
	join := func(parts ...[]ref.Node) (res []ref.Node) {
		for _, p := range parts {
			res = append(res, p...)
		}
		return res
	}
	all := func(parts [][]ref.Node) (res []ref.Node) {
		res = tx("<a>")
		for _, p := range parts {
			res = append(res, p...)
			res = append(res, ref.Text("|"))
		}
		return res
	}
	type S = func(env *ref.Env, parts ...[]ref.Node) []ref.Node
	return []S{
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node { return all(parts) },
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join(tx("a"), []ref.Node{ref.Foreach{Item: "i", Over: ref.V("pair"), Body: append(all(parts), out("i"))}}, tx("<z>"))
		},
		func(env *ref.Env, parts ...[]ref.Node) []ref.Node {
			body := all(parts)
			env.Evals[ref.Print(body)] = body
			env.Vars = append(env.Vars, ref.Var{Name: "text", Val: ref.Print(body)})
			return join(tx("a"), []ref.Node{ref.Eval{Arg: ref.V("text")}}, tx("<z>"))
		},
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join(tx("a"), []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("on"), Body: parts[0]}}, HasElse: true, Else: tx("never")}}, tx("<m>"), all(parts[1:]))
		},
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join([]ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.Not{X: ref.V("on")}, Body: tx("never")}}, HasElse: true, Else: parts[0]}}, parts[1], tx("<z>"))
		},
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join([]ref.Node{ref.For{Var: "w", From: lit(0), Cond: bin("<", ref.V("w"), lit(2)), Post: "++", Body: join(parts[0], tx("<w>"), []ref.Node{ref.If{Arms: []ref.Arm{{Cond: bin("==", ref.V("w"), lit(1)), Body: parts[1]}}}})}}, tx("<z>"))
		},
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join(parts[0], []ref.Node{ref.Foreach{Item: "i", Over: ref.V("pair"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: bin(">", ref.V("i"), lit(1)), Body: parts[1]}}}, out("i")}}}, parts[0])
		},
		func(env *ref.Env, parts ...[]ref.Node) []ref.Node {
			env.Evals[ref.Print(parts[1])] = parts[1]
			env.Vars = append(env.Vars, ref.Var{Name: "text", Val: ref.Print(parts[1])})
			return join(parts[0], []ref.Node{ref.Foreach{Item: "i", Over: ref.V("pair"), Body: []ref.Node{ref.Eval{Arg: ref.V("text")}, ref.Text(";")}}}, parts[0])
		},
		func(_ *ref.Env, parts ...[]ref.Node) []ref.Node {
			return join(parts[0], tx(" "), parts[1], tx(" "), parts[0], tx(" "), parts[1], []ref.Node{out("e1")}, tx("<x>"), []ref.Node{out("e2"), out("on")}, parts[1], []ref.Node{out("ls"), ref.Text("-"), out("on")}, tx("/1"), tx("2"), tx("3"), []ref.Node{out("e1")}, parts[0], tx("<z>")) // a long block
		},
	}
}

func c19Pairs(g *kit.G) {
	forms, structures := c19Forms(), c19Structures()
	for i := range forms {
		for j := range forms {
			for _, st := range structures {
				for _, stop := range []bool{false, true} {
					i, j, st, stop := i, j, st, stop
					g.Do(func(t *kit.T) {
						env := c19Env()
						env.PanicOnError = stop
						c19Case(t, env, st(env, forms[i](env, 0), forms[j](env, 1)), 2)
					})
				}
			}
		}
	}
}

func c19Triples(g *kit.G) {
	forms, structures := c19Forms(), c19Structures()
	n, ns := len(forms), g.Pick(1, 4)
	for i := range forms[:n] {
		for j := range forms[:n] {
			for k := range forms[:n] {
				for _, st := range structures[:ns] {
					for _, stop := range []bool{false, true} {
						i, j, k, st, stop := i, j, k, st, stop
						g.Do(func(t *kit.T) {
							env := c19Env()
							env.PanicOnError = stop
							c19Case(t, env, st(env, forms[i](env, 0), forms[j](env, 1), forms[k](env, 2)), 3)
						})
					}
				}
			}
		}
	}
}

func c19Case(t *kit.T, env *ref.Env, nodes []ref.Node, n int) {
	src := ref.Print(nodes)
	t.Start(fmt.Sprintf("panic-on-error %v: %v", env.PanicOnError, src))
	must(env, nodes)
	prog, _ := env.Compile(nodes)
	pl, err, panicked := compileReal(env, src)
	if err != nil || panicked != "" {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	values := func(fails int) []interface{} {
		vals := c19Values(fails)
		if len(env.Vars) > len(vals) {
			vals = append(vals, env.Vars[len(vals)].Val)
		}
		return vals
	}
	kept := pl.ns()
	first := true
	// every choice follows every other on the same state
	for a := 0; a < 1<<uint(n); a++ {
		for b := 0; b < 1<<uint(n); b++ {
			for _, fails := range []int{a, b} {
				c19Raised = nil
				traceReset()
				want := prog.RunWith(values(fails))
				t.Step(prog.Steps)
				raised := prog.Errs
				if env.PanicOnError { //the error returned is the only one
					raised = nil
				}
				wantTrace := strings.Join(traceGet(), ";")
				nraised := len(c19Raised)
				c19Raised = nil
				traceReset()
				st := kept
				if first {
					st = pl.ns()
				} else {
					st.Reset()
				}
				first = !first
				var execErr error
				panicked := kit.Guard(func() {
					if err := setValues(env, st, values(fails)); err != nil {
						t.Failf("%v", err)
						return
					}
					execErr = pl.exec.Exec(st)
				})
				t.Exec(1)
				note := fmt.Sprintf("failing %b after %b: ", fails, a)
				if panicked != "" {
					t.Failf("%v%v", note, panicked)
					return
				}
				t.State(want.String())
				if want.Err != "" {
					t.Nontrivial()
				}
				if got := st.Buffer.String(); got != want.Out {
					t.Failf("%vgot %q (error %v), want %v", note, got, execErr, want)
					return
				}
				if got := strings.Join(traceGet(), ";"); got != wantTrace {
					t.Failf("%vcalls %v, want %v", note, got, wantTrace)
					return
				}
				if (execErr != nil) != (want.Err != "") {
					t.Failf("%verror %v, want %q", note, execErr, want.Err)
					return
				}
				if want.Err != "" && !strings.Contains(execErr.Error(), want.Err) {
					t.Failf("%verror %v, want %q", note, execErr, want.Err)
					return
				}
				if len(c19Raised) != nraised {
					t.Failf("%v%d errors raised, want %d", note, len(c19Raised), nraised)
					return
				}
				// a conversion may have failed before the first call did
				if nraised > 0 && c19Raised[0].Error() == want.Err && !errors.Is(execErr, c19Raised[0]) {
					t.Failf("%vthe error returned (%v) does not wrap the one raised first", note, execErr)
					return
				}
				for i, err := range raised {
					if len(st.Errors) != len(raised) || !strings.Contains(st.Errors[i].Error(), err.Error()) {
						t.Failf("%verrors %v on the state, %v raised", note, st.Errors, raised)
						return
					}
				}
				if want.Err == "" && len(st.Errors) != 0 {
					t.Failf("%verrors %v left on the state", note, st.Errors)
					return
				}
			}
		}
	}
}
