package checks

import (
	"errors"
	"fmt"
	"html"
	"reflect"
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

// c02Sizes: n blocks, balanced and with one piece missing or one too many, at every place.
func c02Sizes(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "y", Val: true}, {Name: "l", Val: []int{1}}}}
	open := []string{"#if($y)", "#foreach($x in $l)", "#for($k = 0; $k < 1; $k++)"}
	check := func(src string, valid bool) {
		g.Do(func(t *kit.T) {
			t.Start(src)
			_, err, panicked := compileReal(env, src)
			t.Exec(1)
			t.Step(len(src))
			t.State(fmt.Sprint(err == nil), src)
			if panicked != "" {
				t.Failf("%v", panicked)
			} else if valid != (err == nil) {
				t.Failf("accepted: %v, want %v (%v)", err == nil, valid, err)
			}
			if !valid {
				t.Nontrivial()
			}
		})
	}
	ns := limits(g.Pick(40, 120), 257)
	for n := 1; n <= g.Pick(40, 120); n++ {
		ns = append(ns, n)
	}
	for _, n := range ns {
		if g.Stopped() {
			return
		}
		for form := 0; form < 4; form++ {
			var nested, row []string
			for i := 0; i < n; i++ {
				o := open[(i*(form%2)+form)%3]
				nested = append(nested, o)
				row = append(row, o, "t", "#end")
			}
			for i := 0; i < n; i++ {
				nested = append(nested, "#end")
			}
			for _, pieces := range [][]string{nested, row} {
				check(strings.Join(pieces, ""), true)
				for at := range pieces {
					if pieces[at] == "t" || !g.Thorough() && n > 20 && at%7 != form || n > 120 && at%(n/3) != form {
						continue
					}
					check(strings.Join(pieces[:at], "")+strings.Join(pieces[at+1:], ""), false)
					check(strings.Join(pieces[:at+1], "")+strings.Join(pieces[at:], ""), false)
				}
			}
		}
	}
	// every construct with n pieces, cut at every byte: no panic and no hang
	for _, n := range []int{1, 2, 9, 33} {
		for _, src := range []string{"#if($y" + strings.Repeat(" && $y", n) + ")a#end", "$nope" + strings.Repeat(".a[1](2)", n), "#set($q = " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n) + ")", "#if($y)a" + strings.Repeat("#elseif($y)b", n) + "#{else}c#end", strings.Repeat("##c\n#[[r]]#${l[0]}", n)} {
			for cut := 0; cut < len(src); cut++ {
				s := src[:cut]
				g.Do(func(t *kit.T) {
					t.Start(s)
					_, _, panicked := compileReal(env, s)
					t.Exec(1)
					t.State(s)
					if panicked != "" {
						t.Failf("%v", panicked)
					}
				})
			}
		}
	}
}

// c09Sizes: n statements of one kind, or of two in turn, in a block.
func c09Sizes(g *kit.G) {
	env := &ref.Env{Funcs: map[string]interface{}{"hit": func(i int) string { trace("hit %d", i); return fmt.Sprintf("h%d", i) }},
		Vars: []ref.Var{{Name: "yes", Val: true}, {Name: "n", Val: 0}, {Name: "list", Val: []int{1, 2}}}, Evals: map[string][]ref.Node{"[$n]": {ref.Text("["), out("n"), ref.Text("]")}}}
	kinds := []func(i int) []ref.Node{
		func(i int) []ref.Node { return []ref.Node{ref.Out{P: fcall("hit", lit(i))}} },
		func(i int) []ref.Node { return []ref.Node{set("n", bin("+", ref.V("n"), lit(1)))} },
		func(i int) []ref.Node {
			return []ref.Node{ref.Text("."), ref.If{Arms: []ref.Arm{{Cond: bin(">=", ref.V("n"), lit(i)), Body: []ref.Node{ref.Text(fmt.Sprint(i))}}}}}
		},
		func(i int) []ref.Node { return []ref.Node{out("n"), ref.Text(" ")} },
		func(i int) []ref.Node { return []ref.Node{ref.Eval{Arg: lit("[$n]")}} },
		func(i int) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "x", Over: ref.V("list"), Body: []ref.Node{set("n", bin("+", ref.V("n"), ref.V("x")))}}}
		},
	}
	wraps := []func(b []ref.Node) []ref.Node{
		func(b []ref.Node) []ref.Node { return b },
		func(b []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "z", Over: ref.V("list"), Body: b}}
		},
		func(b []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.Not{X: ref.V("yes")}, Body: []ref.Node{ref.Text("no")}}}, HasElse: true, Else: b}}
		},
	}
	for a := range kinds {
		for b := range kinds {
			for _, wrap := range wraps {
				a, b, wrap := a, b, wrap
				upto := g.Pick(70, 200)
				if a == b {
					upto = g.Pick(150, 500)
				}
				edges(g, upto, g.Pick(257, 513), func(t *kit.T, n int) {
					var body []ref.Node
					for i := 0; i < n; i++ {
						k := a
						if i%2 == 1 {
							k = b
						}
						body = append(body, kinds[k](i)...)
					}
					agree(t, env, append(wrap(body), out("n")), nil)
				})
			}
		}
	}
}

// c11Sizes: structs of n fields, every field read; pointers n deep.
func c11Sizes(g *kit.G) {
	leaf := []reflect.Type{reflect.TypeOf(0), strT, reflect.TypeOf(false), reflect.TypeOf(0.5), reflect.TypeOf(int8(0)), anyT, reflect.TypeOf((*int)(nil)), reflect.TypeOf(uint16(0)), reflect.TypeOf([]int{})}
	grid(g, g.Pick(70, 300), g.Pick(256, 1024), func(t *kit.T, n int) {
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: leaf[(i+i/9)%len(leaf)]})
		}
		st := reflect.StructOf(fs)
		v := reflect.New(st).Elem()
		var body, viaPtr []ref.Node
		for i := 0; i < n; i++ {
			switch f := v.Field(i); f.Kind() {
			case reflect.Interface:
				f.Set(reflect.ValueOf(fmt.Sprint("any", i)))
			case reflect.Ptr:
				k := i
				f.Set(reflect.ValueOf(&k))
			case reflect.Slice:
				f.Set(reflect.ValueOf([]int{i, -i}))
			case reflect.Int, reflect.Int8:
				f.SetInt(int64(i % 100))
			case reflect.Uint16:
				f.SetUint(uint64(i))
			default:
				setLeaf(f, i)
			}
			if v.Field(i).Kind() == reflect.Ptr {
				continue
			}
			body = append(body, out("v", fmt.Sprint("F", i)), ref.Text(" "))
			viaPtr = append(viaPtr, out("p", fmt.Sprint("F", i)), ref.Text(" "))
		}
		p := reflect.New(st)
		p.Elem().Set(v)
		env := &ref.Env{Vars: []ref.Var{{Name: "v", Type: st}, {Name: "p", Type: p.Type()}}}
		agree(t, env, append(body, viaPtr...), [][]interface{}{{v.Interface(), p.Interface()}})
	})
	edges(g, g.Pick(40, 120), 129, func(t *kit.T, n int) { // a chain of n pointers, complete and broken at every place
		env := &ref.Env{Vars: []ref.Var{{Name: "p", Type: reflect.TypeOf(&C14Item{})}}}
		p := path("p")
		for i := 0; i < n; i++ {
			p.Segs = append(p.Segs, ref.Field("Next"))
		}
		a := &ref.Path{Root: "p", Segs: append(append([]ref.Seg{}, p.Segs...), ref.Field("A"))}
		b := &ref.Path{Root: "p", Segs: append(append([]ref.Seg{}, p.Segs...), ref.Field("B"))}
		var sets [][]interface{}
		for length := 0; length <= n+1; length++ {
			var head *C14Item
			for i := length - 1; i >= 0; i-- {
				head = &C14Item{A: i + 1, B: fmt.Sprint("b", i), Next: head}
			}
			sets = append(sets, []interface{}{head})
		}
		agree(t, env, []ref.Node{ref.Out{P: a}, ref.Text("|"), ref.Out{P: b}, ref.Text("|"), set("q", a), out("q")}, sets)
	})
}

// c12Sizes: every index of slices and every key of maps of n elements, and containers nested n deep.
func c12Sizes(g *kit.G) {
	env := &ref.Env{Vars: []ref.Var{{Name: "l", Val: []string{}}, {Name: "b", Val: []int8{}}, {Name: "m", Val: map[int]string{}}, {Name: "s", Val: map[string]int{}}, {Name: "st", Val: []c12E{}}, {Name: "idx", Val: []int{}}, {Name: "keys", Val: []string{}}}}
	nodes := []ref.Node{
		ref.Foreach{Item: "i", Over: ref.V("idx"), Body: []ref.Node{out("l", ref.Index{X: ref.V("i")}), ref.Text(" "), out("b", ref.Index{X: ref.V("i")}), ref.Text(" "), out("m", ref.Index{X: ref.V("i")}), ref.Text(" "), out("st", ref.Index{X: ref.V("i")}, "N"), ref.Text(" "), out("st", ref.Index{X: ref.V("i")}, "A"), ref.Text(";")}},
		ref.Foreach{Item: "k", Over: ref.V("keys"), Body: []ref.Node{out("s", ref.Index{X: ref.V("k")}), ref.Text(",")}},
	}
	grid(g, g.Pick(200, 500), g.Pick(2048, 4096), func(t *kit.T, n int) {
		l, b, m, s, st, idx, keys := make([]string, n), make([]int8, n), map[int]string{}, map[string]int{}, make([]c12E, n), []int{}, []string{}
		for i := 0; i < n; i++ {
			l[i], b[i], m[i], s[fmt.Sprint("key", i)], st[i] = fmt.Sprint("e", i), int8(i), fmt.Sprint("m", i), i*3, c12E{A: fmt.Sprint("a", i), N: -i}
		}
		for i := 0; i < n; i++ {
			k := (i*7 + n/2) % n
			idx = append(idx, k)
			keys = append(keys, fmt.Sprint("key", k), fmt.Sprint("no", k))
		}
		agree(t, env, nodes, [][]interface{}{{l, b, m, s, st, idx, keys}})
	})
	grid(g, g.Pick(300, 1000), 4096, func(t *kit.T, n int) { // literal indexes
		l, m := make([]string, n+1), map[int]string{n: "there", n + 1: "next"}
		l[n] = "last"
		agree(t, env, []ref.Node{out("l", n), ref.Text(" "), out("m", n), out("m", n+1), out("m", n+2)}, [][]interface{}{{l, []int8{}, m, map[string]int{}, []c12E{}, []int{}, []string{}}})
	})
}

// c13Sizes: n declared variables of mixed types, some with aliases, one embedded; set and read in several orders.
func c13Sizes(g *kit.G) {
	vals := []interface{}{1, "s", 0.5, true, int8(3), uint16(4), []int{1, 2}, float32(2.5), C14Item{A: 1, B: "b"}, int64(9)}
	grid(g, g.Pick(80, 300), g.Pick(256, 1024), func(t *kit.T, n int) {
		env := &ref.Env{}
		var one, two []interface{}
		var nodes []ref.Node
		for i := 0; i < n; i++ {
			v := ref.Var{Name: fmt.Sprint("v", i), Val: vals[(i+i/10)%len(vals)]}
			if i%3 == 1 {
				v.Aliases = []string{fmt.Sprint("a", i), fmt.Sprint("A", i)}
			}
			env.Vars = append(env.Vars, v)
			one = append(one, v.Val)
			two = append(two, reflect.Zero(reflect.TypeOf(v.Val)).Interface())
		}
		for k := 0; k < n; k++ {
			i := (k*7 + 3) % n
			names := append([]string{env.Vars[i].Name}, env.Vars[i].Aliases...)
			for _, name := range names {
				if reflect.TypeOf(env.Vars[i].Val).Kind() == reflect.Struct {
					nodes = append(nodes, out(name, "A"), out(name, "B"), ref.Text(","))
				} else {
					nodes = append(nodes, ref.Out{P: &ref.Path{Root: name, Braced: true}}, ref.Text(","))
				}
			}
		}
		agree(t, env, nodes, [][]interface{}{one, two, one})
	})
}

// c14Outputs: executions whose outputs are of very different sizes, one after another on one state.
// c14Outputs: executions whose outputs are of very different sizes, one after another on one state.: one state executed n times, and n states alive at once.
func c14Outputs(g *kit.G) {
	sizes := []int{0, 1, 100, 1025, 5000, 70000, g.Pick(300000, 3000000)}
	for _, escape := range []bool{false, true} {
		for _, stop := range []bool{false, true} {
			for _, src := range []string{"$s", "<a>$s${r}#if($n > 0)$f($n)#end", "#foreach($x in $l)$x,#end$s", "#evaluate($e)${r}"} {
				escape, stop, src := escape, stop, src
				g.Do(func(t *kit.T) {
					t.Start(fmt.Sprintf("outputs of %v bytes in every order, escape %v, stop %v: %v", sizes, escape, stop, src))
					env := &ref.Env{Escape: escape, PanicOnError: stop, Vars: []ref.Var{{Name: "s", Val: ""}, {Name: "r", Val: ""}, {Name: "n", Val: 0}, {Name: "l", Val: []string{}}, {Name: "e", Val: ""}},
						Funcs: map[string]interface{}{"f": func(n int) (string, error) { return "", fmt.Errorf("f<%d>", n) }}}
					pl, err, panicked := compileReal(env, src)
					if err != nil || panicked != "" {
						t.Failf("compile: %v %v", err, panicked)
						return
					}
					esc := func(s string) string {
						if escape {
							return html.EscapeString(s)
						}
						return s
					}
					for _, release := range []bool{false, true} {
						st := pl.ns()
						type kept struct {
							text string
							want string
						}
						var before []kept
						// every pair of sizes follows each other: a walk over the complete graph
						var walk []int
						for i := range sizes {
							for j := range sizes {
								walk = append(walk, i, j)
							}
						}
						for step, i := range walk {
							s, n := strings.Repeat("<b>&", sizes[i]/4)+"<&\""[:sizes[i]%4], btoi(step%3 == 1)
							want := ""
							switch {
							case src == "$s":
								want = esc(s)
							case strings.HasPrefix(src, "<a>"):
								want = "<a>" + esc(s) + esc("r>")
							case strings.HasPrefix(src, "#foreach"):
								want = esc(s) + "," + esc("<") + "," + esc(s)
							default:
								want = "(" + esc(s) + ")" + esc("r>")
							}
							vals := []interface{}{s, "r>", n, []string{s, "<"}, "($s)"}
							if panicked = kit.Guard(func() {
								if err = setValues(env, st, vals); err == nil {
									err = pl.exec.Exec(st)
								}
							}); panicked != "" {
								t.Failf("step %d: %v", step, panicked)
								return
							}
							t.Exec(1)
							t.State(src, fmt.Sprint(i))
							got := st.Buffer.String()
							if got != want {
								t.Failf("step %d, %d bytes after %d: got %.60q (%d bytes), want %.60q (%d bytes)", step, sizes[i], sizes[walk[(step+len(walk)-1)%len(walk)]], got, len(got), want, len(want))
								return
							}
							if fails := n > 0 && strings.HasPrefix(src, "<a>"); (err != nil) != fails || fails && !strings.Contains(err.Error(), "f<1>") {
								t.Failf("step %d: error %v", step, err)
								return
							}
							if before = append(before, kept{got, want}); len(before) > 3 {
								before = before[1:]
							}
							if release {
								st.Release()
							}
							st.Reset()
							for _, k := range before {
								if k.text != k.want {
									t.Failf("step %d: an earlier output changed", step)
									return
								}
							}
						}
					}
					t.Nontrivial()
				})
			}
		}
	}
}

// c14Sizes: one state executed n times, and n states alive at once.
// c14Sizes: many executions of one state and many states.
func c14Sizes(g *kit.G) {
	env := c14Env()
	for pi, nodes := range c14Plans() {
		pi, nodes := pi, nodes
		g.Do(func(t *kit.T) {
			upto := g.Pick(400, 4000)
			t.Start(fmt.Sprintf("plan %d executed %d times on one state, and on %d states", pi, upto, upto))
			sys := c14Compile(t, env, [][]ref.Node{nodes}, false)
			if sys == nil {
				return
			}
			sys.newState(0)
			for i := 0; i < upto; i++ {
				sys.log = []string{fmt.Sprintf("one state, execution %d", i)}
				sys.reset(0)
				if !sys.setValues(0, 1+i*i%3%2) || !sys.exec(0) {
					return
				}
				if len(sys.kept) > 20 {
					if !sys.keptHold() {
						return
					}
					sys.kept = sys.kept[:1]
				}
			}
			sys.kept = nil
			for i := 1; i < upto/4; i++ {
				sys.log = []string{fmt.Sprintf("%d states", i)}
				sys.newState(0)
				if !sys.setValues(i, 1+i*i%3%2) || !sys.exec(i) || !sys.exec(i/2) {
					return
				}
				sys.reset(i / 2)
			}
			sys.keptHold()
		})
	}
}

// c19Sizes: n failing calls, of which every single one or all from it on fail.
func c19Sizes(g *kit.G) {
	for _, stop := range []bool{false, true} {
		for _, loop := range []bool{false, true} {
			stop, loop := stop, loop
			edges(g, g.Pick(60, 200), g.Pick(257, 1025), func(t *kit.T, n int) {
				t.Start(fmt.Sprintf("%d calls, in a loop %v, stop %v", n, loop, stop))
				from, to := 0, 0
				var raised []error
				env := &ref.Env{PanicOnError: stop, Vars: []ref.Var{{Name: "idx", Val: []int{}}}, Funcs: map[string]interface{}{"f": func(i int) (string, error) {
					if i >= from && i < to {
						raised = append(raised, fmt.Errorf("call %d", i))
						return "x", raised[len(raised)-1]
					}
					return fmt.Sprint(i), nil
				}}}
				src := "#foreach($i in $idx)$f($i),#end"
				if !loop {
					src = ""
					for i := 0; i < n; i++ {
						src += fmt.Sprintf("$f(%d),", i)
					}
				}
				var idx []int
				for i := 0; i < n; i++ {
					idx = append(idx, i)
				}
				pl, err, panicked := compileReal(env, src)
				if err != nil || panicked != "" {
					t.Failf("compile: %v %v", err, panicked)
					return
				}
				st := pl.ns()
				for from = 0; from < n; from++ {
					if n > 200 && from > 0 && from != n/2 && from != n-1 {
						continue
					}
					for _, to = range []int{from, from + 1, n, (from + n + 1) / 2} {
						raised = nil
						st.Reset()
						want := ""
						for i := 0; i < n; i++ {
							if i < from || i >= to {
								want += fmt.Sprint(i)
							} else if stop {
								break
							}
							want += ","
						}
						if panicked = kit.Guard(func() {
							if err = st.SetValue("idx", idx); err == nil {
								err = pl.exec.Exec(st)
							}
						}); panicked != "" {
							t.Failf("%v", panicked)
							return
						}
						t.Exec(1)
						t.State(fmt.Sprint(n, from, to))
						got := st.Buffer.String()
						switch {
						case to == from && (err != nil || got != want):
							t.Failf("no call fails: got %q %v, want %q", got, err, want)
						case to > from && (len(raised) == 0 || !wraps(err, raised[0]) || !errors.Is(err, raised[0])):
							t.Failf("calls %d to %d fail: error %v", from, to, err)
						case to > from && !stop && (len(raised) != to-from || got != want):
							t.Failf("calls %d to %d fail: got %q and %d errors, want %q", from, to, got, len(raised), want)
						case to > from && stop && (len(raised) != 1 || !strings.HasPrefix(got, want)):
							t.Failf("calls %d to %d fail: got %q and %d errors, want %q", from, to, got, len(raised), want)
						}
						if !stop && !t.Failed() && !listed(st.Errors, raised) {
							t.Failf("calls %d to %d fail: %d errors on the state, %d raised", from, to, len(st.Errors), len(raised))
						}
						if t.Failed() {
							return
						}
						t.Nontrivial()
					}
				}
			})
		}
	}
}

// c20Sizes: n arguments of a variadic function, calls nested n deep, chains of n methods, n calls in one template.
func c20Sizes(g *kit.G) {
	env := &ref.Env{Funcs: map[string]interface{}{
		"ints":  func(vs ...int) string { trace("ints %v", vs); return fmt.Sprint(vs) },
		"strs":  func(p string, vs ...string) string { trace("strs %v %q", p, vs); return fmt.Sprintf("%v%q", p, vs) },
		"anys":  func(vs ...interface{}) string { trace("anys %v", vs); return fmt.Sprint(vs...) },
		"inc":   func(i int) int { trace("inc %d", i); return i + 1 },
		"start": func() *c20Link { return &c20Link{} },
	}, Vars: []ref.Var{{Name: "i", Val: 7}, {Name: "s", Val: "str"}, {Name: "o", Val: &c20Link{}}}}
	for _, f := range []string{"ints", "strs", "anys"} {
		f := f
		grid(g, g.Pick(70, 300), 260, func(t *kit.T, n int) {
			var args []ref.Expr
			if f == "strs" {
				args = append(args, lit("p"))
			}
			for i := 0; i < n; i++ {
				switch {
				case f == "strs" && i%3 == 1 || f == "anys" && i%4 == 2:
					args = append(args, ref.V("s"))
				case f == "strs":
					args = append(args, lit(fmt.Sprint("a", i)))
				case i%3 == 1:
					args = append(args, ref.V("i"))
				default:
					args = append(args, lit(i))
				}
			}
			agree(t, env, []ref.Node{ref.Out{P: fcall(f, args...)}}, [][]interface{}{{7, "str", &c20Link{}}})
		})
	}
	edges(g, g.Pick(40, 120), 257, func(t *kit.T, n int) {
		var e ref.Expr = ref.V("i")
		for k := 0; k < n; k++ {
			e = fcall("inc", e)
		}
		agree(t, env, []ref.Node{set("r", e), out("r")}, [][]interface{}{{7, "str", &c20Link{}}})
	})
	edges(g, g.Pick(40, 120), 257, func(t *kit.T, n int) {
		for _, p := range []*ref.Path{path("o"), fcall("start")} {
			for k := 0; k < n; k++ {
				p.Segs = append(p.Segs, ref.Method{Name: "Then", Args: []ref.Expr{lit(k)}})
			}
			p.Segs = append(p.Segs, ref.Method{Name: "All"})
			agree(t, env, []ref.Node{ref.Out{P: p}}, [][]interface{}{{7, "str", &c20Link{}}})
		}
	})
	edges(g, g.Pick(130, 500), 1025, func(t *kit.T, n int) {
		var nodes []ref.Node
		for i := 0; i < n; i++ {
			nodes = append(nodes, ref.Out{P: fcall("inc", lit(i))}, ref.Text(","))
		}
		agree(t, env, nodes, [][]interface{}{{7, "str", &c20Link{}}})
	})
}

type c20Link struct {
	up *c20Link
	n  int
}

func (l *c20Link) Then(n int) *c20Link { trace("then %d", n); return &c20Link{l, n} }
func (l *c20Link) All() string {
	s := ""
	for ; l.up != nil; l = l.up {
		s = fmt.Sprint(l.n, ",") + s
	}
	return s
}

// c24Sizes: n templates compiled by one planner, each executed after every compilation.
func c24Sizes(g *kit.G) {
	menu := []string{"$x", "#set($y = $x + 1)$y", "#foreach($e in $l)$e,#end", "#if($x > 1)a#{else}b#end", "#set($z%d = %d)$z%d", "$z%d;", "#for($k = 0; $k < 2; $k++)$k#end", "$nope%d", "#set($w = %d)$w$x"}
	for _, first := range []int{0, 3, 5} {
		first := first
		g.Do(func(t *kit.T) {
			n := g.Pick(260, 600)
			t.Start(fmt.Sprintf("%d compilations from %d", n, first))
			env := &ref.Env{Vars: []ref.Var{{Name: "x", Val: 1}, {Name: "l", Val: []int{}}}}
			vals := []interface{}{5, []int{3, 4}}
			shared, err := newPlanner(env)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			var plans []*plan
			var want []ref.Outcome
			for i := 0; i < n; i++ {
				src := strings.ReplaceAll(menu[(i*5+first)%len(menu)], "%d", fmt.Sprint(i))
				own, err, panicked := compileReal(env, src)
				if err != nil || panicked != "" {
					t.Failf("%q: %v %v", src, err, panicked)
					return
				}
				w, panicked := own.run(vals)
				if panicked != "" {
					t.Failf("%q: %v", src, panicked)
					return
				}
				var pl *plan
				if panicked = kit.Guard(func() {
					ex, ns, cerr := shared.Compile([]byte(src))
					err, pl = cerr, &plan{env: env, exec: ex, ns: ns}
				}); err != nil || panicked != "" {
					t.Failf("compilation %d, %q: %v %v", i, src, err, panicked)
					return
				}
				plans, want = append(plans, pl), append(want, w)
				for _, k := range []int{i, 0, i / 2, i - 1, i - 64, i - 128, i - 256} {
					if k < 0 {
						continue
					}
					got, panicked := plans[k].run(vals)
					t.Exec(1)
					t.State(want[k].String())
					t.Nontrivial()
					if panicked != "" || !same(got, want[k]) {
						t.Failf("after %d compilations plan %d: got %v %v, want %v", i+1, k, got, panicked, want[k])
						return
					}
				}
			}
		})
	}
}
