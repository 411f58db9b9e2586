package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty/est"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C14",
		Level:    "model_checking",
		Rule:     "every history of creating, setting, executing and resetting up to three states of two plans, for every pair of plans of a menu, each operation compared with the model (output, error, values of the variables), outputs and errors of earlier executions staying what they were; non-trivial = an execution rendered something",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "all pairs of 17 plans (of one or of two planners) x all histories of 6 operations (new, set to 2 value sets, exec, reset) over <=3 states; again with panic-on-error and escaping, 5 operations; each plan executed 3 times on each of 3 value sets with every other plan in between; outputs of 0 bytes to 300 KB (thorough 3 MB) in every order, reset or released in between",
				kit.Thorough: "all pairs of 17 plans (of one or of two planners) x all histories of 7 operations (new, set to 2 value sets, exec, reset) over <=3 states; again with panic-on-error and escaping, 6 operations; each plan executed 3 times on each of 3 value sets with every other plan in between; outputs of 0 bytes to 300 KB (thorough 3 MB) in every order, reset or released in between",
			}[t]
		},
		Assumptions: []string{"the memory of a state is what was set on it and what its executions assigned: resetting clears the output and the errors, not the variables", "a pointer set on two states is shared by them"},
		Parts: []kit.Part{
			{Name: "outputs", Gen: c14Outputs},
			{Name: "sizes", Gen: c14Sizes},
			{Name: "histories", Gen: c14Gen},
		},
	})
}

// C14Item is what the plans work on.
type C14Item struct {
	A    int
	B    string
	Next *C14Item
}

func (i C14Item) Label() string   { return "<" + i.B + ">" }
func (i *C14Item) PLabel() string { return "*" + i.B }

func boom(n int) (string, error) {
	trace("boom %d", n)
	if n < 0 {
		return "", fmt.Errorf("boom %d", n)
	}
	return fmt.Sprintf("ok%d", n), nil
}

func echo(s string) string { trace("echo %v", s); return s }

func c14Funcs() map[string]interface{} {
	return map[string]interface{}{"boom": boom, "echo": echo}
}

func c14Env() *ref.Env {
	return &ref.Env{
		Funcs: c14Funcs(),
		Evals: c14Evals,
		Vars: []ref.Var{
			{Name: "n", Val: 0}, {Name: "c", Val: false}, {Name: "s", Val: ""}, {Name: "f", Val: 0.0}, {Name: "u8", Val: uint8(0)},
			{Name: "p", Val: (*C14Item)(nil)}, {Name: "v", Val: C14Item{}}, {Name: "list", Val: []int(nil)}, {Name: "items", Val: []*C14Item(nil)},
			{Name: "m", Val: map[string]int(nil)}, {Name: "i", Type: anyT},
		},
	}
}

// c14Values builds the values of a value set anew.
func c14Values(set int) []interface{} {
	switch set {
	case 1:
		return []interface{}{3, true, "x$n", 2.5, uint8(7), &C14Item{A: 4, B: "b", Next: &C14Item{A: 5}}, C14Item{A: 6, B: "v"}, []int{1, 2}, []*C14Item{{A: 1, B: "q"}, {A: 2}}, map[string]int{"k": 9}, "if"}
	case 2:
		return []interface{}{-2, false, "#set($q = 3)<$q>", -0.5, uint8(0), &C14Item{A: -1, B: "<&>"}, C14Item{B: "w"}, []int{5}, []*C14Item(nil), map[string]int{}, 12}
	}
	return []interface{}{0, false, "", 0.0, uint8(0), (*C14Item)(nil), C14Item{}, []int(nil), []*C14Item(nil), map[string]int(nil), nil}
}

var c14Evals = map[string][]ref.Node{
	"x$n":              {ref.Text("x"), ref.Out{P: path("n")}},
	"#set($q = 3)<$q>": {ref.Set{Target: path("q"), Val: lit(3)}, ref.Text("<"), ref.Out{P: path("q")}, ref.Text(">")},
	"$n;":              {ref.Out{P: path("n")}, ref.Text(";")},
	"$boom($n)":        {ref.Out{P: fcall("boom", ref.V("n"))}},
}

func lit(v interface{}) ref.Expr { return ref.Lit{V: v} }
func fcall(name string, args ...ref.Expr) *ref.Path {
	return &ref.Path{Root: name, Call: true, Args: args}
}
func fpath(root string, segs ...interface{}) *ref.Path {
	p := path(root)
	for _, s := range segs {
		switch a := s.(type) {
		case string:
			p.Segs = append(p.Segs, ref.Field(a))
		case int:
			p.Segs = append(p.Segs, ref.Index{X: ref.Lit{V: a}})
		default:
			p.Segs = append(p.Segs, a)
		}
	}
	return p
}
func bin(op string, l, r ref.Expr) ref.Expr         { return ref.Bin{Op: op, L: l, R: r} }
func set(name string, v ref.Expr) ref.Node          { return ref.Set{Target: path(name), Val: v} }
func out(root string, segs ...interface{}) ref.Node { return ref.Out{P: fpath(root, segs...)} }

// c14Plans are the templates of the histories. Each assigns what it introduces before reading it.
func c14Plans() [][]ref.Node {
	V := ref.V
	sep := ref.Text("|")
	return [][]ref.Node{
		{out("n"), sep, out("s"), sep, out("c"), sep, out("f"), sep, out("u8")},
		{set("x", bin("+", bin("*", V("n"), lit(2)), lit(1))), out("x"), ref.If{Arms: []ref.Arm{{Cond: bin(">", V("x"), lit(4)), Body: []ref.Node{ref.Text("big")}}}}},
		{ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{set("y", V("n"))}}}, HasElse: true, Else: []ref.Node{set("y", lit(9))}}, out("y")},
		{set("sum", lit(0)), ref.Foreach{Item: "e", Over: V("list"), Body: []ref.Node{set("sum", bin("+", V("sum"), V("e"))), out("e"), ref.Text(",")}}, out("sum")},
		{ref.For{Var: "k", From: lit(0), Cond: bin("<", V("k"), V("n")), Post: "++", Body: []ref.Node{ref.Foreach{Item: "e", Over: V("list"), Body: []ref.Node{out("k"), out("e"), ref.Text(" ")}}}}},
		{set("n", bin("+", V("n"), lit(1))), out("n")},
		{ref.Set{Target: fpath("p", "A"), Val: bin("+", fpath("p", "A"), V("n"))}, out("p", "A"), sep, out("p", "Next", "A"), sep, out("p", "B")},
		{ref.Set{Target: fpath("p", "Next", "B"), Val: lit("nb")}, out("p", "Next", "B"), ref.Set{Target: fpath("v", "A"), Val: V("n")}, out("v", "A"), out("v", "B")},
		{set("s", bin("+", V("s"), lit("<t>"))), out("s")},
		{ref.Text("a"), ref.Out{P: fcall("boom", V("n"))}, ref.Text("b"), ref.Out{P: fcall("boom", lit(1))}, ref.Text("c")},
		{ref.Eval{Arg: V("s")}, sep, set("n", lit(7)), ref.Eval{Arg: lit("$n;")}},
		{out("p"), sep, out("v"), sep, out("list"), sep, out("m"), sep, out("i"), sep, out("items")},
		{set("t", lit("k")), set("t", bin("+", V("t"), V("s"))), out("t"), sep, set("t", lit("k")), out("t")},
		{ref.Out{P: fcall("echo", lit("a"))}, ref.Out{P: fcall("echo", V("s"))}, out("v", ref.Method{Name: "Label"}), ref.Foreach{Item: "it", Over: V("items"), Body: []ref.Node{out("it", "A"), out("it", ref.Method{Name: "PLabel"})}}},
		{out("m", ref.Index{X: lit("k")}), sep, set("g", bin("/", V("f"), lit(0.5))), out("g"), sep, set("b", bin("&&", V("c"), bin(">", V("n"), lit(1)))), out("b")},
		{ref.Foreach{Item: "it", Over: V("items"), Body: []ref.Node{ref.Set{Target: fpath("it", "A"), Val: bin("*", fpath("it", "A"), lit(2))}, ref.If{Arms: []ref.Arm{{Cond: bin("==", fpath("it", "B"), lit("q")), Body: []ref.Node{ref.Text("Q")}}}}, out("it", "A"), ref.Text(";")}}},
		{ref.Eval{Arg: lit("$boom($n)")}, set("h", V("i")), out("h"), ref.Out{P: fcall("boom", V("n"))}},
	}
}

// c14System is a running history: real states and their models.
type c14System struct {
	t     *kit.T
	env   *ref.Env
	plans []*plan
	progs []*ref.Prog
	srcs  []string
	live  []*c14State
	log   []string
	kept  []c14Kept // results of earlier executions
}

// c14Kept is what an execution gave away: it stays as it was whatever the state does next.
type c14Kept struct {
	got, want string
	err       error
	errWant   string
}

func (s *c14System) keptHold() bool {
	for i, k := range s.kept {
		if k.got != k.want {
			s.t.Failf("%vthe output of execution %d changed from %q to %q", s.note(), i, k.want, k.got)
			return false
		}
		if k.err != nil && k.err.Error() != k.errWant {
			s.t.Failf("%vthe error of execution %d changed from %q to %q", s.note(), i, k.errWant, k.err.Error())
			return false
		}
	}
	return true
}

type c14State struct {
	plan    int
	real    *est.State
	model   *ref.Mem
	out     string
	errored bool
}

func (s *c14System) note() string { return strings.Join(s.log, ", ") + ": " }

func (s *c14System) newState(p int) {
	s.live = append(s.live, &c14State{plan: p, real: s.plans[p].ns(), model: s.progs[p].NewMem()})
}

func (s *c14System) setValues(k, set int) bool {
	st := s.live[k]
	for i, v := range c14Values(set) {
		if err := st.real.SetValue(s.env.Vars[i].Name, v); err != nil {
			s.t.Failf("%vSetValue(%v): %v", s.note(), s.env.Vars[i].Name, err)
			return false
		}
	}
	st.model.Set(c14Values(set))
	return true
}

func (s *c14System) reset(k int) {
	st := s.live[k]
	st.real.Reset()
	st.out, st.errored = "", false
}

func (s *c14System) exec(k int) bool {
	st := s.live[k]
	traceReset()
	want := st.model.Exec()
	wantTrace := strings.Join(traceGet(), ";")
	traceReset()
	err := s.plans[st.plan].exec.Exec(st.real)
	s.t.Exec(1)
	s.t.Step(s.progs[st.plan].Steps)
	st.out += want.Out
	if st.out != "" {
		s.t.Nontrivial()
	}
	s.t.State(s.srcs[st.plan], st.out, want.Err)
	got := st.real.Buffer.String()
	if got != st.out {
		s.t.Failf("%voutput %q, want %q", s.note(), got, st.out)
		return false
	}
	kept := c14Kept{got: got, want: st.out, err: err}
	if err != nil {
		kept.errWant = err.Error()
	}
	s.kept = append(s.kept, kept)
	if got := strings.Join(traceGet(), ";"); got != wantTrace {
		s.t.Failf("%vfunctions called %v, want %v", s.note(), got, wantTrace)
		return false
	}
	switch {
	case want.Err != "" && !st.errored:
		if err == nil || !strings.Contains(err.Error(), want.Err) {
			s.t.Failf("%verror %v, want %v", s.note(), err, want.Err)
			return false
		}
	case want.Err != "":
		if err == nil {
			s.t.Failf("%vno error, want %v", s.note(), want.Err)
			return false
		}
	case !st.errored && err != nil:
		s.t.Failf("%verror %v, want none", s.note(), err)
		return false
	}
	st.errored = st.errored || want.Err != ""
	// the values of the declared variables
	for i, v := range s.env.Vars {
		f, ok := st.real.StateType.ValueAccessor(v.Name)
		if !ok {
			s.t.Failf("%v%v is not accessible", s.note(), v.Name)
			return false
		}
		got := reflect.NewAt(f.Type, f.Pointer(st.real.MemPtr)).Elem().Interface()
		if want := st.model.Get(i); !reflect.DeepEqual(got, want) {
			g, _ := json.Marshal(got)
			w, _ := json.Marshal(want)
			s.t.Failf("%v%v is %s, want %s", s.note(), v.Name, g, w)
			return false
		}
	}
	return true
}

// compile compiles the plans, all on one planner or each on its own.
func c14Compile(t *kit.T, env *ref.Env, nodes [][]ref.Node, one bool) *c14System {
	s := &c14System{t: t, env: env}
	if one {
		p, err := newPlanner(env)
		if err != nil {
			t.Failf("declaring: %v", err)
			return nil
		}
		for _, n := range nodes {
			ex, ns, err := p.Compile([]byte(ref.Print(n)))
			if err != nil {
				t.Failf("compile %q: %v", ref.Print(n), err)
				return nil
			}
			s.plans = append(s.plans, &plan{env: env, exec: ex, ns: ns})
		}
	}
	for _, n := range nodes {
		prog, err := env.Compile(n)
		if err != nil {
			panic(err)
		}
		s.progs = append(s.progs, prog)
		s.srcs = append(s.srcs, ref.Print(n))
		if !one {
			pl, err, panicked := compileReal(env, ref.Print(n))
			if err != nil || panicked != "" {
				t.Failf("compile %q: %v %v", ref.Print(n), err, panicked)
				return nil
			}
			s.plans = append(s.plans, pl)
		}
	}
	return s
}

func c14Gen(g *kit.G) {
	menu := c14Plans()
	for mode := 0; mode < 2; mode++ {
		mode := mode
		depth := g.Pick(6, 7) - mode
		for i := range menu {
			for j := range menu {
				i, j := i, j
				if j < i && mode == 0 {
					continue
				}
				g.Do(func(t *kit.T) { c14Pair(t, menu[i], menu[j], i == j, depth, mode, j >= i) })
			}
		}
	}
	g.Do(func(t *kit.T) { c14Rounds(t, menu) })
}

// c14Pair runs every history over two plans. With one set both come from one planner (the templates introduce different
// variables or give them the same types, so that sharing the planner is not visible).
func c14Pair(t *kit.T, a, b []ref.Node, equal bool, depth, mode int, one bool) {
	env := c14Env()
	env.PanicOnError, env.Escape = mode == 1, mode == 1
	nodes := [][]ref.Node{a, b}
	if equal {
		nodes = nodes[:1]
	}
	id := ref.Print(a)
	if !equal {
		id += "  and  " + ref.Print(b)
	}
	t.Start(fmt.Sprintf("mode %d one planner %v: %v", mode, one, id))
	var sys *c14System
	panicked := kit.Guard(func() { sys = c14Compile(t, env, nodes, one) })
	if panicked != "" {
		t.Failf("compile: %v", panicked)
	}
	if sys == nil || panicked != "" {
		return
	}
	type op struct{ kind, k, arg int } // 0 new(plan), 1 set, 2 exec, 3 reset
	seq := make([]op, 0, depth)
	n := 0
	var run func()
	runOne := func() bool {
		sys.live, sys.log, sys.kept = nil, nil, sys.kept[:0]
		for _, o := range seq {
			switch o.kind {
			case 0:
				sys.log = append(sys.log, fmt.Sprintf("new(%d)", o.arg))
				sys.newState(o.arg)
			case 1:
				sys.log = append(sys.log, fmt.Sprintf("set(%d,%d)", o.k, o.arg))
				if !sys.setValues(o.k, o.arg) {
					return false
				}
			case 2:
				sys.log = append(sys.log, fmt.Sprintf("exec(%d)", o.k))
				if !sys.exec(o.k) {
					return false
				}
			case 3:
				sys.log = append(sys.log, fmt.Sprintf("reset(%d)", o.k))
				sys.reset(o.k)
			}
		}
		return sys.keptHold()
	}
	stop := false
	states := 0
	dirty := [3]int{} // what was last done to a state
	run = func() {
		if stop {
			return
		}
		if len(seq) == depth {
			if seq[depth-1].kind != 2 {
				return
			}
			n++
			if p := kit.Guard(func() { stop = !runOne() }); p != "" {
				t.Failf("%v%v", sys.note(), p)
				stop = true
			}
			return
		}
		if states < 3 {
			for p := range nodes {
				k := states
				states++
				dirty[k] = 0
				seq = append(seq, op{0, k, p})
				run()
				seq = seq[:len(seq)-1]
				states--
			}
		}
		for k := 0; k < states; k++ {
			was := dirty[k]
			for _, o := range []op{{1, k, 1}, {1, k, 2}, {2, k, 0}, {3, k, 0}} {
				if o.kind == 1 && was == 1 || o.kind == 3 && (was == 3 || was == 0) {
					continue // no news
				}
				dirty[k] = o.kind
				seq = append(seq, o)
				run()
				seq = seq[:len(seq)-1]
				dirty[k] = was
			}
		}
	}
	run()
}

// c14Rounds executes every plan on every value set three times, all others in between.
func c14Rounds(t *kit.T, menu [][]ref.Node) {
	t.Start("rounds")
	for _, one := range []bool{true, false} {
		sys := c14Compile(t, c14Env(), menu, one)
		if sys == nil {
			return
		}
		for round := 0; round < 3; round++ {
			for p := range menu {
				for v := 0; v < 3; v++ {
					sys.log = []string{fmt.Sprintf("round %d plan %q set %d", round, sys.srcs[p], v)}
					sys.newState(p)
					k := len(sys.live) - 1
					if !sys.setValues(k, v) || !sys.exec(k) {
						return
					}
				}
			}
		}
		if !sys.keptHold() {
			return
		}
	}
}
