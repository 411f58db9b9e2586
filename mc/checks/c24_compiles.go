package checks

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C24",
		Level:    "model_checking",
		Rule:     "every sequence of compilations (of valid and of failing templates), declarations and scope copies over one planner and a copy of it; after each, every plan compiled so far is executed on a new and on a kept state and compared with the same template compiled alone by the model with what was declared at that point; non-trivial = a plan rendered something",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "22 templates (4 of them failing), on the planner or on its copy, 2 late declarations, copying, each with cache size 0 and 10: sequences of <=3 operations, and of 4 over 9 of the templates",
				kit.Thorough: "22 templates (4 of them failing), on the planner or on its copy, 2 late declarations, copying, each with cache size 0 and 10: sequences of <=3 operations, of 4 over 12 of the templates, and of 5 over 5 of them",
			}[t]
		},
		Assumptions: []string{"functions are shared by a planner and its copies", "a plan is executed on states it created"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c24Sizes},
			{Name: "sequences", Gen: c24Gen},
		},
	})
}

type c24Op struct {
	kind string // compile, copy, declare
	copy bool
	k    int
}

type c24Template struct {
	nodes []ref.Node
	src   string // of templates that fail to compile
}

var c24Evals = map[string][]ref.Node{
	"$x;$n":              {out("x"), ref.Text(";"), out("n")},
	"#set($x = 2)<$x>":   {set("x", lit(2)), ref.Text("<"), out("x"), ref.Text(">")},
	"#set($e1 = 1)$e1$y": {set("e1", lit(1)), out("e1"), out("y")},
}

func c24Templates() []c24Template {
	V := ref.V
	sep := ref.Text("|")
	list := [][]ref.Node{
		{set("x", lit(1)), out("x")},
		{set("x", lit("12")), out("x"), sep, out("n")},
		{out("x"), sep, out("y"), sep, out("late"), sep, out("EF"), sep, out("EG")},
		{ref.Foreach{Item: "y", Over: V("list"), Body: []ref.Node{out("y"), ref.Text(",")}}, out("y")},
		{ref.Eval{Arg: lit("$x;$n")}, sep, ref.Eval{Arg: lit("#set($x = 2)<$x>")}, out("x")},
		{set("y", bin("+", V("n"), bin("*", lit(2), lit(3)))), out("y"), set("z", bin("/", V("f"), lit(2))), out("z")},
		{ref.Set{Target: fpath("p", "A"), Val: bin("+", fpath("p", "A"), lit(1))}, out("p", "A"), out("v", "B"), out("p", "Next", "A")},
		{set("x", lit(2.5)), out("x"), ref.Eval{Arg: lit("$x;$n")}},
		{ref.For{Var: "x", From: lit(0), Cond: bin("<", V("x"), lit(2)), Post: "++", Body: []ref.Node{out("x")}}, out("x")},
		// from here on: only in the shorter sequences
		{ref.If{Arms: []ref.Arm{{Cond: bin(">", V("n"), lit(1)), Body: []ref.Node{set("k", lit(true))}}}, HasElse: true, Else: []ref.Node{set("k", lit(false))}}, out("k")},
		{ref.Out{P: fcall("echo", V("s"))}, set("x", fcall("echo", lit("4"))), out("x")},
		{ref.Foreach{Item: "x", Over: V("items"), Body: []ref.Node{out("x", "A")}}},
		{ref.Foreach{Item: "p", Over: V("list"), Body: []ref.Node{out("p")}}},
		{set("late", lit(5)), out("late")},
		{set("s", bin("+", V("s"), lit("!"))), out("s"), set("list2", V("list")), out("list2", 0)},
		{ref.Eval{Arg: lit("#set($e1 = 1)$e1$y")}, out("e1")},
		{ref.Text("only text")},
		{set("k", bin("&&", V("c"), bin("==", V("n"), lit(3)))), out("k"), ref.Out{P: fcall("boom", V("n"))}},
	}
	var res []c24Template
	for _, n := range list {
		res = append(res, c24Template{nodes: n, src: ref.Print(n)})
	}
	for _, src := range []string{"$n#if($c)", "$v.Nope", "#foreach($q9 in $n)$q9#end", "#set($q8 = 4)$q8 #if($nope.x > 1)#end"} {
		res = append(res, c24Template{src: src})
	}
	return res
}

type C24Emb struct{ EF, EG int }

type c24Scope struct {
	p   *velty.Planner
	env *ref.Env
}

type c24Plan struct {
	exec *est.Execution
	ns   func() *est.State
	prog *ref.Prog
	kept *est.State
	src  string
	env  *ref.Env
}

func c24Gen(g *kit.G) {
	tmpl := c24Templates()
	long := g.Pick(9, 12)
	opsOver := func(ks []int) (ops []c24Op) {
		for _, onCopy := range []bool{false, true} {
			for _, k := range ks {
				ops = append(ops, c24Op{kind: "compile", copy: onCopy, k: k})
			}
			ops = append(ops, c24Op{kind: "declare", copy: onCopy, k: 0}, c24Op{kind: "declare", copy: onCopy, k: 1})
		}
		return append(ops, c24Op{kind: "copy"})
	}
	var all, some []int
	for k := range tmpl {
		all = append(all, k)
	}
	for k := 0; k < long; k++ {
		some = append(some, k)
	}
	run := func(ops []c24Op, n int) {
		seq := make([]int, n)
		for {
			if g.Stopped() {
				return
			}
			var list []c24Op
			ok, copied := true, false
			for _, k := range seq {
				o := ops[k]
				if o.kind == "copy" {
					copied = true
				}
				ok = ok && (!o.copy || copied)
				list = append(list, o)
			}
			if ok {
				for _, size := range []int{0, 10} {
					size := size
					g.Do(func(t *kit.T) { c24Sequence(t, tmpl, list, size) })
				}
			}
			if !next(seq, len(ops)) {
				return
			}
		}
	}
	for n := 1; n <= 3; n++ {
		run(opsOver(all), n)
	}
	run(opsOver(some), 4)
	if g.Thorough() {
		run(opsOver(some[:5]), 5)
	}
}

func c24Sequence(t *kit.T, tmpl []c24Template, ops []c24Op, cacheSize int) {
	var log []string
	t.Start(func() string {
		var parts []string
		for _, o := range ops {
			switch o.kind {
			case "compile":
				parts = append(parts, fmt.Sprintf("compile(copy=%v) %s", o.copy, tmpl[o.k].src))
			default:
				parts = append(parts, fmt.Sprintf("%v(copy=%v) %d", o.kind, o.copy, o.k))
			}
		}
		return fmt.Sprintf("cache %d: %s", cacheSize, strings.Join(parts, "; "))
	}())
	env := c14Env()
	env.Evals = c24Evals
	var scopes [2]*c24Scope
	var plans []*c24Plan
	fail := func(f string, a ...interface{}) {
		t.Failf("after %v: %v", strings.Join(log, "; "), fmt.Sprintf(f, a...))
	}
	execAll := func() bool {
		for i, pl := range plans {
			for _, v := range []int{1, 2} {
				if pl.kept == nil {
					pl.kept = pl.ns()
				}
				for kind, st := range []*est.State{pl.ns(), pl.kept} {
					traceReset()
					m := pl.prog.NewMem()
					vals := c24Values(pl.env, v)
					m.Set(vals)
					want := m.Exec()
					if kind == 1 {
						st.Reset()
					}
					traceReset()
					if err := setValues(pl.env, st, c24Values(pl.env, v)); err != nil {
						fail("plan %d %q: %v", i, pl.src, err)
						return false
					}
					err := pl.exec.Exec(st)
					t.Exec(1)
					t.Step(pl.prog.Steps)
					got := ref.Outcome{Out: st.Buffer.String()}
					if err != nil {
						got.Err = err.Error()
					}
					t.State(pl.src, want.String())
					if want.Out != "" {
						t.Nontrivial()
					}
					if !same(got, want) {
						fail("plan %d %q on value set %d (kept state: %v): got %v, want %v", i, pl.src, v, kind == 1, got, want)
						return false
					}
				}
			}
		}
		return true
	}
	panicked := kit.Guard(func() {
		p, err := newPlanner(env, velty.CacheSize(cacheSize))
		if err != nil {
			fail("declaring: %v", err)
			return
		}
		scopes[0] = &c24Scope{p: p, env: env}
		for _, o := range ops {
			s := scopes[0]
			if o.copy {
				s = scopes[1]
			}
			t.Step(1)
			switch o.kind {
			case "copy":
				log = append(log, "copy")
				e := *env
				e.Vars = append([]ref.Var{}, scopes[0].env.Vars...)
				scopes[1] = &c24Scope{p: scopes[0].p.New(), env: &e}
			case "declare":
				log = append(log, fmt.Sprintf("declare %d (copy: %v)", o.k, o.copy))
				e := *s.env
				e.Vars = append([]ref.Var{}, s.env.Vars...)
				known := map[string]bool{}
				for _, v := range e.Vars {
					known[v.Name] = true
				}
				if o.k == 0 {
					if err := s.p.DefineVariable("late", ""); err != nil {
						fail("DefineVariable: %v", err)
						return
					}
					if !known["late"] {
						e.Vars = append(e.Vars, ref.Var{Name: "late", Val: ""})
					}
				} else {
					err := s.p.EmbedVariable(C24Emb{})
					if (err != nil) != known["C24Emb"] {
						fail("EmbedVariable: %v", err)
						return
					}
					if !known["C24Emb"] {
						e.Vars = append(e.Vars, ref.Var{Name: "C24Emb", Val: C24Emb{}, Embed: true})
					}
				}
				s.env = &e
			case "compile":
				tm := tmpl[o.k]
				log = append(log, fmt.Sprintf("compile %q (copy: %v)", tm.src, o.copy))
				if tm.nodes == nil {
					if _, _, err := s.p.Compile([]byte(tm.src)); err == nil {
						fail("it was accepted")
						return
					}
					break
				}
				prog, merr := s.env.Compile(tm.nodes)
				if errors.Is(merr, ref.ErrUnspecified) || merr == nil && !(prog.Specified(c24Values(s.env, 1)) && prog.Specified(c24Values(s.env, 2))) {
					log[len(log)-1] += " skipped"
					continue
				}
				ex, ns, err := s.p.Compile([]byte(tm.src))
				if (err != nil) != (merr != nil) {
					fail("error %v, want %v", err, merr)
					return
				}
				if merr != nil {
					t.State("rejected")
					break
				}
				plans = append(plans, &c24Plan{exec: ex, ns: ns, prog: prog, src: tm.src, env: s.env})
				s.env = c24Extend(s.env, prog)
			}
			if !execAll() {
				return
			}
		}
	})
	if panicked != "" {
		fail("%v", panicked)
	}
}

// c24Values extends a value set by the late declarations.
func c24Values(env *ref.Env, set int) []interface{} {
	base := c14Values(set)
	vals := make([]interface{}, len(env.Vars))
	for i, v := range env.Vars {
		switch {
		case i < len(base):
			vals[i] = base[i]
		case v.Embed:
			vals[i] = C24Emb{EF: 10 + set, EG: 20 + set}
		case v.Name == "late" && varType(v) == reflect.TypeOf(""):
			vals[i] = fmt.Sprintf("late%d", set)
		}
	}
	return vals
}

// c24Extend declares the variables a template introduced.
func c24Extend(env *ref.Env, prog *ref.Prog) *ref.Env {
	e := *env
	e.Vars = append([]ref.Var{}, env.Vars...)
	known := map[string]int{}
	for i, v := range e.Vars {
		known[v.Name] = i
	}
	var names []string
	scope := prog.Scope()
	for n := range scope {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if i, ok := known[n]; ok {
			if vt := e.Vars[i].Type; vt != nil && vt != scope[n] || vt == nil && reflect.TypeOf(e.Vars[i].Val) != scope[n] {
				e.Vars = append(e.Vars, ref.Var{Name: n, Type: scope[n]}) // a loop took the name for a variable of another type
			}
			continue
		}
		e.Vars = append(e.Vars, ref.Var{Name: n, Type: scope[n]})
	}
	return &e
}

func varType(v ref.Var) reflect.Type {
	if v.Type != nil {
		return v.Type
	}
	return reflect.TypeOf(v.Val)
}
