package checks

import (
	"fmt"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"verifmc/kit"
)

func init() {
	register(&kit.Check{
		Property: "C18",
		Level:    "model_checking",
		Rule:     "every history of executions of four plans (two of one planner, one of a copy of it sharing its cache, one of another planner), with every choice of the strings evaluated at their sites, for every cache size; each execution compared with the same execution on a fresh planner without a cache; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "9 strings (6 with two sites), cache sizes 0, 1, 2, 3, 20, histories of 2 executions; of 3 over 4 strings; of 5 over 3 strings of the single-site plans",
				kit.Thorough: "9 strings (6 with two sites), cache sizes 0, 1, 2, 3, 20, histories of 2 executions; of 4 over 3 strings; of 3 over 5 strings; of 7 over 3 strings of the single-site plans",
			}[t]
		},
		Assumptions: []string{"velty without a cache is the oracle here; C17 compares it with the model"},
		Parts: []kit.Part{
			{Name: "alikes", Gen: c18Alikes},
			{Name: "histories", Gen: c18Gen},
		},
	})
}

var c18Strings = []string{
	"$x;$n",
	"#set($x = 9)<$x>",
	"#foreach($x in $strs)$x,#end$x",
	`#evaluate("$x;$n")!`,
	"#set($late = $n + 1)$late",
	"plain",
	"#if(", // does not compile
	"$late#evaluate($s)",
	"$boom($n)",
}

// c18Plans: the sites of a plan see different variables under the name x.
var c18Plans = []struct {
	src   string
	sites int
	on    int // 0 the planner, 1 its copy, 2 another planner
}{
	{"#evaluate($a)|#set($x = 5)#evaluate($b)|$x", 2, 0},
	{"#foreach($x in $strs)#evaluate($a)#end|$n", 1, 0},
	{"#set($x = 0.5)#evaluate($a)", 1, 1},
	{`#set($x = "other")#evaluate($a)$x`, 1, 2},
}

type c18Op struct{ plan, a, b int }

type c18Sys struct {
	plans []c18Plan
}

type c18Plan struct {
	exec *est.Execution
	ns   func() *est.State
	kept *est.State
}

func c18Planner(size int) (*velty.Planner, error) {
	p := velty.New(velty.CacheSize(size), velty.BufferSize(64))
	for _, v := range []struct {
		n string
		v interface{}
	}{{"a", ""}, {"b", ""}, {"s", ""}, {"n", 0}, {"strs", []string{}}} {
		if err := p.DefineVariable(v.n, v.v); err != nil {
			return nil, err
		}
	}
	return p, p.RegisterFunction("boom", boom)
}

func c18Set(st *est.State, o c18Op, n int) error {
	for _, v := range []struct {
		n string
		v interface{}
	}{{"a", c18Strings[o.a]}, {"b", c18Strings[o.b]}, {"s", "[$n]"}, {"n", n}, {"strs", []string{"p", "q"}}} {
		if err := st.SetValue(v.n, v.v); err != nil {
			return err
		}
	}
	return nil
}

func c18Build(size int) (sys *c18Sys, err error) {
	sys = &c18Sys{}
	var planners [3]*velty.Planner
	for i, on := range []int{0, 2} {
		_ = i
		if planners[on], err = c18Planner(size); err != nil {
			return nil, err
		}
	}
	planners[1] = planners[0].New()
	for _, p := range c18Plans {
		ex, ns, err := planners[p.on].Compile([]byte(p.src))
		if err != nil {
			return nil, err
		}
		sys.plans = append(sys.plans, c18Plan{exec: ex, ns: ns, kept: ns()})
	}
	return sys, nil
}

func (s *c18Sys) run(st *est.State, o c18Op, n int) string {
	if err := c18Set(st, o, n); err != nil {
		return "SetValue: " + err.Error()
	}
	err := s.plans[o.plan].exec.Exec(st)
	return fmt.Sprintf("%q %v", st.Buffer.String(), err)
}

func c18Gen(g *kit.G) {
	want := map[c18Op]map[int]string{}
	oracle := func(o c18Op, n int) string {
		if w, ok := want[o][n]; ok {
			return w
		}
		sys, err := c18Build(0)
		if err != nil {
			panic(err)
		}
		if want[o] == nil {
			want[o] = map[int]string{}
		}
		want[o][n] = sys.run(sys.plans[o.plan].ns(), o, n)
		return want[o][n]
	}
	ops := func(strs []int, double []int, single bool) (res []c18Op) {
		for p, pl := range c18Plans {
			if pl.sites == 2 {
				if single {
					continue
				}
				for _, a := range double {
					for _, b := range double {
						res = append(res, c18Op{p, a, b})
					}
				}
				continue
			}
			for _, a := range strs {
				res = append(res, c18Op{p, a, 0})
			}
		}
		return res
	}
	run := func(list []c18Op, n int, sizes ...int) {
		seq := make([]int, n)
		for {
			if g.Stopped() {
				return
			}
			hist := make([]c18Op, n)
			for i, k := range seq {
				hist[i] = list[k]
			}
			for _, size := range sizes {
				size := size
				g.Do(func(t *kit.T) { c18History(t, hist, size, oracle) })
			}
			if !next(seq, len(list)) {
				return
			}
		}
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	sizes := []int{0, 1, 2, 3, 20}
	run(ops(all, all[:6], false), 2, sizes...)
	if g.Thorough() {
		run(ops(all[:3], all[:3], false), 4, sizes...)
		run(ops(all[:5], all[:5], false), 3, sizes...)
		run(ops([]int{0, 1, 4}, nil, true), 5, 1, 2, 3)
		run(ops([]int{0, 2}, nil, true), 7, 1, 2)
		return
	}
	run(ops(all[:4], all[:4], false), 3, sizes...)
	run(ops([]int{0, 1}, nil, true), 5, 1, 2, 3)
}

func c18History(t *kit.T, hist []c18Op, size int, oracle func(o c18Op, n int) string) {
	var parts []string
	for _, o := range hist {
		s := fmt.Sprintf("plan %d(%q", o.plan, c18Strings[o.a])
		if c18Plans[o.plan].sites == 2 {
			s += fmt.Sprintf(", %q", c18Strings[o.b])
		}
		parts = append(parts, s+")")
	}
	t.Start(fmt.Sprintf("cache %d: %s", size, strings.Join(parts, " ")))
	panicked := kit.Guard(func() {
		sys, err := c18Build(size)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		for i, o := range hist {
			n := i - 1 // once negative
			st := sys.plans[o.plan].ns()
			if i%2 == 1 {
				st = sys.plans[o.plan].kept
				st.Reset()
			}
			got, want := sys.run(st, o, n), oracle(o, n)
			t.Exec(1)
			t.Step(1)
			t.State(want)
			t.Nontrivial()
			if got != want {
				t.Failf("execution %d: got %v, want %v", i, got, want)
				return
			}
		}
	})
	if panicked != "" {
		t.Failf("%v", panicked)
	}
}
