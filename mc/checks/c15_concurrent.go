package checks

import (
	"fmt"
	"strings"

	"github.com/viant/velty"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C15",
		Level:    "model_checking",
		Rule:     "goroutines executing one plan, each on its own state, under a controlled scheduler: every schedule with the bounded number of preemptions, at every statement of velty and at every operation of a lock, pool or atomic; outputs and errors compared with the model's for each goroutine alone, and every schedule watched by the race detector, to which the scheduler's hand-overs are invisible; non-trivial = a schedule",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "34 template fragments written in the template and evaluated; 2 goroutines: 1 preemption at any statement, 2 at synchronisation; evaluations of equal, different and nested texts x cache sizes 0, 1, 2, default; 3 goroutines, 1 preemption; breadth: every value kind from every place, operator, built-in, conversion and place of errors, 1 preemption at synchronisation",
				kit.Thorough: "34 template fragments written in the template and evaluated; 2 goroutines: 1 preemption at any statement and a second one at any synchronisation, 3 at synchronisation (plain: 4); evaluations of equal, different and nested texts x cache sizes 0, 1, 2, default; 3 goroutines, 2 preemptions; breadth: every value kind from every place, operator, built-in, conversion and place of errors, 2 preemptions at synchronisation",
			}[t]
		},
		Assumptions: []string{"the values set on the states and the registered functions share nothing that they write"},
		Build:       concBuild,
		Parts: []kit.Part{
			{Name: "plain", Gen: c15Plain, HangAfter: 60},
			{Name: "evaluate", Gen: c15Evaluate, HangAfter: 60},
			{Name: "breadth", Gen: c15Breadth, HangAfter: 60},
		},
	})
}

// concPlan is a template with what each goroutine is to obtain from it.
type concPlan struct {
	env   *ref.Env
	src   string
	vals  []func() []interface{} // per goroutine
	want  []ref.Outcome
	opts  []velty.Option
	times int // executions per goroutine
}

// newConcPlan returns nil when the model gives the template no meaning on the values.
func newConcPlan(env *ref.Env, nodes []ref.Node, vals []func() []interface{}, opts ...velty.Option) *concPlan {
	prog, err := env.Compile(nodes)
	if err != nil {
		return nil
	}
	p := &concPlan{src: ref.Print(nodes), opts: opts}
	// only what the texts mention is declared on the implementation
	used := p.src
	for text := range env.Evals {
		used += " " + text
	}
	small := *env
	small.Vars = nil
	var keep []int
	for i, v := range env.Vars {
		mentioned := strings.Contains(used, v.Name)
		if v.Embed {
			mentioned = strings.Contains(used, "EA") || strings.Contains(used, "EB") || strings.Contains(used, "ENum") || strings.Contains(used, "P_Deep")
		}
		if mentioned {
			small.Vars = append(small.Vars, v)
			keep = append(keep, i)
		}
	}
	p.env = &small
	for _, v := range vals {
		v := v
		p.vals = append(p.vals, func() (res []interface{}) {
			all := v()
			for _, i := range keep {
				res = append(res, all[i])
			}
			return
		})
	}
	for _, v := range vals {
		if !prog.Specified(v()) {
			return nil
		}
		p.want = append(p.want, prog.RunWith(v()))
	}
	return p
}

func (p *concPlan) run() concRun {
	quiet = true
	pl, err, panicked := compileReal(p.env, p.src, p.opts...)
	if err != nil || panicked != "" {
		return concRun{verify: func() string { return fmt.Sprintf("compile: %v %v", err, panicked) }}
	}
	got := make([]ref.Outcome, len(p.vals))
	run := concRun{}
	for i := range p.vals {
		i := i
		vals := p.vals[i]()
		run.fns = append(run.fns, func() {
			st := pl.ns()
			got[i] = pl.runOn(st, vals)
			got[i].Out = st.Buffer.String()
		})
	}
	run.verify = func() string {
		for i := range got {
			if !same(got[i], p.want[i]) {
				return fmt.Sprintf("goroutine %d: got %v, alone %v", i, got[i], p.want[i])
			}
		}
		return ""
	}
	return run
}

func c15Fragments() (res [][]ref.Node) {
	for _, f := range c17Fragments() {
		if c, ok := f[len(f)-1].(ref.Comment); ok {
			c.EOF = true
			f = append(append([]ref.Node{}, f[:len(f)-1]...), c)
		}
		res = append(res, f)
	}
	return
}

// c15Values gives each goroutine its own values and evaluated texts.
func c15Values(sets []int, texts [][]string) (*ref.Env, []func() []interface{}) {
	var vals []func() []interface{}
	var env *ref.Env
	for i := range sets {
		set := sets[i]
		e, v := c17Env(texts[i])
		env = e
		vals = append(vals, func() []interface{} { return v(set) })
	}
	return env, vals
}

var c15Sets = [][]int{{1, 2}, {1, 1}}

// c15Plain executes each fragment, and all of them together, written in the template.
func c15Plain(g *kit.G) {
	frags := c15Fragments()
	none := [][]string{{""}, {""}, {""}}
	var all []ref.Node
	for i, f := range frags {
		if i != 25 && i != 27 && i != 26 {
			all = append(all, f...)
			all = append(all, ref.Text("|"))
		}
	}
	for i := 0; i <= len(frags); i++ {
		nodes, buckets := all, g.Pick(32, 64)
		if i < len(frags) {
			nodes, buckets = frags[i], g.Pick(1, 61)
		}
		for si, sets := range append(c15Sets, []int{1, 2, 1}) {
			env, vals := c15Values(sets, none[:len(sets)])
			for _, stop := range []bool{false, true} {
				env := *env
				env.Escape, env.PanicOnError = stop, stop
				p := newConcPlan(&env, nodes, vals)
				if p == nil || i == len(frags) && len(sets) > 2 {
					continue
				}
				if stop && !g.Thorough() && si > 0 {
					continue
				}
				max := budget{preempt: 1, fine: 1, free: 1}
				if g.Thorough() && i < len(frags) && len(sets) == 2 {
					max = budget{preempt: 2, fine: 2, free: 1}
				}
				concExplore(g, fmt.Sprintf("%d goroutines: %s", len(sets), p.src), max, buckets, p.run)
			}
		}
	}
}

// c15Evaluate executes templates evaluating equal, different and nested texts.
func c15Evaluate(g *kit.G) {
	frags := c15Fragments()
	V := ref.V
	sizes := []int{0, 1, 2, 100}
	text := func(i int) string { return ref.Print(frags[i]) }
	type shape struct {
		name  string
		nodes []ref.Node
		texts func(i, j int) [][]string // per goroutine
	}
	loop := []ref.Node{ref.Foreach{Item: "tx", Over: V("texts"), Body: []ref.Node{ref.Text("["), ref.Eval{Arg: V("tx")}, ref.Text("]")}}}
	shapes := []shape{
		{"equal", []ref.Node{ref.Eval{Arg: V("src")}}, func(i, j int) [][]string { return [][]string{{text(i)}, {text(i)}} }},
		{"different", []ref.Node{ref.Eval{Arg: V("src")}}, func(i, j int) [][]string { return [][]string{{text(i)}, {text(j)}} }},
		{"two sites", []ref.Node{ref.Eval{Arg: V("src")}, set("x", lit("late")), ref.Eval{Arg: V("src")}}, func(i, j int) [][]string { return [][]string{{text(i)}, {text(i)}} }},
		{"crossed", loop, func(i, j int) [][]string { return [][]string{{text(i), text(j)}, {text(j), text(i)}} }},
		{"again", loop, func(i, j int) [][]string { return [][]string{{text(i), text(j), text(i)}, {text(i), text(i), text(j)}} }},
		{"three", []ref.Node{ref.Eval{Arg: V("src")}}, func(i, j int) [][]string { return [][]string{{text(i)}, {text(i)}, {text(j)}} }},
	}
	picked := []int{1, 4, 7, 10, 14, 16, 32}
	for i := range frags {
		quickFine := false
		for _, k := range picked[:3] {
			quickFine = quickFine || i == k
		}
		for si, sh := range shapes {
			for zi, size := range sizes {
				j := picked[(i+si+zi)%len(picked)]
				texts := sh.texts(i, j)
				sets := []int{1, 2, 1}[:len(texts)]
				env, vals := c15Values(sets, texts)
				env.Evals[text(i)], env.Evals[text(j)] = frags[i], frags[j]
				p := newConcPlan(env, sh.nodes, vals, velty.CacheSize(size))
				if p == nil {
					sets = []int{1, 1, 1}[:len(texts)]
					env, vals = c15Values(sets, texts)
					env.Evals[text(i)], env.Evals[text(j)] = frags[i], frags[j]
					if p = newConcPlan(env, sh.nodes, vals, velty.CacheSize(size)); p == nil {
						continue
					}
				}
				name := fmt.Sprintf("%s, cache %d: %q in %s", sh.name, size, texts, p.src)
				max := budget{preempt: g.Pick(2, 3), free: 2}
				if len(texts) > 2 {
					max = budget{preempt: g.Pick(1, 2), free: 2}
				}
				concExplore(g, name, max, g.Pick(1, 61), p.run)
				if len(texts) == 2 && (g.Thorough() && (i+si+zi)%4 == 0 || quickFine && (si < 2 || si == 3) && zi < 3) {
					concExplore(g, name+" (statements)", budget{preempt: 1, fine: 1, free: 1}, g.Pick(8, 61), p.run)
				}
				if g.Thorough() && quickFine && len(texts) == 2 && si < 2 && zi < 2 {
					concExplore(g, name+" (statements+)", budget{preempt: 2, fine: 1, free: 0}, 251, p.run)
				}
			}
		}
	}
	// nested
	for _, i := range picked {
		for _, size := range sizes {
			mid := []ref.Node{ref.Text("<"), ref.Eval{Arg: V("src")}, set("x", lit(8)), ref.Eval{Arg: V("src")}, ref.Text(">")}
			texts := []string{text(i), ref.Print(mid)}
			env, vals := c15Values([]int{1, 2}, [][]string{texts, texts})
			env.Evals[texts[0]], env.Evals[texts[1]] = frags[i], mid
			p := newConcPlan(env, []ref.Node{ref.Eval{Arg: V("src2")}, ref.Eval{Arg: V("src")}}, vals, velty.CacheSize(size))
			if p == nil {
				continue
			}
			concExplore(g, fmt.Sprintf("nested, cache %d: %q", size, texts), budget{preempt: g.Pick(2, 3), free: 1}, g.Pick(4, 61), p.run)
			if g.Thorough() {
				concExplore(g, fmt.Sprintf("nested, cache %d: %q (statements)", size, texts), budget{preempt: 1, fine: 1, free: 1}, g.Pick(16, 61), p.run)
			}
		}
	}
}
