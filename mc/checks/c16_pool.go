package checks

import (
	"errors"
	"fmt"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C16",
		Level:    "model_checking",
		Rule:     "every history of takes, uses and puts on pools of every small size, each taken state checked to be ready, unshared and to render what a new state renders (model), states held meanwhile checked to be left alone; the same histories with every choice of what sync.Pool returns; and goroutines taking, using and putting back under a controlled scheduler with every schedule of a bounded number of preemptions, each schedule watched by the race detector; non-trivial = an execution rendered something or a schedule",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "sizes 0..3; histories of <=5 operations of 14 (take with 6 uses, put once or twice) over <=3 held states, 4 plans; <=4 operations with every result of sync.Pool; 2 goroutines x 2 rounds: 1 preemption at synchronisation (2 in every fourth scenario), 1 at any statement (every eighth), 1 choice of sync.Pool",
				kit.Thorough: "sizes 0..3; histories of <=6 operations of 14 (take with 6 uses, put once or twice) over <=3 held states, 4 plans; <=5 operations with every result of sync.Pool; 2 goroutines x 2 rounds and 3 goroutines: 3 preemptions at synchronisation, 1 at any statement, 2 choices of sync.Pool",
			}[t]
		},
		Assumptions: []string{"sync.Pool is replaced by a list any item of which, or a new one, may be returned", "a state is to be reused when it is put back while fewer others are held than the size of the pool", "after it put a state back its former holder does not use it"},
		Build:       concBuild,
		Parts: []kit.Part{
			{Name: "histories", Gen: c16Histories},
			{Name: "sizes", Gen: c16Sizes},
			{Name: "choices", Gen: c16Choices},
			{Name: "concurrent", Gen: c16Concurrent, HangAfter: 60},
		},
	})
}

// c16Uses are the value sets of the uses: which variables are set.
const (
	c16Unused  = iota // taken, not used
	c16One            // all variables, set 1
	c16Two            // all variables, set 2
	c16Partial        // some variables only
	c16None           // executed without any variable set
	c16Garbage        // variables, errors and output left behind without an execution
	c16NUses
)

func c16Templates() [][]ref.Node {
	V := ref.V
	return [][]ref.Node{
		{out("n"), ref.Text(":"), out("s"), ref.Text(":"), out("f"), out("c"), ref.Text(":"), out("v", "B"), out("list"), ref.Foreach{Item: "it", Over: V("list"), Body: []ref.Node{out("it"), set("n", bin("+", V("n"), V("it")))}}, out("n")},
		{set("x", bin("+", V("n"), lit(1))), set("s", bin("+", V("s"), lit("<+>"))), out("x"), ref.Text(":"), out("s"), ref.If{Arms: []ref.Arm{{Cond: V("c"), Body: []ref.Node{set("fresh", lit("set")), out("fresh")}}}}, ref.Out{P: fcall("boom", V("n"))}},
		{out("m", ref.Index{X: lit("k")}), ref.Foreach{Item: "o", Over: V("items"), Body: []ref.Node{out("o", "B"), ref.Text(",")}}, ref.Text("|"), out("i"), ref.Text("|"), out("u8"), ref.Text("|"), out("v", "A"), out("items")},
		{ref.Eval{Arg: V("s")}, ref.Text("|"), ref.Out{P: fcall("echo", V("s"))}, out("n")},
	}
}

type c16Plan struct {
	prog   *ref.Prog
	exec   *est.Execution
	ns     func() *est.State
	names  []string
	expect [c16NUses]ref.Outcome
}

func c16Values(use int) []interface{} {
	switch use {
	case c16One:
		return c14Values(1)
	case c16Two:
		return c14Values(2)
	case c16Partial:
		v := c14Values(1)
		for _, i := range []int{0, 3, 6, 7, 9, 10} {
			v[i] = nil
		}
		return v
	}
	return make([]interface{}, len(c14Values(0)))
}

func newC16Plan(nodes []ref.Node, escape bool) (*c16Plan, error) {
	env := c14Env()
	env.Escape = escape
	env.Evals = map[string][]ref.Node{"": nil}
	for k, v := range c14Evals {
		env.Evals[k] = v
	}
	prog, err := env.Compile(nodes)
	if err != nil {
		panic("generator: " + err.Error())
	}
	pl, err, panicked := compileReal(env, ref.Print(nodes), velty.CacheSize(2))
	if err != nil || panicked != "" {
		return nil, fmt.Errorf("compile: %v %v", err, panicked)
	}
	p := &c16Plan{prog: prog, exec: pl.exec, ns: pl.ns}
	for _, v := range env.Vars {
		p.names = append(p.names, v.Name)
	}
	for use := range p.expect {
		if use == c16Unused || use == c16Garbage {
			continue
		}
		vals, zero := c16Values(use), c14Values(0)
		for i := range vals {
			if vals[i] == nil {
				vals[i] = zero[i]
			}
		}
		p.expect[use] = prog.RunWith(vals)
	}
	return p, nil
}

// use works on a state; it reports what is wrong with the outcome.
func (p *c16Plan) use(st *est.State, use int) string {
	if use == c16Unused {
		return ""
	}
	vals := c16Values(use)
	if use == c16Garbage {
		vals = c14Values(1)
	}
	for i, v := range vals {
		if v == nil {
			continue
		}
		if err := st.SetValue(p.names[i], v); err != nil {
			return err.Error()
		}
	}
	if use == c16Garbage {
		st.Buffer.AppendString("garbage <&>")
		st.AddError(errors.New("garbage"))
		return ""
	}
	err := p.exec.Exec(st)
	got := ref.Outcome{Out: st.Buffer.String()}
	if err != nil {
		got.Err = err.Error()
	}
	if !same(got, p.expect[use]) {
		return fmt.Sprintf("use %d: got %v, a new state gives %v", use, got, p.expect[use])
	}
	return ""
}

func c16Ready(st *est.State) string {
	switch {
	case st == nil:
		return "a nil state"
	case st.Buffer == nil || st.Buffer.String() != "":
		return "a state with output"
	case len(st.Errors) != 0 || !st.IsValid():
		return "a state with errors"
	}
	return ""
}

type c16Held struct {
	st  *est.State
	use int
	out string
}

// c16Pool runs one history.
type c16Run struct {
	p      *c16Plan
	pool   *velty.Pool
	size   int
	held   []c16Held
	free   map[*est.State]bool // put back while fewer than the size were held
	double bool
	lifo   bool
}

func (r *c16Run) step(op int) (ok bool, wrong string) {
	if op < c16NUses {
		if len(r.held) == 3 {
			return false, ""
		}
		st := r.pool.State()
		if w := c16Ready(st); w != "" {
			return true, "took " + w
		}
		for _, h := range r.held {
			if h.st == st || h.st.Buffer == st.Buffer || h.st.MemPtr == st.MemPtr {
				return true, "took a state that is held"
			}
		}
		if r.lifo && !r.double && len(r.free) > 0 && !r.free[st] {
			return true, "a state put back was not reused"
		}
		delete(r.free, st)
		w := r.p.use(st, op)
		r.held = append(r.held, c16Held{st, op, st.Buffer.String()})
		if w != "" {
			return true, w
		}
		return true, r.untouched()
	}
	k, twice := (op-c16NUses)/2, (op-c16NUses)%2 == 1
	if k >= len(r.held) {
		return false, ""
	}
	h := r.held[k]
	r.held = append(append([]c16Held{}, r.held[:k]...), r.held[k+1:]...)
	r.pool.Put(h.st)
	if twice {
		r.double = true
		r.pool.Put(h.st)
	}
	if len(r.held) < r.size {
		r.free[h.st] = true
	}
	return true, r.untouched()
}

func (r *c16Run) untouched() string {
	for _, h := range r.held {
		if h.st.Buffer.String() != h.out || (h.use == c16Garbage) != (len(h.st.Errors) == 1 && h.st.Errors[0].Error() == "garbage") && h.use != c16One && h.use != c16Two && h.use != c16Partial && h.use != c16None {
			return "a held state was changed"
		}
	}
	return ""
}

func c16Ops() int { return c16NUses + 6 }

// c16Histories runs every history on a pool whose items come back last in, first out.
func c16Histories(g *kit.G) {
	depth := g.Pick(5, 6)
	for ti := range c16Templates() {
		for size := 0; size <= 3; size++ {
			for first := 0; first < c16NUses; first++ {
				for second := 0; second < c16Ops(); second++ {
					ti, size, first, second := ti, size, first, second
					g.Do(func(t *kit.T) {
						quiet = true
						t.Start(fmt.Sprintf("plan %d, pool of %d, operations %d %d ...", ti, size, first, second))
						p, err := newC16Plan(c16Templates()[ti], ti == 3)
						if err != nil {
							t.Failf("%v", err)
							return
						}
						var walk func(ops []int) bool
						walk = func(ops []int) bool {
							r := &c16Run{p: p, pool: velty.NewPool(size, p.ns), size: size, free: map[*est.State]bool{}, lifo: true}
							for i, op := range ops {
								ok, wrong := r.step(op)
								if !ok {
									if i < len(ops)-1 {
										panic("history")
									}
									return true
								}
								if wrong != "" {
									t.Start(fmt.Sprintf("plan %d, pool of %d, operations %v", ti, size, ops))
									t.Failf("%v", wrong)
									return false
								}
								t.Step(1)
							}
							t.Exec(1)
							t.Nontrivial()
							t.State(fmt.Sprint(ti, size, len(r.held), len(r.free), ops[len(ops)-1]))
							if len(ops) == depth {
								return true
							}
							for op := 0; op < c16Ops(); op++ {
								if !walk(append(append([]int{}, ops...), op)) {
									return false
								}
							}
							return true
						}
						walk([]int{first, second})
					})
				}
			}
		}
	}
}

// c16Sizes holds many states at once, puts them back in several orders and takes as many again, for pools of many sizes; and goes around
// with one state many times.
func c16Sizes(g *kit.G) {
	sizes := limits(g.Pick(12, 70), g.Pick(129, 1025))
	for n := 0; n <= g.Pick(12, 70); n++ {
		sizes = append(sizes, n)
	}
	for _, size := range sizes {
		for _, hold := range []int{1, size / 2, size - 1, size, size + 1, 2*size + 3} {
			for order := 0; order < 3; order++ {
				size, hold, order := size, hold, order
				if hold < 1 || hold == 1 && order > 0 {
					continue
				}
				g.Do(func(t *kit.T) {
					quiet = true
					t.Start(fmt.Sprintf("pool of %d, %d states at once, order %d", size, hold, order))
					p, err := newC16Plan(c16Templates()[0], false)
					if err != nil {
						t.Failf("%v", err)
						return
					}
					pool := velty.NewPool(size, p.ns)
					free := map[*est.State]bool{}
					rounds := 3
					if hold == 1 {
						rounds = g.Pick(300, 5000)
					}
					for round := 0; round < rounds; round++ {
						var held []c16Held
						taken := map[*est.State]bool{}
						for i := 0; i < hold; i++ {
							st := pool.State()
							w := c16Ready(st)
							switch {
							case w != "":
								t.Failf("round %d, state %d: took %v", round, i, w)
							case taken[st]:
								t.Failf("round %d, state %d: took a state that is held", round, i)
							case len(free) > 0 && !free[st]:
								t.Failf("round %d, state %d: a state put back was not reused", round, i)
							}
							if t.Failed() {
								return
							}
							taken[st] = true
							delete(free, st)
							use := c16One + (i+round)%2
							if w := p.use(st, use); w != "" {
								t.Failf("round %d, state %d: %v", round, i, w)
								return
							}
							held = append(held, c16Held{st, use, st.Buffer.String()})
							t.Exec(1)
							t.Nontrivial()
						}
						for n := hold; n > 0; n-- {
							k := []int{0, n - 1, n / 2}[order]
							h := held[k]
							if h.st.Buffer.String() != h.out {
								t.Failf("round %d: a held state was changed", round)
								return
							}
							held = append(held[:k:k], held[k+1:]...)
							pool.Put(h.st)
							t.Step(2)
							if len(held) < size {
								free[h.st] = true
							}
						}
						t.State(fmt.Sprint(size, hold, len(free)))
					}
				})
			}
		}
	}
}

// c16Choices runs shorter histories with every choice of what the pool of package sync returns.
func c16Choices(g *kit.G) {
	depth := g.Pick(4, 5)
	ops := []int{c16One, c16Garbage, c16None, c16NUses, c16NUses + 1, c16NUses + 2}
	for ti := 0; ti < 2; ti++ {
		for size := 0; size <= 3; size++ {
			seq := make([]int, depth)
			for {
				chosen := make([]int, depth)
				valid, held := true, 0
				for i, k := range seq {
					chosen[i] = ops[k]
					if ops[k] < c16NUses {
						held++
					} else {
						if (ops[k]-c16NUses)/2 >= held {
							valid = false
						}
						held--
					}
				}
				if valid {
					var p *c16Plan
					ti, size := ti, size
					mk := func() concRun {
						quiet = true
						if p == nil {
							var err error
							if p, err = newC16Plan(c16Templates()[ti], false); err != nil {
								return concRun{verify: func() string { return err.Error() }}
							}
						}
						r := &c16Run{p: p, pool: velty.NewPool(size, p.ns), size: size, free: map[*est.State]bool{}}
						wrong := ""
						return concRun{fns: []func(){func() {
							for _, op := range chosen {
								if _, w := r.step(op); w != "" {
									wrong = w
									return
								}
							}
						}}, verify: func() string { return wrong }}
					}
					concExplore(g, fmt.Sprintf("plan %d, pool of %d, operations %v", ti, size, chosen), budget{env: depth}, 1, mk)
				}
				if !next(seq, len(ops)) {
					break
				}
			}
		}
	}
}

// the states held, without synchronising the holders
var (
	c16Claims [16]*est.State
)

//go:norace
func c16Claim(st *est.State) bool {
	free := -1
	for i, s := range c16Claims {
		if s == st {
			return false
		}
		if s == nil {
			free = i
		}
	}
	c16Claims[free] = st
	return true
}

//go:norace
func c16Unclaim(st *est.State) {
	for i, s := range c16Claims {
		if s == st {
			c16Claims[i] = nil
		}
	}
}

//go:norace
func c16ClearClaims() { c16Claims = [16]*est.State{} }

// c16Concurrent lets goroutines share a pool.
func c16Concurrent(g *kit.G) {
	type round struct{ use, put int } // put: 0 puts it back, 1 keeps it
	scripts := [][][]round{
		{{{c16One, 0}, {c16None, 0}}, {{c16Two, 0}, {c16None, 0}}},
		{{{c16Garbage, 0}, {c16Partial, 0}}, {{c16None, 0}, {c16One, 0}}},
		{{{c16One, 1}, {c16None, 0}}, {{c16Garbage, 0}, {c16None, 0}}},
		{{{c16One, 0}, {c16None, 1}}, {{c16Two, 1}, {c16None, 0}}},
		{{{c16One, 0}}, {{c16None, 0}}, {{c16Two, 0}}},
		{{{c16One, 0}}, {{c16Garbage, 0}}, {{c16None, 0}}},
	}
	for ti := range c16Templates() {
		for size := 0; size <= 3; size++ {
			for si, script := range scripts {
				for warm := 0; warm <= 2; warm++ { // states put back before
					ti, size, script, warm := ti, size, script, warm
					if warm > size {
						continue
					}
					mk := func() concRun {
						quiet = true
						c16ClearClaims()
						p, err := newC16Plan(c16Templates()[ti], false)
						if err != nil {
							return concRun{verify: func() string { return err.Error() }}
						}
						pool := velty.NewPool(size, p.ns)
						var before []*est.State
						for i := 0; i < warm; i++ {
							before = append(before, pool.State())
						}
						for _, st := range before {
							p.use(st, c16One)
							pool.Put(st)
						}
						wrong := make([]string, len(script))
						var run concRun
						for i := range script {
							i := i
							run.fns = append(run.fns, func() {
								for _, r := range script[i] {
									st := pool.State()
									if st != nil && !c16Claim(st) {
										wrong[i] = "took a state that is held"
										return
									}
									if w := c16Ready(st); w != "" {
										wrong[i] = "took " + w
										return
									}
									if w := p.use(st, r.use); w != "" {
										wrong[i] = w
										return
									}
									if r.put == 0 {
										c16Unclaim(st)
										pool.Put(st)
									}
								}
							})
						}
						run.verify = func() string {
							for i, w := range wrong {
								if w != "" {
									return fmt.Sprintf("goroutine %d: %v", i, w)
								}
							}
							return ""
						}
						return run
					}
					name := fmt.Sprintf("plan %d, pool of %d with %d states, %v", ti, size, warm, script)
					two := g.Pick(1, 2)
					if (ti+size+si+warm)%4 == 0 {
						two = g.Pick(2, 3)
					}
					if len(script) == 2 {
						concExplore(g, name, budget{preempt: two, free: 1, env: g.Pick(1, 2)}, g.Pick(1, 61), mk)
						if g.Thorough() || (ti+size+si+2*warm)%8 == 0 {
							concExplore(g, name+" (statements)", budget{preempt: 1, fine: 1, free: 1}, g.Pick(2, 31), mk)
						}
					} else if g.Thorough() || ti < 2 {
						concExplore(g, name, budget{preempt: g.Pick(1, 2), free: 1, env: 1}, g.Pick(1, 61), mk)
					}
				}
			}
		}
	}
}
