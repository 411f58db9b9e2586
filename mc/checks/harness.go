package checks

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"verifmc/kit"
	"verifmc/ref"
)

// newPlanner declares the environment on a fresh planner.
func newPlanner(env *ref.Env, opts ...velty.Option) (*velty.Planner, error) {
	all := append([]velty.Option{velty.EscapeHTML(env.Escape), velty.PanicOnError(env.PanicOnError), velty.BufferSize(64)}, opts...)
	p := velty.New(all...)
	for name, fn := range env.Funcs {
		if err := p.RegisterFunction(name, fn); err != nil {
			return nil, err
		}
	}
	if err := registerMore(p, env); err != nil {
		return nil, err
	}
	for _, v := range env.Vars {
		var err error
		var what interface{} = v.Val
		if v.Type != nil {
			what = v.Type
		}
		if v.Embed {
			err = p.EmbedVariable(what)
		} else {
			err = p.DefineVariable(v.Name, what, v.Aliases...)
		}
		if err != nil {
			return nil, err
		}
	}
	return p, nil
}

// registerMore registers what is not called by a plain function name.
func registerMore(p *velty.Planner, env *ref.Env) error {
	for name, k := range env.Kinds {
		h := kindHandler{k.Kinds, k.Fn}
		var fn op.KindFunction = h
		if k.Result != nil {
			fn = typedKindHandler{h, k.Result}
		}
		if err := p.RegisterFunctionKind(name, fn); err != nil {
			return err
		}
	}
	for _, f := range env.TypeFuncs {
		if err := p.RegisterTypeFunc(f.Recv, &op.TypeFunc{Name: f.Name, Handler: f.Fn, ResultType: f.Result}); err != nil {
			return err
		}
	}
	for name, ns := range env.NS {
		if _, ok := ns.(builtin); ok {
			continue
		}
		if err := p.RegisterFuncNs(name, ns); err != nil {
			return err
		}
	}
	for name, f := range env.Standalone {
		fn := &op.Function{Handler: f.Fn}
		if result := f.Result; result != nil {
			fn.ResultTyper = func(*expr.Call) (reflect.Type, error) { return result, nil }
		}
		if err := p.RegisterStandaloneFunction(name, fn); err != nil {
			return err
		}
	}
	return nil
}

// builtin marks the model of a namespace every planner has.
type builtin interface{ builtin() }

type kindHandler struct {
	kinds []reflect.Kind
	fn    interface{}
}

func (h kindHandler) Kind() []reflect.Kind { return h.kinds }
func (h kindHandler) Handler() interface{} { return h.fn }

type typedKindHandler struct {
	kindHandler
	result func(reflect.Type) reflect.Type
}

func (h typedKindHandler) ResultType(recv reflect.Type, _ *expr.Call) (reflect.Type, error) {
	return h.result(recv), nil
}

// the call trace of registered functions, compared between model and implementation
var traced []string

// quiet stops the recording of calls (concurrent executions).
var quiet bool

func trace(f string, a ...interface{}) {
	if !quiet {
		traced = append(traced, fmt.Sprintf(f, a...))
	}
}
func traceReset()        { traced = nil }
func traceGet() []string { return traced }

// initial lists the declared values of the environment.
func initial(env *ref.Env) []interface{} {
	var vals []interface{}
	for _, v := range env.Vars {
		vals = append(vals, v.Val)
	}
	return vals
}

// plan is a compiled template of the implementation.
type plan struct {
	env  *ref.Env
	exec *est.Execution
	ns   func() *est.State
	pool *velty.Pool
}

// compileReal compiles on the implementation; panics are returned as an error with panicked=true.
func compileReal(env *ref.Env, src string, opts ...velty.Option) (pl *plan, err error, panicked string) {
	panicked = kit.Guard(func() {
		var p *velty.Planner
		if p, err = newPlanner(env, opts...); err != nil {
			err = fmt.Errorf("declaring: %w", err)
			return
		}
		var ex *est.Execution
		var ns func() *est.State
		if ex, ns, err = p.Compile([]byte(src)); err == nil {
			pl = &plan{env: env, exec: ex, ns: ns}
		}
	})
	return
}

func setValues(env *ref.Env, st *est.State, vals []interface{}) error {
	for i, v := range env.Vars {
		var val interface{} = v.Val
		if vals != nil {
			val = vals[i]
		}
		if val == nil {
			continue
		}
		if v.Embed {
			if err := st.EmbedValue(val); err != nil {
				return fmt.Errorf("EmbedValue(%v): %w", v.Name, err)
			}
			continue
		}
		if err := st.SetValue(v.Name, val); err != nil {
			return fmt.Errorf("SetValue(%v): %w", v.Name, err)
		}
	}
	return nil
}

// run executes on a fresh state: the first time a new one, then one that comes back, cleared, from a pool,
// so that the values of one execution are followed by others in the same memory.
func (p *plan) run(vals []interface{}) (o ref.Outcome, panicked string) {
	panicked = kit.Guard(func() {
		if p.pool == nil {
			p.pool = velty.NewPool(2, p.ns)
		}
		st := p.pool.State()
		o = p.runOn(st, vals)
		o.Out = strings.Clone(o.Out)
		p.pool.Put(st)
	})
	return
}

func (p *plan) runOn(st *est.State, vals []interface{}) (o ref.Outcome) {
	if err := setValues(p.env, st, vals); err != nil {
		return ref.Outcome{Err: err.Error()}
	}
	err := p.exec.Exec(st)
	o.Out = st.Buffer.String()
	if err != nil {
		o.Err = err.Error()
	}
	return o
}

// same compares an implementation outcome with the model's.
func same(got, want ref.Outcome) bool {
	if got.Out != want.Out {
		return false
	}
	if want.Err == "" {
		return got.Err == ""
	}
	return strings.Contains(got.Err, want.Err)
}

// agree runs one template on the model and on the implementation for every value set and reports differences.
func agree(t *kit.T, env *ref.Env, nodes []ref.Node, valsets [][]interface{}, opts ...velty.Option) {
	agreeSrc(t, env, nodes, ref.Print(nodes), valsets, opts...)
}

func agreeSrc(t *kit.T, env *ref.Env, nodes []ref.Node, src string, valsets [][]interface{}, opts ...velty.Option) {
	t.Start(src)
	prog, merr := env.Compile(nodes)
	if errors.Is(merr, ref.ErrUnspecified) {
		panic("generator produced a template without specified meaning: " + src)
	}
	pl, err, panicked := compileReal(env, src, opts...)
	t.Exec(1)
	if panicked != "" {
		t.Failf("compile: %v", panicked)
		return
	}
	if merr != nil {
		t.State("rejected")
		t.Rejected()
		if err == nil {
			t.Failf("the compiler accepted the template, it must be rejected (%v)", merr)
		}
		return
	}
	if err != nil {
		t.Failf("the compiler rejected the template: %v", err)
		return
	}
	if valsets == nil {
		valsets = [][]interface{}{nil}
	}
	for _, vals := range valsets {
		var want ref.Outcome
		traceReset()
		if vals == nil {
			want = prog.Run()
		} else {
			want = prog.RunWith(vals)
		}
		t.Step(prog.Steps)
		wantTrace := traceGet()
		traceReset()
		got, panicked := pl.run(vals)
		t.Exec(1)
		if panicked != "" {
			t.Failf("%vexec: %v; want %v", valNote(env, vals), panicked, want)
			return
		}
		t.State(want.String())
		if len(want.Out) > 0 {
			t.Nontrivial()
		}
		if !same(got, want) {
			t.Failf("%vgot %v, want %v", valNote(env, vals), got, want)
			return
		}
		if gotTrace := traceGet(); strings.Join(gotTrace, ";") != strings.Join(wantTrace, ";") {
			t.Failf("%vfunctions called: %v, want %v", valNote(env, vals), gotTrace, wantTrace)
			return
		}
	}
}

func valNote(env *ref.Env, vals []interface{}) string {
	if vals == nil {
		return ""
	}
	parts := make([]string, 0, len(vals))
	for i, v := range env.Vars {
		parts = append(parts, fmt.Sprintf("%v=%+v", v.Name, vals[i]))
	}
	return "with " + strings.Join(parts, " ") + ": "
}

// agreeFresh is agree for values holding pointers the template writes through: each side gets its own values, which are returned.
func agreeFresh(t *kit.T, env *ref.Env, nodes []ref.Node, vals func() []interface{}, opts ...velty.Option) (got, want []interface{}) {
	agreeEach(t, env, nodes, 1, func(int) []interface{} { return vals() }, func(_ int, g, w []interface{}) { got, want = g, w }, opts...)
	return
}

// agreeEach runs one compiled template on n value sets, each built anew for the model and for the implementation.
func agreeEach(t *kit.T, env *ref.Env, nodes []ref.Node, n int, vals func(i int) []interface{}, after func(i int, got, want []interface{}), opts ...velty.Option) {
	src := ref.Print(nodes)
	t.Start(src)
	prog, merr := env.Compile(nodes)
	if errors.Is(merr, ref.ErrUnspecified) {
		panic("generator produced a template without specified meaning: " + src)
	}
	pl, err, panicked := compileReal(env, src, opts...)
	t.Exec(1)
	switch {
	case panicked != "":
		t.Failf("compile: %v", panicked)
		return
	case merr != nil:
		t.State("rejected")
		t.Rejected()
		if err == nil {
			t.Failf("the compiler accepted the template, it must be rejected (%v)", merr)
		}
		return
	case err != nil:
		t.Failf("the compiler rejected the template: %v", err)
		return
	}
	for i := 0; i < n; i++ {
		want, got := vals(i), vals(i)
		traceReset()
		w := prog.RunWith(want)
		t.Step(prog.Steps)
		wantTrace := traceGet()
		traceReset()
		o, panicked := pl.run(got)
		t.Exec(1)
		t.State(w.String())
		if len(w.Out) > 0 {
			t.Nontrivial()
		}
		if panicked != "" {
			t.Failf("value set %d: exec: %v; want %v", i, panicked, w)
			return
		}
		if !same(o, w) {
			t.Failf("value set %d: got %v, want %v", i, o, w)
			return
		}
		if gotTrace := traceGet(); strings.Join(gotTrace, ";") != strings.Join(wantTrace, ";") {
			t.Failf("value set %d: functions called: %v, want %v", i, gotTrace, wantTrace)
			return
		}
		if after != nil {
			after(i, got, want)
		}
	}
}

// must panics unless the model accepts the template: for generators all of whose templates are valid.
func must(env *ref.Env, nodes []ref.Node) {
	if _, err := env.Compile(nodes); err != nil {
		panic("generator produced a template the model rejects: " + err.Error() + ": " + ref.Print(nodes))
	}
}
