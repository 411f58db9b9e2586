package ref

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Var is a declared variable with its initial value (nil interface values must be given as typed nils or with Type).
type Var struct {
	Name    string
	Val     interface{}
	Type    reflect.Type
	Aliases []string // further names of the variable
	Embed   bool     // embedded: its fields are names of the template, Name is not
}

func (v Var) typ() reflect.Type {
	if v.Type != nil {
		return v.Type
	}
	return reflect.TypeOf(v.Val)
}

// Env is what a template is compiled and executed against.
type Env struct {
	Vars         []Var
	Funcs        map[string]interface{}
	Escape       bool
	PanicOnError bool
	Evals        map[string][]Node

	Kinds      map[string]Kind        // functions of every receiver of a kind
	TypeFuncs  []TypeFunc             // functions of the receivers of one type
	NS         map[string]interface{} // function namespaces
	Standalone map[string]Standalone  // functions with a declared result type
}

// Kind is a function called on receivers of the listed kinds.
type Kind struct {
	Kinds  []reflect.Kind
	Fn     interface{}
	Result func(receiver reflect.Type) reflect.Type // nil: the function's
}

// TypeFunc is a function called on receivers of one type.
type TypeFunc struct {
	Recv   reflect.Type
	Name   string
	Fn     interface{}
	Result reflect.Type // nil: the function's
}

// Standalone is a function whose result type is declared with it.
type Standalone struct {
	Fn     interface{}
	Result reflect.Type // nil: the function's
}

// nsResult may be implemented by namespaces to declare the types of results.
type nsResult interface {
	MethodResult(name string) reflect.Type
}

// Outcome is what an execution did.
type Outcome struct {
	Rejected bool   // the compiler refused the template
	Out      string // rendered output
	Err      string // text of the first error raised ("" if none)
}

func (o Outcome) String() string {
	if o.Rejected {
		return "rejected"
	}
	if o.Err != "" {
		return fmt.Sprintf("%q with error %q", o.Out, o.Err)
	}
	return fmt.Sprintf("%q", o.Out)
}

// ErrUnspecified marks programs whose meaning the model does not fix.
var ErrUnspecified = errors.New("unspecified")

type slot struct {
	id  int
	typ reflect.Type
}

type compiler struct {
	env   *Env
	scope map[string]*slot
	n     *int
	types *[]reflect.Type
}

type machine struct {
	env   *Env
	mem   []reflect.Value
	out   *strings.Builder
	errs  *[]error
	steps *int
}

type stop struct{}

type code func(m *machine)
type eval func(m *machine) reflect.Value

// Prog is a compiled program of the model.
type Prog struct {
	env   *Env
	c     *compiler
	run   code
	init  []*slot
	Steps int
	Errs  []error // raised by the last execution, in order
}

// Compile runs the model's static pass; err is non-nil when the template must be rejected.
func (e *Env) Compile(nodes []Node) (*Prog, error) {
	n := 0
	var types []reflect.Type
	c := &compiler{env: e, scope: map[string]*slot{}, n: &n, types: &types}
	p := &Prog{env: e, c: c}
	for _, v := range e.Vars {
		if v.Embed {
			p.init = append(p.init, c.define(embedded(v.Name), v.typ()))
			continue
		}
		s := c.define(v.Name, v.typ())
		p.init = append(p.init, s)
		for _, a := range v.Aliases {
			c.scope[a] = s
		}
	}
	run, err := c.block(nodes)
	if err != nil {
		return nil, err
	}
	p.run = run
	return p, nil
}

// Specified reports whether executing with the values has a meaning the model fixes.
func (p *Prog) Specified(vals []interface{}) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if err, is := r.(error); !is || !errors.Is(err, ErrUnspecified) {
				panic(r)
			}
			ok = false
		}
	}()
	p.RunWith(vals)
	return true
}

// Scope lists what templates compiled afterwards in the same scope can name, with the types.
func (p *Prog) Scope() map[string]reflect.Type {
	res := map[string]reflect.Type{}
	for name, s := range p.c.scope {
		if !strings.HasPrefix(name, embedded("")) {
			res[name] = s.typ
		}
	}
	return res
}

// embedded is the hidden name of an embedded variable.
func embedded(name string) string { return "\x00" + name }

// resolve turns names of fields of embedded variables into paths.
func (c *compiler) resolve(p *Path) *Path {
	if p.Call || c.scope[p.Root] != nil {
		return p
	}
	for _, v := range c.env.Vars {
		if !v.Embed {
			continue
		}
		t := v.typ()
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct {
			continue
		}
		if _, ok := FieldPath(t, p.Root); ok {
			q := *p
			q.Root = embedded(v.Name)
			q.Segs = append([]Seg{Field(p.Root)}, p.Segs...)
			return &q
		}
	}
	return p
}

// Run executes with the environment's initial values.
func (p *Prog) Run() (o Outcome) {
	var vals []interface{}
	for _, v := range p.env.Vars {
		vals = append(vals, v.Val)
	}
	return p.RunWith(vals)
}

// RunWith executes with the given values of the declared variables (nil: zero value).
func (p *Prog) RunWith(vals []interface{}) (o Outcome) {
	m := p.NewMem()
	m.Set(vals)
	return m.Exec()
}

// Mem is the memory of a state of a program.
type Mem struct {
	p *Prog
	m *machine
}

// NewMem returns the memory of a new state.
func (p *Prog) NewMem() *Mem {
	m := &machine{env: p.env}
	m.grow(*p.c.types)
	return &Mem{p: p, m: m}
}

// Set sets the declared variables (nil: left as it is).
func (s *Mem) Set(vals []interface{}) {
	for i, sl := range s.p.init {
		if i < len(vals) && vals[i] != nil {
			s.m.mem[sl.id].Set(reflect.ValueOf(vals[i]))
		}
	}
}

// Get returns the value of a declared variable.
func (s *Mem) Get(i int) interface{} { return s.m.mem[s.p.init[i].id].Interface() }

// Exec executes once on what the memory holds; the outcome is that of this execution alone.
func (s *Mem) Exec() (o Outcome) {
	p, m := s.p, s.m
	m.out, m.errs, m.steps = &strings.Builder{}, &[]error{}, new(int)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		p.run(m)
	}()
	o.Out = m.out.String()
	if len(*m.errs) > 0 {
		o.Err = (*m.errs)[0].Error()
	}
	p.Steps = *m.steps
	p.Errs = *m.errs
	return o
}

func (m *machine) grow(types []reflect.Type) {
	for i := len(m.mem); i < len(types); i++ {
		m.mem = append(m.mem, reflect.New(types[i]).Elem())
	}
}

func (m *machine) fail(err error) {
	*m.errs = append(*m.errs, err)
	if m.env.PanicOnError {
		panic(stop{})
	}
}

func (c *compiler) define(name string, t reflect.Type) *slot {
	s := &slot{id: *c.n, typ: t}
	*c.n++
	*c.types = append(*c.types, t)
	c.scope[name] = s
	return s
}

func (c *compiler) block(nodes []Node) (code, error) {
	var list []code
	for _, n := range nodes {
		s, err := c.node(n)
		if err != nil {
			return nil, err
		}
		list = append(list, s)
	}
	return func(m *machine) {
		for _, s := range list {
			*m.steps++
			s(m)
		}
	}, nil
}

var errReject = errors.New("rejected")

func reject(f string, a ...interface{}) error {
	return fmt.Errorf("%w: %s", errReject, fmt.Sprintf(f, a...))
}

var (
	intT    = reflect.TypeOf(0)
	floatT  = reflect.TypeOf(0.0)
	stringT = reflect.TypeOf("")
	boolT   = reflect.TypeOf(true)
	errorT  = reflect.TypeOf((*error)(nil)).Elem()
)

func (c *compiler) node(n Node) (code, error) {
	switch a := n.(type) {
	case Text:
		s := string(a)
		return func(m *machine) { m.out.WriteString(s) }, nil
	case Raw:
		s := string(a)
		return func(m *machine) { m.out.WriteString(s) }, nil
	case Comment:
		return func(m *machine) {}, nil
	case Out:
		t, ev, err := c.path(a.P)
		if err != nil {
			return nil, err
		}
		if t == nil {
			s := Default.Expr(a.P)
			return func(m *machine) { m.out.WriteString(s) }, nil
		}
		return func(m *machine) { m.out.WriteString(m.env.dyn(Render(t, ev(m)))) }, nil
	case If:
		return c.ifNode(a)
	case Foreach:
		return c.foreach(a)
	case For:
		return c.forNode(a)
	case Set:
		return c.set(a.Target, a.Val)
	case Eval:
		return c.evaluate(a)
	}
	return nil, fmt.Errorf("ref: node %T", n)
}

func (e *Env) dyn(s string) string {
	if e.Escape {
		return html.EscapeString(s)
	}
	return s
}

// Render gives the documented rendering of a value of static type t.
func Render(t reflect.Type, v reflect.Value) string {
	switch t.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Interface:
		switch d := v.Interface().(type) {
		case string:
			return d
		case int:
			return strconv.Itoa(d)
		case float64:
			return strconv.FormatFloat(d, 'f', -1, 64)
		case bool:
			return strconv.FormatBool(d)
		case time.Time:
			return d.Format(time.RFC3339)
		case *time.Time:
			if d == nil {
				return "<nil>"
			}
			return d.Format(time.RFC3339)
		default:
			return fmt.Sprintf("%v", d)
		}
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return ""
	}
	return string(b)
}

func (c *compiler) cond(e Expr) (func(m *machine) bool, error) {
	t, ev, err := c.expr(e)
	if err != nil {
		return nil, err
	}
	if t == nil {
		return nil, reject("condition over an unknown variable")
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return func(m *machine) bool { return !ev(m).IsZero() }, nil
	case reflect.String, reflect.Slice:
		return func(m *machine) bool { return ev(m).Len() > 0 }, nil
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Struct {
			return func(m *machine) bool { return !ev(m).IsNil() }, nil
		}
	}
	return nil, ErrUnspecified
}

func (c *compiler) ifNode(a If) (code, error) {
	type arm struct {
		cond func(m *machine) bool
		body code
	}
	var arms []arm
	for _, x := range a.Arms {
		cond, err := c.cond(x.Cond)
		if err != nil {
			return nil, err
		}
		body, err := c.block(x.Body)
		if err != nil {
			return nil, err
		}
		arms = append(arms, arm{cond, body})
	}
	var els code
	if a.HasElse {
		var err error
		if els, err = c.block(a.Else); err != nil {
			return nil, err
		}
	}
	return func(m *machine) {
		for _, x := range arms {
			if x.cond(m) {
				x.body(m)
				return
			}
		}
		if els != nil {
			els(m)
		}
	}, nil
}

func (c *compiler) foreach(a Foreach) (code, error) {
	t, ev, err := c.expr(a.Over)
	if err != nil {
		return nil, err
	}
	if t == nil {
		return func(m *machine) {}, nil
	}
	if t.Kind() != reflect.Slice {
		return nil, reject("foreach over %v", t)
	}
	s := c.scope[a.Item]
	if s == nil || s.typ != t.Elem() {
		s = c.define(a.Item, t.Elem())
	}
	body, err := c.block(a.Body)
	if err != nil {
		return nil, err
	}
	return func(m *machine) {
		list := reflect.ValueOf(ev(m).Interface()) // the slice as it was when the loop began
		for i := 0; i < list.Len(); i++ {
			m.mem[s.id].Set(list.Index(i))
			body(m)
		}
	}, nil
}

func (c *compiler) forNode(a For) (code, error) {
	init, err := c.set(V(a.Var), a.From)
	if err != nil {
		return nil, err
	}
	var step Expr
	switch a.Post {
	case "++":
		step = Bin{"+", V(a.Var), Lit{1}}
	case "--":
		step = Bin{"-", V(a.Var), Lit{1}}
	default:
		step = Bin{a.Post[:1], V(a.Var), Paren{a.PostN}}
	}
	post, err := c.set(V(a.Var), step)
	if err != nil {
		return nil, err
	}
	cond, err := c.cond(a.Cond)
	if err != nil {
		return nil, err
	}
	body, err := c.block(a.Body)
	if err != nil {
		return nil, err
	}
	return func(m *machine) {
		init(m)
		for cond(m) {
			if *m.steps > 100000 {
				panic("ref: endless loop generated")
			}
			body(m)
			post(m)
			*m.steps++
		}
	}, nil
}

func (c *compiler) set(target *Path, val Expr) (code, error) {
	if target.Call {
		return nil, ErrUnspecified
	}
	// the target is resolved before the value is compiled
	target = c.resolve(target)
	known := c.scope[target.Root]
	t, ev, err := c.expr(val)
	if err != nil {
		return nil, err
	}
	if t == nil {
		return nil, reject("value of unknown type")
	}
	if known == nil {
		if len(target.Segs) > 0 {
			return nil, ErrUnspecified
		}
		s := c.define(target.Root, t)
		return func(m *machine) { m.mem[s.id].Set(ev(m)) }, nil
	}
	tt, place, err := c.place(target)
	if err != nil {
		return nil, err
	}
	if tt == t {
		return func(m *machine) {
			v := ev(m)
			tmp := reflect.New(t).Elem()
			tmp.Set(v)
			if d := place(m); d.IsValid() {
				d.Set(tmp)
			}
		}, nil
	}
	conv, err := conversion(tt, t)
	if err != nil {
		return nil, err
	}
	return func(m *machine) {
		v, err := conv(ev(m))
		if err != nil {
			m.fail(err)
			return
		}
		if d := place(m); d.IsValid() {
			d.Set(v)
		}
	}, nil
}

// conversion from type y to type x on assignment.
func conversion(x, y reflect.Type) (func(v reflect.Value) (reflect.Value, error), error) {
	num := func(t reflect.Type) bool { return t == intT || t == floatT }
	switch {
	case num(x) && num(y):
		return func(v reflect.Value) (reflect.Value, error) { return v.Convert(x), nil }, nil
	case x == stringT && y == intT:
		return func(v reflect.Value) (reflect.Value, error) {
			return reflect.ValueOf(strconv.FormatInt(v.Int(), 10)), nil
		}, nil
	case x == intT && y == stringT:
		return func(v reflect.Value) (reflect.Value, error) {
			i, err := strconv.Atoi(v.String())
			return reflect.ValueOf(i), err
		}, nil
	case x == stringT && y == floatT:
		return func(v reflect.Value) (reflect.Value, error) {
			return reflect.ValueOf(strconv.FormatFloat(v.Float(), 'f', -1, 64)), nil
		}, nil
	case x == stringT && y == boolT:
		return func(v reflect.Value) (reflect.Value, error) {
			return reflect.ValueOf(strconv.FormatBool(v.Bool())), nil
		}, nil
	}
	return nil, ErrUnspecified
}

func (c *compiler) evaluate(a Eval) (code, error) {
	t, ev, err := c.expr(a.Arg)
	if err != nil {
		return nil, err
	}
	if t == nil || t.Kind() != reflect.String {
		return nil, reject("evaluate of %v", t)
	}
	scope := map[string]*slot{}
	for k, v := range c.scope {
		scope[k] = v
	}
	return func(m *machine) {
		text := ev(m).String()
		nodes, ok := c.env.Evals[text]
		if !ok {
			if strings.ContainsAny(text, "$#") {
				panic("ref: evaluated text not registered: " + text)
			}
			nodes = []Node{Text(text)}
		}
		n := len(m.mem)
		var types []reflect.Type
		for i := range m.mem {
			types = append(types, m.mem[i].Type())
		}
		inner := &compiler{env: c.env, scope: map[string]*slot{}, n: &n, types: &types}
		for k, v := range scope {
			inner.scope[k] = v
		}
		run, err := inner.block(nodes)
		if err != nil {
			panic(fmt.Errorf("%w: evaluated text is rejected: %v", ErrUnspecified, text))
		}
		sub := &machine{env: m.env, out: m.out, errs: m.errs, steps: m.steps}
		for _, v := range m.mem {
			cp := reflect.New(v.Type()).Elem()
			cp.Set(v)
			sub.mem = append(sub.mem, cp)
		}
		sub.grow(types)
		run(sub)
	}, nil
}
