package ref

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

func (c *compiler) expr(e Expr) (reflect.Type, eval, error) {
	switch a := e.(type) {
	case Lit:
		v := reflect.ValueOf(a.V)
		return v.Type(), func(m *machine) reflect.Value { return v }, nil
	case Paren:
		return c.expr(a.X)
	case Range:
		var s []int
		if a.A < a.B {
			for i := a.A; i < a.B; i++ {
				s = append(s, i)
			}
		} else {
			for i := a.A; i > a.B; i-- {
				s = append(s, i)
			}
		}
		v := reflect.ValueOf(s)
		return v.Type(), func(m *machine) reflect.Value { return v }, nil
	case *Path:
		return c.path(a)
	case Not:
		t, ev, err := c.expr(a.X)
		if err != nil {
			return nil, nil, err
		}
		if t == nil || t.Kind() != reflect.Bool {
			return nil, nil, reject("! of %v", t)
		}
		return boolT, func(m *machine) reflect.Value { return reflect.ValueOf(!ev(m).Bool()) }, nil
	case Bin:
		return c.bin(a)
	}
	panic("ref: unknown expression")
}

// Arith computes x op y for the documented operand kinds; ok is false when the combination has no result.
func Arith(op string, x, y interface{}) (interface{}, bool) {
	switch a := x.(type) {
	case int:
		switch b := y.(type) {
		case int:
			switch op {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			case "/":
				return a / b, true
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			case "<":
				return a < b, true
			case "<=":
				return a <= b, true
			case ">":
				return a > b, true
			case ">=":
				return a >= b, true
			}
		case float64:
			return Arith(op, float64(a), b)
		}
	case float64:
		switch b := y.(type) {
		case int:
			return Arith(op, a, float64(b))
		case float64:
			switch op {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			case "/":
				return a / b, true
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			case "<":
				return a < b, true
			case "<=":
				return a <= b, true
			case ">":
				return a > b, true
			case ">=":
				return a >= b, true
			}
		}
	case string:
		if b, ok := y.(string); ok {
			switch op {
			case "+":
				return a + b, true
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			case "<":
				return a < b, true
			case "<=":
				return a <= b, true
			case ">":
				return a > b, true
			case ">=":
				return a >= b, true
			}
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case "&&":
				return a && b, true
			case "||":
				return a || b, true
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			}
		}
	}
	return nil, false
}

func sample(t reflect.Type) (interface{}, bool) {
	switch t {
	case intT:
		return 1, true
	case floatT:
		return 1.0, true
	case stringT:
		return "", true
	case boolT:
		return true, true
	}
	return nil, false
}

func (c *compiler) bin(a Bin) (reflect.Type, eval, error) {
	lt, l, err := c.expr(a.L)
	if err != nil {
		return nil, nil, err
	}
	rt, r, err := c.expr(a.R)
	if err != nil {
		return nil, nil, err
	}
	if lt == nil || rt == nil {
		return nil, nil, reject("operand of unknown type")
	}
	ls, ok1 := sample(lt)
	rs, ok2 := sample(rt)
	if !ok1 || !ok2 {
		return nil, nil, ErrUnspecified
	}
	res, ok := Arith(a.Op, ls, rs)
	if !ok {
		if lt == rt {
			return nil, nil, reject("%v of %v", a.Op, lt)
		}
		return nil, nil, ErrUnspecified
	}
	if lt == stringT && a.Op[0] != '+' && a.Op != "==" && a.Op != "!=" {
		return nil, nil, ErrUnspecified
	}
	return reflect.TypeOf(res), func(m *machine) reflect.Value {
		x := l(m).Interface()
		y := r(m).Interface()
		v, _ := Arith(a.Op, x, y)
		return reflect.ValueOf(v)
	}, nil
}

// path returns a nil type for references to unknown variables.
func (c *compiler) path(p *Path) (reflect.Type, eval, error) {
	p = c.resolve(p)
	var t reflect.Type
	var get eval
	if p.Call {
		fn, ok := c.env.Funcs[p.Root]
		var result reflect.Type
		if !ok {
			sf, ok := c.env.Standalone[p.Root]
			if !ok {
				return nil, nil, nil
			}
			fn, result = sf.Fn, sf.Result
		}
		var err error
		if t, get, err = c.callFn(reflect.ValueOf(fn), result, nil, nil, p.Args); err != nil {
			return nil, nil, err
		}
	} else if ns, ok := c.env.NS[p.Root]; ok && c.scope[p.Root] == nil {
		if len(p.Segs) == 0 {
			return nil, nil, ErrUnspecified
		}
		a, ok := p.Segs[0].(Method)
		if !ok {
			return nil, nil, ErrUnspecified
		}
		fn := reflect.ValueOf(ns).MethodByName(a.Name)
		if !fn.IsValid() {
			return nil, nil, reject("no method %v in the namespace", a.Name)
		}
		var result reflect.Type
		if r, ok := ns.(nsResult); ok {
			result = r.MethodResult(a.Name)
		}
		var err error
		if t, get, err = c.callFn(fn, result, nil, nil, a.Args); err != nil {
			return nil, nil, err
		}
		return c.segs(p.Segs[1:], t, get)
	} else {
		s := c.scope[p.Root]
		if s == nil {
			return nil, nil, nil
		}
		t = s.typ
		get = func(m *machine) reflect.Value { return m.mem[s.id] }
	}
	return c.segs(p.Segs, t, get)
}

// callFn is a call of fn with the receiver (if recv is set) and the arguments; result overrides the type of the result.
func (c *compiler) callFn(fn reflect.Value, result reflect.Type, recvType reflect.Type, recv eval, exprs []Expr) (reflect.Type, eval, error) {
	ft := fn.Type()
	skip := 0
	if recv != nil {
		skip = 1
		if ft.NumIn() == 0 {
			return nil, nil, reject("argument count")
		}
		want := ft.In(0)
		if ft.IsVariadic() && ft.NumIn() == 1 {
			want = want.Elem()
		}
		if err := argType(recvType, want); err != nil {
			return nil, nil, err
		}
	}
	args, err := c.args(ft, skip, exprs)
	if err != nil {
		return nil, nil, err
	}
	t := ft.Out(0)
	get := call(t, func(m *machine) []reflect.Value {
		var in []reflect.Value
		if recv != nil {
			r := recv(m)
			if !r.IsValid() {
				r = reflect.Zero(recvType)
			}
			in = append(in, copied(r))
		}
		return callWith(m, fn, append(in, args(m)...))
	})
	if result != nil && result != t {
		inner := get
		return result, func(m *machine) reflect.Value {
			v := inner(m)
			for v.IsValid() && v.Kind() == reflect.Interface {
				v = v.Elem()
			}
			if !v.IsValid() {
				return reflect.Zero(result)
			}
			if v.Type() != result {
				panic("ref: result of another type than declared")
			}
			return v
		}, nil
	}
	return t, get, nil
}

func copied(v reflect.Value) reflect.Value {
	cp := reflect.New(v.Type()).Elem()
	cp.Set(v)
	return cp
}

// callWith passes values held in interfaces as the types the function takes; nothing is called when one differs.
func callWith(m *machine, fn reflect.Value, in []reflect.Value) []reflect.Value {
	ft := fn.Type()
	for i, v := range in {
		var want reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			want = ft.In(ft.NumIn() - 1).Elem()
		} else {
			want = ft.In(i)
		}
		if v.Kind() == reflect.Interface && want != v.Type() {
			switch {
			case v.IsNil():
				in[i] = reflect.Zero(want)
			case v.Elem().Type().AssignableTo(want):
				in[i] = v.Elem()
			default:
				m.fail(fmt.Errorf("unexpected"))
				return []reflect.Value{reflect.Zero(ft.Out(0))}
			}
		}
	}
	return fn.Call(in)
}

func argType(t, want reflect.Type) error {
	if t.AssignableTo(want) || t.Kind() == reflect.Interface {
		return nil
	}
	return reject("argument of type %v for %v", t, want)
}

func call(t reflect.Type, do func(m *machine) []reflect.Value) eval {
	return func(m *machine) reflect.Value {
		out := do(m)
		if len(out) > 1 && out[1].Type().Implements(errorT) && !out[1].IsNil() {
			m.fail(out[1].Interface().(error))
			return reflect.Zero(t)
		}
		return out[0]
	}
}

func (c *compiler) args(ft reflect.Type, skip int, exprs []Expr) (func(m *machine) []reflect.Value, error) {
	var evs []eval
	if n := ft.NumIn() - skip; !ft.IsVariadic() && n != len(exprs) || ft.IsVariadic() && len(exprs) < n-1 {
		return nil, reject("argument count")
	}
	for i, e := range exprs {
		t, ev, err := c.expr(e)
		if err != nil {
			return nil, err
		}
		if t == nil {
			return nil, reject("unknown argument")
		}
		want := ft.In(0)
		if ft.IsVariadic() && i+skip >= ft.NumIn()-1 {
			want = ft.In(ft.NumIn() - 1).Elem()
		} else {
			want = ft.In(i + skip)
		}
		if err := argType(t, want); err != nil {
			return nil, err
		}
		evs = append(evs, ev)
	}
	return func(m *machine) []reflect.Value {
		res := make([]reflect.Value, len(evs))
		for i, ev := range evs {
			res[i] = copied(ev(m))
		}
		return res
	}, nil
}

// FieldPath resolves a name in a struct type as documented: own fields by their tag names (or the field name when
// untagged), then the fields promoted through embedded structs with their prefix. It returns the index path.
func FieldPath(t reflect.Type, name string) ([]int, bool) {
	return fieldPath(t, name, map[reflect.Type]bool{})
}

// FieldNames lists the names FieldPath resolves in a struct type.
func FieldNames(t reflect.Type) []string { return fieldNames(t, map[reflect.Type]bool{}) }

func fieldNames(t reflect.Type, seen map[reflect.Type]bool) (res []string) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || seen[t] {
		return nil
	}
	seen[t] = true
	defer delete(seen, t)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		g := parseTag(f.Tag.Get("velty"))
		switch {
		case g.omit:
		case f.Anonymous:
			for _, n := range fieldNames(f.Type, seen) {
				res = append(res, g.prefix+n)
			}
		case len(g.names) > 0:
			res = append(res, g.names...)
		default:
			res = append(res, f.Name)
		}
	}
	return res
}

type tag struct {
	names  []string
	prefix string
	omit   bool
}

func parseTag(s string) (r tag) {
	for i, el := range strings.Split(s, ",") {
		el = strings.TrimSpace(el)
		kv := strings.SplitN(el, "=", 2)
		switch {
		case el == "-":
			r.omit = true
		case len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "names"):
			r.names = strings.Split(strings.TrimSpace(kv[1]), "|")
		case len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "name"):
			r.names = []string{strings.TrimSpace(kv[1])}
		case len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "prefix"):
			r.prefix = strings.TrimSpace(kv[1])
		case i == 0 && len(kv) == 1 && el != "":
			r.names = strings.Split(el, "|")
		}
	}
	return r
}

func fieldPath(t reflect.Type, name string, seen map[reflect.Type]bool) ([]int, bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		g := parseTag(f.Tag.Get("velty"))
		if g.omit || f.Anonymous {
			continue
		}
		names := g.names
		if len(names) == 0 {
			names = []string{f.Name}
		}
		for _, n := range names {
			if n == name {
				return []int{i}, true
			}
		}
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		g := parseTag(f.Tag.Get("velty"))
		if g.omit || !f.Anonymous || !strings.HasPrefix(name, g.prefix) {
			continue
		}
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if ft.Kind() != reflect.Struct || seen[ft] {
			continue
		}
		seen[ft] = true
		p, ok := fieldPath(ft, name[len(g.prefix):], seen)
		delete(seen, ft)
		if ok {
			return append([]int{i}, p...), true
		}
	}
	return nil, false
}

// an invalid reflect.Value stands for "the path met a nil pointer".
func indexOf(v reflect.Value) int {
	v = keyValue(v)
	if v.CanUint() {
		return int(v.Uint())
	}
	return int(v.Int())
}

// keyValue is what an index stands for: the value held by an interface, the one behind a pointer.
func keyValue(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr && primitiveKey(v.Type()) {
		v = v.Elem()
	}
	return v
}

func primitiveKey(t reflect.Type) bool {
	k := t.Elem().Kind()
	return k == reflect.Bool || k == reflect.String || isNumber(k)
}

func isNumber(k reflect.Kind) bool {
	return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr
}

func comparableKeys(k, key reflect.Type) bool {
	if k.Kind() == reflect.Ptr && primitiveKey(k) {
		k = k.Elem()
	}
	return k == key || k.Kind() == key.Kind() || isNumber(k.Kind()) && isNumber(key.Kind()) || key.Kind() == reflect.Interface || k.Kind() == reflect.Interface
}

// Lookup finds the entry under an equal key; the invalid value when there is none.
func Lookup(m, k reflect.Value) reflect.Value {
	k = keyValue(k)
	it := m.MapRange()
	for it.Next() {
		key := it.Key()
		if key.Kind() == reflect.Interface {
			key = key.Elem()
		}
		if equalKeys(key, k) {
			return it.Value()
		}
	}
	return reflect.Value{}
}

func equalKeys(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return false
	}
	if isNumber(a.Kind()) && isNumber(b.Kind()) {
		x, y := new(big.Float).SetPrec(200), new(big.Float).SetPrec(200)
		for i, v := range []reflect.Value{a, b} {
			f := []*big.Float{x, y}[i]
			switch {
			case v.CanInt():
				f.SetInt64(v.Int())
			case v.CanUint():
				f.SetUint64(v.Uint())
			default:
				f.SetFloat64(v.Float())
			}
		}
		return x.Cmp(y) == 0
	}
	if a.Kind() != b.Kind() {
		return false
	}
	if a.Kind() == reflect.String {
		return a.String() == b.String()
	}
	return a.Type() == b.Type() && a.Interface() == b.Interface()
}

func (c *compiler) segs(segs []Seg, t reflect.Type, get eval) (reflect.Type, eval, error) {
	for _, s := range segs {
		prev, pt := get, t
		switch a := s.(type) {
		case Field:
			st := pt
			for st.Kind() == reflect.Ptr {
				st = st.Elem()
			}
			if st.Kind() != reflect.Struct {
				return nil, nil, reject("field of %v", pt)
			}
			idx, ok := FieldPath(st, string(a))
			if !ok {
				return nil, nil, reject("no field %v in %v", a, st)
			}
			t = st.FieldByIndex(idx).Type
			get = func(m *machine) reflect.Value {
				v := prev(m)
				for _, i := range idx {
					for v.IsValid() && v.Kind() == reflect.Ptr {
						if v.IsNil() {
							return reflect.Value{}
						}
						v = v.Elem()
					}
					if !v.IsValid() {
						return v
					}
					v = v.Field(i)
				}
				return v
			}
		case Index:
			it, ix, err := c.expr(a.X)
			if err != nil {
				return nil, nil, err
			}
			if it == nil {
				return nil, nil, reject("unknown index")
			}
			switch pt.Kind() {
			case reflect.Slice:
				t = pt.Elem()
				get = func(m *machine) reflect.Value {
					v := prev(m)
					if !v.IsValid() {
						return v
					}
					return v.Index(indexOf(ix(m)))
				}
			case reflect.Map:
				if !comparableKeys(it, pt.Key()) {
					return nil, nil, ErrUnspecified
				}
				t = pt.Elem()
				get = func(m *machine) reflect.Value {
					v := prev(m)
					if !v.IsValid() {
						return v
					}
					return Lookup(v, ix(m))
				}
			case reflect.Interface:
				if pt.NumMethod() > 0 {
					return nil, nil, ErrUnspecified
				}
				get = func(m *machine) reflect.Value {
					v := prev(m)
					if !v.IsValid() || v.IsNil() {
						return reflect.Zero(pt)
					}
					var e reflect.Value
					switch v = v.Elem(); v.Kind() {
					case reflect.Slice, reflect.Array:
						e = v.Index(indexOf(ix(m)))
					case reflect.Map:
						e = Lookup(v, ix(m))
					default:
						panic("ref: index of a value that is no container")
					}
					r := reflect.New(pt).Elem()
					if e.IsValid() && !(e.Kind() == reflect.Interface && e.IsNil()) {
						r.Set(reflect.ValueOf(e.Interface()))
					}
					return r
				}
			default:
				return nil, nil, reject("index of %v", pt)
			}
		case Method:
			mt, ok := pt.MethodByName(a.Name)
			if !ok {
				fn, result, ok := c.function(pt, a.Name)
				if !ok {
					return nil, nil, reject("no function %v for %v", a.Name, pt)
				}
				var err error
				if t, get, err = c.callFn(fn, result, pt, prev, a.Args); err != nil {
					return nil, nil, err
				}
				continue
			}
			if pt.Kind() == reflect.Interface {
				args, err := c.args(mt.Type, 0, a.Args)
				if err != nil {
					return nil, nil, err
				}
				t = mt.Type.Out(0)
				get = call(t, func(m *machine) []reflect.Value {
					v := prev(m)
					if !v.IsValid() || v.IsNil() {
						m.fail(fmt.Errorf("can't call"))
						return []reflect.Value{reflect.Zero(mt.Type.Out(0))}
					}
					fn := v.MethodByName(a.Name)
					return callWith(m, fn, args(m))
				})
				continue
			}
			args, err := c.args(mt.Type, 1, a.Args)
			if err != nil {
				return nil, nil, err
			}
			t = mt.Type.Out(0)
			get = call(t, func(m *machine) []reflect.Value {
				v := prev(m)
				if !v.IsValid() {
					v = reflect.Zero(pt)
				}
				fn := copied(v).MethodByName(a.Name)
				return callWith(m, fn, args(m))
			})
		}
	}
	final := get
	ft := t
	return t, func(m *machine) reflect.Value {
		v := final(m)
		if !v.IsValid() {
			return reflect.Zero(ft)
		}
		return v
	}, nil
}

// function finds what a name means on a receiver without such method.
func (c *compiler) function(recv reflect.Type, name string) (fn reflect.Value, result reflect.Type, ok bool) {
	if k, found := c.env.Kinds[name]; found {
		for _, kind := range k.Kinds {
			if kind == recv.Kind() {
				if k.Result != nil {
					result = k.Result(recv)
				}
				return reflect.ValueOf(k.Fn), result, true
			}
		}
	}
	if f, found := c.env.Funcs[name]; found {
		return reflect.ValueOf(f), nil, true
	}
	for _, f := range c.env.TypeFuncs {
		if f.Recv == recv && f.Name == name {
			return reflect.ValueOf(f.Fn), f.Result, true
		}
	}
	return reflect.Value{}, nil, false
}

// place resolves an assignment target to an addressable value (invalid when the path leads through nil).
func (c *compiler) place(p *Path) (reflect.Type, eval, error) {
	s := c.scope[p.Root]
	t := s.typ
	get := func(m *machine) reflect.Value { return m.mem[s.id] }
	for _, sg := range p.Segs {
		f, ok := sg.(Field)
		if !ok {
			return nil, nil, ErrUnspecified
		}
		prev, pt := get, t
		st := pt
		for st.Kind() == reflect.Ptr {
			st = st.Elem()
		}
		if st.Kind() != reflect.Struct {
			return nil, nil, reject("field of %v", pt)
		}
		idx, ok := FieldPath(st, string(f))
		if !ok {
			return nil, nil, reject("no field %v", f)
		}
		t = st.FieldByIndex(idx).Type
		get = func(m *machine) reflect.Value {
			v := prev(m)
			for _, i := range idx {
				for v.IsValid() && v.Kind() == reflect.Ptr {
					if v.IsNil() {
						return reflect.Value{}
					}
					v = v.Elem()
				}
				if !v.IsValid() {
					return v
				}
				v = v.Field(i)
			}
			return v
		}
	}
	return t, get, nil
}
