package checks

import (
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"verifmc/kit"
	"verifmc/ref"
)

// arguments received as interface{}, kept by the called functions, with what they were
type c20Keep struct {
	value interface{}
	was   string
}

var c20KeptArgs []c20Keep

func c20KeepArg(x interface{}) string {
	trace("keep %s", c20Was(x))
	c20KeptArgs = append(c20KeptArgs, c20Keep{x, c20Was(x)})
	return "kept"
}

// c20Was describes a value by what the value itself holds.
func c20Was(x interface{}) string {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Slice {
		return fmt.Sprintf("%T of %d/%d", x, v.Len(), v.Cap())
	}
	return fmt.Sprintf("%T:%v", x, x)
}

type C20Keeper struct{}

func (C20Keeper) Keep(x interface{}) string { return c20KeepArg(x) }

// Discovered is called with arguments collected by velty.
func (k C20Keeper) Discovered(x interface{}) (string, error) { return c20KeepArg(x), nil }

func (k C20Keeper) DiscoverInterfaces(fn interface{}) (func(args ...interface{}) (interface{}, error), reflect.Type, bool) {
	if actual, ok := fn.(func(C20Keeper, interface{}) (string, error)); ok {
		return func(args ...interface{}) (interface{}, error) { return actual(k, args[0]) }, strT, true
	}
	if actual, ok := fn.(func(interface{}) (string, error)); ok {
		return func(args ...interface{}) (interface{}, error) { return actual(args[len(args)-1]) }, strT, true
	}
	return nil, nil, false
}

type C20Kept struct {
	A int
	S string
	F [2]float64
}

// c20Scramble clears everything reachable from the memory of a state.
func c20Scramble(v reflect.Value) {
	if !v.CanAddr() {
		return
	}
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.Type() != reflect.TypeOf(time.Time{}) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				c20Scramble(v.Field(i))
			}
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				c20Scramble(v.Index(i))
			}
		case reflect.Ptr:
			if p := v; !p.IsNil() {
				elem := p.Elem()
				v.Set(reflect.Zero(v.Type()))
				c20Scramble(elem)
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
		}
	}
	v.Set(reflect.Zero(v.Type()))
}

// c20KeptPart: what a function received is a value of its own; it stays what it was however the template goes on and
// whatever becomes of the state.
func c20KeptPart(g *kit.G) {
	keepAll := func(xs ...interface{}) string {
		for _, x := range xs {
			c20KeepArg(x)
		}
		return "kept"
	}
	forms := []struct {
		name string
		call func(env *ref.Env, x *ref.Path) *ref.Path
	}{
		{"function", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.Funcs["keep"] = c20KeepArg
			return fcall("keep", x)
		}},
		{"variadic", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.Funcs["keep"] = keepAll
			return fcall("keep", x, lit("l"), x)
		}},
		{"passed through", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.Funcs["keep"] = c20KeepArg
			env.Funcs["same"] = func(x interface{}) interface{} { return x }
			return fcall("keep", fcall("same", x))
		}},
		{"receiver", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.Funcs["keep"] = c20KeepArg
			return c20On("keep", []ref.Expr{x})
		}},
		{"kind function", func(env *ref.Env, x *ref.Path) *ref.Path {
			kinds := []reflect.Kind{}
			for k := reflect.Bool; k <= reflect.Struct; k++ {
				kinds = append(kinds, k)
			}
			env.Kinds = map[string]ref.Kind{"keep": {Kinds: kinds, Fn: c20KeepArg}}
			return c20On("keep", []ref.Expr{x})
		}},
		{"namespace", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.NS = map[string]interface{}{"keeper": C20Keeper{}}
			return fpath("keeper", ref.Method{Name: "Keep", Args: []ref.Expr{x}})
		}},
		{"discovered", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.NS = map[string]interface{}{"keeper": C20Keeper{}}
			return fpath("keeper", ref.Method{Name: "Discovered", Args: []ref.Expr{x}})
		}},
		{"standalone", func(env *ref.Env, x *ref.Path) *ref.Path {
			env.Standalone = map[string]ref.Standalone{"keep": {Fn: c20KeepArg}}
			return fcall("keep", x)
		}},
	}
	values := [][]interface{}{{1000, 2000}, {"one", "two"}, {1.5, 2.5}, {true, false}, {C20Kept{1, "s", [2]float64{1, 2}}, C20Kept{2, "t", [2]float64{3, 4}}},
		{[]int{1, 2, 3}, []int{4}}, {[]string{"a"}, []string{"b", "c"}}, {time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), time.Date(2021, 1, 2, 3, 4, 5, 6, time.UTC)},
		{int64(70000), int64(80000)}, {uint16(500), uint16(600)}, {float32(2.5), float32(3.5)}, {C20Str("named"), C20Str("other")}}
	for _, val := range values {
		rt := reflect.TypeOf(val[0])
		n := len(newPlaces(rt).places)
		for i := 0; i < n; i++ {
			for f := range forms {
				for use := 0; use < 3; use++ {
					val, rt, i, form, use := val, rt, i, forms[f], use
					g.Do(func(t *kit.T) {
						pe := newPlaces(rt)
						pe.env.Vars = append(pe.env.Vars, ref.Var{Name: "next", Type: rt})
						call := func() ref.Node { return ref.Out{P: form.call(pe.env, pe.places[i].expr())} }
						var nodes []ref.Node
						switch use {
						case 0:
							nodes = pe.places[i].wrap([]ref.Node{call()})
						case 1: // the places are assigned afterwards
							nodes = append(pe.places[i].wrap([]ref.Node{call()}), ref.Set{Target: path("v"), Val: ref.V("next")}, ref.Set{Target: fpath("p", "V"), Val: ref.V("next")},
								ref.Set{Target: fpath("h", "V"), Val: ref.V("next")}, ref.Set{Target: fpath("n", "P", "V"), Val: ref.V("next")})
							nodes = append(nodes, pe.places[i].wrap([]ref.Node{call()})...)
						case 2: // a loop over two values
							pe.env.Vars = append(pe.env.Vars, ref.Var{Name: "both", Type: reflect.SliceOf(rt)})
							pe.env.Vars = append(pe.env.Vars, ref.Var{Name: "last", Type: rt})
							nodes = pe.places[i].wrap([]ref.Node{ref.Foreach{Item: "each", Over: ref.V("both"), Body: []ref.Node{
								ref.Set{Target: path("last"), Val: ref.V("each")}, ref.Out{P: form.call(pe.env, path("last"))}, ref.Out{P: form.call(pe.env, path("each"))}, call()}}})
						}
						vals := func() []interface{} {
							res := append(pe.set(val[0]), val[1])
							if use == 2 {
								both := reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
								both.Index(0).Set(reflect.ValueOf(val[0]))
								both.Index(1).Set(reflect.ValueOf(val[1]))
								res = append(res, both.Interface(), reflect.Zero(rt).Interface())
							}
							return res
						}
						c20Kept(t, pe.env, nodes, vals)
					})
				}
			}
		}
	}
}

func c20Kept(t *kit.T, env *ref.Env, nodes []ref.Node, vals func() []interface{}) {
	t.Start(ref.Print(nodes))
	prog, err := env.Compile(nodes)
	if err != nil {
		panic("the model rejects " + ref.Print(nodes) + ": " + err.Error())
	}
	pl, err, panicked := compileReal(env, ref.Print(nodes))
	if err != nil || panicked != "" {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	traceReset()
	want := prog.RunWith(vals())
	wantTrace := fmt.Sprint(traceGet())
	t.Step(prog.Steps)
	t.Nontrivial()
	t.State(want.String() + wantTrace)
	panicked = kit.Guard(func() {
		state := pl.ns()
		traceReset()
		c20KeptArgs = nil
		got := pl.runOn(state, vals())
		t.Exec(1)
		if !same(got, want) || fmt.Sprint(traceGet()) != wantTrace {
			t.Failf("got %v, functions called: %v; want %v, %v", got, traceGet(), want, wantTrace)
			return
		}
		check := func(when string) bool {
			for i, k := range c20KeptArgs {
				if is := c20Was(k.value); is != k.was {
					t.Failf("argument %d was %v, %s it has become %v", i, k.was, when, is)
					return false
				}
			}
			return true
		}
		if !check("after the execution") {
			return
		}
		c20Scramble(reflect.ValueOf(state.Mem).Elem())
		check("after the state was cleared")
	})
	if panicked != "" {
		t.Failf("exec: %v", panicked)
	}
	c20KeptArgs = nil
}
