package checks

import (
	"reflect"

	"verifmc/ref"
)

// place is somewhere a value of a type can be read from in a template.
type place struct {
	name string
	expr func() *ref.Path
	wrap func(body []ref.Node) []ref.Node
	loop bool
}

// placesEnv declares every place for values of type rt; set returns the variables' values with v in every place.
type placesEnv struct {
	env    *ref.Env
	places []place
	rt     reflect.Type
	types  []reflect.Type
	build  []func(v reflect.Value) reflect.Value
}

var strT = reflect.TypeOf("")

func pad(name string, t reflect.Type) reflect.StructField {
	return reflect.StructField{Name: name, Type: t}
}

func newPlaces(rt reflect.Type) *placesEnv { return newPlacesNamed("", rt) }

// newPlacesNamed prefixes every name.
func newPlacesNamed(prefix string, rt reflect.Type) *placesEnv {
	pe := &placesEnv{env: &ref.Env{Funcs: map[string]interface{}{}}, rt: rt}
	path := func(root string, segs ...ref.Seg) *ref.Path { return path(prefix+root, segs...) }
	add := func(name string, t reflect.Type, build func(v reflect.Value) reflect.Value) {
		pe.env.Vars = append(pe.env.Vars, ref.Var{Name: prefix + name, Type: t})
		pe.types = append(pe.types, t)
		pe.build = append(pe.build, build)
	}
	at := func(name string, p *ref.Path) {
		pe.places = append(pe.places, place{name: name, expr: func() *ref.Path { c := *p; return &c }, wrap: func(b []ref.Node) []ref.Node { return b }})
	}
	h := reflect.StructOf([]reflect.StructField{pad("Pad", reflect.TypeOf(int8(0))), pad("V", rt), pad("Z", strT)})
	hold := func(v reflect.Value) reflect.Value {
		s := reflect.New(h).Elem()
		s.Field(0).SetInt(-1)
		s.Field(1).Set(v)
		s.Field(2).SetString("z")
		return s
	}
	hptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(h)
		p.Elem().Set(hold(v))
		return p
	}
	add("v", rt, func(v reflect.Value) reflect.Value { return v })
	at("variable", path("v"))
	add("h", h, hold)
	at("field", path("h", ref.Field("V")))
	add("p", reflect.PtrTo(h), hptr)
	at("pointer field", path("p", ref.Field("V")))
	n := reflect.StructOf([]reflect.StructField{pad("A", strT), pad("In", h), pad("B", reflect.TypeOf(true)), pad("P", reflect.PtrTo(h))})
	add("n", n, func(v reflect.Value) reflect.Value {
		s := reflect.New(n).Elem()
		s.Field(1).Set(hold(v))
		s.Field(3).Set(hptr(v))
		return s
	})
	at("nested field", path("n", ref.Field("In"), ref.Field("V")))
	at("nested pointer field", path("n", ref.Field("P"), ref.Field("V")))
	add("vs", reflect.SliceOf(rt), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(rt), 3, 4)
		s.Index(1).Set(v)
		return s
	})
	at("element", path("vs", ref.Index{X: ref.Lit{V: 1}}))
	add("m", reflect.MapOf(strT, rt), func(v reflect.Value) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(strT, rt))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		m.SetMapIndex(reflect.ValueOf("other"), reflect.Zero(rt))
		return m
	})
	at("entry", path("m", ref.Index{X: ref.Lit{V: "k"}}))
	add("hs", reflect.SliceOf(h), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(h), 2, 2)
		s.Index(1).Set(hold(v))
		return s
	})
	at("field of element", path("hs", ref.Index{X: ref.Lit{V: 1}}, ref.Field("V")))
	add("ps", reflect.SliceOf(reflect.PtrTo(h)), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(h)), 2, 2)
		s.Index(1).Set(hptr(v))
		return s
	})
	at("field of pointer element", path("ps", ref.Index{X: ref.Lit{V: 1}}, ref.Field("V")))
	add("mp", reflect.MapOf(strT, reflect.PtrTo(h)), func(v reflect.Value) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(strT, reflect.PtrTo(h)))
		m.SetMapIndex(reflect.ValueOf("k"), hptr(v))
		return m
	})
	at("field of entry", path("mp", ref.Index{X: ref.Lit{V: "k"}}, ref.Field("V")))
	hl := reflect.StructOf([]reflect.StructField{pad("L", reflect.SliceOf(rt)), pad("X", strT), pad("M", reflect.MapOf(reflect.TypeOf(0), rt))})
	add("hl", hl, func(v reflect.Value) reflect.Value {
		s := reflect.New(hl).Elem()
		l := reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
		l.Index(0).Set(v)
		s.Field(0).Set(l)
		m := reflect.MakeMap(s.Field(2).Type())
		m.SetMapIndex(reflect.ValueOf(7), v)
		s.Field(2).Set(m)
		return s
	})
	at("element of field", path("hl", ref.Field("L"), ref.Index{X: ref.Lit{V: 0}}))
	at("entry of field", path("hl", ref.Field("M"), ref.Index{X: ref.Lit{V: 7}}))
	fn := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{reflect.PtrTo(h)}, []reflect.Type{rt}, false), func(a []reflect.Value) []reflect.Value {
		return []reflect.Value{a[0].Elem().Field(1)}
	})
	pe.env.Funcs[prefix+"get"] = fn.Interface()
	at("call result", &ref.Path{Root: prefix + "get", Call: true, Args: []ref.Expr{path("p")}})
	echo := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{rt}, []reflect.Type{rt}, false), func(a []reflect.Value) []reflect.Value { return []reflect.Value{a[0]} })
	pe.env.Funcs[prefix+"echo"] = echo.Interface()
	at("argument passed through", &ref.Path{Root: prefix + "echo", Call: true, Args: []ref.Expr{path("v")}})
	pe.places = append(pe.places, place{name: "assigned variable", expr: func() *ref.Path { return path("assigned") },
		wrap: func(b []ref.Node) []ref.Node {
			return append([]ref.Node{ref.Set{Target: path("assigned"), Val: path("v")}}, b...)
		}})
	pe.places = append(pe.places, place{name: "assigned from field", expr: func() *ref.Path { return path("assigned") },
		wrap: func(b []ref.Node) []ref.Node {
			return append([]ref.Node{ref.Set{Target: path("assigned"), Val: path("n", ref.Field("P"), ref.Field("V"))}}, b...)
		}})
	one := func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(rt), 1, 1)
		s.Index(0).Set(v)
		return s
	}
	add("list", reflect.SliceOf(rt), one)
	pe.places = append(pe.places, place{name: "loop item", loop: true, expr: func() *ref.Path { return path("item") },
		wrap: func(b []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: prefix + "item", Over: path("list"), Body: b}}
		}})
	add("hlist", reflect.SliceOf(reflect.PtrTo(h)), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(h)), 1, 1)
		s.Index(0).Set(hptr(v))
		return s
	})
	pe.places = append(pe.places, place{name: "field of loop item", loop: true, expr: func() *ref.Path { return path("item", ref.Field("V")) },
		wrap: func(b []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: prefix + "item", Over: path("hlist"), Body: b}}
		}})
	return pe
}

// more declares a further variable (after the places).
func (pe *placesEnv) more(name string, v interface{}) {
	t := reflect.TypeOf(v)
	pe.env.Vars = append(pe.env.Vars, ref.Var{Name: name, Type: t, Val: v})
	pe.types = append(pe.types, t)
	pe.build = append(pe.build, func(reflect.Value) reflect.Value { return reflect.ValueOf(v) })
}

// set puts v (nil: zero value) in every place.
func (pe *placesEnv) set(v interface{}) []interface{} {
	rv := reflect.Zero(pe.rt)
	if v != nil {
		rv = reflect.ValueOf(v)
	}
	var vals []interface{}
	for i, b := range pe.build {
		cp := reflect.New(pe.types[i]).Elem()
		cp.Set(b(rv))
		vals = append(vals, cp.Interface())
	}
	return vals
}

// sets returns one value set per value.
func (pe *placesEnv) sets(vals []interface{}) (res [][]interface{}) {
	for _, v := range vals {
		res = append(res, pe.set(v))
	}
	return res
}
