package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

// shape is a struct type under construction.
type shape struct {
	fields []shapeField
	typ    reflect.Type
}

type shapeField struct {
	name  string
	leaf  reflect.Type
	sub   *shape
	ptr   bool
	embed bool
}

func newShape(fields ...shapeField) *shape {
	s := &shape{fields: fields}
	var fs []reflect.StructField
	for _, f := range fields {
		t := f.leaf
		if f.sub != nil {
			t = f.sub.typ
			if f.ptr {
				t = reflect.PtrTo(t)
			}
		}
		fs = append(fs, reflect.StructField{Name: f.name, Type: t, Anonymous: f.embed})
	}
	s.typ = reflect.StructOf(fs)
	return s
}

// pointers counts the pointers of a fully allocated value.
func (s *shape) pointers() int {
	n := 0
	for _, f := range s.fields {
		if f.sub != nil {
			if f.ptr {
				n++
			}
			n += f.sub.pointers()
		}
	}
	return n
}

// value builds a value with different leaf values everywhere; bit i of nils makes the i-th pointer nil.
func (s *shape) value(v reflect.Value, nils int, nptr, nleaf *int) {
	for i, f := range s.fields {
		fv := v.Field(i)
		if f.sub == nil {
			*nleaf++
			setLeaf(fv, *nleaf)
			continue
		}
		if !f.ptr {
			f.sub.value(fv, nils, nptr, nleaf)
			continue
		}
		isNil := nils&(1<<uint(*nptr)) != 0
		*nptr++
		in := reflect.New(f.sub.typ)
		f.sub.value(in.Elem(), nils, nptr, nleaf)
		if !isNil {
			fv.Set(in)
		}
	}
}

func setLeaf(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(-n))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(n))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(n) + 0.5)
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", n))
	case reflect.Bool:
		v.SetBool(n%2 == 1)
	case reflect.Interface:
		if n%2 == 0 {
			v.Set(reflect.ValueOf(n))
		} else {
			v.Set(reflect.ValueOf(fmt.Sprintf("i%d", n)))
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 1, 1)
		setLeaf(s.Index(0), n)
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		e := reflect.New(v.Type().Elem()).Elem()
		setLeaf(e, n)
		m.SetMapIndex(reflect.ValueOf("k"), e)
		v.Set(m)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		setLeaf(p.Elem(), n)
		v.Set(p)
	}
}

// paths lists every field path of a type, promoted names included, up to the depth.
func fieldPaths(t reflect.Type, depth int) (res [][]string) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || depth == 0 {
		return nil
	}
	for _, name := range fieldNames(t) {
		idx, ok := ref.FieldPath(t, name)
		if !ok {
			continue // the name of an embedded struct is not a name of the template
		}
		ft := t.FieldByIndex(idx).Type
		res = append(res, []string{name})
		for _, p := range fieldPaths(ft, depth-1) {
			res = append(res, append([]string{name}, p...))
		}
	}
	return res
}

func fieldNames(t reflect.Type) (names []string) {
	seen := map[string]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !seen[f.Name] {
				seen[f.Name] = true
				names = append(names, f.Name)
			}
			if f.Anonymous {
				walk(f.Type)
			}
		}
	}
	walk(t)
	return names
}

func segsOf(names []string) (segs []ref.Seg) {
	for _, n := range names {
		segs = append(segs, ref.Field(n))
	}
	return segs
}

var c11Leaves = []interface{}{int8(0), "", 0, false, 0.0, uint16(0), []int(nil)}

func leafType(i int) reflect.Type {
	if i == len(c11Leaves) {
		return reflect.TypeOf((*interface{})(nil)).Elem()
	}
	return reflect.TypeOf(c11Leaves[i])
}

// c11Shapes enumerates struct types.
func c11Shapes(g *kit.G, emit func(s *shape)) {
	leaf := func(name string, k int) shapeField { return shapeField{name: name, leaf: leafType(k)} }
	nleaf := len(c11Leaves) + 1
	// flat structs: every layout of up to 4 leaves
	for n := 1; n <= g.Pick(4, 5); n++ {
		seq := make([]int, n)
		for {
			var fs []shapeField
			for i, k := range seq {
				fs = append(fs, leaf(fmt.Sprintf("F%d", i), k))
			}
			emit(newShape(fs...))
			if !next(seq, nleaf) {
				break
			}
		}
	}
	// inner structs the nested shapes are made of
	inner1 := []*shape{
		newShape(leaf("A", 2)),
		newShape(leaf("A", 0), leaf("B", 1)),
		newShape(leaf("B", 1), leaf("C", 3), leaf("A", nleaf-1)),
	}
	nested := func(inner []*shape, n int, outer string) (res []*shape) {
		// each field: a leaf or one of the inner structs by value, pointer, embedded, embedded pointer
		leaves := []int{0, 1, 2}
		radix := len(leaves) + 4*len(inner)
		seq := make([]int, n)
		for {
			var fs []shapeField
			embedded := map[string]int{}
			deep := false
			for i, k := range seq {
				name := fmt.Sprintf("%s%d", outer, i)
				if k < len(leaves) {
					fs = append(fs, leaf(name, leaves[k]))
					continue
				}
				deep = true
				k -= len(leaves)
				f := shapeField{name: name, sub: inner[k/4], ptr: k%2 == 1, embed: k%4 >= 2}
				if f.embed {
					for _, n := range fieldNames(f.sub.typ) {
						embedded[n]++
					}
				}
				fs = append(fs, f)
			}
			ambiguous := false
			for _, n := range embedded {
				ambiguous = ambiguous || n > 1
			}
			if deep && !ambiguous {
				res = append(res, newShape(fs...))
			}
			if !next(seq, radix) {
				return res
			}
		}
	}
	var second []*shape
	for n := 1; n <= 3; n++ {
		for _, s := range nested(inner1, n, "G") {
			emit(s)
			if n <= 2 || g.Thorough() {
				second = append(second, s)
			}
		}
	}
	// three levels
	step := g.Pick(1, 3)
	for i := 0; i < len(second); i += step {
		for n := 1; n <= 2; n++ {
			for _, s := range nested(second[i:i+1], n, "H") {
				emit(s)
			}
		}
	}
	// four levels: chains; names repeat from level to level unless promoted
	for k := 0; k < 256; k++ {
		s := newShape(leaf("A", 2), leaf("B", 1))
		m := k
		for l := 0; l < 4; l++ {
			f := shapeField{name: fmt.Sprintf("L%d", l), sub: s, ptr: m%2 == 1, embed: m%4 >= 2}
			m /= 4
			name := "A"
			if f.embed {
				name = fmt.Sprintf("A%d", l)
			}
			s = newShape(leaf(fmt.Sprintf("P%d", l), l%3), f, leaf(name, 2))
		}
		emit(s)
	}
}

type c11Node struct {
	V    int8
	Next *c11Node
	Name string
	Peer *c11Peer
}
type c11Peer struct {
	On   bool
	Node *c11Node
	In   c11Leaf
}
type c11Leaf struct {
	X float64
	Y interface{}
}

func init() {
	register(&kit.Check{
		Property: "C11",
		Level:    "model_checking",
		Rule:     "every struct type of a generated family x every field path of it x every assignment of nil to its pointers x 8 places the struct is read from (all assignments of nil behind the two variables; none, single and all elsewhere), compared with reflection; every path extended by an unknown field is rejected; recursive types unrolled; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "flat structs: all layouts of <=4 of 8 leaf kinds; nested: all structs of <=3 fields over 3 leaf kinds and 3 inner structs (by value, pointer, embedded, embedded pointer); three levels over all those of <=2 fields; 256 four-level chains; all nil assignments of <=4 pointers (first 4); recursive types to depth 5",
				kit.Thorough: "flat structs: all layouts of <=5 of 8 leaf kinds; nested: all structs of <=3 fields over 3 leaf kinds and 3 inner structs (by value, pointer, embedded, embedded pointer); three levels over every third of those of <=3 fields; 256 four-level chains; all nil assignments of <=6 pointers (first 6); recursive types to depth 6",
			}[t]
		},
		Assumptions: []string{"names promoted ambiguously or shadowed by an outer field, which the planner refuses to declare, and unexported fields are not part of the property", "pointers to pointers are not part of the property"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c11Sizes},
			interplayPart("C11"),
			{Name: "shapes", Gen: c11GenShapes},
			{Name: "recursive", Gen: c11GenRecursive},
		},
	})
}

// c11Sources reads a value of type t from different places.
func c11Sources(t reflect.Type) *placesEnv {
	pt := reflect.PtrTo(t)
	pe := &placesEnv{env: &ref.Env{Funcs: map[string]interface{}{}}, rt: t}
	add := func(name string, vt reflect.Type, b func(v reflect.Value) reflect.Value) {
		pe.env.Vars = append(pe.env.Vars, ref.Var{Name: name, Type: vt})
		pe.types = append(pe.types, vt)
		pe.build = append(pe.build, b)
	}
	ptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	}
	at := func(name string, p *ref.Path) {
		pe.places = append(pe.places, place{name: name, expr: func() *ref.Path { c := *p; c.Segs = append([]ref.Seg{}, p.Segs...); return &c }, wrap: func(b []ref.Node) []ref.Node { return b }})
	}
	add("v", t, func(v reflect.Value) reflect.Value { return v })
	at("value", path("v"))
	add("p", pt, ptr)
	at("pointer", path("p"))
	add("vs", reflect.SliceOf(t), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		s.Index(1).Set(v)
		return s
	})
	at("element", path("vs", ref.Index{X: ref.Lit{V: 1}}))
	add("ps", reflect.SliceOf(pt), func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(pt), 2, 2)
		s.Index(1).Set(ptr(v))
		return s
	})
	at("pointer element", path("ps", ref.Index{X: ref.Lit{V: 1}}))
	loop := func(list string) func(b []ref.Node) []ref.Node {
		return func(b []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "it", Over: ref.V(list), Body: append(b, ref.Text("\n"))}}
		}
	}
	pe.places = append(pe.places, place{name: "item", expr: func() *ref.Path { return ref.V("it") }, wrap: loop("vs")})
	// the first pointer element is nil: every path through it gives zero values
	pe.places = append(pe.places, place{name: "pointer item", expr: func() *ref.Path { return ref.V("it") }, wrap: loop("ps")})
	add("m", reflect.MapOf(strT, pt), func(v reflect.Value) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(strT, pt))
		m.SetMapIndex(reflect.ValueOf("k"), ptr(v))
		return m
	})
	at("entry", path("m", ref.Index{X: ref.Lit{V: "k"}}))
	fn := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{pt}, []reflect.Type{pt}, false), func(a []reflect.Value) []reflect.Value { return a })
	pe.env.Funcs["echo"] = fn.Interface()
	at("call", &ref.Path{Root: "echo", Call: true, Args: []ref.Expr{ref.V("p")}})
	return pe
}

func c11GenShapes(g *kit.G) {
	c11Shapes(g, func(s *shape) {
		g.Do(func(t *kit.T) {
			n := s.pointers()
			if max := g.Pick(4, 6); n > max {
				n = max
			}
			paths := fieldPaths(s.typ, 6)
			pe := c11Sources(s.typ)
			masks := func(all bool) (sets [][]interface{}) {
				for mask := 0; mask < 1<<uint(n); mask++ {
					if !all && mask&(mask-1) != 0 && mask != 1<<uint(n)-1 {
						continue // elsewhere than behind the two variables: none, each single one, all
					}
					v := reflect.New(s.typ).Elem()
					a, b := 0, 0
					s.value(v, mask, &a, &b)
					sets = append(sets, pe.set(v.Interface()))
				}
				return sets
			}
			for pi, pl := range pe.places {
				var body []ref.Node
				for _, p := range paths {
					x := pl.expr()
					x.Segs = append(x.Segs, segsOf(p)...)
					x.Braced = len(p)%2 == 0
					body = append(body, ref.Text(" "+strings.Join(p, "/")+"="), ref.Out{P: x})
				}
				must(pe.env, pl.wrap(body))
				agree(t, pe.env, pl.wrap(body), masks(pi < 2))
			}
			// used in expressions and assigned; the outer variables once more
			var leaves []reflect.Type
			for _, p := range paths {
				leaf := s.typ
				for _, name := range p {
					for leaf.Kind() == reflect.Ptr {
						leaf = leaf.Elem()
					}
					ix, _ := ref.FieldPath(leaf, name)
					leaf = leaf.FieldByIndex(ix).Type
				}
				leaves = append(leaves, leaf)
			}
			for _, root := range []string{"v", "p"} {
				var body []ref.Node
				for i, p := range paths {
					x := &ref.Path{Root: root, Segs: segsOf(p)}
					switch leaves[i].Kind() {
					case reflect.Int:
						body = append(body, ref.Set{Target: ref.V(fmt.Sprintf("t%d", i)), Val: ref.Bin{Op: "+", L: x, R: ref.Lit{V: 100}}}, ref.Out{P: ref.V(fmt.Sprintf("t%d", i))}, ref.Text(" "))
						body = append(body, ref.Set{Target: x, Val: ref.Lit{V: 1000 + i}})
					case reflect.String:
						body = append(body, ref.If{Arms: []ref.Arm{{Cond: ref.Bin{Op: "==", L: x, R: ref.Lit{V: ""}}, Body: []ref.Node{ref.Text("empty ")}}}, HasElse: true, Else: []ref.Node{ref.Out{P: x}}})
						body = append(body, ref.Set{Target: x, Val: ref.Lit{V: fmt.Sprintf("w%d", i)}})
					case reflect.Bool:
						body = append(body, ref.If{Arms: []ref.Arm{{Cond: x, Body: []ref.Node{ref.Text("on ")}}}}, ref.Set{Target: x, Val: ref.Lit{V: i%2 == 0}})
					default:
						continue
					}
				}
				body = append(body, ref.Out{P: ref.V(root)})
				must(pe.env, body)
				agreeEach(t, pe.env, body, 1<<uint(n), func(mask int) []interface{} {
					v := reflect.New(s.typ).Elem()
					a, b := 0, 0
					s.value(v, mask, &a, &b)
					return pe.set(v.Interface())
				}, nil)
			}
		})
		// a field that does not exist anywhere along a path
		g.Do(func(t *kit.T) {
			pe := c11Sources(s.typ)
			t.Start(fmt.Sprintf("unknown fields of %v", s.typ))
			if msg := kit.Guard(func() {
				pl, err := newPlanner(pe.env)
				if _, merr := pe.env.Compile(nil); (merr != nil) != (err != nil) {
					t.Failf("declaring: %v, want %v", err, merr)
				}
				if err != nil {
					return
				}
				paths := append([][]string{nil}, fieldPaths(s.typ, 6)...)
				for pi, place := range pe.places {
					for i, p := range paths {
						if pi > 1 && i%len(pe.places) != pi {
							continue
						}
						x := place.expr()
						x.Segs = append(append(x.Segs, segsOf(p)...), ref.Field("Nope"))
						src := ref.Print(place.wrap([]ref.Node{ref.Out{P: x}}))
						_, _, err := pl.Compile([]byte(src))
						t.Exec(1)
						t.Step(1)
						if err == nil {
							t.Failf("the compiler accepted %v", src)
							return
						}
					}
				}
			}); msg != "" {
				t.Failf("compile: %v", msg)
			}
			t.State("rejected")
		})
	})
}

func c11GenRecursive(g *kit.G) {
	depth := g.Pick(5, 6)
	rt := reflect.TypeOf(c11Node{})
	// chains: step i of a path is Next or Peer.Node; every prefix may be cut by nil
	for n := 0; n <= depth; n++ {
		for dir := 0; dir < 1<<uint(n); dir++ {
			n, dir := n, dir
			g.Do(func(t *kit.T) {
				pe := c11Sources(rt)
				build := func(cut int) c11Node {
					root := c11Node{V: 1, Name: "n0"}
					cur := &root
					for i := 0; i < n && i != cut/2; i++ {
						nx := &c11Node{V: int8(i + 2), Name: fmt.Sprintf("n%d", i+1)}
						if dir&(1<<uint(i)) != 0 {
							cur.Peer = &c11Peer{On: true, In: c11Leaf{X: float64(i) + 0.5, Y: i}}
							if i+1 != n && cut == 2*i+3 { // peer present, its node missing
								return root
							}
							cur.Peer.Node = nx
						} else {
							cur.Next = nx
						}
						cur = nx
					}
					return root
				}
				var sets [][]interface{}
				for cut := 0; cut <= 2*n+1; cut++ {
					sets = append(sets, pe.set(build(cut)))
				}
				for _, pl := range pe.places {
					var body []ref.Node
					var prefix []ref.Seg
					out := func(fs ...string) {
						x := pl.expr()
						x.Segs = append(append(x.Segs, prefix...), segsOf(fs)...)
						body = append(body, ref.Out{P: x}, ref.Text(" "))
					}
					for i := 0; i <= n; i++ {
						out("V")
						out("Name")
						out("Peer", "On")
						out("Peer", "In", "X")
						if i == n {
							break
						}
						if dir&(1<<uint(i)) != 0 {
							prefix = append(prefix, ref.Field("Peer"), ref.Field("Node"))
						} else {
							prefix = append(prefix, ref.Field("Next"))
						}
					}
					agree(t, pe.env, pl.wrap(body), sets)
					x := pl.expr()
					x.Segs = append(append(x.Segs, prefix...), ref.Field("Missing"))
					agree(t, pe.env, pl.wrap([]ref.Node{ref.Out{P: x}}), nil)
				}
			})
		}
	}
}
