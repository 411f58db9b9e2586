package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"verifmc/graphs"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C13",
		Level:    "model_checking",
		Rule:     "every struct type over the tag forms x every way to declare it, every name read and every other name refused; every sequence of declarations up to a length followed by setting values in several orders, reading every name back, overwriting one value and reading again; every pair (declared type, type of the value set) between two neighbours; every type graph of a family declared in every way and read along every path; non-trivial = something was rendered",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "tags: 44x44 tag spellings of 2 fields of an embedded struct (tags of up to 9 names; 44 pairs x 8 spellings of the prefix); structs of 2 fields and one embedded, embedded-pointer or nested struct of 2 fields, 7 tag forms each, 3 forms of prefix; sequences of <=3 of 18 declarations; 37x37 types; 868 type graphs of <=3 nodes, paths of <=3 names",
				kit.Thorough: "tags: 44x44 tag spellings of 2 fields x 8 of an embedded struct (tags of up to 9 names); structs of 3 fields and one embedded, embedded-pointer or nested struct of 2 fields, 7 tag forms each, 3 forms of prefix; sequences of <=4 of 18 declarations; 37x37 types; 868 type graphs of <=3 nodes, paths of <=4 names",
			}[t]
		},
		Assumptions: []string{"names that more than one field would have (shadowed or ambiguous), which are refused at declaration, and names that are no Go identifiers are not part of the property", "a value of a type other than the declared one may be refused or converted"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c13Sizes},
			{Name: "aliases", Gen: c13Aliases},
			{Name: "tags", Gen: c13Tags},
			{Name: "spellings", Gen: c13Spellings},
			{Name: "sequences", Gen: c13Sequences},
			{Name: "types", Gen: c13Types},
			{Name: "graphs", Gen: c13Graphs, HangAfter: 20},
		},
	})
}

// fill sets every leaf of a value to something different, allocating pointers, slices and maps up to a depth of structs.
func fill(v reflect.Value, n *int, depth int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), n, depth-1)
			}
		}
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), n, depth)
		}
	case reflect.Slice:
		if depth > 0 {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			fill(v.Index(0), n, depth)
		}
	case reflect.Map:
		if depth > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, n, depth)
			v.SetMapIndex(reflect.ValueOf("k").Convert(v.Type().Key()), e)
		}
	default:
		*n++
		setLeaf(v, *n)
	}
}

func filled(t reflect.Type, from, depth int) interface{} {
	v := reflect.New(t).Elem()
	fill(v, &from, depth)
	return v.Interface()
}

// duplicates reports whether two fields have the same name.
func duplicates(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			return true
		}
		seen[n] = true
	}
	return false
}

// tagForms are the ways a field can be named by its tag; n is unique to the field.
func tagForms(n string) []string {
	return []string{"", "names=N" + n, "names=N" + n + "|M" + n, "name=N" + n, "N" + n, "N" + n + "|M" + n, "-"}
}

func veltyTag(s string) reflect.StructTag {
	if s == "" {
		return ""
	}
	return reflect.StructTag(`velty:"` + s + `"`)
}

// c13Spellings: tags of many names and every spelling of their keys, on two fields and an embedded struct around them.
func c13Spellings(g *kit.G) {
	list := func(n int, letter string) string {
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("%s%d", letter, i))
		}
		return strings.Join(names, "|")
	}
	spell := func(letter string) []string {
		res := []string{"", "-", "name=" + letter, " name = " + letter + " ", "NAME=" + letter, "Names=" + list(2, letter), letter + ",other=1", "other=1,names=" + list(2, letter), "other," + "name=" + letter,
			"json", letter + "_1", letter + ",-", "names=" + list(2, letter) + ",-", "-,name=" + letter, " " + letter + " ", "prefix=Z,name=" + letter, "name=" + letter + ",prefix=Z"}
		for n := 1; n <= 9; n++ {
			res = append(res, "names="+list(n, letter), list(n, letter), " names = "+list(n, letter)+" ")
		}
		return res
	}
	as, bs := spell("A"), spell("B")
	for ai, a := range as {
		for bi, b := range bs {
			for pi, prefix := range []string{"none", "", "prefix=P_", " PREFIX = P_ ", "Prefix=P_,other=2", "other,prefix=p", "-", "prefix=P_,-"} {
				if pi != 2 && bi != (ai+pi)%len(bs) && !g.Thorough() {
					continue
				}
				fs := []reflect.StructField{
					{Name: "First", Type: reflect.TypeOf(int16(0)), Tag: veltyTag(a)},
					{Name: "Second", Type: reflect.TypeOf(""), Tag: veltyTag(b)},
				}
				st := reflect.StructOf(fs)
				if pi > 0 {
					st = reflect.StructOf([]reflect.StructField{{Name: "Zero", Type: reflect.TypeOf(int8(0))}, {Name: "Sub", Anonymous: true, Type: st, Tag: veltyTag(prefix)}, {Name: "Last", Type: reflect.TypeOf(0.5), Tag: veltyTag("L0|L1|L2|L3")}})
				}
				if duplicates(ref.FieldNames(st)) {
					continue
				}
				for mode := 0; mode < 5; mode++ {
					if (mode == 2 || mode == 4) && !g.Thorough() {
						continue
					}
					mode := mode
					g.Do(func(t *kit.T) { c13Tagged(t, st, mode) })
				}
			}
		}
	}
}

func c13Tags(g *kit.G) {
	outer := g.Pick(2, 3)
	kinds := []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(""), reflect.TypeOf(0)}
	// inner structs: their first field is named as the first of the outer struct
	var inner []reflect.Type
	for _, a := range tagForms("x") {
		for _, b := range []string{"", "Ny|My"} {
			inner = append(inner, reflect.StructOf([]reflect.StructField{
				{Name: "F0", Type: reflect.TypeOf(0), Tag: veltyTag(a)},
				{Name: "Y", Type: reflect.TypeOf(""), Tag: veltyTag(b)},
			}))
		}
	}
	type sub struct {
		field reflect.StructField
		none  bool
	}
	subs := []sub{{none: true}}
	for _, in := range inner {
		for _, ptr := range []bool{false, true} {
			t := in
			if ptr {
				t = reflect.PtrTo(in)
			}
			for _, tag := range []string{"", "prefix=P_", "-"} {
				subs = append(subs, sub{field: reflect.StructField{Name: "Sub", Type: t, Anonymous: true, Tag: veltyTag(tag)}})
			}
			for _, tag := range []string{"", "names=S|SS", "-"} {
				subs = append(subs, sub{field: reflect.StructField{Name: "Sub", Type: t, Tag: veltyTag(tag)}})
			}
		}
	}
	seq := make([]int, outer)
	for {
		if g.Stopped() {
			return
		}
		for si, s := range subs {
			if outer == 3 && si%7 != (seq[0]+seq[1]+seq[2])%7 && seq[2] > 1 {
				continue
			}
			// the sub struct first, between and last
			at := (si + seq[0]) % (outer + 1)
			var fs []reflect.StructField
			for i, k := range seq {
				if i == at && !s.none {
					fs = append(fs, s.field)
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: kinds[i], Tag: veltyTag(tagForms(fmt.Sprint(i))[k])})
			}
			if at == outer && !s.none {
				fs = append(fs, s.field)
			}
			t := reflect.StructOf(fs)
			if duplicates(ref.FieldNames(t)) {
				continue
			}
			for mode := 0; mode < 5; mode++ {
				mode := mode
				g.Do(func(tt *kit.T) { c13Tagged(tt, t, mode) })
			}
		}
		if !next(seq, 7) {
			return
		}
	}
}

// c13Tagged declares a variable of a struct type and reads every name of it.
func c13Tagged(t *kit.T, st reflect.Type, mode int) {
	env := &ref.Env{}
	val := filled(st, 0, 5)
	v := ref.Var{Name: "v", Val: val}
	pv := reflect.New(st)
	pv.Elem().Set(reflect.ValueOf(val))
	embed := mode >= 3
	var roots []string
	switch mode {
	case 0:
		roots = []string{"v"}
	case 1:
		v.Val, roots = pv.Interface(), []string{"v"}
	case 2:
		v.Aliases, roots = []string{"w", "V2"}, []string{"v", "w", "V2"}
	case 3:
		v.Embed = true
	case 4:
		v.Embed, v.Val = true, pv.Interface()
	}
	env.Vars = []ref.Var{{Name: "pre", Val: "before"}, v, {Name: "post", Val: "after"}}
	note := fmt.Sprintf("mode %d %v: ", mode, st)
	var all []ref.Node
	read := func(names []string) {
		if embed {
			p := path(names[0])
			p.Segs = segsOf(names[1:])
			all = append(all, ref.Out{P: p}, ref.Text("|"))
			return
		}
		for _, r := range roots {
			p := path(r)
			p.Segs = segsOf(names)
			all = append(all, ref.Out{P: p}, ref.Text("|"))
		}
	}
	all = append(all, ref.Out{P: path("pre")}, ref.Text("|"))
	accessible := map[string]bool{}
	var subNames []string
	for _, n := range ref.FieldNames(st) {
		accessible[n] = true
		idx, _ := ref.FieldPath(st, n)
		ft := st.FieldByIndex(idx).Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Struct {
			for _, in := range ref.FieldNames(ft) {
				read([]string{n, in})
			}
			subNames = append(subNames, n)
			continue
		}
		read([]string{n})
	}
	all = append(all, ref.Out{P: path("post")})
	must(env, all)
	agreeSrc(t, env, all, ref.Print(all), nil)
	if t.Failed() {
		return
	}
	t.Start(note + "names")
	// every other candidate is refused
	for _, c := range []string{"F0", "F1", "F2", "N0", "M0", "N1", "M1", "N2", "M2", "Nx", "Mx", "Ny", "My", "Y", "P_F0", "P_Nx", "P_Mx", "P_Y", "P_Ny", "P_My", "S", "SS", "P_S", "P_"} {
		if accessible[c] {
			continue
		}
		if embed {
			c13Unknown(t, env, c)
			continue
		}
		for _, r := range roots {
			p := path(r)
			p.Segs = segsOf([]string{c})
			c13Refused(t, env, []ref.Node{ref.Out{P: p}})
		}
		for _, n := range subNames {
			p := path(roots[0])
			p.Segs = segsOf([]string{n, c})
			if _, err := env.Compile([]ref.Node{ref.Out{P: p}}); err != nil {
				c13Refused(t, env, []ref.Node{ref.Out{P: p}})
			}
		}
	}
}

func c13Refused(t *kit.T, env *ref.Env, nodes []ref.Node) {
	if t.Failed() {
		return
	}
	if _, err := env.Compile(nodes); err == nil {
		panic("generator: not refused by the model: " + ref.Print(nodes))
	}
	agree(t, env, nodes, nil)
}

func c13Unknown(t *kit.T, env *ref.Env, name string) {
	if t.Failed() {
		return
	}
	agree(t, env, []ref.Node{ref.Text("("), ref.Out{P: path(name)}, ref.Text(")")}, nil)
}

// types of the declaration sequences

type (
	C13Plain struct {
		X int
		Y string
	}
	C13Other struct {
		Z int8
		W *int
	}
	C13Meth  struct{ MA string }
	C13Clash struct{ X float64 }
	C13Rec   struct {
		R    int
		Next *C13Rec
	}
	C13In     struct{ I0, I1 int8 }
	C13Tagged struct {
		T     string `velty:"names=N|M"`
		U     int    `velty:"-"`
		V1    bool   `velty:"name=VV"`
		C13In `velty:"prefix=P_"`
	}
	c13hidden struct{ H int }
	C13Emb    struct {
		EA string
		*C13In
	}
)

func (m C13Meth) Name() string   { return "meth" + m.MA }
func (m *C13Meth) Other() string { return "other" }

type c13Decl struct {
	v ref.Var
}

func c13Menu() []c13Decl {
	return []c13Decl{
		{ref.Var{Name: "a", Val: 0}},
		{ref.Var{Name: "b", Val: "", Aliases: []string{"c"}}},
		{ref.Var{Name: "a", Val: ""}},
		{ref.Var{Name: "c", Val: false}},
		{ref.Var{Name: "s", Val: C13Plain{}}},
		{ref.Var{Name: "q", Val: &C13Plain{}, Aliases: []string{"r", "Rr"}}},
		{ref.Var{Name: "t", Val: C13Tagged{}}},
		{ref.Var{Name: "C13Plain", Val: C13Plain{}, Embed: true}},
		{ref.Var{Name: "C13Other", Val: &C13Other{}, Embed: true}},
		{ref.Var{Name: "struct { U int; V string }", Val: struct {
			U int
			V string
		}{}, Embed: true}},
		{ref.Var{Name: "C13Meth", Val: C13Meth{}, Embed: true}},
		{ref.Var{Name: "C13Clash", Val: C13Clash{}, Embed: true}},
		{ref.Var{Name: "X", Val: int8(0)}},
		{ref.Var{Name: "rec", Val: &C13Rec{}}},
		{ref.Var{Name: "c13hidden", Val: c13hidden{}, Embed: true}},
		{ref.Var{Name: "C13Plain", Val: uint16(0)}},
		{ref.Var{Name: "d", Val: 0.0, Aliases: []string{"a"}}},
		{ref.Var{Name: "C13Emb", Val: C13Emb{}, Embed: true}},
	}
}

// names of a declaration the template can use at top level.
func declared(v ref.Var) []string {
	if !v.Embed {
		return append([]string{v.Name}, v.Aliases...)
	}
	return ref.FieldNames(reflect.TypeOf(v.Val))
}

func c13Sequences(g *kit.G) {
	menu := c13Menu()
	for n := 1; n <= g.Pick(3, 4); n++ {
		seq := make([]int, n)
		for {
			if g.Stopped() {
				return
			}
			s := append([]int{}, seq...)
			g.Do(func(t *kit.T) { c13Sequence(t, menu, s) })
			if !next(seq, len(menu)) {
				break
			}
		}
	}
}

func c13Sequence(t *kit.T, menu []c13Decl, seq []int) {
	var text []string
	p := velty.New(velty.BufferSize(64))
	env := &ref.Env{}
	names := map[string]bool{}  // what templates can name
	fields := map[string]bool{} // variables and embedded types
	describe := func(v ref.Var) string {
		if v.Embed {
			return fmt.Sprintf("embed %T", v.Val)
		}
		return fmt.Sprintf("define %v %T %v", v.Name, v.Val, v.Aliases)
	}
	for _, k := range seq {
		text = append(text, describe(menu[k].v))
	}
	id := strings.Join(text, "; ")
	t.Start(id)
	refused := false
	for i, k := range seq {
		v := menu[k].v
		clash := false
		for _, n := range declared(v) {
			clash = clash || names[n]
		}
		noop := !v.Embed && names[v.Name]
		fail := !noop && (clash || fields[v.Name])
		var err error
		panicked := kit.Guard(func() {
			if v.Embed {
				err = p.EmbedVariable(v.Val)
			} else {
				err = p.DefineVariable(v.Name, v.Val, v.Aliases...)
			}
		})
		t.Step(1)
		if panicked != "" {
			t.Failf("declaration %d (%v): %v", i, describe(v), panicked)
			return
		}
		if (err != nil) != fail {
			t.Failf("declaration %d (%v): error %v, want an error: %v", i, describe(v), err, fail)
			return
		}
		if fail {
			refused = true
			break // what was declared before is still there
		}
		if noop {
			continue
		}
		for _, n := range declared(v) {
			names[n] = true
		}
		fields[v.Name] = true
		env.Vars = append(env.Vars, v)
	}
	t.State(fmt.Sprint(refused, len(env.Vars)))
	// a template reading everything
	var nodes []ref.Node
	for _, v := range env.Vars {
		for _, n := range declared(v) {
			vt := reflect.TypeOf(v.Val)
			var segs [][]ref.Seg
			if !v.Embed {
				for _, fp := range fieldPaths(vt, 2) {
					segs = append(segs, segsOf(fp))
				}
				if st := vt; st.Kind() == reflect.Ptr || st.Kind() == reflect.Struct {
					for st.Kind() == reflect.Ptr {
						st = st.Elem()
					}
					segs = nil
					for _, n := range ref.FieldNames(st) {
						segs = append(segs, segsOf([]string{n}))
					}
				}
			}
			if segs == nil {
				segs = [][]ref.Seg{nil}
			}
			for _, s := range segs {
				pp := path(n)
				pp.Segs = s
				nodes = append(nodes, ref.Text("|"+n+"="), ref.Out{P: pp})
			}
		}
	}
	for _, n := range []string{"a", "b", "c", "X", "Y", "Z", "MA", "H", "EA", "I0", "d", "U", "VV"} {
		if !names[n] && !refused {
			nodes = append(nodes, ref.Text("|"), ref.Out{P: path(n)}, ref.Text("|"))
		}
	}
	must(env, nodes)
	prog, _ := env.Compile(nodes)
	src := ref.Print(nodes)
	var ex *est.Execution
	var ns func() *est.State
	var err error
	if panicked := kit.Guard(func() { ex, ns, err = p.Compile([]byte(src)) }); panicked != "" || err != nil {
		t.Failf("compile %q: %v %v", src, err, panicked)
		return
	}
	n := len(env.Vars)
	value := func(i, round int) interface{} {
		from := 10*i + 100*round
		return filled(reflect.TypeOf(env.Vars[i].Val), from, 3)
	}
	set := func(st *est.State, i, round int, ptr bool) error {
		v := env.Vars[i]
		val := value(i, round)
		if ptr && reflect.TypeOf(val).Kind() != reflect.Ptr {
			pv := reflect.New(reflect.TypeOf(val))
			pv.Elem().Set(reflect.ValueOf(val))
			val = pv.Interface()
			if v.Embed && reflect.TypeOf(v.Val).Name() == "" {
				val = value(i, round)
			}
		}
		if v.Embed {
			return st.EmbedValue(val)
		}
		return st.SetValue(v.Name, val)
	}
	check := func(st *est.State, vals []interface{}, when string) bool {
		st.Buffer.Reset()
		xerr := ex.Exec(st)
		want := prog.RunWith(vals)
		t.Exec(1)
		t.State(want.Out)
		if n > 0 {
			t.Nontrivial()
		}
		if got := st.Buffer.String(); xerr != nil || got != want.Out {
			t.Failf("%v: got %q %v, want %q", when, got, xerr, want.Out)
			return false
		}
		return true
	}
	panicked := kit.Guard(func() {
		for mode := 0; mode < 3; mode++ {
			st := ns()
			vals := make([]interface{}, n)
			for j := 0; j < n; j++ {
				i := j
				if mode == 1 {
					i = n - 1 - j
				}
				if err := set(st, i, 0, mode == 2); err != nil {
					t.Failf("mode %d: setting %v: %v", mode, env.Vars[i].Name, err)
					return
				}
				vals[i] = value(i, 0)
				t.Step(1)
				if mode == 0 && !check(st, vals, fmt.Sprintf("after setting %d values", j+1)) {
					return
				}
			}
			if !check(st, vals, fmt.Sprintf("mode %d, all values set", mode)) {
				return
			}
			for i := 0; i < n; i++ {
				if err := set(st, i, 1+mode, false); err != nil {
					t.Failf("setting %v again: %v", env.Vars[i].Name, err)
					return
				}
				vals[i] = value(i, 1+mode)
				if !check(st, vals, fmt.Sprintf("mode %d, %v set again", mode, env.Vars[i].Name)) {
					return
				}
			}
			// a value of something undeclared
			if !refused {
				if !fields["zz"] {
					if err := st.SetValue("zz", 1); err == nil {
						t.Failf("setting the undeclared zz: no error")
						return
					}
				}
				for _, u := range []ref.Var{{Name: "C13Plain", Val: C13Plain{X: -9}}, {Name: "C13Other", Val: &C13Other{Z: -9}}, {Name: "struct { U int; V string }", Val: struct {
					U int
					V string
				}{-9, "z"}}, {Name: "struct { Q int }", Val: struct{ Q int }{4}}} {
					if fields[u.Name] {
						continue
					}
					if err := st.EmbedValue(u.Val); err == nil {
						t.Failf("embedding a value of the undeclared %T: no error", u.Val)
						return
					}
				}
				for _, name := range []string{"a", "b", "d", "s", "q", "rec", "C13Tagged"} {
					if !fields[name] && !names[name] {
						if err := st.SetValue(name, 1); err == nil {
							t.Failf("setting the undeclared %v: no error", name)
							return
						}
					}
				}
				if !check(st, vals, "after setting undeclared values") {
					return
				}
			}
		}
	})
	if panicked != "" {
		t.Failf("%v", panicked)
	}
}

// types

type c13Str string
type c13Int int
type c13List []int
type c13Iface interface{ Name() string }

func c13TypesList() []interface{} {
	one, str, plain := 7, "ptr", C13Plain{3, "y"}
	pp := &one
	return []interface{}{
		int(-5), int8(-6), int16(-7), int32(-8), int64(-9), uint(5), uint8(6), uint16(7), uint32(8), uint64(1 << 63),
		float32(1.5), 2.25, true, "text", c13Str("named"), c13Int(12), c13List{1, 2}, []int{3, 4, 5}, []string{"p", "q"}, []byte("by"),
		[]interface{}{1, "x"}, map[string]int{"k": 1}, map[int]string{2: "v"}, map[string]interface{}{"z": 1.5},
		&one, &str, &plain, pp, C13Plain{1, "x"}, C13Meth{"m"}, &C13Meth{"pm"}, [2]int{8, 9}, [1]*int{pp}, struct{ P *int }{pp}, C13In{4, 5},
		[]C13Plain{{1, "e"}}, []*C13Plain{&plain},
	}
}

func c13Types(g *kit.G) {
	list := c13TypesList()
	types := make([]reflect.Type, 0, len(list)+2)
	for _, v := range list {
		types = append(types, reflect.TypeOf(v))
	}
	types = append(types, anyT, reflect.TypeOf((*c13Iface)(nil)).Elem())
	for _, dt := range types {
		dt := dt
		for _, after := range []interface{}{"tail", int8(-1), 1 << 40} {
			after := after
			g.Do(func(t *kit.T) { c13Typed(t, dt, after, c13TypesList()) })
		}
	}
}

func c13Typed(t *kit.T, dt reflect.Type, after interface{}, list []interface{}) {
	t.Start(fmt.Sprintf("x %v, post %T", dt, after))
	var ex *est.Execution
	var ns func() *est.State
	var err error
	panicked := kit.Guard(func() {
		p := velty.New()
		for _, d := range []struct {
			n string
			v interface{}
		}{{"pre", uint8(0)}, {"x", dt}, {"post", after}, {"last", ""}} {
			if err = p.DefineVariable(d.n, d.v); err != nil {
				return
			}
		}
		ex, ns, err = p.Compile([]byte("$pre|$x|$post|$last"))
	})
	if panicked != "" || err != nil {
		t.Failf("declaring: %v %v", panicked, err)
		return
	}
	render := func(v reflect.Value) string {
		r := ref.Render(dt, v)
		return fmt.Sprintf("200|%v|%v|end", r, after)
	}
	exec := func(st *est.State) string {
		st.Buffer.Reset()
		if err := ex.Exec(st); err != nil {
			return "error " + err.Error()
		}
		return st.Buffer.String()
	}
	// a value of the declared type, if the list has one
	base := reflect.Zero(dt)
	for _, v := range list {
		if reflect.TypeOf(v) == dt {
			base = reflect.ValueOf(v)
		}
	}
	nillable := dt.Kind() == reflect.Ptr || dt.Kind() == reflect.Slice || dt.Kind() == reflect.Map || dt.Kind() == reflect.Interface
	ifaceNil := dt.Kind() == reflect.Interface && dt.NumMethod() > 0
	fresh := func() *est.State {
		st := ns()
		for _, s := range []struct {
			n string
			v interface{}
		}{{"pre", uint8(200)}, {"post", after}, {"last", "end"}} {
			if err := st.SetValue(s.n, s.v); err != nil {
				t.Failf("setting %v: %v", s.n, err)
			}
		}
		if base.IsValid() && !base.IsZero() {
			if err := st.SetValue("x", base.Interface()); err != nil {
				t.Failf("setting x to %v: %v", base, err)
			}
		}
		return st
	}
	_ = ifaceNil
	panicked = kit.Guard(func() {
		st := fresh()
		if got, want := exec(st), render(base); got != want {
			t.Failf("got %q, want %q", got, want)
			return
		}
		t.Nontrivial()
		for _, v := range append([]interface{}{nil}, list...) {
			st := fresh()
			t.Exec(1)
			err := st.SetValue("x", v)
			got := exec(st)
			note := fmt.Sprintf("x set to %T %v (error %v): ", v, v, err)
			vt := reflect.TypeOf(v)
			t.State(fmt.Sprint(dt, vt, err == nil))
			if err != nil {
				if vt != nil && vt.AssignableTo(dt) {
					t.Failf("%vit is a value of %v", note, dt)
					return
				}
				if want := render(base); got != want {
					t.Failf("%vgot %q, want %q", note, got, want)
					return
				}
				continue
			}
			var want string
			rv := reflect.ValueOf(v)
			switch {
			case vt == nil && nillable:
				want = render(reflect.Zero(dt))
			case vt == nil:
				t.Failf("%vnil is no value of %v", note, dt)
				return
			case vt.AssignableTo(dt):
				x := reflect.New(dt).Elem()
				x.Set(rv)
				want = render(x)
			case vt.Kind() == dt.Kind() && vt.ConvertibleTo(dt):
				want = render(rv.Convert(dt))
			case vt.Kind() == reflect.Ptr && vt.Elem().ConvertibleTo(dt) && !rv.IsNil():
				want = render(rv.Elem().Convert(dt))
			case dt.Kind() == reflect.Ptr && vt.ConvertibleTo(dt.Elem()):
				h := reflect.New(dt.Elem())
				h.Elem().Set(rv.Convert(dt.Elem()))
				want = render(h)
			case vt.ConvertibleTo(dt):
				want = render(rv.Convert(dt))
			default:
				t.Failf("%vno value of %v", note, dt)
				return
			}
			if got != want {
				t.Failf("%vgot %q, want %q", note, got, want)
				return
			}
		}
	})
	if panicked != "" {
		t.Failf("%v", panicked)
	}
}

func c13Graphs(g *kit.G) {
	depth := g.Pick(3, 4)
	for _, graph := range graphs.All {
		graph := graph
		for mode := 0; mode < 4; mode++ {
			mode := mode
			g.Do(func(t *kit.T) { c13Graph(t, graph, mode, depth) })
		}
	}
}

// graphPaths lists the paths through a type graph.
func graphPaths(t reflect.Type, depth int) (res [][]ref.Seg) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Slice:
		for _, p := range graphPaths(t.Elem(), depth) {
			res = append(res, append([]ref.Seg{ref.Index{X: ref.Lit{V: 0}}}, p...))
		}
		return res
	case reflect.Map:
		for _, p := range graphPaths(t.Elem(), depth) {
			res = append(res, append([]ref.Seg{ref.Index{X: ref.Lit{V: "k"}}}, p...))
		}
		return res
	case reflect.Struct:
	default:
		return [][]ref.Seg{nil}
	}
	if depth == 0 {
		return nil
	}
	seen := map[string]bool{}
	for _, n := range ref.FieldNames(t) {
		idx, ok := ref.FieldPath(t, n)
		if !ok || seen[n] {
			continue
		}
		seen[n] = true
		f := t.FieldByIndex(idx)
		for _, p := range graphPaths(f.Type, depth-1) {
			res = append(res, append([]ref.Seg{ref.Field(n)}, p...))
		}
	}
	return res
}

func c13Graph(t *kit.T, graph []interface{}, mode, depth int) {
	gt := reflect.TypeOf(graph[0])
	embed := mode >= 2
	what := gt
	if mode%2 == 1 {
		what = reflect.PtrTo(gt)
	}
	desc, _ := json.Marshal(gt.String())
	t.Start(fmt.Sprintf("graph %s mode %d: %v", desc, mode, graphText(graph)))
	env := &ref.Env{Vars: []ref.Var{{Name: "pre", Val: "before"}}}
	val := filled(what, 0, depth+2)
	env.Vars = append(env.Vars, ref.Var{Name: map[bool]string{false: "v", true: gt.Name()}[embed], Val: val, Embed: embed}, ref.Var{Name: "post", Val: 77})
	ambiguous := false
	for _, n := range graph {
		ambiguous = ambiguous || duplicates(ref.FieldNames(reflect.TypeOf(n))) || embedsItself(reflect.TypeOf(n), nil)
	}
	paths := graphPaths(gt, depth)
	var nodes []ref.Node
	for _, segs := range paths {
		p := path("v")
		p.Segs = segs
		if embed {
			p = path(string(segs[0].(ref.Field)))
			p.Segs = segs[1:]
		}
		nodes = append(nodes, ref.Out{P: p}, ref.Text("|"))
	}
	nodes = append(nodes, ref.Out{P: path("pre")}, ref.Text("|"), ref.Out{P: path("post")})
	src := ref.Print(nodes)
	var pl *plan
	var err error
	var derr error
	panicked := kit.Guard(func() {
		var p *velty.Planner
		if p, derr = newPlanner(env); derr != nil {
			return
		}
		var ex *est.Execution
		var ns func() *est.State
		if ex, ns, err = p.Compile([]byte(src)); err == nil {
			pl = &plan{env: env, exec: ex, ns: ns}
		}
	})
	t.Exec(1)
	switch {
	case panicked != "":
		t.Failf("%v", panicked)
		return
	case derr != nil && ambiguous:
		t.State("ambiguous")
		return
	case derr != nil:
		t.Failf("declaring: %v", derr)
		return
	case ambiguous:
		t.State("ambiguous but declared")
		return
	case err != nil:
		t.Failf("compile %q: %v", src, err)
		return
	}
	must(env, nodes)
	prog, _ := env.Compile(nodes)
	want := prog.Run()
	got, panicked := pl.run(nil)
	t.State(want.Out)
	t.Nontrivial()
	if panicked != "" || !same(got, want) {
		t.Failf("%q: got %v %v, want %v", src, got, panicked, want)
	}
}

// embedsItself reports whether embedding leads back to a type, whose names are then shadowed.
func embedsItself(t reflect.Type, seen []reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	for _, s := range seen {
		if s == t {
			return true
		}
	}
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Anonymous && embedsItself(f.Type, append(seen, t)) {
			return true
		}
	}
	return false
}

func graphText(graph []interface{}) string {
	var parts []string
	for _, n := range graph {
		t := reflect.TypeOf(n)
		var fs []string
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fs = append(fs, f.Name+" "+f.Type.String())
		}
		parts = append(parts, t.Name()+"{"+strings.Join(fs, "; ")+"}")
	}
	return strings.ReplaceAll(strings.Join(parts, " "), "graphs.", "")
}
