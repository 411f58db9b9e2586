package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C25",
		Level:    "model_checking",
		Rule:     "every kind of value x boundary value x place it can be read from x way of writing the reference, alone, in every ordered pair of places and all places together, rendered by the implementation and by the reference rendering",
		Bounds: func(tier kit.Tier) string {
			return "kinds: string, int, bool, float64, every other integer and float kind, named types, time, arrays, slices, maps, structs, pointers to them, marshalers, interfaces holding each of them; 18 places (variable, field, pointer field, nested, element, entry, field of element/entry, call result, argument, assigned, loop item); integers: every power of two and of ten and their neighbours, both signs; floats: every power of two (quick: every 16th) with neighbours, decimals; strings over every byte and small alphabets"
		},
		Assumptions: []string{"values encoding/json refuses (NaN and infinities in other than float64 references, functions, channels) have no documented form and are not rendered", "a value whose type is a pointer is rendered by its JSON encoding"},
		Parts: []kit.Part{
			interplayPart("C25"),
			{Name: "sizes", Gen: func(g *kit.G) { c23Sizes(g, false) }},
			{Name: "kinds", Gen: func(g *kit.G) { c25Kinds(g, false) }},
			{Name: "interfaces", Gen: func(g *kit.G) { c25Interfaces(g, false) }},
			{Name: "pairs", Gen: func(g *kit.G) { c25Pairs(g, false) }},
			{Name: "numbers", Gen: c25Numbers},
		},
	})
}

type C25ID int
type C25Name string
type C25Flag bool
type C25Rate float64
type C25List []string

type C25Doc struct {
	ID     int
	Name   string `json:"name"`
	Hidden string `json:"-"`
	Opt    string `json:",omitempty"`
	Rate   float64
	Tags   []string
	Attrs  map[string]interface{}
	Sub    *C25Doc `json:"sub,omitempty"`
	low    int
}

type C25Text struct{ S string }

func (t C25Text) MarshalText() ([]byte, error) { return []byte("text:" + t.S), nil }

type C25JSON struct{ S string }

func (t *C25JSON) MarshalJSON() ([]byte, error) { return json.Marshal([]string{"json", t.S}) }

// C25Str has a String method, which only the rendering of an interface value uses.
type C25Str struct{ S string }

func (t C25Str) String() string { return "str:" + t.S }

type c25Kind struct {
	rt   reflect.Type
	vals []interface{}
}

var c25Time = time.Date(2024, 2, 29, 23, 59, 58, 123456789, time.FixedZone("X", -9000))

// c25All lists the kinds with values; special supplies the strings.
func c25All(special []string) (res []c25Kind) {
	kind := func(vals ...interface{}) {
		res = append(res, c25Kind{reflect.TypeOf(vals[0]), vals})
	}
	conv := func(sample interface{}) {
		rt := reflect.TypeOf(sample)
		var vals []interface{}
		for _, s := range special {
			vals = append(vals, reflect.ValueOf(s).Convert(rt).Interface())
		}
		kind(vals...)
	}
	conv("")
	conv(C25Name(""))
	conv([]byte{})
	kind(0, 1, -1, 9, 10, -10, 123456789, math.MaxInt64, math.MinInt64, 1<<31, -1<<31)
	kind(C25ID(0), C25ID(-7), C25ID(math.MaxInt64))
	kind(true, false)
	kind(C25Flag(true), C25Flag(false))
	kind(0.0, math.Copysign(0, -1), 0.1, -2.5, 1.0, 100.0, 1e21, 1e-7, 123456789.123, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1.0/3)
	kind(C25Rate(0), C25Rate(1e22), C25Rate(-0.25))
	kind(int8(0), int8(-128), int8(127))
	kind(int16(0), int16(-32768), int16(32767))
	kind(int32(0), int32(math.MinInt32), int32(math.MaxInt32), 'x')
	kind(int64(0), int64(math.MinInt64), int64(math.MaxInt64))
	kind(uint(0), uint(math.MaxUint64))
	kind(uint8(0), uint8(255), uint8(1))
	kind(uint16(0), uint16(65535))
	kind(uint32(0), uint32(math.MaxUint32))
	kind(uint64(0), uint64(math.MaxUint64))
	kind(float32(0), float32(0.1), float32(math.MaxFloat32), float32(1e21))
	kind(time.Time{}, c25Time, time.Unix(0, 0).UTC())
	kind(time.Duration(0), time.Second)
	kind([2]int{}, [2]int{1, -2})
	kind([1]string{}, [1]string{special[len(special)-1]})
	var docs, texts, ptexts, jsons, lists, slists, maps, keys, anys, raws, strs, pstrs []interface{}
	for _, s := range special {
		s := s
		docs = append(docs, C25Doc{ID: 1, Name: s, Hidden: s, Rate: 0.5, Tags: []string{s, ""}, Attrs: map[string]interface{}{"k" + s: s, "a": nil, "n": 1}, Sub: &C25Doc{Opt: s}, low: 3})
		texts = append(texts, C25Text{s})
		ptexts = append(ptexts, &C25Text{s})
		jsons = append(jsons, &C25JSON{s})
		lists = append(lists, C25List{s, "x"})
		slists = append(slists, []string{s})
		maps = append(maps, map[string]string{"k": s})
		keys = append(keys, map[string]int{s: 1})
		anys = append(anys, []interface{}{s, 1, nil, map[string]interface{}{"k": s}})
		b, _ := json.Marshal(s)
		raws = append(raws, json.RawMessage(b))
		strs = append(strs, C25Str{s})
		pstrs = append(pstrs, &s)
	}
	kind(docs...)
	pdocs := []interface{}{(*C25Doc)(nil)}
	for _, d := range docs {
		d := d.(C25Doc)
		pdocs = append(pdocs, &d)
	}
	kind(pdocs...)
	kind(texts...)
	kind(append(ptexts, (*C25Text)(nil))...)
	kind(append(jsons, (*C25JSON)(nil))...)
	kind(lists...)
	kind(append(slists, []string(nil), []string{})...)
	kind(append(maps, map[string]string(nil), map[string]string{})...)
	kind(keys...)
	kind(anys...)
	kind(raws...)
	kind(strs...)
	kind(append(pstrs, (*string)(nil))...)
	n, f, b := -12, 2.5, true
	kind(&n, (*int)(nil))
	kind(&f, (*float64)(nil))
	kind(&b, (*bool)(nil))
	tm := c25Time
	kind(&tm, (*time.Time)(nil))
	kind([]int{}, []int{1, 2}, []int(nil))
	kind([]float64{0.5, 1e21})
	kind([]bool{true, false})
	kind(map[int]string{1: "a", -2: "b"})
	kind([][]string{{"a"}, nil})
	kind([]C25Doc{{ID: 1}, {Name: "n"}}, []C25Doc{})
	kind([]*C25Doc{{ID: 1}, nil})
	kind(struct{ A, B int }{1, 2})
	kind(struct{}{})
	return
}

// c25Strings are the strings of the rendering checks; the escaping check has more of them.
func c25Strings() []string {
	return []string{"", "a", "<b a=\"1\">'&amp;'</b>", "é世\xff\n\t\\", "$v ${v} #set($v = 1) #if", strings.Repeat("long <&> ", 40)}
}

// c25Boxed lists the values for references of interface type: every value of c25All that prints alike on both sides (no addresses).
func c25Boxed(special []string) (res []interface{}) {
	for _, k := range c25All(special) {
		if hasAddress(k.rt, map[reflect.Type]bool{}) {
			if k.rt == reflect.TypeOf(&time.Time{}) {
				res = append(res, k.vals...)
			}
			continue
		}
		res = append(res, k.vals...)
	}
	for _, s := range special {
		res = append(res, &C25Named{s}, errors.New(s))
	}
	return append(res, nil, complex(1, -2), uintptr(5))
}

// C25Named prints by its String method from behind a pointer.
type C25Named struct{ S string }

func (n *C25Named) String() string { return "named:" + n.S }

func hasAddress(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return t != reflect.TypeOf(&time.Location{})
	case reflect.Slice, reflect.Array:
		return hasAddress(t.Elem(), seen)
	case reflect.Map:
		return hasAddress(t.Elem(), seen) || hasAddress(t.Key(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasAddress(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// c25Forms writes a reference in every way, between pieces of literal text holding the characters escaping is about.
func c25Forms(p place) []ref.Node {
	braced := p.expr()
	braced.Braced = true
	silent := p.expr()
	silent.Silent = true
	both := p.expr()
	both.Braced, both.Silent = true, true
	return p.wrap([]ref.Node{
		ref.Text("<a href='\"&x\"'>"), ref.Out{P: p.expr()}, ref.Text("&amp;<"), ref.Out{P: braced}, ref.Text(">\"'"), ref.Out{P: silent}, ref.Text("'"), ref.Out{P: both}, ref.Text(";</a>"),
	})
}

func c25Env(pe *placesEnv, escape bool) *ref.Env {
	pe.env.Escape = escape
	return pe.env
}

func c25Each(g *kit.G, k c25Kind, escape bool) {
	names := newPlaces(k.rt).places
	for i := range names {
		i := i
		g.Do(func(t *kit.T) {
			pe := newPlaces(k.rt)
			agree(t, c25Env(pe, escape), c25Forms(pe.places[i]), pe.sets(k.vals))
		})
	}
	g.Do(func(t *kit.T) {
		pe := newPlaces(k.rt)
		var nodes []ref.Node
		for _, p := range pe.places {
			nodes = append(nodes, c25Forms(p)...)
		}
		agree(t, c25Env(pe, escape), nodes, pe.sets(k.vals))
	})
}

func c25Kinds(g *kit.G, escape bool) {
	for _, k := range c25All(c25Strings()) {
		c25Each(g, k, escape)
	}
}

var (
	stringerT = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
)

func c25Interfaces(g *kit.G, escape bool) {
	vals := c25Boxed(c25Strings())
	c25Each(g, c25Kind{anyT, vals}, escape)
	var strs, errs []interface{}
	for _, v := range vals {
		if _, ok := v.(fmt.Stringer); ok {
			strs = append(strs, v)
		}
		if _, ok := v.(error); ok {
			errs = append(errs, v)
		}
	}
	c25Each(g, c25Kind{stringerT, append(strs, nil)}, escape)
	c25Each(g, c25Kind{errT, append(errs, nil)}, escape)
}

// c25Pairs reads values of two kinds from two places, one after the other and nested.
func c25Pairs(g *kit.G, escape bool) {
	kinds := []c25Kind{
		{strT, []interface{}{"", "<'a'>", "x\"&"}},
		{reflect.TypeOf(0), []interface{}{0, -12, math.MaxInt64}},
		{reflect.TypeOf(0.0), []interface{}{0.5, -1e21, 0.0}},
		{reflect.TypeOf(true), []interface{}{true, false}},
		{anyT, []interface{}{"<&>", 7, c25Time, nil}},
		{reflect.TypeOf([]string{}), []interface{}{[]string{"<"}, []string(nil)}},
		{reflect.TypeOf(C25Doc{}), []interface{}{C25Doc{Name: "<"}}},
		{reflect.TypeOf(int64(0)), []interface{}{int64(-1), int64(math.MaxInt64)}},
	}
	if !g.Thorough() {
		kinds = kinds[:5]
	}
	for _, a := range kinds {
		for _, b := range kinds {
			for i := range newPlaces(a.rt).places {
				for j := range newPlaces(b.rt).places {
					if !g.Thorough() && a.rt != b.rt && (i+j)%3 != 0 {
						continue
					}
					a, b, i, j := a, b, i, j
					g.Do(func(t *kit.T) {
						pa, pb := newPlacesNamed("a", a.rt), newPlacesNamed("b", b.rt)
						env := &ref.Env{Escape: escape, Funcs: map[string]interface{}{}}
						for _, pe := range []*placesEnv{pa, pb} {
							env.Vars = append(env.Vars, pe.env.Vars...)
							for n, f := range pe.env.Funcs {
								env.Funcs[n] = f
							}
						}
						var sets [][]interface{}
						for n := range a.vals {
							sets = append(sets, append(pa.set(a.vals[n]), pb.set(b.vals[n%len(b.vals)])...))
						}
						x, y := pa.places[i], pb.places[j]
						show := func(p place) []ref.Node { return []ref.Node{ref.Text("<"), ref.Out{P: p.expr()}, ref.Text("&")} }
						nodes := append(x.wrap(show(x)), y.wrap(show(y))...)
						nodes = append(nodes, x.wrap(append(append(show(x), y.wrap(append(show(y), show(x)...))...), show(y)...))...)
						agree(t, env, nodes, sets)
					})
				}
			}
		}
	}
}

// c25Numbers renders numbers all over their range.
func c25Numbers(g *kit.G) {
	var ints, floats []interface{}
	near := func(n int) {
		for d := -2; d <= 2; d++ {
			ints = append(ints, n+d, -(n + d))
		}
	}
	for i := uint(0); i < 64; i++ {
		near(1 << i)
	}
	for n, i := 1, 0; i < 19; n, i = n*10, i+1 {
		near(n)
		near(n * 5)
	}
	for i := -1100; i <= 1100; i++ {
		ints = append(ints, i)
	}
	step := g.Pick(16, 1)
	for e := -1074; e <= 1023; e += step {
		f := math.Ldexp(1, e)
		floats = append(floats, f, -f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)))
	}
	for e := -330; e <= 308; e++ {
		if e%g.Pick(7, 1) == 0 || e > -25 && e < 25 {
			for _, m := range []float64{1, 1.5, 9.999999999999999, 1.234567890123456} {
				floats = append(floats, m*math.Pow(10, float64(e)))
			}
		}
	}
	for i := -2100; i <= 2100; i++ {
		floats = append(floats, float64(i)/100)
	}
	for _, k := range []c25Kind{{reflect.TypeOf(0), ints}, {reflect.TypeOf(0.0), floats}, {anyT, append(append([]interface{}{}, ints...), floats...)}} {
		k := k
		for i := range newPlaces(k.rt).places {
			i := i
			g.Do(func(t *kit.T) {
				pe := newPlaces(k.rt)
				agree(t, pe.env, pe.places[i].wrap([]ref.Node{ref.Text("<"), ref.Out{P: pe.places[i].expr()}, ref.Text(">")}), pe.sets(k.vals))
			})
		}
	}
}
