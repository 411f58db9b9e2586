package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/functions"
	"verifmc/kit"
	"verifmc/ref"
)

func init() {
	register(&kit.Check{
		Property: "C21",
		Level:    "model_checking",
		Rule:     "every method of every built-in namespace x every tuple of arguments from the alphabet of each parameter, called from Go, through the registry and from a template (variables, values held in interfaces, literals), compared with the standard library; non-trivial = calls whose result was compared",
		Bounds: func(t kit.Tier) string {
			return map[kit.Tier]string{
				kit.Quick:    "strings over 6 bytes up to length 3 (pairs: 3 and 2; triples: 2), 45 floats squared, numerals over 13 characters up to length 3 and special ones, slices up to length 3, 14 map types x 20 keys; all triples of 18 documents decoded one after another into 12 types",
				kit.Thorough: "strings over 6 bytes up to length 4 (pairs: 4 and 3; triples: 3 and 2), 45 floats squared, numerals over 13 characters up to length 4 and special ones, slices up to length 4, 14 map types x 20 keys; all triples of 18 documents decoded one after another into 12 types",
			}[t]
		},
		Assumptions: []string{"the Go standard library is the reference"},
		Parts: []kit.Part{
			{Name: "strings", Gen: c21Strings},
			{Name: "numbers", Gen: c21Numbers},
			{Name: "values", Gen: c21Values},
			{Name: "containers", Gen: c21Containers},
			{Name: "json", Gen: c21JSON},
			{Name: "repeat", Gen: c21Repeat},
			{Name: "sizes", Gen: c21Sizes},
		},
	})
}

var errSome = errors.New(" ") // any text

// the models of the namespaces
type (
	c21S     struct{}
	c21M     struct{}
	c21C     struct{}
	c21T     struct{}
	c21E     struct{}
	c21L     struct{}
	c21Map   struct{}
	c21Clock struct{}
	c21J     struct{ types map[string]reflect.Type }
)

func (c21S) builtin()     {}
func (c21M) builtin()     {}
func (c21C) builtin()     {}
func (c21T) builtin()     {}
func (c21E) builtin()     {}
func (c21L) builtin()     {}
func (c21Map) builtin()   {}
func (c21Clock) builtin() {}
func (c21J) builtin()     {}

func (c21S) ToLower(s string) string            { return strings.ToLower(s) }
func (c21S) ToUpper(s string) string            { return strings.ToUpper(s) }
func (c21S) ReplaceAll(s, old, n string) string { return strings.ReplaceAll(s, old, n) }
func (c21S) HasSuffix(s, x string) bool         { return strings.HasSuffix(s, x) }
func (c21S) HasPrefix(s, x string) bool         { return strings.HasPrefix(s, x) }
func (c21S) Index(s, x string) int              { return strings.Index(s, x) }
func (c21S) Fields(s string) []string           { return strings.Fields(s) }
func (c21S) Split(s, x string) []string         { return strings.Split(s, x) }
func (c21S) TrimSpace(s string) string          { return strings.TrimSpace(s) }
func (c21S) Trim(s, x string) string            { return strings.Trim(s, x) }
func (c21S) LastIndex(s, x string) int          { return strings.LastIndex(s, x) }
func (c21S) Length(s string) int                { return len(s) }
func (c21S) In(set []string, x string) bool {
	for i := range set {
		if set[i] == x {
			return true
		}
	}
	return false
}

func (c21M) Round(f float64) float64  { return math.Round(f) }
func (c21M) Ceil(f float64) float64   { return math.Ceil(f) }
func (c21M) Abs(f float64) float64    { return math.Abs(f) }
func (c21M) Floor(f float64) float64  { return math.Floor(f) }
func (c21M) Sqrt(f float64) float64   { return math.Sqrt(f) }
func (c21M) Pow(x, y float64) float64 { return math.Pow(x, y) }
func (c21M) Min(x, y float64) float64 { return math.Min(x, y) }
func (c21M) Max(x, y float64) float64 { return math.Max(x, y) }

func (c21C) Itoa(i int) string                    { return strconv.Itoa(i) }
func (c21C) Atoi(s string) (int, error)           { return strconv.Atoi(s) }
func (c21C) ParseFloat(s string) (float64, error) { return strconv.ParseFloat(s, 64) }
func (c21C) ParseBool(s string) (bool, error)     { return strconv.ParseBool(s) }
func (c21C) ParseUint(s string) (uint64, error)   { return strconv.ParseUint(s, 10, 64) }
func (c21C) AsFloat(v interface{}) (float64, error) {
	switch x := v.(type) {
	case nil:
		return 0, nil
	case float64:
		return x, nil
	case int:
		return float64(x), nil
	case string:
		return strconv.ParseFloat(x, 64)
	}
	return 0, errSome
}

func is(k reflect.Type, v interface{}) bool { return reflect.TypeOf(v) == k }
func (c21T) IsInt(v interface{}) bool       { return is(reflect.TypeOf(0), v) }
func (c21T) IsFloat64(v interface{}) bool   { return is(reflect.TypeOf(0.0), v) }
func (c21T) IsString(v interface{}) bool    { return is(strT, v) }
func (c21T) IsBool(v interface{}) bool      { return is(reflect.TypeOf(true), v) }
func assertIs(ok bool) (bool, error) {
	if !ok {
		return false, errSome
	}
	return true, nil
}
func (c21E) Raise(m string) (string, error)           { return "", errors.New(m) }
func (c21E) RegisterError(m string) (string, error)   { return "", errors.New(m) }
func (c21E) AssertFloat(v interface{}) (bool, error)  { return assertIs(is(reflect.TypeOf(0.0), v)) }
func (c21E) AssertInt(v interface{}) (bool, error)    { return assertIs(is(reflect.TypeOf(0), v)) }
func (c21E) AssertString(v interface{}) (bool, error) { return assertIs(is(strT, v)) }
func (c21E) AssertBool(v interface{}) (bool, error)   { return assertIs(is(reflect.TypeOf(true), v)) }
func (c21E) AssertWithMessage(ok bool, m string) (bool, error) {
	if !ok {
		return false, errors.New(m)
	}
	return true, nil
}

func (c21L) Length(v interface{}) int { return reflect.ValueOf(v).Len() }
func at[T any](v interface{}, i int) (r T, err error) {
	l, ok := v.([]T)
	if !ok {
		return r, errSome
	}
	return l[i], nil
}
func (c21L) StringAt(v interface{}, i int) (string, error) { return at[string](v, i) }
func (c21L) IntAt(v interface{}, i int) (int, error)       { return at[int](v, i) }
func (c21L) BoolAt(v interface{}, i int) (bool, error)     { return at[bool](v, i) }
func (c21L) FloatAt(v interface{}, i int) (float64, error) { return at[float64](v, i) }
func reversed[T any](v interface{}) ([]T, error) {
	l, ok := v.([]T)
	if !ok {
		return []T{}, errSome
	}
	r := make([]T, 0, len(l))
	for i := range l {
		r = append(r, l[len(l)-i-1])
	}
	return r, nil
}
func (c21L) ReverseStrings(v interface{}) ([]string, error) { return reversed[string](v) }
func (c21L) ReverseFloats(v interface{}) ([]float64, error) { return reversed[float64](v) }
func (c21L) ReverseInts(v interface{}) ([]int, error)       { return reversed[int](v) }

func find(m, k interface{}) (reflect.Value, error) {
	if m == nil || k == nil {
		return reflect.Value{}, nil
	}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map {
		return v, errSome
	}
	return ref.Lookup(v, reflect.ValueOf(k)), nil
}
func (c21Map) Has(m, k interface{}) (bool, error) {
	v, err := find(m, k)
	return err == nil && v.IsValid(), err
}
func (c21Map) Get(m, k interface{}) (interface{}, error) {
	v, err := find(m, k)
	if err != nil || !v.IsValid() {
		return nil, err
	}
	return v.Interface(), nil
}
func get[T any](m, k interface{}) (r T, err error) {
	v, err := c21Map{}.Get(m, k)
	if err != nil {
		return r, err
	}
	r, ok := v.(T)
	if !ok {
		return r, errSome
	}
	return r, nil
}
func (c21Map) GetInt(m, k interface{}) (int, error)       { return get[int](m, k) }
func (c21Map) GetFloat(m, k interface{}) (float64, error) { return get[float64](m, k) }
func (c21Map) GetBool(m, k interface{}) (bool, error)     { return get[bool](m, k) }
func (c21Map) GetString(m, k interface{}) (string, error) { return get[string](m, k) }

var c21Now = time.Date(2021, 2, 3, 4, 5, 6, 7, time.UTC)

func (c21Clock) Now() time.Time { return c21Now }

func (c21J) Marshal(v interface{}) (string, error) {
	b, err := json.Marshal(v)
	return string(b), err
}
func (j c21J) UnmarshalInto(data interface{}, name string) (interface{}, error) {
	t, ok := j.types[name]
	if !ok {
		return nil, errSome
	}
	var b []byte
	switch d := data.(type) {
	case string:
		b = []byte(d)
	case *string:
		if d != nil {
			b = []byte(*d)
		}
	case []byte:
		b = d
	default:
		return nil, errSome
	}
	v := reflect.New(t)
	if err := json.Unmarshal(b, v.Interface()); err != nil {
		return nil, err
	}
	return v.Elem().Interface(), nil
}

var c21Spaces = map[string]struct {
	model, direct interface{}
}{
	"strings": {c21S{}, functions.Strings{}},
	"math":    {c21M{}, functions.Math{}},
	"strconv": {c21C{}, functions.Strconv{}},
	"types":   {c21T{}, functions.Types{}},
	"errors":  {c21E{}, functions.Errors{}},
	"slices":  {c21L{}, functions.Slices{}},
	"maps":    {c21Map{}, functions.Maps{}},
	"time":    {c21Clock{}, functions.Time{}},
}

// c21Method checks one method on every tuple of arguments, from Go and from templates. Arguments of interface type are
// also passed as variables of their own types.
func c21Method(g *kit.G, ns, method string, args ...[]interface{}) {
	tuples := [][]interface{}{{}}
	for _, a := range args {
		var next [][]interface{}
		for _, t := range tuples {
			for _, v := range a {
				next = append(next, append(append([]interface{}{}, t...), v))
			}
		}
		tuples = next
	}
	if len(args) == 0 {
		tuples = [][]interface{}{{}}
	}
	const chunk = 500
	for from := 0; from < len(tuples); from += chunk {
		part := tuples[from:]
		if len(part) > chunk {
			part = part[:chunk]
		}
		from, part := from, part
		g.Do(func(t *kit.T) { c21Direct(t, ns, method, from, part) })
		g.Do(func(t *kit.T) { c21Templates(t, ns, method, part) })
		if from == 0 {
			g.Do(func(t *kit.T) { c21Literals(t, ns, method, part) })
		}
	}
}

func c21Direct(t *kit.T, ns, method string, from int, tuples [][]interface{}) {
	sp := c21Spaces[ns]
	t.Start(fmt.Sprintf("%v.%v from Go, tuples from %v", ns, method, from))
	want := reflect.ValueOf(sp.model).MethodByName(method)
	entry, ok := functions.CopyInstance().Entries[ns]
	if !ok {
		t.Failf("no entry for the namespace in the registry")
		return
	}
	for route, target := range []interface{}{sp.direct, entry.Handler} {
		got := reflect.ValueOf(target).MethodByName(method)
		if !got.IsValid() {
			t.Failf("no such method (route %d)", route)
			return
		}
		for _, tuple := range tuples {
			var r []reflect.Value
			t.Exec(1)
			w, wantPanic := c21Call(want, tuple)
			r, panicked := c21Call(got, tuple)
			if (wantPanic != "") != (panicked != "") {
				t.Failf("%v(%#v): panicked %q, want %q", method, tuple, panicked, wantPanic)
				return
			}
			if wantPanic != "" {
				continue
			}
			t.Nontrivial()
			if !c21Same(r, w) {
				t.Failf("%v(%#v) = %v, want %v", method, tuple, show(r), show(w))
				return
			}
		}
	}
}

func show(vs []reflect.Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprintf("%#v", v.Interface()))
	}
	return strings.Join(s, ", ")
}

func c21Call(fn reflect.Value, args []interface{}) (res []reflect.Value, panicked string) {
	var in []reflect.Value
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(fn.Type().In(i)))
		} else {
			in = append(in, reflect.ValueOf(a))
		}
	}
	panicked = kit.Guard(func() { res = fn.Call(in) })
	return
}

func c21Same(got, want []reflect.Value) bool {
	if len(got) != len(want) {
		return false
	}
	if n := len(want); n == 2 {
		ge, we := got[1].Interface(), want[1].Interface()
		if (ge == nil) != (we == nil) {
			return false
		}
		if we != nil {
			return we == errSome || ge.(error).Error() == we.(error).Error() && sameValue(got[0].Interface(), want[0].Interface())
		}
	}
	return sameValue(got[0].Interface(), want[0].Interface())
}

func sameValue(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	}
	return reflect.DeepEqual(a, b)
}

// c21Templates calls the method from a template.
func c21Templates(t *kit.T, ns, method string, tuples [][]interface{}) {
	mt := reflect.ValueOf(c21Spaces[ns].model).MethodByName(method).Type()
	groups := map[string][][]interface{}{}
	types := map[string][]reflect.Type{}
	add := func(ts []reflect.Type, tuple []interface{}) {
		k := fmt.Sprint(ts)
		types[k] = ts
		groups[k] = append(groups[k], tuple)
	}
	for _, tuple := range tuples {
		if _, p := c21Call(reflect.ValueOf(c21Spaces[ns].model).MethodByName(method), tuple); p != "" {
			continue
		}
		var declared, own, held []reflect.Type
		allTyped := true
		for i, v := range tuple {
			d := mt.In(i)
			declared = append(declared, d)
			held = append(held, anyT)
			if d == anyT && v != nil {
				d = reflect.TypeOf(v)
			} else if v == nil {
				allTyped = false
			}
			own = append(own, d)
		}
		add(declared, tuple)
		if fmt.Sprint(held) != fmt.Sprint(declared) {
			add(held, tuple)
		}
		if fmt.Sprint(own) != fmt.Sprint(declared) && allTyped {
			add(own, tuple)
		}
	}
	for k, sets := range groups {
		env := &ref.Env{NS: map[string]interface{}{ns: c21Spaces[ns].model}}
		var args []ref.Expr
		for i, at := range types[k] {
			name := fmt.Sprintf("a%d", i)
			env.Vars = append(env.Vars, ref.Var{Name: name, Type: at})
			args = append(args, ref.V(name))
		}
		if len(args) == 0 {
			env.Vars = append(env.Vars, ref.Var{Name: "none", Val: 1})
			sets = [][]interface{}{{1}}
		}
		p := &ref.Path{Root: ns, Segs: []ref.Seg{ref.Method{Name: method, Args: args}}}
		nodes := []ref.Node{ref.Text("<"), ref.Out{P: p}, ref.Text(">"), set("r", p), out("r")}
		agree(t, env, nodes, sets)
		if t.Failed() {
			return
		}
	}
}

// c21Literals passes literals for those arguments that can be written so.
func c21Literals(t *kit.T, ns, method string, tuples [][]interface{}) {
	mt := reflect.ValueOf(c21Spaces[ns].model).MethodByName(method).Type()
	if mt.NumIn() == 0 {
		return
	}
	n := 0
	for _, tuple := range tuples {
		if _, p := c21Call(reflect.ValueOf(c21Spaces[ns].model).MethodByName(method), tuple); p != "" {
			continue
		}
		env := &ref.Env{NS: map[string]interface{}{ns: c21Spaces[ns].model}, Vars: []ref.Var{{Name: "none", Val: 1}}}
		var args []ref.Expr
		lits := 0
		for i, v := range tuple {
			if c21Literal(v) {
				args = append(args, lit(v))
				lits++
				continue
			}
			name := fmt.Sprintf("a%d", i)
			env.Vars = append(env.Vars, ref.Var{Name: name, Type: mt.In(i), Val: v})
			args = append(args, ref.V(name))
		}
		if lits == 0 {
			continue
		}
		if n++; n > 60 {
			return
		}
		p := &ref.Path{Root: ns, Segs: []ref.Seg{ref.Method{Name: method, Args: args}}}
		agree(t, env, []ref.Node{ref.Text("<"), ref.Out{P: p}, ref.Text(">")}, nil)
		if t.Failed() {
			return
		}
	}
}

func c21Literal(v interface{}) bool {
	switch x := v.(type) {
	case string:
		return !strings.ContainsAny(x, "\"$\\#\n\xff") && strings.TrimSpace(x) == x
	case int:
		return x >= 0 && x < 1<<40
	case float64:
		return x == 1.5 || x == 2.25
	case bool:
		return true
	}
	return false
}

func words(alphabet []string, n int) (res []interface{}) {
	cur := []string{""}
	res = append(res, "")
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range cur {
			for _, a := range alphabet {
				next = append(next, w+a)
				res = append(res, w+a)
			}
		}
		cur = next
	}
	return res
}

func c21Strings(g *kit.G) {
	abc := []string{"a", "B", " ", "é", "\n", "\xff"}
	all := words(abc, g.Pick(3, 4))
	some := words(abc, g.Pick(2, 3))
	few := words(abc, 2)
	for _, m := range []string{"ToLower", "ToUpper", "Fields", "TrimSpace", "Length"} {
		c21Method(g, "strings", m, append(append([]interface{}{}, all...), "ß", "İ", "ǅ", "\u2028x\u00a0", "\t\r\nz\v\f", "ΑΣ", "日本 語", "\x00", "a\x80b"))
	}
	for _, m := range []string{"HasSuffix", "HasPrefix", "Index", "LastIndex", "Split", "Trim"} {
		c21Method(g, "strings", m, all, some)
	}
	if g.Thorough() {
		c21Method(g, "strings", "ReplaceAll", some, few, few)
	} else {
		c21Method(g, "strings", "ReplaceAll", few, few, few[:12])
	}
	var sets []interface{}
	ws := words([]string{"a", "é"}, 1)
	for n := 0; n <= g.Pick(3, 4); n++ {
		for i := 0; i < pow(len(ws), n); i++ {
			s := []string{}
			for k, r := 0, i; k < n; k, r = k+1, r/len(ws) {
				s = append(s, ws[r%len(ws)].(string))
			}
			sets = append(sets, s)
		}
	}
	sets = append(sets, []string(nil))
	c21Method(g, "strings", "In", sets, append(ws, "aa", "A"))
}

// c21Sizes calls the functions with lists, maps and strings of every size up to a bound and around the powers of two beyond it.
func c21Sizes(g *kit.G) {
	counts := map[int]bool{}
	for n := 0; n <= g.Pick(70, 300); n++ {
		counts[n] = true
	}
	for p := 64; p <= g.Pick(1<<10, 1<<13); p *= 2 {
		for d := -1; d <= 1; d++ {
			counts[p+d] = true
		}
	}
	one := func(vs ...interface{}) []interface{} { return vs }
	for n := range counts {
		if g.Stopped() {
			return
		}
		step := 7 // coprime to n: a list in no order
		for n > 0 && n%step == 0 {
			step += 4
		}
		text, list, ints, floats, bools := "", []string{}, []int{}, []float64{}, []bool{}
		byText, byInt, mixed := map[string]int{}, map[int]string{}, map[string]interface{}{}
		for i := 0; i < n; i++ {
			k := i * step % n
			list, ints, floats, bools = append(list, fmt.Sprintf("%03d", k)), append(ints, k), append(floats, float64(k)/2), append(bools, k%3 == 0)
			byText[list[i]], byInt[k], mixed[list[i]] = i, list[i], []interface{}{i, list[i], floats[i], bools[i]}[i%4]
			text += string("ab cd,"[k%6])
		}
		wanted, keys, at := one("", "none", "1000000"), one(-1, 1<<40, "none"), []interface{}{}
		for _, i := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
			if i >= 0 && i < n {
				wanted, keys, at = append(wanted, list[i]), append(keys, list[i], i), append(at, i)
			}
		}
		s := func(m string, args ...[]interface{}) { c21Method(g, "strings", m, args...) }
		s("In", one(list), wanted)
		upper, other := strings.ToUpper(text), strings.Replace(text, " ", "é", -1)
		for _, m := range []string{"ToLower", "ToUpper", "Fields", "TrimSpace", "Length"} {
			s(m, one(text, upper, other, strings.Repeat(" ", n), strings.Repeat("x", n), strings.Repeat(" ", n)+"x"))
		}
		half := text[:n/2]
		for _, m := range []string{"HasSuffix", "HasPrefix", "Index", "LastIndex", "Split", "Trim"} {
			s(m, one(text, text+half, half+"!"+text, strings.Repeat("a", n)+"b"), one("", "b", ",", half, text, text+"a", "é"))
		}
		s("ReplaceAll", one(text, strings.Repeat("a", n)), one("", "a", "d,a", half), one("", "bb", text))
		l := func(m string, args ...[]interface{}) { c21Method(g, "slices", m, args...) }
		l("Length", one(list, ints, floats, bools, mixed, byInt, make([]struct{}, n), text))
		l("StringAt", one(list), at)
		l("IntAt", one(ints), at)
		l("FloatAt", one(floats), at)
		l("BoolAt", one(bools), at)
		l("ReverseStrings", one(list))
		l("ReverseInts", one(ints))
		l("ReverseFloats", one(floats))
		for _, m := range []string{"Has", "Get", "GetInt", "GetString", "GetFloat", "GetBool"} {
			c21Method(g, "maps", m, one(byText, byInt, mixed), keys)
		}
	}
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func c21Numbers(g *kit.G) {
	floats := []interface{}{}
	for _, f := range []float64{0, 0.25, 0.5, 1, 1.5, 2, 2.25, 2.5, 3, 3.5, 0.49999999999999994, 4503599627370495.5, 4503599627370496.5, 9007199254740993, 1e15, 1e21, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-310, math.Pi, 1e19} {
		floats = append(floats, f, -f)
	}
	floats = append(floats, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN())
	for _, m := range []string{"Round", "Ceil", "Abs", "Floor", "Sqrt"} {
		c21Method(g, "math", m, floats)
	}
	for _, m := range []string{"Pow", "Min", "Max"} {
		c21Method(g, "math", m, floats, floats)
	}
	nums := words([]string{"0", "1", "9", "-", "+", ".", "e", "_", "x", " ", "t", "T", "f"}, g.Pick(3, 4))
	for _, s := range []string{"inf", "-Inf", "nan", "NaN", "infinity", "true", "TRUE", "True", "tRUE", "false", "False", "FALSE", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e309", "-1e309", "0x1p-2", "0x10", "1_000", "1e-400", "2.2250738585072011e-308", "0.1", "00017", "0b11", "0o7", "١"} {
		nums = append(nums, s)
	}
	for _, m := range []string{"Atoi", "ParseFloat", "ParseBool", "ParseUint"} {
		c21Method(g, "strconv", m, nums)
	}
	c21Method(g, "strconv", "Itoa", []interface{}{0, 1, -1, 9, 10, 99, 100, 12345, -10, math.MaxInt64, math.MinInt64, 1 << 31, -1 << 31, 1 << 53})
	c21Method(g, "strconv", "AsFloat", append(append(append([]interface{}{nil, 0, 1, -5, math.MaxInt64, 1<<53 + 1, true, int64(3), uint8(4), float32(1.5), []int{1}, "x"}, floats...), nums[:200]...), nums[len(nums)-30:]...))
}

type c21Named string

func c21Any() []interface{} {
	n, s := 4, "p"
	return []interface{}{nil, 0, 1, -7, 1.5, 0.0, "", "s", true, false, int64(1), int8(2), uint(3), uint64(4), float32(1.5), c21Named("n"), &n, &s, []int{1}, []string{"a"}, []interface{}{}, map[string]int{"a": 1}, struct{ A int }{1}, time.Time{}, errors.New("e"), 'r', uint8(5), complex(1, 2)}
}

func c21Values(g *kit.G) {
	vals := c21Any()
	for _, m := range []string{"IsInt", "IsFloat64", "IsString", "IsBool"} {
		c21Method(g, "types", m, vals)
	}
	for _, m := range []string{"AssertFloat", "AssertInt", "AssertString", "AssertBool"} {
		c21Method(g, "errors", m, vals)
	}
	msgs := []interface{}{"m", "two words", "100%", "%v %d", "é", "a\nb", "x: y"}
	c21Method(g, "errors", "Raise", msgs)
	c21Method(g, "errors", "RegisterError", msgs)
	c21Method(g, "errors", "AssertWithMessage", []interface{}{true, false}, msgs)
	g.Do(c21TimeCase)
	c21Discovered(g)
}

func c21TimeCase(t *kit.T) {
	was := functions.Now
	defer func() { functions.Now = was }()
	functions.Now = func() time.Time { return c21Now }
	m := func(name string, args ...ref.Expr) ref.Seg { return ref.Method{Name: name, Args: args} }
	var nodes []ref.Node
	for _, segs := range [][]ref.Seg{{m("Now")}, {m("Now"), m("Unix")}, {m("Now"), m("Year")}, {m("Now"), m("Format", lit("2006-01-02 15:04:05"))}, {m("Now"), m("UTC"), m("Day")}, {m("Now"), m("AddDate", lit(1), lit(2), lit(3)), m("Format", lit("2006-01-02"))}, {m("Now"), m("Add", ref.V("d")), m("UnixNano")}, {m("Now"), m("Weekday"), m("String")}} {
		nodes = append(nodes, ref.Out{P: &ref.Path{Root: "time", Segs: segs}}, ref.Text("|"))
	}
	nodes = append(nodes, set("n", &ref.Path{Root: "time", Segs: []ref.Seg{m("Now")}}), out("n"), ref.Text("|"), out("n", m("Unix")))
	env := &ref.Env{NS: map[string]interface{}{"time": c21Clock{}}, Vars: []ref.Var{{Name: "d", Val: time.Hour}}}
	agree(t, env, nodes, nil)
	if got := (functions.Time{}).Now(); !got.Equal(c21Now) {
		t.Failf("Now() = %v, want %v", got, c21Now)
	}
	functions.Now = was
	before := time.Now()
	got := (functions.Time{}).Now()
	if after := time.Now(); got.Before(before) || got.After(after) {
		t.Failf("Now() = %v, want between %v and %v", got, before, after)
	}
}

// c21Discovered: the handlers the namespaces offer for their own methods do what the methods do.
func c21Discovered(g *kit.G) {
	floats := []interface{}{0.0, 1.5, -2.5, math.Inf(1), 3.999}
	for _, c := range []struct {
		ns   interface{}
		find func(interface{}) (func(...interface{}) (interface{}, error), reflect.Type, bool)
		args map[string][][]interface{}
	}{
		{functions.Math{}, functions.Math{}.DiscoverInterfaces, map[string][][]interface{}{"Round": {floats}, "Ceil": {floats}, "Abs": {floats}, "Floor": {floats}, "Sqrt": {floats}}},
		{functions.Errors{}, functions.Errors{}.DiscoverInterfaces, map[string][][]interface{}{"Raise": {{"m", "n"}}, "RegisterError": {{"m"}}, "AssertFloat": {c21Any()}, "AssertInt": {c21Any()}, "AssertString": {c21Any()}, "AssertBool": {c21Any()}, "AssertWithMessage": {{true, false}, {"m", "n"}}}},
		{functions.Time{}, functions.Time{}.DiscoverInterfaces, map[string][][]interface{}{}},
	} {
		c := c
		for name, args := range c.args {
			name, args := name, args
			g.Do(func(t *kit.T) {
				t.Start(fmt.Sprintf("handler of %T.%v", c.ns, name))
				mt, ok := reflect.TypeOf(c.ns).MethodByName(name)
				if !ok {
					t.Failf("no such method")
					return
				}
				h, rType, ok := c.find(mt.Func.Interface())
				if !ok {
					return // offering none is fine
				}
				if rType != mt.Type.Out(0) {
					t.Failf("result type %v, want %v", rType, mt.Type.Out(0))
					return
				}
				seconds := []interface{}{nil}
				if len(args) > 1 {
					seconds = args[1]
				}
				for _, a := range args[0] {
					for _, b := range seconds {
						in := []interface{}{a}
						if len(args) > 1 {
							in = append(in, b)
						}
						want, _ := c21Call(reflect.ValueOf(c.ns).MethodByName(name), in)
						got, err := h(in...)
						t.Exec(1)
						t.Nontrivial()
						var werr interface{}
						if len(want) > 1 {
							werr = want[1].Interface()
						}
						if !sameValue(got, want[0].Interface()) || (err == nil) != (werr == nil) {
							t.Failf("(%#v) = %v, %v; want %v, %v", in, got, err, want[0], werr)
							return
						}
					}
				}
			})
		}
	}
}

func c21Containers(g *kit.G) {
	n := g.Pick(3, 4)
	var slices []interface{}
	strs, ints, floats, bools := []string{"a", "", "é"}, []int{1, -2, 0}, []float64{1.5, 0, -2}, []bool{true, false}
	for l := 0; l <= n; l++ {
		for i := 0; i < pow(3, l); i++ {
			s, n, f := []string{}, []int{}, []float64{}
			for k, r := 0, i; k < l; k, r = k+1, r/3 {
				s, n, f = append(s, strs[r%3]), append(n, ints[r%3]), append(f, floats[r%3])
			}
			slices = append(slices, s, n, f)
		}
		for i := 0; i < pow(2, l); i++ {
			b := []bool{}
			for k, r := 0, i; k < l; k, r = k+1, r/2 {
				b = append(b, bools[r%2])
			}
			slices = append(slices, b)
		}
	}
	slices = append(slices, []string(nil), []int(nil), []float64(nil), []bool(nil), []interface{}{1, "a"}, []int8{1, 2}, [3]int{1, 2, 3}, []c21Named{"x"}, [][]int{{1}, {2, 3}})
	c21Method(g, "slices", "Length", append(append([]interface{}{}, slices...), "text", map[string]int{"a": 1}))
	for _, m := range []string{"StringAt", "IntAt", "BoolAt", "FloatAt"} {
		c21Method(g, "slices", m, append(append([]interface{}{}, slices...), 5), []interface{}{-1, 0, 1, 2, 3, 4})
	}
	for _, m := range []string{"ReverseStrings", "ReverseFloats", "ReverseInts"} {
		c21Method(g, "slices", m, append(append([]interface{}{}, slices...), 5, nil))
	}
	maps := []interface{}{
		map[string]int{"k": 1, "": 2, "1": 3}, map[int]string{1: "one", 0: "zero", -1: "minus"}, map[string]interface{}{"k": 1, "s": "x", "f": 1.5, "b": true, "nil": nil},
		map[float64]bool{1: true, 1.5: false, 0: true}, map[bool]float64{true: 1.5}, map[int64]int{1: 5, 1 << 40: 6}, map[uint8]string{1: "u", 255: "max"}, map[c21Named]int{"k": 7},
		map[string]bool{"k": true, "s": false}, map[string]float64{"k": 0, "f": 2.5}, map[string]string{"k": "v"}, map[string]map[string]int{"k": {"a": 1}}, map[string]int(nil), map[int]int{},
	}
	keys := []interface{}{"k", "", "1", "s", "f", "b", "nil", "none", 0, 1, -1, 1.0, 1.5, 2.5, true, false, int64(1), int64(1 << 40), int32(1), int16(1)}
	for _, m := range []string{"Has", "Get", "GetInt", "GetFloat", "GetBool", "GetString"} {
		c21Method(g, "maps", m, append(append([]interface{}{}, maps...), nil, 5, []int{1}), append(append([]interface{}{}, keys...), nil))
	}
	c21HasKey(g, maps, keys)
	c21IndexBy(g)
}

// c21HasKey: $map.HasKey(key).
func c21HasKey(g *kit.G, maps, keys []interface{}) {
	for _, mv := range maps {
		for _, kv := range keys {
			for _, held := range []bool{false, true} {
				mv, kv, held := mv, kv, held
				g.Do(func(t *kit.T) {
					env := &ref.Env{
						Kinds: map[string]ref.Kind{},
						Vars:  []ref.Var{{Name: "m", Val: mv}, {Name: "k", Val: kv}},
					}
					if held {
						env.Vars[1].Type = anyT
					}
					args := []ref.Expr{ref.V("k")}
					if c21Literal(kv) && held {
						args = []ref.Expr{lit(kv)}
					}
					p := &ref.Path{Root: "m", Segs: []ref.Seg{ref.Method{Name: "HasKey", Args: args}}}
					nodes := []ref.Node{ref.Out{P: p}, ref.If{Arms: []ref.Arm{{Cond: p, Body: []ref.Node{ref.Text("yes")}}}, HasElse: true, Else: []ref.Node{ref.Text("no")}}}
					want := ref.Lookup(reflect.ValueOf(mv), reflect.ValueOf(kv)).IsValid()
					src := ref.Print(nodes)
					t.Start(fmt.Sprintf("%v with m=%#v k=%#v", src, mv, kv))
					pl, err, panicked := compileReal(env, src)
					if err != nil || panicked != "" {
						t.Failf("compile: %v %v", err, panicked)
						return
					}
					got, panicked := pl.run(nil)
					t.Exec(1)
					t.Nontrivial()
					expect := map[bool]string{true: "trueyes", false: "falseno"}[want]
					if panicked != "" || got.Err != "" || got.Out != expect {
						t.Failf("got %v %v, want %q", got, panicked, expect)
					}
				})
			}
		}
	}
}

// C21Row is an element of the slices that are indexed by a field.
type C21Row struct {
	ID    string
	I     int
	I64   int64
	I32   int32
	I16   int16
	S     string
	F     float64
	B     bool
	U8    uint8
	N     c21Named
	Bytes []byte
	P     *int
	PS    *string
	P64   *int64
	P32   *int32
	P16   *int16
	P8    *uint8
	PF    *float64
	PF32  *float32
	PB    *bool
	PBs   *[]byte
	PN    *c21Named
	X     interface{}
}

// c21IndexBy: $rows.IndexBy("F") holds every element under its F, the last one of those having the same.
func c21IndexBy(g *kit.G) {
	row := func(id, k int) C21Row {
		p := k
		r := C21Row{ID: fmt.Sprintf("r%d", id), I: k, I64: int64(k), I32: int32(k), I16: int16(k), S: fmt.Sprint("s", k), F: float64(k) + 0.5, B: k%2 == 1, U8: uint8(k), N: c21Named(fmt.Sprint(k)), Bytes: []byte(fmt.Sprint("b", k)), P: &p}
		if k == 2 { // the pointers and the interface are nil
			r.P = nil
			return r
		}
		i64, i32, i16, u8, f, f32, b := int64(k), int32(k), int16(k), uint8(k), float64(k)/4, float32(k)/4, k%2 == 1
		r.PS, r.P64, r.P32, r.P16, r.P8, r.PF, r.PF32, r.PB, r.PBs, r.PN = &r.S, &i64, &i32, &i16, &u8, &f, &f32, &b, &r.Bytes, &r.N
		r.X = []interface{}{k, r.S}[k%2]
		return r
	}
	keyOf := func(f string, k int) interface{} { // the key as a template would give it
		switch f {
		case "I", "I64", "I32", "I16", "P", "P64", "P32", "P16":
			return k
		case "P8":
			return uint8(k)
		case "PF":
			return float64(k) / 4
		case "PF32":
			return float32(k) / 4
		case "PB":
			return k%2 == 1
		case "PN":
			return c21Named(fmt.Sprint(k))
		case "X":
			return []interface{}{k, fmt.Sprint("s", k)}[k%2]
		case "S", "PS":
			return fmt.Sprint("s", k)
		case "F":
			return float64(k) + 0.5
		case "B":
			return k%2 == 1
		case "U8":
			return uint8(k)
		case "N":
			return c21Named(fmt.Sprint(k))
		}
		return fmt.Sprint("b", k)
	}
	for _, field := range []string{"I", "I64", "I32", "I16", "S", "F", "B", "U8", "N", "Bytes", "P", "PS", "P64", "P32", "P16", "P8", "PF", "PF32", "PB", "PBs", "PN", "X"} {
		for n := 0; n <= 4; n++ {
			for code := 0; code < pow(3, n); code++ {
				for _, ptr := range []bool{false, true} {
					field, n, code, ptr := field, n, code, ptr
					g.Do(func(t *kit.T) {
						rows, prows := []C21Row{}, []*C21Row{}
						last := map[interface{}]string{}
						for i, r := 0, code; i < n; i, r = i+1, r/3 {
							x := row(i, r%3)
							rows, prows = append(rows, x), append(prows, &x)
							if nilable := strings.HasPrefix(field, "P") || field == "X"; !nilable || r%3 != 2 {
								last[keyOf(field, r%3)] = x.ID
							}
						}
						env := &ref.Env{Vars: []ref.Var{{Name: "rows", Val: rows}}}
						if ptr {
							env.Vars[0].Val = prows
						}
						src := fmt.Sprintf("#set($x = $rows.IndexBy(%q))", field)
						want := ""
						for k := 0; k < 4; k++ {
							key := keyOf(field, k)
							env.Vars = append(env.Vars, ref.Var{Name: fmt.Sprintf("k%d", k), Val: key})
							src += fmt.Sprintf("$x[$k%d].ID|$rows.IndexBy(%q)[$k%d].ID|$x.HasKey($k%d)|", k, field, k, k)
							id, ok := last[key]
							want += fmt.Sprintf("%v|%v|%v|", id, id, ok)
						}
						t.Start(fmt.Sprintf("%v over %v", src, prows))
						if field == "B" || field == "PB" {
							src = strings.ReplaceAll(src, "k2", "k0")
							src = strings.ReplaceAll(src, "k3", "k1")
						}
						pl, err, panicked := compileReal(env, src)
						if err != nil || panicked != "" {
							t.Failf("compile: %v %v", err, panicked)
							return
						}
						got, panicked := pl.run(nil)
						t.Exec(1)
						t.Nontrivial()
						if panicked != "" || got.Err != "" || got.Out != want {
							t.Failf("got %v %v, want %q", got, panicked, want)
						}
					})
				}
			}
		}
	}
	g.Do(func(t *kit.T) {
		env := &ref.Env{Vars: []ref.Var{{Name: "rows", Val: []C21Row{{ID: "a"}}}}}
		t.Start("IndexBy of a field that does not exist")
		pl, err, panicked := compileReal(env, `$rows.IndexBy("Nope").HasKey("a")`)
		if panicked != "" {
			t.Failf("compile: %v", panicked)
			return
		}
		if err == nil {
			if got, panicked := pl.run(nil); panicked != "" || got.Err == "" {
				t.Failf("got %v %v, want an error", got, panicked)
			}
		}
	})
}

type C21Doc struct {
	ID    int
	Name  string `json:"name"`
	Price float64
	Tags  []string
	Sub   *C21Doc
	M     map[string]int `json:",omitempty"`
}

// c21JSON: Marshal and UnmarshalInto.
func c21JSON(g *kit.G) {
	vals := append(c21Any(), C21Doc{}, &C21Doc{ID: 1, Name: "<&>", Sub: &C21Doc{Tags: []string{"a", "\"q\""}}, M: map[string]int{"z": 1, "a": 2}}, (*C21Doc)(nil), []C21Doc{{ID: 1}, {Price: 1.5}}, map[string]interface{}{"b": []int{1}, "a": nil}, math.Inf(1), math.NaN(), []float64{1, 1e21, 1e-7}, []byte("raw"), json.RawMessage(`{"a":1}`), func() {}, make(chan int))
	for i, v := range vals {
		if v != nil && reflect.TypeOf(v).Kind() == reflect.Func {
			continue
		}
		for _, held := range []bool{false, true} {
			v, held := v, held
			if v == nil && !held {
				continue
			}
			_ = i
			g.Do(func(t *kit.T) {
				env := &ref.Env{NS: map[string]interface{}{"json": c21J{}}, Vars: []ref.Var{{Name: "v", Val: v}, {Name: "pad", Val: 1}}}
				if held {
					env.Vars[0].Type = anyT
				}
				agree(t, env, []ref.Node{ref.Text("<"), ref.Out{P: &ref.Path{Root: "json", Segs: []ref.Seg{ref.Method{Name: "Marshal", Args: []ref.Expr{ref.V("v")}}}}}, ref.Text(">")}, nil)
				want, werr := json.Marshal(v)
				got, err := functions.NewJSON(nil).Marshal(v)
				t.Exec(1)
				if (err == nil) != (werr == nil) || werr == nil && got != string(want) {
					t.Failf("Marshal(%#v) = %q, %v; want %q, %v", v, got, err, want, werr)
				}
			})
		}
	}
	types := map[string]reflect.Type{
		"int": reflect.TypeOf(0), "string": strT, "float64": reflect.TypeOf(0.0), "bool": reflect.TypeOf(true), "[]int": reflect.TypeOf([]int{}), "[]string": reflect.TypeOf([]string{}),
		"map": reflect.TypeOf(map[string]int{}), "any": anyT, "doc": reflect.TypeOf(C21Doc{}), "*doc": reflect.TypeOf(&C21Doc{}), "[]doc": reflect.TypeOf([]C21Doc{}),
	}
	parser := velty.TypeParser(func(name string) (reflect.Type, error) {
		if t, ok := types[name]; ok {
			return t, nil
		}
		return nil, fmt.Errorf("unknown type %v", name)
	})
	docs := []string{"", "1", "-7", `"text"`, "1.5", "true", "null", "[]", "[1,2]", `["a"]`, `{"a":1}`, `{"ID":3,"name":"n","Price":2.5,"Tags":["x","y"],"Sub":{"ID":4}}`, `[{"ID":1},{"ID":2}]`, "{", "1 2", `{"ID":"x"}`, " 7 ", "nul"}
	names := []string{"int", "string", "float64", "bool", "[]int", "[]string", "map", "any", "doc", "*doc", "[]doc"}
	for _, doc := range docs {
		for _, name := range names {
			doc, name := doc, name
			g.Do(func(t *kit.T) {
				t.Start(fmt.Sprintf("UnmarshalInto(%q, %q)", doc, name))
				want, werr := c21J{types}.UnmarshalInto(doc, name)
				for i, data := range []interface{}{doc, &doc, []byte(doc), strings.NewReader(doc)} {
					got, err := functions.NewJSON(parser).UnmarshalInto(data, name)
					t.Exec(1)
					if (err == nil) != (werr == nil) || werr == nil && !reflect.DeepEqual(got, want) {
						t.Failf("data form %d: %#v, %v; want %#v, %v", i, got, err, want, werr)
						return
					}
				}
				for _, form := range []interface{}{doc, []byte(doc)} {
					for _, literal := range []bool{true, false} {
						if !literal && strings.Contains(doc, `"Sub"`) && strings.HasSuffix(name, "doc") {
							continue // %v renders the pointer's address
						}
						p := &ref.Path{Root: "json", Segs: []ref.Seg{ref.Method{Name: "UnmarshalInto", Args: []ref.Expr{ref.V("data"), ref.V("type")}}}}
						ns := c21Into{c21J{types}, nil}
						if literal {
							p.Segs[0].(ref.Method).Args[1] = lit(name)
							ns.result = types[name]
						}
						env := &ref.Env{NS: map[string]interface{}{"json": ns}, Vars: []ref.Var{{Name: "data", Val: form}, {Name: "type", Val: name}}}
						var nodes []ref.Node
						for _, n := range c21Uses(ns.result, p) {
							nodes = append(nodes, n, ref.Text("|"))
						}
						agree(t, env, nodes, nil, parser)
					}
				}
			})
		}
	}
	// without a parser of types
	for _, literal := range []bool{true, false} {
		literal := literal
		g.Do(func(t *kit.T) {
			src := `<$json.UnmarshalInto("1", $type)>`
			if literal {
				src = `<$json.UnmarshalInto("1", "int")>`
			}
			t.Start(src)
			pl, err, panicked := compileReal(&ref.Env{Vars: []ref.Var{{Name: "type", Val: "int"}}}, src)
			if panicked != "" {
				t.Failf("compile: %v", panicked)
				return
			}
			if err == nil {
				if got, panicked := pl.run(nil); panicked != "" || got.Err == "" {
					t.Failf("got %v %v, want an error", got, panicked)
				}
			}
		})
	}
}

type c21Into struct {
	c21J
	result reflect.Type
}

func (n c21Into) MethodResult(string) reflect.Type { return n.result }

func c21Uses(t reflect.Type, p *ref.Path) (res []ref.Node) {
	res = append(res, ref.Out{P: p}, set("r", p), out("r"))
	if t == nil {
		return
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() == reflect.Struct {
		res = append(res, out("r", "ID"), out("r", "Name"), out("r", "Sub", "ID"), ref.Out{P: &ref.Path{Root: p.Root, Segs: append(append([]ref.Seg{}, p.Segs...), ref.Field("Price"))}},
			ref.Foreach{Item: "x", Over: fpath("r", "Tags"), Body: []ref.Node{out("x"), ref.Text(",")}})
	}
	if t.Kind() == reflect.Slice {
		res = append(res, ref.Foreach{Item: "x", Over: ref.V("r"), Body: []ref.Node{out("x"), ref.Text(",")}})
	}
	return res
}

// c21Repeat: documents decoded one after another by one namespace; each as if it were the only one, those before staying what they were.
func c21Repeat(g *kit.G) {
	docs := []string{"null", "{}", "[]", `{"a":1}`, `{"b":2,"c":3}`, `{"ID":3,"name":"n","Price":2.5,"Tags":["x","y"],"Sub":{"ID":4,"M":{"k":1}}}`, `{"Price":1.5,"Tags":["z"]}`, `{"ID":5,"Sub":{"name":"s","M":{"q":2}}}`, `[1,2,3]`, `[4]`, `["a","b"]`, `["c"]`, `[{"ID":1,"name":"p"},{"ID":2,"Tags":["t"]}]`, `[{"Price":2}]`, "7", `"s"`, "[1,", `{"ID":"x"}`}
	types := map[string]reflect.Type{
		"int": reflect.TypeOf(0), "any": anyT, "[]int": reflect.TypeOf([]int{}), "[]string": reflect.TypeOf([]string{}), "map": reflect.TypeOf(map[string]int{}), "*map": reflect.TypeOf(&map[string]int{}), "[2]int": reflect.TypeOf([2]int{}),
		"doc": reflect.TypeOf(C21Doc{}), "*doc": reflect.TypeOf(&C21Doc{}), "[]doc": reflect.TypeOf([]C21Doc{}), "[]*doc": reflect.TypeOf([]*C21Doc{}), "mapdoc": reflect.TypeOf(map[string]C21Doc{}),
	}
	var names []string
	for name := range types {
		names = append(names, name)
	}
	sort.Strings(names)
	parser := velty.TypeParser(func(name string) (reflect.Type, error) { return types[name], nil })
	for _, name := range names {
		for _, other := range names {
			if other != name && !g.Thorough() && other[len(other)-1] != 'c' {
				continue
			}
			for a := range docs {
				name, other, a := name, other, a
				g.Do(func(t *kit.T) {
					for b := range docs {
						for c := range docs {
							t.Start(fmt.Sprintf("documents %q into %v, %q into %v, %q into %v", docs[a], name, docs[b], other, docs[c], name))
							ns := functions.NewJSON(parser)
							var got, want []interface{}
							for i, n := range []string{name, other, name} {
								doc := docs[[]int{a, b, c}[i]]
								v, err := ns.UnmarshalInto(doc, n)
								w, werr := c21J{types}.UnmarshalInto(doc, n)
								t.Exec(1)
								if (err == nil) != (werr == nil) {
									t.Failf("call %d: error %v, want %v", i, err, werr)
									return
								}
								if err == nil {
									got, want = append(got, v), append(want, w)
								}
							}
							t.State(name, fmt.Sprint(len(got)))
							if !reflect.DeepEqual(got, want) {
								t.Failf("got %#v, want %#v", got, want)
								return
							}
							if len(got) > 0 {
								t.Nontrivial()
							}
						}
					}
				})
			}
		}
	}
	// the same in templates, one plan executed again and again
	into := func(v, name string) ref.Expr {
		return &ref.Path{Root: "json", Segs: []ref.Seg{ref.Method{Name: "UnmarshalInto", Args: []ref.Expr{ref.V(v), lit(name)}}}}
	}
	for _, name := range names {
		if name == "any" {
			continue
		}
		for a := range docs {
			name, a := name, a
			g.Do(func(t *kit.T) {
				ns := c21IntoOnly{c21J{types}, types[name]}
				env := &ref.Env{NS: map[string]interface{}{"json": ns}, Vars: []ref.Var{{Name: "d", Val: ""}, {Name: "e", Val: ""}, {Name: "both", Val: []string{}}}}
				show := func(v string) ref.Node {
					return ref.Out{P: &ref.Path{Root: "json", Segs: []ref.Seg{ref.Method{Name: "Marshal", Args: []ref.Expr{ref.V(v)}}}}}
				}
				nodes := []ref.Node{set("x", into("d", name)), show("x"), ref.Text("|"), set("y", into("e", name)), show("y"), show("x"), ref.Text("|"),
					ref.Foreach{Item: "it", Over: ref.V("both"), Body: []ref.Node{set("z", into("it", name)), show("z"), ref.Text(",")}}, show("x")}
				var vals [][]interface{}
				for b := range docs {
					vals = append(vals, []interface{}{docs[a], docs[b], []string{docs[b], docs[a], docs[b]}})
				}
				agreeEach(t, env, nodes, len(vals), func(i int) []interface{} { return vals[i] }, nil, parser)
			})
		}
	}
}

type c21IntoOnly struct {
	c21J
	result reflect.Type
}

func (n c21IntoOnly) MethodResult(method string) reflect.Type {
	if method == "UnmarshalInto" {
		return n.result
	}
	return nil
}
