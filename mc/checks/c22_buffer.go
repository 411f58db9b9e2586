package checks

import (
	"fmt"
	"html"
	"math"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/utils"
	"verifmc/kit"
)

type bufOp struct {
	name string
	impl func(b *est.Buffer)
	// model: text appended, raw = not subject to escaping; reset = true clears
	text  string
	raw   bool
	reset bool
}

func bufOps() []bufOp {
	ops := []bufOp{
		{name: "byte x", impl: func(b *est.Buffer) { b.AppendByte('x') }, text: "x", raw: true},
		{name: "str ''", impl: func(b *est.Buffer) { b.AppendString("") }, text: ""},
		{name: "str ab", impl: func(b *est.Buffer) { b.AppendString("ab") }, text: "ab"},
		{name: "str <&9", impl: func(b *est.Buffer) { b.AppendString("<&9") }, text: "<&9"},
		{name: "raw <\">", impl: func(b *est.Buffer) { b.AppendStringWithoutEscaping("<\">") }, text: "<\">", raw: true},
		{name: "int 7", impl: func(b *est.Buffer) { b.AppendInt(7) }, text: "7", raw: true},
		{name: "reset", impl: func(b *est.Buffer) { b.Reset() }, reset: true},
		{name: "int min", impl: func(b *est.Buffer) { b.AppendInt(math.MinInt64) }, text: "-9223372036854775808", raw: true},
		{name: "float 0.5", impl: func(b *est.Buffer) { b.AppendFloat(0.5) }, text: "0.5", raw: true},
		{name: "bool false", impl: func(b *est.Buffer) { b.AppendBool(false) }, text: "false", raw: true},
		{name: "str long", impl: func(b *est.Buffer) { b.AppendString(strings.Repeat("0123456789", 7)) }, text: strings.Repeat("0123456789", 7)},
	}
	return ops
}

func bufferSequences(maxLen func(g *kit.G) int, sizes func(g *kit.G) []int) func(g *kit.G) {
	return func(g *kit.G) {
		ops := bufOps()
		for n := 0; n <= maxLen(g); n++ {
			for _, size := range sizes(g) {
				for _, escape := range []bool{false, true} {
					seq := make([]int, n)
					for {
						cur := append([]int(nil), seq...)
						size, escape := size, escape
						g.Do(func(t *kit.T) { runBufferSequence(t, ops, cur, size, escape) })
						if g.Stopped() || !next(seq, len(ops)) {
							break
						}
					}
				}
			}
		}
	}
}

// next advances a mixed-radix counter with a uniform radix; false on wrap-around.
func next(seq []int, radix int) bool {
	for i := len(seq) - 1; i >= 0; i-- {
		seq[i]++
		if seq[i] < radix {
			return true
		}
		seq[i] = 0
	}
	return false
}

func runBufferSequence(t *kit.T, ops []bufOp, seq []int, size int, escape bool) {
	names := make([]string, len(seq))
	for i, o := range seq {
		names[i] = ops[o].name
	}
	t.Start(fmt.Sprintf("NewBuffer(%d,%v): %s", size, escape, strings.Join(names, "; ")))
	buf := est.NewBuffer(size, escape)
	model := ""
	type seen struct {
		got  string
		want string
	}
	var earlier []seen
	for i, o := range seq {
		ops[o].impl(buf)
		if ops[o].reset {
			model = ""
		} else if escape && !ops[o].raw {
			model += html.EscapeString(ops[o].text)
		} else {
			model += ops[o].text
		}
		t.Step(1)
		got := buf.String()
		if got != model || string(buf.Bytes()) != model {
			t.Failf("after step %d: buffer holds %q, want %q", i+1, got, model)
			return
		}
		earlier = append(earlier, seen{got, model})
	}
	for _, e := range earlier {
		if e.got != e.want {
			t.Failf("a string taken earlier changed to %q, want %q", e.got, e.want)
		}
	}
	t.Exec(1)
	t.State(strconv.Itoa(size), model)
	if len(model) > size {
		t.Nontrivial()
	}
}

func intBoundaries() []int64 {
	set := map[int64]bool{}
	var res []int64
	add := func(v int64) {
		if !set[v] {
			set[v] = true
			res = append(res, v)
		}
	}
	for v := int64(-1100); v <= 1100; v++ {
		add(v)
	}
	p := int64(1)
	for i := 0; i < 19; i++ {
		for d := int64(1); d <= 9; d++ {
			if p > math.MaxInt64/d {
				continue
			}
			for e := int64(-12); e <= 12; e++ {
				add(p*d + e)
				add(-(p*d + e))
			}
			// repeated digits such as 777777
			r := int64(0)
			for k := 0; k <= i && r <= (math.MaxInt64-d)/10; k++ {
				r = r*10 + d
			}
			add(r)
			add(-r)
		}
		if i < 18 {
			p *= 10
		}
	}
	for i := uint(0); i < 63; i++ {
		for e := int64(-2); e <= 2; e++ {
			add(int64(1)<<i + e)
			add(-(int64(1) << i) + e)
		}
	}
	for e := int64(0); e < 200; e++ {
		add(math.MaxInt64 - e)
		add(math.MinInt64 + e)
	}
	// every pair of low digits below every power of ten (the two-digits-at-a-time path)
	for _, base := range []int64{1e3, 1e4, 1e6, 1e9, 1e12, 1e15, 1e18} {
		for low := int64(0); low < 100; low++ {
			add(base + low)
			add(-(base + low))
			add(base*3 + low*100)
		}
	}
	return res
}

func init() {
	register(&kit.Check{
		Property: "C22",
		Level:    "model_checking",
		Rule:     "every sequence of buffer operations up to the length bound for every initial size and escaping mode, in lockstep with a string model; every decimal/binary digit-length and sign boundary in every base; non-trivial = the content outgrew the initial size (sequences) or the value has at least 2 digits (integers)",
		Bounds: func(t kit.Tier) string {
			return "operation alphabet 11; quick: length<=4 with sizes {0,1,2,3,5,8,70} ; thorough: length<=5 with sizes 0..12 and 60..80 step 5; template rendering with every buffer size 0..200"
		},
		Assumptions: []string{"operations outside the alphabet (longer strings, other bytes) take the same code path as a member of the alphabet", "exact 'f' float formatting is delegated to strconv by both sides"},
		Parts: []kit.Part{
			{Name: "sequences", Gen: bufferSequences(
				func(g *kit.G) int { return g.Pick(4, 5) },
				func(g *kit.G) []int {
					if g.Thorough() {
						return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 60, 64, 65, 66, 70, 80}
					}
					return []int{0, 1, 2, 3, 5, 8, 70}
				})},
			{Name: "integers", Gen: func(g *kit.G) {
				vals := intBoundaries()
				for base := 2; base <= 36; base++ {
					base := base
					for i := 0; i < len(vals); i += 64 {
						end := i + 64
						if end > len(vals) {
							end = len(vals)
						}
						chunk := vals[i:end]
						g.Do(func(t *kit.T) {
							for _, v := range chunk {
								t.Start(fmt.Sprintf("utils.AppendInt(%d, base %d)", v, base))
								dst := make([]byte, 70)
								n := utils.AppendInt(dst, v, base)
								want := strconv.FormatInt(v, base)
								if n < 0 || n > len(dst) || string(dst[:n]) != want {
									t.Failf("got %q (n=%d), want %q", dst, n, want)
									return
								}
								t.Exec(1)
								t.State(want, strconv.Itoa(base))
								if len(want) > 1 {
									t.Nontrivial()
								}
								if base == 10 {
									buf := est.NewBuffer(0, false)
									buf.AppendInt(int(v))
									buf.AppendByte('|')
									if buf.String() != want+"|" {
										t.Failf("Buffer.AppendInt gave %q, want %q", buf.String(), want+"|")
									}
								}
							}
						})
					}
				}
			}},
			{Name: "sizes", Gen: func(g *kit.G) {
				grid(g, g.Pick(300, 3000), g.Pick(1<<22, 1<<23), func(t *kit.T, n int) {
					t.Start(fmt.Sprintf("values of %v bytes", n))
					plain := strings.Repeat("0123456789abcdef\n", n/17+1)[:n]
					special := plain
					if n > 1 {
						special = plain[:n-1] + "<"
					}
					for _, size := range []int{0, 1, n / 2, n - 1, n, n + 1} {
						if size < 0 {
							continue
						}
						for _, escape := range []bool{false, true} {
							want := "1" + plain + "2" + special + "3"
							b := est.NewBuffer(size, escape)
							if p := kit.Guard(func() {
								b.AppendByte('1')
								b.AppendString(plain)
								b.AppendInt(2)
								if escape {
									want = "1" + plain + "2" + html.EscapeString(special) + "3<" + plain
								}
								b.AppendString(special)
								b.AppendByte('3')
								if escape {
									b.AppendStringWithoutEscaping("<" + plain)
								}
							}); p != "" || b.String() != want || string(b.Bytes()) != want {
								t.Failf("size %v, escaping %v: %v bytes %v, want %v", size, escape, len(b.String()), p, len(want))
								return
							}
							t.Exec(1)
							t.State(strconv.Itoa(n), strconv.Itoa(size))
							t.Nontrivial()
						}
					}
					p := velty.New(velty.BufferSize(n / 2))
					_ = p.DefineVariable("s", "")
					ex, ns, err := p.Compile([]byte("<$s|${s}>"))
					if err != nil {
						t.Failf("compile: %v", err)
						return
					}
					st := ns()
					for k := 0; k < 2; k++ { // the same state once more: the buffer has grown
						_ = st.SetValue("s", plain)
						if pan := kit.Guard(func() { err = ex.Exec(st) }); pan != "" || err != nil || st.Buffer.String() != "<"+plain+"|"+plain+">" {
							t.Failf("rendering: %v bytes %v %v", len(st.Buffer.String()), pan, err)
							return
						}
						st.Reset()
						t.Exec(1)
					}
				})
			}},
			{Name: "floats", Gen: func(g *kit.G) {
				vals := []float64{0, 1, -1, 0.5, 1.5, 1e20, 1e21, 1e22, -1e21, 123456789.125, 0.1, 1.0 / 3, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Copysign(0, -1)}
				for _, v := range vals {
					v := v
					for size := 0; size < 40; size++ {
						size := size
						g.Do(func(t *kit.T) {
							t.Start(fmt.Sprintf("AppendFloat(%v) into size %d", v, size))
							b := est.NewBuffer(size, false)
							b.AppendFloat(v)
							b.AppendBool(true)
							want := strconv.FormatFloat(v, 'f', -1, 64) + "true"
							t.Exec(1)
							t.State(want)
							if b.String() != want {
								t.Failf("got %q want %q", b.String(), want)
							}
						})
					}
				}
			}},
			{Name: "rendering", Gen: func(g *kit.G) {
				// the same template must render the same for every buffer size
				tmpls := []string{"", "a", "ab$s$i$f$b", "$i", "$s", "$f$b$i", "x${i}y${s}z$b$i$i$i$i", "#foreach($v in [0...30])$v,#end", "#foreach($v in [0...9])$s#end$i"}
				for _, tm := range tmpls {
					tm := tm
					for size := 0; size <= 200; size++ {
						size := size
						g.Do(func(t *kit.T) {
							t.Start(fmt.Sprintf("BufferSize(%d): %s", size, tm))
							render := func(opts ...velty.Option) string {
								p := velty.New(opts...)
								_ = p.DefineVariable("s", "")
								_ = p.DefineVariable("i", 0)
								_ = p.DefineVariable("f", 0.0)
								_ = p.DefineVariable("b", false)
								ex, ns, err := p.Compile([]byte(tm))
								if err != nil {
									return "compile: " + err.Error()
								}
								st := ns()
								_ = st.SetValue("s", "héllo")
								_ = st.SetValue("i", -1234567890123)
								_ = st.SetValue("f", -2.25)
								_ = st.SetValue("b", true)
								if err = ex.Exec(st); err != nil {
									return "exec: " + err.Error()
								}
								return st.Buffer.String()
							}
							want := render(velty.BufferSize(1 << 16))
							got := render(velty.BufferSize(size))
							t.Exec(2)
							t.State(got)
							if len(got) > size {
								t.Nontrivial()
							}
							if got != want {
								t.Failf("got %q, want %q", got, want)
							}
						})
					}
				}
			}},
		},
	})
}
