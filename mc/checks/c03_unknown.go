package checks

import (
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

type c03Known struct {
	Name string
	N    int
	L    []int
}

func c03Env() *ref.Env {
	return &ref.Env{
		Vars:  []ref.Var{{Name: "foo", Val: c03Known{Name: "nm", N: 3, L: []int{4}}}, {Name: "i", Val: 1}, {Name: "s", Val: "str"}, {Name: "yes", Val: true}, {Name: "no", Val: false}, {Name: "list", Val: []int{7, 8}}},
		Funcs: map[string]interface{}{"echo": func(i int) int { trace("echo %d", i); return i }},
	}
}

// unknownReference is an unknown root followed by raw segments, exactly as spelled.
func c03References(g *kit.G, f func(src string)) {
	roots := []string{"nope", "n", "fo", "fooo", "foo_", "foo___Name", "foo1", "Foo", "NOPE_1", "velty", "Velty_T0", "in", "true", "if", "end", "items"}
	segs := []string{"", ".Name", ".a.b", "[0]", `["k"]`, "[$i]", "[$nope2]", "[ 0 ]", "[$i + 1]", "()", "(1)", `("a", $s)`, "( 1 ,2 )", "(1 + 2)", `("a b", "c,d")`, ".M()", ".M($s).N", "[-1]", "($nope2)", "($echo(1))", ".x[$list[0]]", `("$s")`, "(1.5)", "(!$yes)", "(($i))",
		"(1,  2)", "(\t1\n)", "[  $i  ]", "(1,\n\t$s)", `("a  b")`, "(\"\t\", \"x\ny\")", "($i  +  1)", `.M( ).N`, `["a  b"]`, `(1 , "ä  ö")`, `("<&>")`}
	for _, r := range roots {
		for _, a := range segs {
			for bi, b := range segs {
				if a == "" && b != "" || bi > 0 && r != "nope" && !g.Thorough() {
					continue
				}
				p := r + a + b
				for _, src := range []string{"$" + p, "${" + p + "}", "$!" + p, "$!{" + p + "}"} {
					f(src)
				}
			}
		}
	}
}

func init() {
	positions := []struct{ pre, post, wantPre, wantPost string }{
		{"", "", "", ""},
		{"a ", " z", "a ", " z"},
		{"${s}", "${i}", "str", "1"},
		{"<", ">", "<", ">"},
		{"#if($yes)", "#end", "", ""},
		{"#if($no)x#elseif($yes)", "#{else}y#end", "", ""},
		{"#if($no)x#{else}", "#end!", "", "!"},
		{"#foreach($v in $list)", ";#end", "", ";"},
		{"#for($k = 0; $k < 2; $k++)", ",#end", "", ","},
		{"#set($other = 5)", "$other", "", "5"},
		{"#[[$nope]]#", "##$nope", "$nope", ""},
		{"$nope ", " $nope", "$nope ", " $nope"},
	}
	register(&kit.Check{
		Property: "C03",
		Level:    "model_checking",
		Rule:     "every unknown reference over the root, path and form alphabets in every statement position must render as written; loops over it run zero times; non-trivial = the reference has a path",
		Bounds: func(t kit.Tier) string {
			return "16 roots (near misses of declared names, keywords, internal names), 36 path pieces (among them white space of every kind within calls, indices and strings), up to 2 pieces (1 piece for 15 of the roots in quick), 4 forms, 12 positions, both escaping modes; loops over all of them"
		},
		Assumptions: []string{"path pieces outside the alphabet are parsed like a member"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c03Sizes},
			{Name: "render", Gen: func(g *kit.G) {
				env := c03Env()
				esc := c03Env()
				esc.Escape = true
				c03References(g, func(src string) {
					for pi, pos := range positions {
						for _, e := range []*ref.Env{env, esc} {
							if e.Escape && pi > 1 && !g.Thorough() {
								continue
							}
							tmpl := pos.pre + src + pos.post
							want := pos.wantPre + src + pos.wantPost
							switch {
							case strings.HasPrefix(pos.pre, "#foreach"), strings.HasPrefix(pos.pre, "#for("):
								want += want
							}
							e := e
							g.Do(func(t *kit.T) { unknownCase(t, e, tmpl, want) })
						}
					}
				})
			}},
			{Name: "evaluate", Gen: func(g *kit.G) {
				env := c03Env()
				env.Vars = append(env.Vars, ref.Var{Name: "text", Val: ""})
				c03References(g, func(src string) {
					g.Do(func(t *kit.T) {
						t.Start("#evaluate of " + src)
						pl, err, panicked := compileReal(env, "<#evaluate($text)>")
						if err != nil || panicked != "" {
							t.Failf("%v %v", err, panicked)
							return
						}
						vals := initial(env)
						vals[len(vals)-1] = src
						got, panicked := pl.run(vals)
						t.Exec(1)
						t.State(got.Out)
						if got.Out != "<"+src+">" || got.Err != "" || panicked != "" {
							t.Failf("got %v %v, want %q", got, panicked, "<"+src+">")
						}
					})
				})
			}},
			{Name: "loops", Gen: func(g *kit.G) {
				env := c03Env()
				c03References(g, func(src string) {
					for _, wrap := range []struct{ pre, post, want string }{
						{"a#foreach($v in ", ")body $v#{end}z", "az"},
						{"#foreach($w in $list)$w#foreach($v in ", ")$v#end,#end", "7,8,"},
						{"#if($yes)#foreach($v in ", ")#set($i = 9)#end#end$i", "1"},
					} {
						tmpl := wrap.pre + src + wrap.post
						want := wrap.want
						g.Do(func(t *kit.T) { unknownCase(t, env, tmpl, want) })
					}
				})
			}},
			{Name: "known", Gen: func(g *kit.G) {
				// the same names declared: the reference must now render the value, so unknownness is what is decided
				for _, name := range []string{"nope", "n", "fo", "fooo", "foo_", "foo1", "Foo", "NOPE_1", "velty", "in", "true", "if", "end", "items"} {
					for _, form := range []string{"$%", "${%}", "$!%", "$!{%}"} {
						src := strings.Replace(form, "%", name, 1)
						env := c03Env()
						env.Vars = append(env.Vars, ref.Var{Name: name, Val: "VALUE"})
						g.Do(func(t *kit.T) { unknownCase(t, env, "<"+src+">", "<VALUE>") })
						env2 := c03Env()
						g.Do(func(t *kit.T) {
							unknownCase(t, env2, "<"+src+">#set($"+name+" = 4)<"+src+">", "<"+src+"><4>")
						})
					}
				}
			}},
			{Name: "expressions", Gen: func(g *kit.G) {
				// an expression over an unknown reference has no value: rejected, never computed
				env := c03Env()
				for _, u := range []string{"$nope", "${nope}", "$!nope", "$nope.a", "$nope[0]", "$nope(1)"} {
					for _, e := range []string{"% + 1", "1 + %", "% == 1", "1 == %", `% == "a"`, "!%", "(%)", "% && $yes", "$yes || %", "$i + % * 2", "(1 + %) * 2", "$echo(%)"} {
						ex := strings.Replace(e, "%", u, 1)
						for _, tm := range []string{"#set($r = #)", "#if(#)T#end", "#if($yes)#elseif(#)T#end", "#for($k = 0; #; $k++)#end", "#if($no)#if(#)T#end#end"} {
							if u == "$nope(1)" && e == "(%)" {
								continue
							}
							src := strings.Replace(tm, "(#", "(@", 1)
							src = strings.Replace(src, "= #", "= @", 1)
							src = strings.Replace(src, "; #", "; @", 1)
							src = strings.Replace(src, "@", ex, 1)
							g.Do(func(t *kit.T) {
								t.Start(src)
								_, err, panicked := compileReal(env, src)
								t.Exec(1)
								t.Nontrivial()
								if panicked != "" {
									t.Failf("compile: %v", panicked)
								} else if err == nil {
									t.Failf("the compiler accepted an expression over an unknown variable")
								}
							})
						}
					}
				}
			}},
		},
	})
}

func unknownCase(t *kit.T, env *ref.Env, tmpl, want string) {
	name := tmpl
	if env.Escape {
		name = "escaping on: " + tmpl
	}
	t.Start(name)
	traceReset()
	pl, err, panicked := compileReal(env, tmpl)
	t.Exec(1)
	t.Step(1)
	if panicked != "" || err != nil {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	got, panicked := pl.run(nil)
	t.State(want)
	if strings.ContainsAny(tmpl, ".[(") {
		t.Nontrivial()
	}
	if got.Out != want || got.Err != "" || panicked != "" {
		t.Failf("got %v %v, want %q", got, panicked, want)
		return
	}
	if tr := traceGet(); len(tr) > 0 {
		t.Failf("rendering an unknown reference called functions: %v", tr)
	}
}
