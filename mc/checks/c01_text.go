package checks

import (
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

func textEnv() *ref.Env {
	return &ref.Env{Vars: []ref.Var{{Name: "s", Val: "S<v>"}, {Name: "n", Val: 12}, {Name: "list", Val: []string{"p", "q"}}, {Name: "yes", Val: true}, {Name: "no", Val: false}}}
}

// literal compiles src, which contains no construct that means anything, and expects it back.
func literal(t *kit.T, env *ref.Env, src string) {
	t.Start(kit.Q(src))
	pl, err, panicked := compileReal(env, src)
	t.Exec(1)
	t.Step(len(src))
	if panicked != "" {
		t.Failf("compile: %v", panicked)
		return
	}
	if err != nil {
		t.Failf("the compiler rejected literal text: %v", err)
		return
	}
	got, panicked := pl.run(nil)
	if panicked != "" {
		t.Failf("exec: %v", panicked)
		return
	}
	t.State(src)
	if strings.ContainsAny(src, "$#") {
		t.Nontrivial()
	}
	if got.Out != src || got.Err != "" {
		t.Failf("got %v, want %q", got, src)
	}
}

type fragment struct {
	nodes    []ref.Node
	lastOnly bool
	topOnly  bool
	ident    bool // ends with a bare reference: the next fragment must not continue it
	lead     byte
}

func c01Fragments() []fragment {
	var fs []fragment
	for _, s := range []string{"a", "b c", "\n", " ", "é\t", "$ ", "# ", "$1", "#1", "100%", "[[", "]]#;", "(", "};", "\"", "\\", "'", "@", "\r\n", "\xff\x00", "#-", "$.", "$)", "{", "_x", "=1"} {
		fs = append(fs, fragment{nodes: []ref.Node{ref.Text(s)}, lead: s[0]})
	}
	for _, s := range []string{". ", ".. ", ".1", "._", ".)", ".", "..", ".$", ".#"} { // a full stop after a reference
		last := s[len(s)-1] == '.'
		top := s == ".$" || s == ".#"
		fs = append(fs, fragment{nodes: []ref.Node{ref.Out{P: ref.V("n")}, ref.Text(s)}, lead: '$', lastOnly: last || top, topOnly: top}, fragment{nodes: []ref.Node{ref.Out{P: ref.V("unknown")}, ref.Text(s)}, lead: '$', lastOnly: last || top, topOnly: top})
	}
	fs = append(fs, fragment{nodes: []ref.Node{ref.Out{P: ref.V("n")}, ref.Text("."), ref.Out{P: ref.V("s")}}, ident: true, lead: '$'})
	for _, s := range []string{"", " c", " $s", " #end", "# x", " #[[x]]#", " \"", " (", "é\r", "{"} {
		fs = append(fs, fragment{nodes: []ref.Node{ref.Comment{Body: s}}, lead: '#'})
	}
	for _, s := range []string{"", "x", "$s", "#if(", "]", "[", "\"", "##c", "\n", "]]", "[[", "#end", "}", "\\", "$s]"} {
		fs = append(fs, fragment{nodes: []ref.Node{ref.Raw(s)}, lead: '#'})
	}
	fs = append(fs,
		fragment{nodes: []ref.Node{ref.Out{P: &ref.Path{Root: "s", Braced: true}}}, lead: '$'},
		fragment{nodes: []ref.Node{ref.Out{P: ref.V("n")}}, ident: true, lead: '$'},
		fragment{nodes: []ref.Node{ref.Out{P: ref.V("unknown")}}, ident: true, lead: '$'},
		fragment{nodes: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("yes"), Body: []ref.Node{ref.Text("y ")}}}}}, lead: '#'},
		fragment{nodes: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: ref.V("no"), Body: []ref.Node{ref.Text("y")}}}, HasElse: true, Else: []ref.Node{ref.Text(" else\n")}}}, lead: '#'},
		fragment{nodes: []ref.Node{ref.Foreach{Item: "it", Over: ref.V("list"), Body: []ref.Node{ref.Text("<"), ref.Out{P: &ref.Path{Root: "it", Braced: true}}, ref.Text(">")}}}, lead: '#'},
		fragment{nodes: []ref.Node{ref.Set{Target: ref.V("q"), Val: ref.Lit{V: 1}}}, lead: '#'},
		fragment{nodes: []ref.Node{ref.Text("$")}, lastOnly: true, topOnly: true, lead: '$'},
		fragment{nodes: []ref.Node{ref.Text("#")}, lastOnly: true, topOnly: true, lead: '#'},
		fragment{nodes: []ref.Node{ref.Comment{Body: " tail", EOF: true}}, lastOnly: true, topOnly: true, lead: '#'},
		fragment{nodes: []ref.Node{ref.Comment{EOF: true}}, lastOnly: true, topOnly: true, lead: '#'},
	)
	return fs
}

func continuesReference(b byte) bool {
	return b == '.' || b == '[' || b == '(' || b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// wraps place a node list in every statement position.
func c01Wraps() []func(n []ref.Node) []ref.Node {
	yes := ref.V("yes")
	no := ref.V("no")
	return []func(n []ref.Node) []ref.Node{
		func(n []ref.Node) []ref.Node { return n },
		func(n []ref.Node) []ref.Node { return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: n}}}} },
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.If{Arms: []ref.Arm{{Cond: no, Body: []ref.Node{ref.Text("never")}}}, HasElse: true, Else: n}}
		},
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Text("pre "), ref.If{Arms: []ref.Arm{{Cond: no, Body: n}, {Cond: yes, Body: n}, {Cond: yes, Body: n}}}, ref.Text(" post")}
		},
		func(n []ref.Node) []ref.Node { return []ref.Node{ref.Foreach{Item: "w", Over: ref.V("list"), Body: n}} },
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.Lit{V: 2}}, Post: "++", Body: n}}
		},
		func(n []ref.Node) []ref.Node {
			return []ref.Node{ref.Foreach{Item: "w", Over: ref.V("list"), Body: []ref.Node{ref.If{Arms: []ref.Arm{{Cond: yes, Body: n}}}, ref.Text("|")}}}
		},
	}
}

// strings over a byte alphabet
func eachString(alphabet []string, n int, f func(s string) bool) {
	seq := make([]int, n)
	for {
		var b strings.Builder
		for _, i := range seq {
			b.WriteString(alphabet[i])
		}
		if !f(b.String()) || !next(seq, len(alphabet)) {
			return
		}
	}
}

func plain(s string) bool { return !strings.Contains(s, "##") && !strings.Contains(s, "#[[") }

func init() {
	register(&kit.Check{
		Property: "C01",
		Level:    "model_checking",
		Rule:     "every string over the special characters, every byte pair in context, and every sequence of lexical fragments in every statement position, rendered by the implementation and compared byte for byte with the model; non-trivial = the text contains $ or # (strings) or something is rendered (fragments)",
		Bounds: func(t kit.Tier) string {
			return "characters: 17-symbol alphabet, length<=5 (quick) / 6 (thorough); bytes: all 65536 pairs after '', '$', '#', and all pairs of other bytes between 8 pairs of constructs; fragments: 81 fragments, all pairs in 7 positions, all triples in 3 positions (quick) / in 7 positions (thorough)"
		},
		Assumptions: []string{"text longer than the bound behaves like a concatenation of covered pieces", "a lone $ before a name that is no variable is an unknown reference, which renders as written"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c01Sizes},
			{Name: "characters", Gen: func(g *kit.G) {
				alphabet := strings.Split("$ # a { } ( ) [ ] . ! \" 1 , \\", " ")
				alphabet = append(alphabet, " ", "\n")
				env := &ref.Env{}
				for n := 0; n <= g.Pick(5, 6); n++ {
					if n == 0 {
						g.Do(func(t *kit.T) { literal(t, env, "") })
						continue
					}
					eachString(alphabet, n, func(s string) bool {
						if plain(s) {
							g.Do(func(t *kit.T) { literal(t, env, s) })
						}
						return !g.Stopped()
					})
				}
			}},
			{Name: "bytes", Gen: func(g *kit.G) {
				env := textEnv()
				for _, pre := range []string{"", "$", "#", "x$", "${s}"} {
					for a := 0; a < 256; a++ {
						for b := -1; b < 256; b++ {
							s := string([]byte{byte(a)})
							if b >= 0 {
								s += string([]byte{byte(b)})
							}
							body := pre + s
							want := body
							if pre == "${s}" {
								want = "S<v>" + s
							}
							if !plain(body) || strings.Contains(strings.TrimPrefix(body, "${s}"), "$s") || strings.Contains(body, "$n") || strings.Contains(body, "$!s") || strings.Contains(body, "$!n") {
								continue
							}
							g.Do(func(t *kit.T) {
								if pre != "${s}" {
									literal(t, env, body)
									return
								}
								t.Start(kit.Q(body))
								pl, err, p := compileReal(env, body)
								if err != nil || p != "" {
									t.Failf("compile: %v %v", err, p)
									return
								}
								got, p := pl.run(nil)
								t.Exec(1)
								t.State(want)
								if got.Out != want || p != "" {
									t.Failf("got %v %v, want %q", got, p, want)
								}
							})
						}
					}
				}
			}},
			{Name: "between", Gen: func(g *kit.G) {
				env := textEnv()
				for _, c := range []struct{ pre, post, before, after string }{
					{"${s}", "${s}", "S<v>", "S<v>"},
					{"#if($yes)", "#end", "", ""},
					{"#if($no)n#{else}", "#end${n}", "", "12"},
					{"#if($yes)y#end", "#set($q = 1)", "y", ""},
					{"#foreach($i in $list)${i}", "${i}#end", "", ""},
					{"#set($q = 1)", "#foreach($i in $list)${i}#end", "", "pq"},
					{"## c\n", "## c", "", ""},
					{"#[[$s]]#", "#[[#]]#", "$s", "#"},
				} {
					for a := 0; a < 256; a++ {
						for b := -1; b < 256; b++ {
							s := string([]byte{byte(a)})
							if b >= 0 {
								s += string([]byte{byte(b)})
							}
							if strings.ContainsAny(s, "$#") || c.pre == "" {
								continue
							}
							c, s := c, s
							g.Do(func(t *kit.T) {
								src, want := c.pre+s+c.post, c.before+s+c.after
								if strings.HasPrefix(c.pre, "#foreach") {
									want = "p" + s + "pq" + s + "q"
								}
								t.Start(kit.Q(src))
								pl, err, p := compileReal(env, src)
								if err != nil || p != "" {
									t.Failf("compile: %v %v", err, p)
									return
								}
								got, p := pl.run(nil)
								t.Exec(1)
								t.Nontrivial()
								t.State(want)
								if got.Out != want || got.Err != "" || p != "" {
									t.Failf("got %v %v, want %q", got, p, want)
								}
							})
						}
						if g.Stopped() {
							return
						}
					}
				}
			}},
			{Name: "fragments", Gen: func(g *kit.G) {
				fs := c01Fragments()
				wraps := c01Wraps()
				env := textEnv()
				for n := 1; n <= 3; n++ {
					seq := make([]int, n)
					for {
						ok := true
						top := false
						var nodes []ref.Node
						for i, x := range seq {
							f := fs[x]
							if f.lastOnly && i != n-1 || i > 0 && fs[seq[i-1]].ident && continuesReference(f.lead) {
								ok = false
								break
							}
							top = top || f.topOnly
							nodes = append(nodes, f.nodes...)
						}
						if ok {
							for wi, w := range wraps {
								if top && wi != 0 || n == 3 && wi > 2 && !g.Thorough() {
									break
								}
								w := w
								g.Do(func(t *kit.T) {
									agree(t, env, w(nodes), nil)
								})
							}
						}
						if g.Stopped() || !next(seq, len(fs)) {
							break
						}
					}
				}
			}},
			{Name: "lines", Gen: func(g *kit.G) {
				// whole lines around comments: before x comment x after, several in a row
				pieces := []ref.Node{ref.Text("l1"), ref.Text("\n"), ref.Comment{Body: " c"}, ref.Comment{Body: ""}, ref.Raw("##"), ref.Out{P: &ref.Path{Root: "s", Braced: true}}, ref.Text(" "), ref.Set{Target: ref.V("z"), Val: ref.Lit{V: "##"}}}
				env := textEnv()
				for n := 1; n <= g.Pick(5, 6); n++ {
					seq := make([]int, n)
					for {
						var nodes []ref.Node
						for _, x := range seq {
							nodes = append(nodes, pieces[x])
						}
						g.Do(func(t *kit.T) { agree(t, env, nodes, nil) })
						if g.Stopped() || !next(seq, len(pieces)) {
							break
						}
					}
				}
			}},
		},
	})
}
