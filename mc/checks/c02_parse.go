package checks

import (
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

// blockTokens: the automaton below builds the model's tree for a token sequence or decides that it must be rejected.
var blockTokens = []string{"#if($yes)", "#elseif($yes)", "#{else}", "#foreach($x in $list)", "#for($k = 0; $k < 2; $k++)", "#end", "t", "#if($no)", "#elseif($no)"}

const (
	tIf = iota
	tElseIf
	tElse
	tForeach
	tFor
	tEnd
	tText
	tIfNo
	tElseIfNo
)

type frame2 struct {
	kind int
	node ref.If
	body []ref.Node
	cond ref.Expr
	els  bool
}

// buildBlocks runs the nesting automaton. ok=false: must be rejected; skip: meaning not fixed (elseif/else after else).
func buildBlocks(seq []int) (nodes []ref.Node, ok, skip bool) {
	stack := []*frame2{{kind: -1}}
	closeArm := func(f *frame2) {
		if f.els {
			f.node.Else = f.body
		} else {
			f.node.Arms = append(f.node.Arms, ref.Arm{Cond: f.cond, Body: f.body})
		}
		f.body = nil
	}
	for _, tok := range seq {
		top := stack[len(stack)-1]
		switch tok {
		case tIf:
			stack = append(stack, &frame2{kind: tIf, cond: ref.V("yes")})
		case tIfNo:
			stack = append(stack, &frame2{kind: tIf, cond: ref.V("no")})
		case tForeach, tFor:
			stack = append(stack, &frame2{kind: tok})
		case tText:
			top.body = append(top.body, ref.Text("t"))
		case tElseIf, tElseIfNo, tElse:
			if top.kind != tIf {
				return nil, false, false
			}
			if top.els {
				skip = true
			}
			closeArm(top)
			if tok == tElse {
				top.els = true
				top.node.HasElse = true
			} else if tok == tElseIf {
				top.cond = ref.V("yes")
			} else {
				top.cond = ref.V("no")
			}
		case tEnd:
			if len(stack) == 1 {
				return nil, false, false
			}
			stack = stack[:len(stack)-1]
			outer := stack[len(stack)-1]
			switch top.kind {
			case tIf:
				closeArm(top)
				outer.body = append(outer.body, top.node)
			case tForeach:
				outer.body = append(outer.body, ref.Foreach{Item: "x", Over: ref.V("list"), Body: top.body})
			case tFor:
				outer.body = append(outer.body, ref.For{Var: "k", From: ref.Lit{V: 0}, Cond: ref.Bin{Op: "<", L: ref.V("k"), R: ref.Lit{V: 2}}, Post: "++", Body: top.body})
			}
		}
	}
	if len(stack) != 1 {
		return nil, false, skip
	}
	return stack[0].body, true, skip
}

// nestedFor reports a for loop inside another one (they would share the loop variable of the token alphabet).
func nestedFor(nodes []ref.Node, in bool) bool {
	for _, n := range nodes {
		switch a := n.(type) {
		case ref.For:
			if in || nestedFor(a.Body, true) {
				return true
			}
		case ref.Foreach:
			if nestedFor(a.Body, in) {
				return true
			}
		case ref.If:
			for _, arm := range a.Arms {
				if nestedFor(arm.Body, in) {
					return true
				}
			}
			if nestedFor(a.Else, in) {
				return true
			}
		}
	}
	return false
}

func totalityEnv() *ref.Env {
	return &ref.Env{
		Vars:  []ref.Var{{Name: "x", Val: 1}, {Name: "s", Val: "v"}, {Name: "l", Val: []int{1, 2}}, {Name: "o", Val: totalObj{}}},
		Funcs: map[string]interface{}{"f": func(a int) int { return a }},
	}
}

type totalObj struct {
	A int
	P *totalObj
	M map[string]int
}

// total compiles any source: only a panic, a crash or a hang is a failure.
func total(t *kit.T, env *ref.Env, src string) {
	t.Start(kit.Q(src))
	pl, err, panicked := compileReal(env, src)
	t.Exec(1)
	t.Step(1)
	if panicked != "" {
		t.Failf("compile: %v", panicked)
		return
	}
	if err != nil {
		t.State("error", clipErr(err.Error()))
	} else {
		t.State("plan")
		t.Nontrivial()
	}
	if err == nil && pl == nil {
		t.Failf("neither a plan nor an error")
	}
}

// clipErr keeps the kind of an error message only.
func clipErr(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	r := b.String()
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

func init() {
	sourceTokens := []string{"#if(", "#elseif(", "#else", "#end", "#set(", "#foreach(", "#for(", "#evaluate(", "$", "$x", "$s", "$l", "$o.", "$u", "$f(", "{", "}", "(", ")", "[", "]", `"`, ".", ",", ";", " ", "\n", "=", "==", "!", "+", "-", "*", "/", "&&", "||", "<", ">=", "1", "2.5", "true", "A", "in", "[1...3]", "...", "#", "##", "#[[", "]]#", `\`, "++", "+=", "#{", "é", "@"}
	exprTokens := []string{"$x", "$s", "$l", "$o", "$u", "$f", "$", "{", "}", "(", ")", "[", "]", `"`, ".", ",", " ", "=", "==", "!", "+", "-", "/", "&&", "<", "1", "2.5", "true", "A", "...", ";", `\`}
	contexts := []struct{ pre, post string }{
		{"#set($v = ", ")$v"}, {"#if(", ")T#end"}, {"#foreach($q in ", ")T#end"}, {"#for(", ")T#end"}, {"${", "}"}, {"$l[", "]"}, {"$f(", ")"}, {"#evaluate(", ")"}, {"#set(", ")"}, {"#if($x == 1)#elseif(", ")#end"}, {"#for($k = 0; ", "; $k++)#end"}, {"#for($k = 0; $k < 1; ", ")#end"}, {"#{", "}"},
	}
	register(&kit.Check{
		Property: "C02",
		Level:    "model_checking",
		Rule:     "every sequence of block tokens up to the bound, compiled and executed, against a nesting automaton (accepted sequences must also render what the automaton's tree renders); every sequence of source tokens, in the open and inside every directive, must compile to a plan or an error; non-trivial = accepted",
		Bounds: func(t kit.Tier) string {
			return "block tokens: 9 tokens, length<=6 (quick) / 7 (thorough); source tokens: 55, length<=3 (quick) / 4 (thorough); expression tokens: 32 in 13 contexts, length<=3 / 4; all byte strings of length<=2 in 9 contexts; repetition of every token and bracket pair up to 400"
		},
		Assumptions: []string{"a hang is a case running longer than 20 s", "elseif or else after else has no documented meaning and is only required not to crash"},
		Parts: []kit.Part{
			{Name: "sizes", Gen: c02Sizes},
			{Name: "blocks", Gen: func(g *kit.G) {
				env := &ref.Env{Vars: []ref.Var{{Name: "yes", Val: true}, {Name: "no", Val: false}, {Name: "list", Val: []int{1, 2}}}}
				for n := 0; n <= g.Pick(6, 7); n++ {
					seq := make([]int, n)
					for {
						cur := append([]int(nil), seq...)
						g.Do(func(t *kit.T) { blockCase(t, env, cur) })
						if g.Stopped() || n == 0 || !next(seq, len(blockTokens)) {
							break
						}
					}
				}
			}},
			{Name: "spellings", Gen: func(g *kit.G) {
				env := &ref.Env{Vars: []ref.Var{{Name: "yes", Val: true}, {Name: "no", Val: false}, {Name: "list", Val: []int{1, 2}}}}
				for n := 1; n <= g.Pick(4, 5); n++ {
					for sp := 1; sp < len(blockSpellings); sp++ {
						seq := make([]int, n)
						for {
							cur := append([]int(nil), seq...)
							sp := sp
							g.Do(func(t *kit.T) { blockCaseSpelled(t, env, cur, sp) })
							if g.Stopped() || !next(seq, len(blockTokens)) {
								break
							}
						}
					}
				}
			}},
			{Name: "sources", Gen: func(g *kit.G) {
				env := totalityEnv()
				for n := 1; n <= g.Pick(3, 4); n++ {
					eachString(sourceTokens, n, func(s string) bool {
						g.Do(func(t *kit.T) { total(t, env, s) })
						return !g.Stopped()
					})
				}
			}},
			{Name: "expressions", Gen: func(g *kit.G) {
				env := totalityEnv()
				for n := 0; n <= g.Pick(3, 4); n++ {
					for _, c := range contexts {
						if n == 0 {
							g.Do(func(t *kit.T) { total(t, env, c.pre+c.post) })
							g.Do(func(t *kit.T) { total(t, env, c.pre) })
							continue
						}
						eachString(exprTokens, n, func(s string) bool {
							g.Do(func(t *kit.T) { total(t, env, c.pre+s+c.post) })
							if n < 3 {
								g.Do(func(t *kit.T) { total(t, env, c.pre+s) })
							}
							return !g.Stopped()
						})
					}
				}
			}},
			{Name: "bytes", Gen: func(g *kit.G) {
				env := totalityEnv()
				for _, pre := range []string{"", "$", "#", "#if(", "$x", "#set($x = ", "#foreach($q in ", "$l[", "$f(", "#for($k", `#set($x = "`} {
					for a := 0; a < 256; a++ {
						for b := -1; b < 256; b++ {
							s := pre + string([]byte{byte(a)})
							if b >= 0 {
								s += string([]byte{byte(b)})
							}
							g.Do(func(t *kit.T) { total(t, env, s) })
						}
					}
				}
			}},
			{Name: "repetition", Gen: func(g *kit.G) {
				env := totalityEnv()
				pairs := [][2]string{{"(", ")"}, {"[", "]"}, {"{", "}"}, {`"`, `"`}, {"$f(", ")"}, {"$l[", "]"}, {"#if($x)", "#end"}, {"#foreach($q in $l)", "#end"}, {"$o.P", ".A"}, {"!(", ")"}, {"(1+", "1)"}, {"${", "}"}, {"#{", "}"}, {"$u(", ")"}, {"$u[", "]"}, {"$u.", "A"}, {"#set($z = ", ")"}, {"#if(", ")#end"}, {"$x + ", "1"}, {"$f($x + ", ")"}, {"#[[", "]]#"}, {`$u("`, `")`}}
				for n := 1; n <= g.Pick(400, 1500); n = n*3/2 + 1 {
					for _, tok := range sourceTokens {
						s := strings.Repeat(tok, n)
						g.Do(func(t *kit.T) { total(t, env, s) })
						for _, c := range contexts {
							g.Do(func(t *kit.T) { total(t, env, c.pre+s+c.post) })
						}
					}
					for _, p := range pairs {
						for _, mid := range []string{"", "1", "$x", "true"} {
							s := strings.Repeat(p[0], n) + mid + strings.Repeat(p[1], n)
							g.Do(func(t *kit.T) { total(t, env, s) })
							g.Do(func(t *kit.T) { total(t, env, "#set($v = "+s+")$v") })
							g.Do(func(t *kit.T) { total(t, env, "#if("+s+")a#end") })
							s2 := strings.Repeat(p[0]+mid+p[1], n)
							g.Do(func(t *kit.T) { total(t, env, s2) })
						}
					}
				}
			}},
		},
	})
}

// blockSpellings are other ways to write the block tokens.
var blockSpellings = [][]string{
	blockTokens,
	{"#if ( $yes )", "#elseif( $yes)", "#else ", "#foreach( $x in $list )", "#for( $k=0 ;$k<2 ; $k++ )", "#end ", "t", "#if($no )", "#elseif ($no)"},
	{"#{if($yes)}", "#{elseif($yes)}", "#{ else }", "#{foreach($x in $list)}", "#{for($k = 0; $k < 2; $k++)}", "#{end}", "t", "#{if($no)}", "#{elseif($no)}"},
	{"# if($yes)", "#\nelseif($yes)", "#else\n", "#foreach($x\nin\n$list)", "#for($k = 0;\n$k < 2;\n$k ++)", "#end\n", "t", "# if ($no)", "#  elseif\t($no)"},
}

func blockCase(t *kit.T, env *ref.Env, seq []int) { blockCaseSpelled(t, env, seq, 0) }

func blockCaseSpelled(t *kit.T, env *ref.Env, seq []int, spelling int) {
	var b strings.Builder
	for _, x := range seq {
		b.WriteString(blockSpellings[spelling][x])
	}
	src := b.String()
	t.Start(src)
	nodes, ok, skip := buildBlocks(seq)
	if !ok && !skip {
		t.Step(len(seq))
		_, err, panicked := compileReal(env, src)
		t.Exec(1)
		t.State("rejected")
		if panicked != "" {
			t.Failf("compile: %v", panicked)
		} else if err == nil {
			t.Failf("the compiler accepted a template with unbalanced blocks")
		}
		return
	}
	if skip {
		_, err, panicked := compileReal(env, src)
		t.Exec(1)
		if panicked != "" {
			t.Failf("compile: %v", panicked)
		} else if !ok && err == nil {
			t.Failf("the compiler accepted a template with unbalanced blocks")
		}
		return
	}
	if nestedFor(nodes, false) {
		pl, err, panicked := compileReal(env, src)
		t.Exec(1)
		if panicked != "" || err != nil || pl == nil {
			t.Failf("the compiler rejected a properly nested template: %v %v", err, panicked)
		}
		return
	}
	if spelling == 0 {
		agreeSrc(t, env, nodes, src, nil)
		return
	}
	// white space after the word of a directive is text: compare without white space
	pl, err, panicked := compileReal(env, src)
	t.Exec(1)
	if panicked != "" || err != nil {
		t.Failf("the compiler rejected a properly nested template: %v %v", err, panicked)
		return
	}
	prog, merr := env.Compile(nodes)
	if merr != nil {
		panic(merr)
	}
	want := prog.Run()
	got, panicked := pl.run(nil)
	t.State(want.String())
	if squash(got.Out) != want.Out || got.Err != "" || panicked != "" {
		t.Failf("got %v %v, want %v up to white space", got, panicked, want)
	}
}

func squash(s string) string { return strings.Join(strings.Fields(s), "") }
