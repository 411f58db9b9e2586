package checks

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"verifmc/kit"
	"verifmc/ref"
)

type c19Everything struct{}

func (c19Everything) Error() string        { return "everything" }
func (c19Everything) Is(target error) bool { return true }

type c19Empty struct{ n int }

func (*c19Empty) Error() string { return "" }

type c19Pair struct{ a, b error }

func (p *c19Pair) Error() string   { return p.a.Error() + "; " + p.b.Error() }
func (p *c19Pair) Unwrap() []error { return []error{p.a, p.b} }

type c19Named string

func (c c19Named) Error() string { return string(c) }

// c19MakeKinds makes errors of every kind anew; instances are told apart by the check.
func c19MakeKinds() []error {
	shared := errors.New("same text")
	return []error{
		nil, errors.New("plain"), errors.New("same text"), shared, fmt.Errorf("wrapped %w", shared), &c19Empty{1}, errors.New(""), c19Named("named"), c19Named(""), io.EOF, fmt.Errorf("wrapped %w", io.EOF),
		&c19Pair{shared, io.EOF}, &c19Everything{}, errors.New("100%d %w %!s(MISSING)"), errors.New("two\nlines\x00<&>"), errors.New(strings.Repeat("long ", 2000)), errors.New("error occured while processing template: plain"), fmt.Errorf("error occured while processing template: %w", shared), error((*c19Empty)(nil)),
	}
}

// wraps reports whether err is first or unwraps to it one error at a time.
func wraps(err, first error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if err == first {
			return true
		}
	}
	return false
}

// c19Kinds: calls in a row failing with errors of every kind.
func c19Kinds(g *kit.G) {
	n := len(c19MakeKinds())
	for _, src := range []string{`<$f(0)|$f(1)|$f(2)>`, `<#foreach($i in $three)$f($i)|#end>`, `<#set($a = $f(0))#if($g(1) == "z")z#end$f(2)>`, `<#evaluate("$f(0);$f(1)")$g(2)>`} {
		for _, stop := range []bool{false, true} {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if g.Stopped() {
						return
					}
					for c := 0; c < n; c++ {
						src, stop, pick := src, stop, [3]int{a, b, c}
						if !g.Thorough() && a > 0 && b > 0 && c > 3 {
							continue
						}
						g.Do(func(t *kit.T) { c19Kind(t, src, stop, pick) })
					}
				}
			}
		}
	}
}

func c19Kind(t *kit.T, src string, stop bool, pick [3]int) {
	t.Start(fmt.Sprintf("stop at errors %v, kinds %v: %v", stop, pick, src))
	kinds := c19MakeKinds()
	var raised []error
	fail := func(i int) (string, error) {
		err := kinds[pick[i]]
		if err != nil {
			raised = append(raised, err)
		}
		return "s", err
	}
	env := &ref.Env{PanicOnError: stop, Funcs: map[string]interface{}{"f": fail, "g": fail}, Vars: []ref.Var{{Name: "three", Val: []int{0, 1, 2}}}}
	pl, err, panicked := compileReal(env, src)
	if err != nil || panicked != "" {
		t.Failf("compile: %v %v", err, panicked)
		return
	}
	for round := 0; round < 2; round++ {
		raised = nil
		st := pl.ns()
		if panicked = kit.Guard(func() {
			if err = setValues(env, st, nil); err == nil {
				err = pl.exec.Exec(st)
			}
		}); panicked != "" {
			t.Failf("%v", panicked)
			return
		}
		t.Exec(1)
		t.State(src, fmt.Sprint(len(raised)), fmt.Sprint(err != nil))
		expected := 0
		for _, p := range pick {
			if p > 0 && (expected == 0 || !stop) {
				expected++
			}
		}
		switch {
		case len(raised) != expected:
			t.Failf("%d errors were raised, want %d", len(raised), expected)
		case expected == 0 && err != nil:
			t.Failf("error %v, want none", err)
		case expected > 0 && err == nil:
			t.Failf("no error, want %v", raised[0])
		case expected > 0 && !wraps(err, raised[0]):
			t.Failf("got error %.200q, want one that wraps %.200q (%T)", err, raised[0], raised[0])
		}
		if !stop && !t.Failed() && !listed(st.Errors, raised) {
			t.Failf("errors %.300q on the state, %.300q raised", st.Errors, raised)
		}
		if t.Failed() {
			return
		}
		if expected > 0 {
			t.Nontrivial()
		}
	}
}

// listed reports whether errs are the errors raised, in order.
func listed(errs, raised []error) bool {
	for i, err := range raised {
		if i >= len(errs) || !wraps(errs[i], err) {
			return false
		}
	}
	return len(errs) == len(raised)
}
