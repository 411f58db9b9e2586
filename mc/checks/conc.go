package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verifmc/instr"
	"verifmc/kit"
	"verifmc/sched"
)

// concBuild instruments velty's current sources and builds with the race detector. Should the instrumented sources not compile,
// the calls before statements are left out, then the shims too.
func concBuild(dir string) ([]string, error) {
	cwd := filepath.Join(os.Getenv("MC_ROOT"), "mc")
	if os.Getenv("MC_ROOT") == "" {
		cwd = "/verif/mc"
	}
	root, err := instr.Module(cwd)
	if err != nil {
		return nil, err
	}
	base := []string{"-race", "-gcflags=all=-d=checkptr=0"}
	var last error
	for try := 0; try < 2; try++ {
		od := filepath.Join(dir, fmt.Sprintf("overlay%d", try))
		if err = os.MkdirAll(od, 0o755); err != nil {
			return nil, err
		}
		ov, err := instr.Overlay(root, od, try == 0)
		if err != nil {
			last = err
			continue
		}
		args := append(append([]string{}, base...), "-overlay", ov)
		cmd := exec.Command("go", append(append([]string{"build"}, args...), "github.com/viant/velty", "github.com/viant/velty/functions")...)
		cmd.Dir = cwd
		if out, err := cmd.CombinedOutput(); err != nil {
			last = fmt.Errorf("%v: %s", err, out)
			continue
		}
		return args, nil
	}
	fmt.Fprintln(os.Stderr, "note: running without instrumentation:", last)
	return base, nil
}

// budget bounds the deviations from the default schedule.
type budget struct {
	preempt int // switches at any point
	fine    int // of these, before statements that are no synchronisation
	env     int // choices of the environment
	free    int // choices of who goes on when a goroutine ends or blocks, other than the first
}

// concRun is one execution: the goroutines and what to check after them.
type concRun struct {
	fns    []func()
	verify func() string
}

type explorer struct {
	t      *kit.T
	g      *kit.G
	name   string
	make   func() concRun
	max    budget
	bucket int
	of     int
	runs   int
}

var (
	sourceOnce  sync.Once
	sourceFiles []string
)

func where(id int32) string {
	sourceOnce.Do(func() {
		root, err := instr.Module(filepath.Join(os.Getenv("MC_ROOT"), "mc"))
		if err == nil {
			sourceFiles, _ = instr.Files(root)
		}
	})
	return instr.Where(sourceFiles, id)
}

func (e *explorer) describe(dev []sched.Deviation, path []sched.Decision) string {
	var parts []string
	for _, d := range dev {
		x := path[d.At]
		switch x.Kind {
		case sched.Finish:
			parts = append(parts, fmt.Sprintf("#%d next=%d", d.At, d.Choice))
		case sched.Env:
			parts = append(parts, fmt.Sprintf("#%d pool=%d", d.At, d.Choice))
		default:
			parts = append(parts, fmt.Sprintf("#%d goroutine %d preempted at %s", d.At, x.Thread, where(x.Point)))
		}
	}
	return "[" + strings.Join(parts, "; ") + "]"
}

// explore runs the schedule of the deviations and every schedule that deviates further; it reports whether to go on.
func (e *explorer) explore(dev []sched.Deviation, left budget) bool {
	id := fmt.Sprintf("%s %v", e.name, dev)
	e.t.Start(id)
	run := e.make()
	res := sched.Run(run.fns, dev, left.fine > 0 || e.max.fine > 0)
	e.runs++
	e.t.Exec(1)
	e.t.Step(int(res.Steps))
	if e.bucket != 0 && len(dev) == 0 {
		// counted by the first bucket
	} else {
		e.t.Nontrivial()
	}
	fail := ""
	for i, f := range res.Failed {
		if f != "" {
			fail = fmt.Sprintf("goroutine %d: panic: %s", i, f)
		}
	}
	if fail == "" && res.Races > 0 {
		fail = fmt.Sprintf("%d data races reported by the race detector", res.Races)
	}
	if fail == "" {
		fail = run.verify()
	}
	if fail != "" {
		e.t.Failf("schedule %s: %s", e.describe(dev, res.Decisions), fail)
		return false
	}
	if res.Overflow {
		e.t.Truncated("more decisions than the scheduler records")
	}
	from := 0
	if len(dev) > 0 {
		from = int(dev[len(dev)-1].At) + 1
	}
	if left.preempt == 0 && left.env == 0 && left.free == 0 || len(dev) >= 60 {
		return true
	}
	path := append([]sched.Decision(nil), res.Decisions[from:]...)
	for i, d := range path {
		at := from + i
		if len(dev) == 0 && at%e.of != e.bucket {
			continue
		}
		l := left
		switch d.Kind {
		case sched.Finish:
			l.free--
		case sched.Env:
			l.env--
		case sched.Sync:
			l.preempt--
		case sched.Fine:
			l.preempt--
			l.fine--
		}
		if l.free < 0 || l.env < 0 || l.preempt < 0 || l.fine < 0 {
			continue
		}
		for c := 1; c < int(d.Options); c++ {
			if e.g.Stopped() {
				return false
			}
			if !e.explore(append(append([]sched.Deviation{}, dev...), sched.Deviation{At: int32(at), Choice: uint8(c)}), l) {
				return false
			}
		}
	}
	return true
}

// concExplore enumerates the schedules of a scenario, spread over cases.
func concExplore(g *kit.G, name string, max budget, buckets int, make func() concRun) {
	for b := 0; b < buckets; b++ {
		if g.Stopped() {
			return
		}
		b := b
		g.Do(func(t *kit.T) {
			e := &explorer{t: t, g: g, name: name, make: make, max: max, bucket: b, of: buckets}
			e.explore(nil, max)
			t.State(name)
		})
	}
}
