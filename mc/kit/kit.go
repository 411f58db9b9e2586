// Package kit is the exhaustive-enumeration driver shared by every check.
//
// A check is a list of parts. A part enumerates a finite, bounded space of cases deterministically (no randomness);
// each worker process walks the whole enumeration and executes the cases whose index belongs to it. A supervisor
// merges the workers' counts, attributes crashes and hangs to the case that was running, re-runs every reported
// violation in a fresh process, and writes the replay artefact and the evidence file.
package kit

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// Tier is quick or thorough.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Check decides one property.
type Check struct {
	Property    string
	Level       string
	Rule        string
	Bounds      func(Tier) string
	Assumptions []string
	Parts       []Part
	// Extra runs in the supervisor after the parts (free-running race pass etc).
	Extra func(x *Extra)
	// Overlay, when set, makes the workers run from a binary built with the given build arguments.
	Build func(dir string) (buildArgs []string, err error)
}

// Part is one enumerated space.
type Part struct {
	Name string
	// Gen walks the space; it must be deterministic.
	Gen func(g *G)
	// Single runs the part in a single worker.
	Single bool
	// Tiers restricts the part to thorough runs.
	ThoroughOnly bool
	// Weight is the number of seconds after which a single case counts as hung (default 20).
	HangAfter int
}

// G is handed to a generator.
type G struct {
	Tier    Tier
	N, W    int
	From    int64 // first index to execute
	Only    int64 // >=0: execute only this index
	Until   int64 // >=0: stop after this index
	idx     int64
	skip    map[int64]bool
	w       *worker
	stopped bool
}

// Thorough reports the tier.
func (g *G) Thorough() bool { return g.Tier == Thorough }

// Pick returns q in the quick and t in the thorough tier.
func (g *G) Pick(q, t int) int {
	if g.Tier == Thorough {
		return t
	}
	return q
}

// Do registers the next case of the enumeration.
func (g *G) Do(f func(t *T)) {
	i := g.idx
	g.idx++
	if g.stopped {
		return
	}
	if g.Only >= 0 {
		if i != g.Only {
			return
		}
	} else {
		if g.Until >= 0 && i > g.Until {
			g.stopped = true
			return
		}
		if i < g.From || int(i%int64(g.N)) != g.W || g.skip[i] {
			return
		}
	}
	g.w.run(i, f)
	if g.Only >= 0 {
		g.stopped = true
	}
}

// Stopped lets generators leave early.
func (g *G) Stopped() bool { return g.stopped }

// Index returns the number of cases enumerated so far.
func (g *G) Index() int64 { return g.idx }

// T is one running case.
type T struct {
	w      *worker
	idx    int64
	id     string
	failed bool
}

// Start names the case; it must be called before the code under test runs.
func (t *T) Start(id string) {
	t.id = id
	t.w.shared.setID(id)
}

// ID returns the case name.
func (t *T) ID() string { return t.id }

// Failf reports a violation of the property by this case.
func (t *T) Failf(format string, args ...interface{}) {
	if t.failed {
		return
	}
	t.failed = true
	t.w.fail(t.idx, t.id, fmt.Sprintf(format, args...))
}

// Failed reports whether the case failed already.
func (t *T) Failed() bool { return t.failed }

// Step counts model transitions.
func (t *T) Step(n int) { t.w.transitions += int64(n) }

// Exec counts executions of the implementation compared with the model.
func (t *T) Exec(n int) { t.w.execs += int64(n) }

// State records a reached model state (or observed outcome); distinct ones are counted.
func (t *T) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	t.w.state(h.Sum64())
}

// Nontrivial marks the case as exercising the property non-trivially (see the check's rule).
func (t *T) Nontrivial() { t.w.nontrivial++ }

// Rejected counts a template that is to be rejected at compile time.
func (t *T) Rejected() { t.w.rejected++ }

// Truncated marks the run as not exhaustive.
func (t *T) Truncated(why string) { t.w.truncated = why }

// Guard runs f and converts a panic into a string.
func Guard(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v", r)
			if os.Getenv("MC_STACK") != "" {
				panicked += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

type worker struct {
	part        string
	shared      *shared
	out         *os.File
	execs       int64
	cases       int64
	transitions int64
	nontrivial  int64
	rejected    int64
	failures    int64
	truncated   string
	states      map[uint64]struct{}
	statesFull  bool
	deadline    time.Time
	g           *G
	samples     []string
	more        int64
}

const maxStates = 4_000_000

func (w *worker) state(h uint64) {
	if len(w.states) >= maxStates {
		w.statesFull = true
		return
	}
	w.states[h] = struct{}{}
}

func (w *worker) run(i int64, f func(t *T)) {
	w.shared.setIndex(i)
	w.cases++
	t := &T{w: w, idx: i}
	if p := Guard(func() { f(t) }); p != "" {
		t.failed = false
		t.Failf("unexpected %s", p)
	}
	if t.id != "" && (w.cases&(w.cases-1)) == 0 && len(w.samples) < 24 {
		w.samples = append(w.samples, t.id)
	}
	if w.cases%16 == 0 && w.g.Only < 0 && w.g.Until < 0 && rssBytes(os.Getpid()) > 3<<29 { // types made by reflection are never freed: carry on in a new process
		w.more = i + 1
		w.g.stopped = true
	}
	if w.cases%64 == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
		w.truncated = "internal deadline reached"
		w.g.stopped = true
	}
}

func (w *worker) fail(i int64, id, msg string) {
	w.failures++
	writeJSON(w.out, record{Kind: "fail", Part: w.part, Index: i, ID: id, Msg: clip(msg, 4000)})
	if w.failures >= 200 || os.Getenv("MC_FIRST") != "" {
		w.truncated = "too many failures"
		w.g.stopped = true
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Q quotes a string compactly for identifiers.
func Q(s string) string {
	return strings.ReplaceAll(fmt.Sprintf("%q", s), `\"`, `"`)
}
