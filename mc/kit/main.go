package kit

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Main dispatches the command line: check PROPERTY | worker ... | list
func Main(checks []*Check) {
	byID := map[string]*Check{}
	for _, c := range checks {
		byID[c.Property] = c
	}
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|list")
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		for _, c := range checks {
			fmt.Println(c.Property)
		}
	case "check":
		c := byID[args[1]]
		if c == nil {
			fmt.Fprintln(os.Stderr, "no such check", args[1])
			os.Exit(2)
		}
		os.Exit(supervise(c))
	case "worker":
		c := byID[args[1]]
		workerMain(c, args[2:])
	case "replay":
		// replay FILE: run the recorded case again
		os.Exit(replay(byID, args[1]))
	default:
		os.Exit(2)
	}
}

func tierFromEnv() Tier {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return Thorough
	}
	return Quick
}

// workerMain: PART N W FROM ONLY SHARED STATES DEADLINE
func workerMain(c *Check, a []string) {
	if d := os.Getenv("MC_PROF"); d != "" { // development only
		if f, err := os.CreateTemp(d, "cpu"); err == nil {
			_ = pprof.StartCPUProfile(f)
		}
	}
	debug.SetMaxStack(128 << 20)
	partName := a[0]
	n, _ := strconv.Atoi(a[1])
	wi, _ := strconv.Atoi(a[2])
	from, _ := strconv.ParseInt(a[3], 10, 64)
	only, _ := strconv.ParseInt(a[4], 10, 64)
	sh, err := openShared(a[5], false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	statesFile := a[6]
	deadline, _ := strconv.ParseInt(a[7], 10, 64)
	skip := map[int64]bool{}
	for _, s := range strings.Split(os.Getenv("MC_SKIP"), ",") {
		if v, e := strconv.ParseInt(s, 10, 64); e == nil {
			skip[v] = true
		}
	}
	out := os.NewFile(3, "results")
	if out == nil {
		out = os.Stdout
	}
	var part *Part
	for i := range c.Parts {
		if c.Parts[i].Name == partName {
			part = &c.Parts[i]
		}
	}
	w := &worker{part: partName, shared: sh, out: out, states: map[uint64]struct{}{}}
	if deadline > 0 {
		w.deadline = time.Unix(deadline, 0)
	}
	until := int64(-1)
	if v, e := strconv.ParseInt(os.Getenv("MC_UNTIL"), 10, 64); e == nil {
		until = v
	}
	g := &G{Tier: tierFromEnv(), N: n, W: wi, From: from, Only: only, Until: until, skip: skip, w: w}
	w.g = g
	part.Gen(g)
	if statesFile != "-" {
		f, err := os.Create(statesFile)
		if err == nil {
			bw := bufio.NewWriter(f)
			var b [8]byte
			for h := range w.states {
				binary.LittleEndian.PutUint64(b[:], h)
				bw.Write(b[:])
			}
			bw.Flush()
			f.Close()
		}
	}
	writeJSON(out, record{Kind: "done", Part: partName, Cases: w.cases, Execs: w.execs, Transitions: w.transitions,
		Nontrivial: w.nontrivial, Rejected: w.rejected, Truncated: w.truncated, StatesFull: w.statesFull, Samples: w.samples, Total: g.idx, More: w.more})
	pprof.StopCPUProfile()
	os.Exit(0)
}

// Failure is a reported violation.
type Failure struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Index    int64  `json:"index"`
	Tier     string `json:"tier"`
	ID       string `json:"case"`
	Msg      string `json:"message"`
	N        int    `json:"workers"`
	W        int    `json:"worker"`
	History  bool   `json:"needs_history,omitempty"`
	Memory   bool   `json:"memory_corruption,omitempty"`
}

// Extra is handed to Check.Extra.
type Extra struct {
	Tier     Tier
	Dir      string // scratch directory
	Root     string // /verif
	Deadline time.Time
	mu       sync.Mutex
	fails    []Failure
	Counts   map[string]interface{}
	Execs    int64
	Truncate string
}

// Fail reports a violation found outside the workers.
func (x *Extra) Fail(id, msg string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.fails = append(x.fails, Failure{Part: "extra", ID: id, Msg: msg, Index: -1})
}

type finding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Kind     string `json:"kind"`
}

func loadFindings(root, property string) []finding {
	data, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var res []finding
	for _, line := range bytes.Split(data, []byte("\n")) {
		line = bytes.TrimSpace(line)
		if len(line) == 0 || line[0] != '{' {
			continue
		}
		var f finding
		if json.Unmarshal(line, &f) == nil && f.Property == property && f.Case != "" {
			res = append(res, f)
		}
	}
	return res
}

type super struct {
	c         *Check
	tier      Tier
	dir       string
	root      string
	exe       string
	deadline  time.Time
	workers   int
	mu        sync.Mutex
	fails     []Failure
	cases     int64
	execs     int64
	trans     int64
	nontriv   int64
	rejected  int64
	truncated []string
	states    map[uint64]struct{}
	stFull    bool
	samples   []string
	perPart   map[string]map[string]interface{}
	unattrib  int64
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil && v > 0 {
		return v
	}
	return def
}

func supervise(c *Check) int {
	start := time.Now()
	tier := tierFromEnv()
	root := os.Getenv("MC_ROOT")
	if root == "" {
		root = "/verif"
	}
	dir, err := os.MkdirTemp("", "mc-"+c.Property+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	limit := 600
	if tier == Thorough {
		limit = 3 * 3600
	}
	limit = envInt("MC_LIMIT_S", limit)
	exe, _ := os.Executable()
	s := &super{c: c, tier: tier, dir: dir, root: root, exe: exe, deadline: start.Add(time.Duration(limit) * time.Second),
		workers: envInt("MC_WORKERS", 8), states: map[uint64]struct{}{}, perPart: map[string]map[string]interface{}{}}
	if err := s.build(); err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	onlyPart := os.Getenv("MC_PART")
	for i := range c.Parts {
		p := &c.Parts[i]
		if p.ThoroughOnly && tier != Thorough {
			continue
		}
		if onlyPart != "" && onlyPart != p.Name {
			continue
		}
		s.runPart(p)
	}
	extraCounts := map[string]interface{}{}
	if c.Extra != nil && onlyPart == "" {
		x := &Extra{Tier: tier, Dir: dir, Root: root, Deadline: s.deadline, Counts: extraCounts}
		c.Extra(x)
		for _, f := range x.fails {
			f.Property = c.Property
			f.Tier = tier.String()
			s.fails = append(s.fails, f)
		}
		s.execs += x.Execs
		if x.Truncate != "" {
			s.truncated = append(s.truncated, x.Truncate)
		}
	}
	known := loadFindings(root, c.Property)
	var unknown []Failure
	hit := map[string]bool{}
	for _, f := range s.fails {
		listed := false
		for _, k := range known {
			if k.Case == f.ID {
				listed = true
				if !hit[k.Case] {
					hit[k.Case] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, oneLine(k.What+" ["+k.Case+"]"))
				}
			}
		}
		if !listed {
			unknown = append(unknown, f)
		}
	}
	sort.SliceStable(unknown, func(i, j int) bool { return len(unknown[i].ID) < len(unknown[j].ID) })
	confirmed := s.confirm(unknown)
	exhaustive := len(s.truncated) == 0
	cov := map[string]interface{}{
		"states":                        len(s.states),
		"transitions":                   s.trans,
		"traces_validated_against_impl": s.execs,
		"evaluations":                   s.cases,
		"distinct_nontrivial":           s.nontriv,
		"templates_to_be_rejected":      s.rejected,
		"rule":                          c.Rule,
		"samples":                       s.samples,
		"exhaustive":                    exhaustive,
		"parts":                         s.perPart,
	}
	if c.Bounds != nil {
		cov["bounds"] = c.Bounds(tier)
	}
	if len(s.truncated) > 0 {
		cov["truncated"] = s.truncated
	}
	if s.unattrib > 0 {
		cov["unreproduced_worker_exits"] = s.unattrib
	}
	if s.stFull {
		cov["states_note"] = "state count saturated at the memory cap"
	}
	for k, v := range extraCounts {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.Property, "tier": tier.String(), "seed": seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": c.Assumptions, "violations": len(confirmed),
	}
	if os.Getenv("MC_NOEVIDENCE") == "" {
		evDir := filepath.Join(root, "evidence")
		_ = os.MkdirAll(evDir, 0o755)
		data, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evDir, c.Property+".json"), append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: cases=%d executions=%d states=%d transitions=%d nontrivial=%d rejected=%d exhaustive=%v wall=%.1fs\n", c.Property, tier,
		s.cases, s.execs, len(s.states), s.trans, s.nontriv, s.rejected, exhaustive, time.Since(start).Seconds())
	for _, why := range s.truncated {
		fmt.Println("note:", why)
	}
	if len(confirmed) == 0 {
		return 0
	}
	repDir := filepath.Join(root, "replays")
	_ = os.MkdirAll(repDir, 0o755)
	max := envInt("MC_MAXREPORT", 10)
	for i, f := range confirmed {
		if i >= max {
			fmt.Printf("... and %d more\n", len(confirmed)-i)
			break
		}
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d-%d.json", c.Property, f.Part, f.Index, i))
		data, _ := json.MarshalIndent(f, "", " ")
		_ = os.WriteFile(path, append(data, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
		fmt.Printf("  case: %s\n  %s\n", oneLine(clip(f.ID, 1500)), oneLine(clip(f.Msg, 1500)))
	}
	return 1
}

func oneLine(s string) string {
	return strings.NewReplacer("\n", "\\n", "\r", "\\r").Replace(s)
}

// confirm re-runs failures (the first few) in fresh processes five times each; one that does not fail every time is not believed.
func (s *super) confirm(fails []Failure) []Failure {
	max := envInt("MC_MAXREPORT", 10)
	var res []Failure
	checked := 0
	for _, f := range fails {
		if f.Index < 0 || f.Memory {
			res = append(res, f)
			continue
		}
		if len(res) >= max || checked >= 40 {
			res = append(res, f)
			continue
		}
		checked++
		var part *Part
		for i := range s.c.Parts {
			if s.c.Parts[i].Name == f.Part {
				part = &s.c.Parts[i]
			}
		}
		ok := true
		for k := 0; k < 5 && ok; k++ {
			failed, _ := s.single(part, f.Index)
			ok = failed
		}
		if !ok && part != nil {
			// it may need the cases that ran before it in the same process (shared state): run that history again, twice
			f.History = s.prefix(part, f) && s.prefix(part, f)
			ok = f.History
		}
		if ok {
			res = append(res, f)
		} else {
			s.truncated = append(s.truncated, fmt.Sprintf("a failure of case %s did not reproduce in 5 re-runs and is not believed: %s", clip(f.ID, 200), clip(f.Msg, 200)))
		}
	}
	if checked >= 40 && len(res) == 0 {
		return nil
	}
	return res
}

// prefix re-runs the worker's deterministic sequence of cases up to and including the failing one.
func (s *super) prefix(p *Part, f Failure) bool {
	for _, span := range []int64{2000, 1 << 40} {
		from := f.Index - span*int64(f.N)
		if from < 0 {
			from = 0
		}
		shPath := filepath.Join(s.dir, fmt.Sprintf("prefix-%d-%d", f.Index, time.Now().UnixNano()))
		sh, err := openShared(shPath, true)
		if err != nil {
			return false
		}
		_ = os.Setenv("MC_UNTIL", strconv.FormatInt(f.Index, 10))
		res := s.spawn(p, f.N, f.W, from, -1, sh, shPath, "-", nil)
		_ = os.Unsetenv("MC_UNTIL")
		sh.close()
		_ = os.Remove(shPath)
		for _, r := range res.fails {
			if r.Index == f.Index {
				return true
			}
		}
		if f.Memory && corrupted(res.crash) {
			return true
		}
		if from == 0 {
			break
		}
	}
	return false
}

// single runs exactly one case in a fresh worker.
func (s *super) single(p *Part, idx int64) (bool, string) {
	shPath := filepath.Join(s.dir, fmt.Sprintf("single-%d-%d", idx, time.Now().UnixNano()))
	sh, err := openShared(shPath, true)
	if err != nil {
		return false, err.Error()
	}
	defer os.Remove(shPath)
	defer sh.close()
	res := s.spawn(p, 1, 0, 0, idx, sh, shPath, "-", nil)
	if len(res.fails) > 0 {
		return true, res.fails[0].Msg
	}
	if !res.done {
		return true, res.crash
	}
	return false, ""
}

type spawnResult struct {
	fails []Failure
	done  bool
	hung  bool
	crash string
	fin   record
}

func (s *super) spawn(p *Part, n, w int, from, only int64, sh *shared, shPath, statesPath string, skip []int64) spawnResult {
	var res spawnResult
	sh.setIndex(-1)
	dl := s.deadline.Unix()
	if only >= 0 {
		dl = 0
	}
	cmd := exec.Command(s.exe, "worker", s.c.Property, p.Name, strconv.Itoa(n), strconv.Itoa(w), strconv.FormatInt(from, 10),
		strconv.FormatInt(only, 10), shPath, statesPath, strconv.FormatInt(dl, 10))
	skips := make([]string, len(skip))
	for i, v := range skip {
		skips[i] = strconv.FormatInt(v, 10)
	}
	cmd.Env = append(os.Environ(), "MC_SKIP="+strings.Join(skips, ","), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOGC="+gogc(), "VERIF_TIER="+s.tier.String())
	r, wr, err := os.Pipe()
	if err != nil {
		res.crash = err.Error()
		return res
	}
	var stderr capped
	cmd.ExtraFiles = []*os.File{wr}
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		wr.Close()
		r.Close()
		res.crash = err.Error()
		return res
	}
	wr.Close()
	var hung int32
	stop := make(chan struct{})
	hangAfter := time.Duration(20) * time.Second
	if p.HangAfter > 0 {
		hangAfter = time.Duration(p.HangAfter) * time.Second
	}
	if only >= 0 {
		hangAfter *= 3
	}
	watched := make(chan struct{})
	go func() {
		defer close(watched)
		last, since := int64(-2), time.Now()
		tick := time.NewTicker(200 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tick.C:
				i := sh.index()
				if i != last || i < 0 {
					if i != last {
						last, since = i, time.Now()
					}
					if i >= 0 || time.Since(since) < 10*time.Minute {
						// still fine
					}
				}
				over := i >= 0 && time.Since(since) > hangAfter
				big := rssBytes(cmd.Process.Pid) > 4<<30
				if over || big {
					if big && !over {
						atomic.StoreInt32(&hung, 2)
					} else {
						atomic.StoreInt32(&hung, 1)
					}
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var rec record
		if json.Unmarshal(sc.Bytes(), &rec) != nil {
			continue
		}
		switch rec.Kind {
		case "fail":
			res.fails = append(res.fails, Failure{Property: s.c.Property, Part: rec.Part, Index: rec.Index, ID: rec.ID, Msg: rec.Msg, Tier: s.tier.String(), N: n, W: w})
		case "done":
			res.done = true
			res.fin = rec
		}
	}
	r.Close()
	err = cmd.Wait()
	close(stop)
	<-watched
	if !res.done {
		switch atomic.LoadInt32(&hung) {
		case 1:
			res.hung = true
			res.crash = fmt.Sprintf("did not return within %v", hangAfter)
		case 2:
			res.hung = true
			res.crash = "used more than 4 GB of memory"
		default:
			res.crash = fmt.Sprintf("process died: %v: %s", err, firstLines(stderr.String(), 12))
		}
	}
	return res
}

// build makes the binary the workers run from.
func (s *super) build() error {
	if s.c.Build == nil {
		return nil
	}
	args, err := s.c.Build(s.dir)
	if err != nil {
		return err
	}
	s.exe = filepath.Join(s.dir, "mc-instrumented")
	cmd := exec.Command("go", append(append([]string{"build"}, args...), "-o", s.exe, "./cmd/mc")...)
	cmd.Dir = filepath.Join(s.root, "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("instrumented build: %v\n%s", err, clip(string(out), 3000))
	}
	return nil
}

func rssBytes(pid int) int64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * 4096
}

type capped struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.buf.Len() < 1<<16 {
		c.buf.Write(p)
	}
	return len(p), nil
}

func (c *capped) String() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.buf.String()
}

// gogc makes the workers collect often, so that damaged pointers are noticed.
func gogc() string {
	if v := os.Getenv("MC_GOGC"); v != "" {
		return v
	}
	return "30"
}

// corrupted recognises the Go runtime's reports of a damaged heap.
func corrupted(crash string) bool {
	for _, sig := range []string{"marked free object", "unused region of span", "found bad pointer", "bad map state", "unexpected fault address", "SIGSEGV", "SIGBUS", "sweep increased allocation count", "invalid pointer found", "checkptr:", "fatal error: fault", "bad use of unsafe.Pointer", "concurrent map"} {
		if strings.Contains(crash, sig) {
			return true
		}
	}
	return false
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, " | ")
}

func (s *super) runPart(p *Part) {
	t0 := time.Now()
	n := s.workers
	if p.Single {
		n = 1
	}
	var wg sync.WaitGroup
	pp := map[string]interface{}{}
	var cases, execs, trans, total int64
	statesBefore := len(s.states)
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			shPath := filepath.Join(s.dir, fmt.Sprintf("%s-%d.shm", p.Name, w))
			sh, err := openShared(shPath, true)
			if err != nil {
				return
			}
			defer sh.close()
			statesPath := filepath.Join(s.dir, fmt.Sprintf("%s-%d.states", p.Name, w))
			from := int64(0)
			var skip []int64
			crashes := 0
			for {
				res := s.spawn(p, n, w, from, -1, sh, shPath, statesPath, skip)
				s.mu.Lock()
				s.fails = append(s.fails, res.fails...)
				if os.Getenv("MC_FIRST") != "" { // for planted bugs: the first new failure decides
					known := map[string]bool{}
					for _, k := range loadFindings(s.root, s.c.Property) {
						known[k.Case] = true
					}
					for _, f := range s.fails {
						if !known[f.ID] {
							fmt.Printf("FIRST %s %s: %s\n", f.Part, oneLine(f.ID), oneLine(f.Msg))
							os.Exit(1)
						}
					}
				}
				s.mu.Unlock()
				if res.done {
					s.mu.Lock()
					cases += res.fin.Cases
					execs += res.fin.Execs
					trans += res.fin.Transitions
					s.nontriv += res.fin.Nontrivial
					s.rejected += res.fin.Rejected
					if res.fin.Total > total {
						total = res.fin.Total
					}
					if res.fin.Truncated != "" {
						s.truncated = append(s.truncated, fmt.Sprintf("part %s worker %d: %s", p.Name, w, res.fin.Truncated))
					}
					s.stFull = s.stFull || res.fin.StatesFull
					if w == 0 || w == n/2 {
						for i, smp := range res.fin.Samples {
							if i%5 == 2 && len(s.samples) < 40 {
								s.samples = append(s.samples, p.Name+": "+clip(smp, 400))
							}
						}
					}
					s.loadStates(statesPath)
					s.mu.Unlock()
					if res.fin.More > 0 && res.fin.Truncated == "" {
						from = res.fin.More
						continue
					}
					return
				}
				idx, id := sh.index(), sh.id()
				crashes++
				if idx < 0 {
					s.mu.Lock()
					s.truncated = append(s.truncated, fmt.Sprintf("part %s worker %d died outside a case: %s", p.Name, w, clip(res.crash, 300)))
					s.mu.Unlock()
					if crashes > 3 {
						return
					}
					continue
				}
				if failed, msg := s.single(p, idx); failed {
					s.mu.Lock()
					s.fails = append(s.fails, Failure{Property: s.c.Property, Part: p.Name, Index: idx, ID: id, Msg: msg, Tier: s.tier.String()})
					s.mu.Unlock()
				} else if corrupted(res.crash) {
					// the checker has no unsafe code: the runtime can only find its heap damaged when the code under test damaged it
					s.mu.Lock()
					s.fails = append(s.fails, Failure{Property: s.c.Property, Part: p.Name, Index: idx, ID: id, Memory: true, N: n, W: w, Tier: s.tier.String(),
						Msg: "memory corrupted by this case or one before it in the same process: " + res.crash})
					s.mu.Unlock()
				} else {
					atomic.AddInt64(&s.unattrib, 1)
					s.mu.Lock()
					s.truncated = append(s.truncated, fmt.Sprintf("part %s: worker exit during case %s did not reproduce: %s", p.Name, clip(id, 200), clip(res.crash, 300)))
					s.mu.Unlock()
				}
				s.mu.Lock()
				cases += (idx - from) / int64(n)
				s.mu.Unlock()
				from = idx + 1
				if crashes >= 12 {
					s.mu.Lock()
					s.truncated = append(s.truncated, fmt.Sprintf("part %s worker %d: stopped after %d crashes", p.Name, w, crashes))
					s.mu.Unlock()
					return
				}
			}
		}(w)
	}
	wg.Wait()
	s.cases += cases
	s.execs += execs
	s.trans += trans
	pp["cases"] = cases
	pp["enumerated"] = total
	pp["executions"] = execs
	pp["transitions"] = trans
	pp["new_states"] = len(s.states) - statesBefore
	pp["wall_s"] = time.Since(t0).Seconds()
	s.perPart[p.Name] = pp
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Printf("  part %s: %v\n", p.Name, pp)
	}
}

func (s *super) loadStates(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(data); i += 8 {
		if len(s.states) >= 8*maxStates {
			s.stFull = true
			break
		}
		s.states[binary.LittleEndian.Uint64(data[i:])] = struct{}{}
	}
	_ = os.Remove(path)
}

func replay(byID map[string]*Check, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err = json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := byID[f.Property]
	if c == nil || f.Index < 0 {
		fmt.Fprintln(os.Stderr, "not replayable by index:", f.ID)
		return 2
	}
	tier := Quick
	if f.Tier == "thorough" {
		tier = Thorough
	}
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	s := &super{c: c, tier: tier, dir: dir, exe: exe, root: "/verif", deadline: time.Now().Add(time.Hour), states: map[uint64]struct{}{}, perPart: map[string]map[string]interface{}{}}
	if r := os.Getenv("MC_ROOT"); r != "" {
		s.root = r
	}
	if err = s.build(); err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	for i := range c.Parts {
		if c.Parts[i].Name == f.Part {
			failed, msg := false, f.Msg
			if f.Memory {
				_ = os.Setenv("MC_GOGC", "3")
			}
			if f.Memory || f.History {
				for k := 0; k < 3 && !failed; k++ {
					failed = s.prefix(&c.Parts[i], f)
				}
			} else {
				failed, msg = s.single(&c.Parts[i], f.Index)
			}
			fmt.Printf("case: %s\nfailed: %v\n%s\n", f.ID, failed, msg)
			if failed {
				return 1
			}
			return 0
		}
	}
	return 2
}
