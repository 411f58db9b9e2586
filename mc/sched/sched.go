// Package sched runs goroutines under a controlled scheduler: one at a time, switching only where the explorer decides.
//
// The instrumented code calls Point before every statement and uses the Mutex, RWMutex, Once and Pool of this package. The
// hand-over between goroutines is invisible to the race detector, so that every explored schedule is also checked for data races:
// two accesses race when nothing but the scheduler orders them.
package sched

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"unsafe"
)

// kinds of decisions
const (
	Fine   = iota // before any statement
	Sync          // before an operation of a lock, a pool or an atomic
	Finish        // a goroutine ended or blocked: somebody else has to go on
	Env           // a choice of the environment (which item a pool returns)
)

// Decision is a point of a run where something could go on differently.
type Decision struct {
	Kind    uint8
	Options uint8 // number of possible choices
	Chosen  uint8
	Thread  uint8
	Point   int32
}

// Deviation makes the decision number At choose Choice instead of 0.
type Deviation struct {
	At     int32
	Choice uint8
}

const (
	maxThreads   = 4
	maxDecisions = 1 << 20
)

type thread struct {
	wake    chan struct{}
	live    bool
	waiting bool // blocked until something is released
	fn      func()
	failed  string
}

var (
	active    bool
	current   int
	threads   [maxThreads]thread
	count     int
	decisions [maxDecisions]Decision
	taken     int
	forced    [64]Deviation
	forcedLen int
	forcedPos int
	fine      bool
	steps     int64
	finished  chan struct{}
	overflow  bool
)

// Result of a run.
type Result struct {
	Decisions []Decision // valid until the next run
	Failed    []string   // per goroutine: how it panicked
	Races     int
	Steps     int64
	Overflow  bool
}

// Run executes the functions as goroutines, with the deviations from the default schedule (each goroutine to its end, in order);
// fine makes every statement a decision, otherwise only the synchronisation operations are.
func Run(fns []func(), dev []Deviation, withFine bool) Result {
	races := Races()
	prepare(fns, dev, withFine)
	for i := range fns {
		go enter(i)
	}
	begin()
	for range fns {
		<-finished
	}
	stop()
	res := Result{Decisions: decisions[:taken], Races: Races() - races, Steps: steps, Overflow: overflow}
	for i := range fns {
		res.Failed = append(res.Failed, threads[i].failed)
	}
	return res
}

//go:norace
func prepare(fns []func(), dev []Deviation, withFine bool) {
	count, current, taken, forcedPos, steps = len(fns), 0, 0, 0, 0
	fine, overflow = withFine, false
	forcedLen = copy(forced[:], dev)
	finished = make(chan struct{}, len(fns))
	for i, fn := range fns {
		threads[i] = thread{wake: make(chan struct{}, 1), live: true, fn: fn}
	}
	active = true
}

//go:norace
func begin() {
	// which goroutine starts is a decision too
	first := decide(Finish, count, -1)
	current = first
	wake(first)
}

//go:norace
func stop() { active = false }

//go:norace
func wake(i int) {
	raceOff()
	threads[i].wake <- struct{}{}
	raceOn()
}

//go:norace
func sleep(i int) {
	raceOff()
	<-threads[i].wake
	raceOn()
}

func enter(i int) {
	sleep(i)
	guarded(i)
	leave(i)
}

func guarded(i int) {
	defer func() {
		if r := recover(); r != nil {
			setFailed(i, fmt.Sprint(r)+where())
		}
	}()
	body(i)()
}

func where() string {
	if os.Getenv("MC_STACK") == "" {
		return ""
	}
	return "\n" + string(debug.Stack())
}

//go:norace
func body(i int) func() { return threads[i].fn }

//go:norace
func setFailed(i int, s string) { threads[i].failed = s }

//go:norace
func leave(i int) {
	threads[i].live = false
	next, ok := pick()
	done := finished
	if ok {
		current = next
		wake(next)
	} else if anyLive() {
		deadlock()
	}
	done <- struct{}{} // the only synchronisation with the goroutine that started the run
}

//go:norace
func anyLive() bool {
	for i := 0; i < count; i++ {
		if threads[i].live {
			return true
		}
	}
	return false
}

// pick chooses among the goroutines that can go on.
//
//go:norace
func pick() (int, bool) {
	var can [maxThreads]int
	n := 0
	for i := 0; i < count; i++ {
		if threads[i].live && !threads[i].waiting {
			can[n] = i
			n++
		}
	}
	if n == 0 {
		return 0, false
	}
	c := 0
	if n > 1 {
		c = decide(Finish, n, -1)
	}
	return can[c], true
}

func deadlock() {
	fmt.Fprintln(os.Stderr, "DEADLOCK: every goroutine waits for a lock")
	os.Exit(7)
}

//go:norace
func decide(kind uint8, options int, point int32) int {
	c := 0
	if forcedPos < forcedLen && forced[forcedPos].At == int32(taken) {
		c = int(forced[forcedPos].Choice)
		forcedPos++
		if c >= options {
			c = options - 1
		}
	}
	if taken < maxDecisions-1 {
		decisions[taken] = Decision{Kind: kind, Options: uint8(options), Chosen: uint8(c), Thread: uint8(current), Point: point}
		taken++
	} else {
		overflow = true
	}
	return c
}

// Point is called before every statement of the instrumented code.
//
//go:norace
func Point(id int32) {
	if !active {
		return
	}
	steps++
	if !fine {
		return
	}
	preempt(Fine, id)
}

// SyncPoint is called before synchronisation operations.
//
//go:norace
func SyncPoint(id int32) {
	if !active {
		return
	}
	steps++
	preempt(Sync, id)
}

//go:norace
func preempt(kind uint8, id int32) {
	n := 1
	for i := 0; i < count; i++ {
		if i != current && threads[i].live && !threads[i].waiting {
			n++
		}
	}
	if n == 1 {
		return
	}
	c := decide(kind, n, id)
	if c == 0 {
		return
	}
	for i := 0; i < count; i++ {
		if i != current && threads[i].live && !threads[i].waiting {
			if c--; c == 0 {
				switchTo(i)
				return
			}
		}
	}
}

//go:norace
func switchTo(i int) {
	me := current
	current = i
	wake(i)
	sleep(me)
}

// wait blocks the goroutine until something is released.
//
//go:norace
func wait() {
	threads[current].waiting = true
	next, ok := pick()
	if !ok {
		deadlock()
	}
	me := current
	if next != me {
		current = next
		wake(next)
		sleep(me)
	}
}

//go:norace
func released() {
	for i := 0; i < count; i++ {
		threads[i].waiting = false
	}
}

//go:norace
func running() bool { return active }

// Mutex is sync.Mutex under the scheduler.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !running() {
		m.mu.Lock()
		return
	}
	SyncPoint(-1)
	for !m.mu.TryLock() {
		wait()
	}
}

func (m *Mutex) TryLock() bool {
	SyncPoint(-1)
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if running() {
		released()
		SyncPoint(-2)
	}
}

// RWMutex is sync.RWMutex under the scheduler.
type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if !running() {
		m.mu.Lock()
		return
	}
	SyncPoint(-1)
	for !m.mu.TryLock() {
		wait()
	}
}

func (m *RWMutex) RLock() {
	if !running() {
		m.mu.RLock()
		return
	}
	SyncPoint(-1)
	for !m.mu.TryRLock() {
		wait()
	}
}

func (m *RWMutex) TryLock() bool {
	SyncPoint(-1)
	return m.mu.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	SyncPoint(-1)
	return m.mu.TryRLock()
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if running() {
		released()
		SyncPoint(-2)
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if running() {
		released()
		SyncPoint(-2)
	}
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once under the scheduler.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool is sync.Pool under the scheduler: what it returns, one of its items or a new one, is a decision; the default is the item
// put last.
type Pool struct {
	New   func() interface{}
	items poolItems
	more  []*poolItem // of long sequential histories
}

type poolItems struct {
	n  int
	at [64]*poolItem
}

type poolItem struct {
	v   interface{}
	tag byte
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	SyncPoint(-3)
	it := &poolItem{v: v}
	raceRelease(unsafe.Pointer(&it.tag))
	p.push(it)
}

//go:norace
func (p *Pool) push(it *poolItem) {
	if p.items.n < len(p.items.at) {
		p.items.at[p.items.n] = it
		p.items.n++
	} else if !active {
		p.more = append(p.more, it)
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	n := p.items.n
	if n == 0 {
		return nil
	}
	c := 0
	if last := len(p.more) - 1; last >= 0 && !active {
		it := p.more[last]
		p.more = p.more[:last]
		return it
	}
	if active {
		options := n + 1
		if options > 3 {
			options = 3
		}
		c = decide(Env, options, -4) // 0: the last one, 1: a new one, 2: the first one
	}
	if c == 1 {
		return nil
	}
	i := n - 1
	if c == 2 {
		i = 0
	}
	it := p.items.at[i]
	for ; i < n-1; i++ {
		p.items.at[i] = p.items.at[i+1]
	}
	p.items.n--
	p.items.at[p.items.n] = nil
	return it
}

func (p *Pool) Get() interface{} {
	SyncPoint(-3)
	if it := p.pop(); it != nil {
		raceAcquire(unsafe.Pointer(&it.tag))
		return it.value()
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (it *poolItem) value() interface{} { return it.v }
