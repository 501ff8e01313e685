// Package vs runs instrumented code under a scheduler that decides every
// switch between goroutines. Exactly one task runs at a time; it gives up
// control only at the operations of this package. The decisions of one run are
// given as deviations from a default, so that all runs with a bounded number
// of deviations can be enumerated.
//
// In builds with the race detector the hand-over between tasks is hidden from
// it, and each modelled operation reports the ordering that the real one
// guarantees. Functions that touch the scheduler's own memory are therefore
// marked norace and use neither maps nor append.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

// What a parked task waits for.
const (
	free      = iota // nothing
	wantWrite        // exclusive hold of a Sem
	wantRead         // shared hold of a Sem
	wantZero         // counter of a Sem at zero
	wantFlag         // flag of a Sem set
	wantChan         // some communication
	finished
)

// Sem is the state of a lock, a counter or a flag.
type Sem struct {
	writer  bool
	flag    bool
	readers int32
	pending int32
	count   int32
	rel     [2]byte // addresses for the race detector
}

type task struct {
	id   int
	wake chan struct{}
	gone chan struct{}
	want int
	sem  *Sem
	op   *chanOp
	spin int
}

const (
	maxTasks  = 2048
	maxPoints = 1 << 17
)

// Dev is one deviation: at choice point At take alternative Alt.
type Dev struct{ At, Alt int }

// Order is the order in which a site visits its maps.
type Order struct {
	Site  string
	Order int
}

// Point is one choice point of a run.
type Point struct {
	N    uint16 // alternatives
	Kind uint8  // 's' schedule, 'm' map order, 'f' fault
	Hash uint32 // of everything decided before
}

// Result is what a run did.
type Result struct {
	Points    []Point
	Steps     int
	Tasks     int
	Deadlock  string
	Panic     string
	Truncated bool
	Diverged  bool // a deviation did not apply: the run is not deterministic
	Foreign   bool // the code uses what the scheduler does not know
	Crashed   bool // the run was ended by a crash
	Blocked   int  // background tasks that never finished
	Sites     []string
	Log       []string
}

type controller struct {
	tasks     [maxTasks]*task
	ntasks    int
	enabled   [maxTasks]*task
	cur       *task
	devs      []Dev
	expect    []uint32
	ndev      int
	points    *[maxPoints]Point
	npoints   int
	steps     int
	hash      uint32
	over      bool
	done      chan struct{}
	deadlock  string
	panicked  string
	truncated bool
	diverged  bool
	mains     int // tasks that must finish
	chans     *chanState
	orders    []Order
	sites     *siteState
	log       []string
	faults    bool
	foreign   bool
	crashed   bool
	eager     bool
	first     *task // runs next by default
}

var (
	ctl    *controller
	dying  bool // the tasks left over are being ended
	Leaks  int  // runs that left background tasks waiting for ever
	buffer [maxPoints]Point
	endSem Sem
	realMu sync.Mutex
	cond   = sync.NewCond(&realMu)
)

//go:norace
func (c *controller) mix(v int) {
	c.hash = (c.hash ^ uint32(v)) * 16777619
}

// choose resolves one choice among n alternatives; 0 is the default.
//
//go:norace
func (c *controller) choose(n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	if c.npoints >= maxPoints {
		c.truncated = true
		return 0
	}
	i := c.npoints
	c.points[i].N = uint16(n)
	c.points[i].Kind = kind
	c.points[i].Hash = c.hash
	c.npoints++
	v := 0
	if c.ndev < len(c.devs) && c.devs[c.ndev].At == i {
		if c.expect != nil && c.expect[c.ndev] != c.hash || c.devs[c.ndev].Alt >= n {
			c.diverged = true
		} else {
			v = c.devs[c.ndev].Alt
		}
		c.ndev++
	}
	c.mix(n)
	c.mix(v + 1)
	c.mix(int(kind))
	return v
}

//go:norace
func (t *task) ready() bool {
	switch t.want {
	case free:
		return true
	case wantWrite:
		return !t.sem.writer && t.sem.readers == 0
	case wantRead:
		return !t.sem.writer && t.sem.pending == 0
	case wantZero:
		return t.sem.count <= 0
	case wantFlag:
		return t.sem.flag
	case wantChan:
		return t.op.ready()
	}
	return false
}

// step lets the scheduler decide who runs next. The caller's wish is stored in
// its task; when step returns, the wish can be granted.
//
//go:norace
func (c *controller) step(t *task) {
	c.steps++
	c.mix(t.id)
	c.mix(t.want)
	next := c.pickNext(t)
	if next == t {
		return
	}
	hide()
	if next != nil {
		c.cur = next
		next.wake <- struct{}{}
	}
	if t.want != finished {
		release0(&endSem)
		<-t.wake
	}
	show()
	mortal()
}

// release0 orders what a parked task did before the end of the run.
//
//go:norace
func release0(s *Sem) {
	show()
	release(unsafe.Pointer(&s.rel[0]))
	hide()
}

//go:norace
func (c *controller) pickNext(t *task) *task {
	enabled := &c.enabled
	n := 0
	self := t.ready()
	if self {
		t.spin++
	} else {
		t.spin = 0
	}
	tired := t.spin > 2000
	first := c.first
	c.first = nil
	if first != nil {
		enabled[0] = first
		enabled[1] = t
		n = 2
	} else if self && !tired {
		enabled[0] = t
		n = 1
	}
	// the others, in order of creation, after the caller first
	for i := 1; i <= c.ntasks; i++ {
		o := c.tasks[(t.id+i)%c.ntasks]
		if o == t || o == first || !o.ready() {
			continue
		}
		enabled[n] = o
		n++
	}
	if self && tired && first == nil {
		t.spin = 0
		enabled[n] = t
		n++
	}
	if n == 0 {
		c.finish()
		return nil
	}
	if c.steps > 2_000_000 {
		c.truncated = true
		if c.panicked == "" {
			c.panicked = "no end within two million steps"
		}
		c.finish()
		return nil
	}
	k := 0
	if n > 1 {
		k = c.choose(n, 's')
	}
	return enabled[k]
}

//go:norace
func (c *controller) finish() {
	if c.over {
		return
	}
	c.over = true
	for i := 0; i < c.mains && !c.crashed; i++ {
		if c.tasks[i].want != finished {
			c.deadlock = "deadlock"
		}
	}
	close(c.done)
}

// giveUp ends a run that cannot be controlled.
//
//go:norace
func (c *controller) giveUp() {
	c.foreign = true
	t := c.cur
	hide()
	c.finish()
	<-t.wake
	show()
	mortal()
}

// mortal ends the calling task if it is left over from a run. Its deferred
// calls come here again at their first operation, so that they change nothing.
//
//go:norace
func mortal() {
	if dying {
		runtime.Goexit()
	}
}

// bury ends the tasks that are left over.
//
//go:norace
func (c *controller) bury() {
	dying = true
	hide()
	for i := 0; i < c.ntasks; i++ {
		if t := c.tasks[i]; t.want != finished {
			t.wake <- struct{}{}
			<-t.gone
		}
	}
	show()
	dying = false
}

// Fault picks one of n outcomes of an operation; 0 is success.
//
//go:norace
func Fault(n int) int {
	if here() == nil || !ctl.faults {
		return 0
	}
	return ctl.choose(n, 'f')
}

// Crash ends the run at once, with all its tasks.
//
//go:norace
func Crash() {
	c := ctl
	t := c.cur
	c.crashed = true
	release(unsafe.Pointer(&endSem.rel[0]))
	hide()
	c.finish()
	<-t.wake
	show()
	mortal()
}

// here is the running task, or nil outside a run.
//
//go:norace
func here() *task {
	mortal()
	if ctl == nil {
		return nil
	}
	return ctl.cur
}

//go:norace
func newTask(c *controller) *task {
	if c.ntasks >= maxTasks {
		panic("vs: too many tasks")
	}
	t := &task{id: c.ntasks, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	c.tasks[c.ntasks] = t
	c.ntasks++
	return t
}

// Go starts f as a new task.
//
//go:norace
func Go(f func()) {
	mortal()
	c := ctl
	if c == nil {
		go f()
		return
	}
	t := newTask(c)
	go t.run(c, f)
	if c.eager {
		c.first = t
	}
	Yield()
}

//go:norace
func (t *task) run(c *controller, f func()) {
	hide()
	<-t.wake
	show()
	defer t.end(c)
	mortal()
	f()
}

//go:norace
func (t *task) end(c *controller) {
	p := recover()
	if dying {
		hide()
		close(t.gone)
		show()
		return
	}
	if p != nil {
		t.crash(c, p)
		return
	}
	t.want = finished
	release(unsafe.Pointer(&endSem.rel[0]))
	c.step(t)
}

//go:norace
func (t *task) crash(c *controller, p any) {
	c.panicked = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
	t.want = finished
	release(unsafe.Pointer(&endSem.rel[0]))
	c.finish()
}

// Yield is a point where another task may go on.
//
//go:norace
func Yield() {
	t := here()
	if t == nil {
		return
	}
	t.want = free
	ctl.step(t)
}

// Lock operations.

//go:norace
func (s *Sem) rel0() unsafe.Pointer { return unsafe.Pointer(&s.rel[0]) }

//go:norace
func (s *Sem) rel1() unsafe.Pointer { return unsafe.Pointer(&s.rel[1]) }

//go:norace
func (s *Sem) Lock() {
	t := here()
	if t == nil {
		realMu.Lock()
		for s.writer || s.readers > 0 {
			cond.Wait()
		}
		s.writer = true
		realMu.Unlock()
		return
	}
	// the wish to write is announced when the call starts and holds off new
	// readers from then on
	t.want = free
	ctl.step(t)
	if s.writer || s.readers > 0 {
		s.pending++
		t.want, t.sem = wantWrite, s
		ctl.step(t)
		s.pending--
	}
	t.want, t.sem = free, nil
	s.writer = true
	acquire(s.rel0())
	acquire(s.rel1())
}

//go:norace
func (s *Sem) TryLock() bool {
	Yield()
	if s.writer || s.readers > 0 {
		return false
	}
	s.writer = true
	acquire(s.rel0())
	acquire(s.rel1())
	return true
}

//go:norace
func (s *Sem) Unlock() {
	if here() == nil {
		realMu.Lock()
		defer realMu.Unlock()
		defer cond.Broadcast()
	}
	if !s.writer {
		panic("unlock of unlocked mutex")
	}
	release(s.rel0())
	s.writer = false
}

//go:norace
func (s *Sem) RLock() {
	t := here()
	if t == nil {
		realMu.Lock()
		for s.writer {
			cond.Wait()
		}
		s.readers++
		realMu.Unlock()
		return
	}
	t.want, t.sem = wantRead, s
	ctl.step(t)
	t.want, t.sem = free, nil
	s.readers++
	acquire(s.rel0())
}

//go:norace
func (s *Sem) TryRLock() bool {
	Yield()
	if s.writer || s.pending > 0 {
		return false
	}
	s.readers++
	acquire(s.rel0())
	return true
}

//go:norace
func (s *Sem) RUnlock() {
	if here() == nil {
		realMu.Lock()
		defer realMu.Unlock()
		defer cond.Broadcast()
	}
	if s.readers <= 0 {
		panic("RUnlock of unlocked RWMutex")
	}
	release(s.rel1())
	s.readers--
}

// Add changes the counter.
//
//go:norace
func (s *Sem) Add(n int) {
	if here() == nil {
		realMu.Lock()
		defer realMu.Unlock()
		defer cond.Broadcast()
	}
	if n < 0 {
		release(s.rel0())
	}
	s.count += int32(n)
	if s.count < 0 {
		panic("negative WaitGroup counter")
	}
}

// Zero waits until the counter is zero.
//
//go:norace
func (s *Sem) Zero() {
	t := here()
	if t == nil {
		realMu.Lock()
		for s.count > 0 {
			cond.Wait()
		}
		realMu.Unlock()
		return
	}
	t.want, t.sem = wantZero, s
	ctl.step(t)
	t.want, t.sem = free, nil
	acquire(s.rel0())
}

// Set raises the flag.
//
//go:norace
func (s *Sem) Set() {
	if here() == nil {
		realMu.Lock()
		defer realMu.Unlock()
		defer cond.Broadcast()
	}
	release(s.rel0())
	s.flag = true
}

// Flag waits for the flag.
//
//go:norace
func (s *Sem) Flag() {
	t := here()
	if t == nil {
		realMu.Lock()
		for !s.flag {
			cond.Wait()
		}
		realMu.Unlock()
		return
	}
	t.want, t.sem = wantFlag, s
	ctl.step(t)
	t.want, t.sem = free, nil
	acquire(s.rel0())
}

// IsSet is the flag, with the ordering of an atomic read.
//
//go:norace
func (s *Sem) IsSet() bool {
	if s.flag {
		acquire(s.rel0())
	}
	return s.flag
}

// Order makes the caller see everything done before earlier Order calls.
//
//go:norace
func (s *Sem) Order() {
	acquire(s.rel0())
	release(s.rel0())
}

// Config is one run to perform.
type Config struct {
	Devs   []Dev
	Expect []uint32 // hashes at the deviations, if known
	Orders []Order  // map orders
	Eager  bool     // a new task runs at once by default
	Faults bool     // operations may fail
	Mains  []func() // tasks that start together and must finish
}

// Run performs the tasks under the deviations and returns when nothing can go
// on.
func Run(cfg Config) Result {
	c := &controller{devs: cfg.Devs, expect: cfg.Expect, hash: 2166136261, done: make(chan struct{}), mains: len(cfg.Mains),
		orders: cfg.Orders, eager: cfg.Eager, faults: cfg.Faults, points: &buffer}
	ctl = c
	for _, f := range cfg.Mains {
		t := newTask(c)
		go t.run(c, f)
	}
	c.cur = c.tasks[0]
	c.start()
	<-c.done
	acquire(unsafe.Pointer(&endSem.rel[0]))
	r := Result{Steps: c.steps, Tasks: c.ntasks, Deadlock: c.deadlock, Panic: c.panicked, Truncated: c.truncated,
		Diverged: c.diverged || c.ndev < len(c.devs), Log: c.log, Foreign: c.foreign, Crashed: c.crashed}
	r.Points = make([]Point, c.npoints)
	copyPoints(r.Points, c)
	for st := c.sites; st != nil; st = st.next {
		r.Sites = append(r.Sites, st.name)
	}
	r.Blocked = c.blocked()
	if r.Blocked > 0 && r.Deadlock == "" && r.Panic == "" && !r.Foreign && !r.Crashed {
		Leaks++
	}
	ctl = nil
	c.bury()
	c.restore()
	runtime.KeepAlive(c)
	return r
}

//go:norace
func copyPoints(dst []Point, c *controller) {
	for i := range dst {
		dst[i] = c.points[i]
	}
}

//go:norace
func (c *controller) blocked() int {
	n := 0
	for i := 0; i < c.ntasks; i++ {
		if c.tasks[i].want != finished {
			n++
		}
	}
	return n
}

//go:norace
func (c *controller) start() {
	hide()
	k := 0
	if c.mains > 1 {
		k = c.choose(c.mains, 's')
	}
	c.cur = c.tasks[k]
	c.tasks[k].wake <- struct{}{}
	show()
}
