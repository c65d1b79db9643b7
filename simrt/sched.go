// Package simrt is the deterministic simulator the rewritten library runs under: a seeded scheduler of
// coroutines, a simulated clock, channels, locks, memory-access hooks with a vector-clock race detector,
// and (in package simos) a simulated file system.  All scheduling and fault choices come from one PRNG or,
// in a replay, from a recorded list of choices.
package simrt

import (
	"container/heap"
	"fmt"
	"iter"
	"math"
	"runtime/debug"
	"strings"
)

// S is the simulation in progress (one per OS process at a time).
var S *Sim

type killed struct{}

// Config holds the per-run scheduling parameters (all derived from the seed by the harness).
type Config struct {
	SchedSeed      uint64
	Preempt        float64 // probability of a preemption at a point (random walk)
	PCTDepth       int     // >0: priority scheduling with this many change points instead
	PCTSteps       int     // estimated number of points, for placing change points
	ClientStall    float64 // probability that a point in a client task stalls it for a while
	ClientStallMax int64
	MaxSteps       uint64
	NumCPU         int
	MapShuffle     bool
	NoRace         bool
	Replay         map[uint64]int // nil: random mode
	Verbose        func(string)
}

type Decision struct {
	I uint64 `json:"i"`
	V int    `json:"v"`
}

type Problem struct {
	Class string // "panic", "race", "deadlock", "livelock", "fatal"
	Msg   string
	Stack string
}

type Proc struct {
	ID      int
	Name    string
	Dead    bool
	Exited  bool // ended by os.Exit / log.Fatal / panic in itself
	ExitMsg string
	tasks   map[*Task]bool
	s       *Sim
	OnDeath func()
}

type Task struct {
	Root   *Task // the harness task that started it, directly or not
	ID     int
	Name   string
	Proc   *Proc
	Client bool
	Daemon bool
	slot   int
	vc     VC
	co     *coro
	fn     func()
	done   bool
	killed bool
	wait   string // non-empty: blocked
	prio   uint64
	stalls int
	endVC  VC
	seqNo  uint64
}

func (t *Task) Done() bool      { return t.done }
func (t *Task) Waiting() string { return t.wait }

type Timer struct {
	at   int64
	seq  uint64
	fire func()
	idx  int
	dead bool
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

type Sim struct {
	Cfg     Config
	rng     *Rng // scheduling choices
	now     int64
	seq     uint64
	timers  timerHeap
	runq    []*Task
	cur     *Task
	tasks   int
	live    map[*Task]bool
	procs   int
	conds   []*cond
	stopped bool

	dec       uint64
	Trace     []Decision
	untilPre  int
	chgPoints map[uint64]bool
	lowPrio   uint64
	prioSeq   uint64

	steps    uint64
	Switches uint64
	Preempts uint64
	Hash     uint64 // event log hash
	ILHash   uint64 // hash of the order of context switches
	Problems []Problem
	Stats    map[string]int64
	raceSeen map[string]bool

	chans     map[ptr]*hchan
	shadow    map[ptr]*cell
	mshadow   map[ptr]*cell
	avc       map[ptr]*VC // release clocks of atomics
	slots     []uint32    // clock of every vector-clock slot
	freeSlots []int
	RT        map[string]any // package state of the replacement packages (simos, rand, ...)
	nextTask  *Task
	lastStack string
}

const startTime = int64(1700000000) * int64(1e9)

func New(cfg Config) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 4
	}
	s := &Sim{Cfg: cfg, rng: NewRng(cfg.SchedSeed), now: startTime,
		live: map[*Task]bool{}, Stats: map[string]int64{}, raceSeen: map[string]bool{},
		chans: map[ptr]*hchan{}, shadow: map[ptr]*cell{}, mshadow: map[ptr]*cell{}, avc: map[ptr]*VC{},
		RT: map[string]any{}, Hash: 14695981039346656037, ILHash: 14695981039346656037}
	s.drawPreempt()
	if cfg.PCTDepth > 0 {
		s.chgPoints = map[uint64]bool{}
		n := cfg.PCTSteps
		if n < 10 {
			n = 10
		}
		for i := 0; i < cfg.PCTDepth; i++ {
			s.chgPoints[uint64(s.rng.Intn(n))] = true
		}
		s.lowPrio = 1 << 20
	}
	S = s
	return s
}

func (s *Sim) Now() int64     { return s.now }
func (s *Sim) Elapsed() int64 { return s.now - startTime }
func (s *Sim) Steps() uint64  { return s.steps }

func (s *Sim) mix(h *uint64, v uint64) {
	for i := 0; i < 8; i++ {
		*h ^= v & 0xff
		*h *= 1099511628211
		v >>= 8
	}
}
func hashString(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h ^= uint64(x[i])
		h *= 1099511628211
	}
	return h
}

// Event adds one line to the event log (hash, and text if verbose).
func (s *Sim) Event(kind string, a ...any) {
	msg := kind
	for _, x := range a {
		msg += " " + fmt.Sprint(x)
	}
	s.mix(&s.Hash, hashString(msg))
	s.mix(&s.Hash, uint64(s.now))
	if s.Cfg.Verbose != nil {
		n := "-"
		if s.cur != nil {
			n = fmt.Sprintf("%s#%d", s.cur.Name, s.cur.ID)
		}
		s.Cfg.Verbose(fmt.Sprintf("%10.3fs %-18s %s", float64(s.Elapsed())/1e9, n, msg))
	}
}

func (s *Sim) Problem(class, msg, stack string) {
	s.Event("PROBLEM", class, msg)
	s.Problems = append(s.Problems, Problem{class, msg, stack})
}

// ---- choices ----

func (s *Sim) record(v int) int {
	if v != 0 {
		s.Trace = append(s.Trace, Decision{s.dec, v})
	}
	s.dec++
	return v
}

// Choose picks one of n alternatives; 0 is the plain one.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if s.Cfg.Replay != nil {
		v := s.Cfg.Replay[s.dec]
		if v < 0 || v >= n {
			v = 0
		}
		return s.record(v)
	}
	return s.record(s.rng.Intn(n))
}

// Chance is true with probability p.
func (s *Sim) Chance(p float64) bool {
	if p <= 0 {
		return false
	}
	if s.Cfg.Replay != nil {
		v := s.Cfg.Replay[s.dec]
		return s.record(v) != 0
	}
	if s.rng.Float() < p {
		return s.record(1) != 0
	}
	return s.record(0) != 0
}

// Uint draws a number below n (n>0) whose plain value is 0.
func (s *Sim) Uint(n int64) int64 {
	if s.Cfg.Replay != nil {
		v := int64(s.Cfg.Replay[s.dec])
		if v < 0 || v >= n {
			v = 0
		}
		s.record(int(v))
		return v
	}
	return int64(s.record(int(s.rng.Int63n(n))))
}

func (s *Sim) drawPreempt() {
	p := s.Cfg.Preempt
	if p <= 0 {
		s.untilPre = -1
		return
	}
	if p >= 1 {
		s.untilPre = 0
		return
	}
	u := s.rng.Float()
	if u <= 0 {
		u = 1e-12
	}
	s.untilPre = int(math.Log(u) / math.Log(1-p))
}

func (s *Sim) decidePreempt() int {
	n := len(s.runq)
	if n == 0 {
		return 0
	}
	if s.Cfg.Replay != nil {
		v := s.Cfg.Replay[s.dec]
		if v < 0 || v > n {
			v = 0
		}
		return s.record(v)
	}
	v := 0
	if s.Cfg.PCTDepth > 0 {
		if s.chgPoints[s.steps] {
			s.lowPrio--
			s.cur.prio = s.lowPrio
		}
		b := -1
		for i, t := range s.runq {
			if b < 0 || t.prio > s.runq[b].prio {
				b = i
			}
		}
		if s.runq[b].prio > s.cur.prio {
			v = b + 1
		}
	} else if s.untilPre == 0 {
		v = 1 + s.rng.Intn(n)
		s.drawPreempt()
	} else if s.untilPre > 0 {
		s.untilPre--
	}
	return s.record(v)
}

func (s *Sim) pick() int {
	n := len(s.runq)
	if n == 1 {
		return 0
	}
	if s.Cfg.PCTDepth > 0 && s.Cfg.Replay == nil {
		b := 0
		for i, t := range s.runq {
			if t.prio > s.runq[b].prio {
				b = i
			}
		}
		return s.record(b)
	}
	return s.Choose(n)
}

// ---- tasks ----

func (s *Sim) NewProc(name string) *Proc {
	s.procs++
	return &Proc{ID: s.procs, Name: name, tasks: map[*Task]bool{}, s: s}
}

func (s *Sim) spawn(p *Proc, name string, fn func()) *Task {
	s.tasks++
	t := &Task{ID: s.tasks, Name: name, Proc: p, fn: fn}
	t.Root = t
	s.prioSeq++
	if s.Cfg.PCTDepth > 0 {
		t.prio = 1<<30 + uint64(s.rng.Intn(1<<20))
	}
	s.allocSlot(t)
	if s.cur != nil {
		t.vc = t.vc.join(s.cur.vc)
		s.tick(s.cur)
	}
	s.tick(t)
	p.tasks[t] = true
	s.live[t] = true
	s.runq = append(s.runq, t)
	return t
}

// Go starts a task in proc p (harness use).
func (p *Proc) Go(name string, fn func()) *Task { return p.s.spawn(p, name, fn) }

// Tasks returns the live tasks of p.
func (p *Proc) Tasks() int { return len(p.tasks) }
func (p *Proc) TaskList() []*Task {
	var l []*Task
	for t := range p.tasks {
		l = append(l, t)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].ID < l[i].ID {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// Go is what a go statement of rewritten code becomes.
func Go(site string, fn func()) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: go statement outside the simulation at " + site)
	}
	if s.cur.killed {
		panic(killed{})
	}
	root := s.cur.Root
	t := s.spawn(s.cur.Proc, site, fn)
	t.Client, t.Root = false, root
	Point()
}

// coro: reusable coroutine
type coro struct {
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	task  *Task
}

var coroPool []*coro

func newCoro() *coro {
	c := &coro{}
	c.next, c.stop = iter.Pull(func(yield func(struct{}) bool) {
		c.yield = yield
		for {
			runTask(c.task)
			c.task = nil
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return c
}

func runTask(t *Task) {
	s := S
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killed); !ok && !t.killed {
				msg := fmt.Sprint(r)
				if e, ok := r.(error); ok {
					msg = e.Error()
				}
				s.crashProc(t, "panic", msg, string(debug.Stack()))
			}
		}
		t.done = true
	}()
	if t.killed {
		return
	}
	t.fn()
}

func (s *Sim) crashProc(t *Task, class, msg, stack string) {
	p := t.Proc
	p.Exited = true
	p.ExitMsg = class + ": " + msg
	p.Dead = true
	s.Event("proc-died", p.Name, class, firstLine(msg))
	s.Stats["proc_"+class]++
	if p.OnDeath != nil {
		p.OnDeath()
	}
	s.lastStack = stack
}

func firstLine(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		return m[:i]
	}
	return m
}

// LastStack is the stack of the last panic that ended a process.
func (s *Sim) LastStack() string { return s.lastStack }

func (s *Sim) resume(t *Task) {
	if t.co == nil {
		if n := len(coroPool); n > 0 {
			t.co = coroPool[n-1]
			coroPool = coroPool[:n-1]
		} else {
			t.co = newCoro()
		}
		t.co.task = t
	}
	s.cur = t
	t.co.next()
	s.cur = nil
	if t.done {
		coroPool = append(coroPool, t.co)
		t.co = nil
		t.endVC = t.vc.clone()
		s.freeSlot(t)
		delete(t.Proc.tasks, t)
		delete(s.live, t)
	}
}

// park switches from the current task back to the scheduler.
func (s *Sim) park() {
	t := s.cur
	t.co.yield(struct{}{})
	if t.killed {
		panic(killed{})
	}
}

// block parks the current task until ready(t).
func (s *Sim) block(why string) {
	t := s.cur
	if t.killed {
		panic(killed{})
	}
	t.wait = why
	s.park()
}

func (s *Sim) ready(t *Task) {
	if t.done || t.killed || t.wait == "" {
		return
	}
	t.wait = ""
	s.runq = append(s.runq, t)
}

// Killed reports whether the current task is being unwound.
func Killed() bool { s := S; return s != nil && s.cur != nil && s.cur.killed }

// Active reports whether a simulated task is running.
func Active() bool { return S != nil && S.cur != nil && !S.cur.killed }

// enter is called by every blocking-capable operation. It returns false outside the simulation.
func enter() bool {
	s := S
	if s == nil || s.cur == nil {
		return false
	}
	if s.cur.killed {
		panic(killed{})
	}
	Point()
	return true
}

// Point is a preemption opportunity.
func Point() {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	if t == nil || t.killed {
		return
	}
	s.steps++
	if s.steps > s.Cfg.MaxSteps {
		if !s.stopped {
			s.stopped = true
			s.Problem("livelock", fmt.Sprintf("step budget of %d exhausted in task %s", s.Cfg.MaxSteps, t.Name), string(debug.Stack()))
		}
		t.killed = true
		panic(killed{})
	}
	if t.Client && s.Cfg.ClientStall > 0 && t.stalls < 3 {
		if s.Chance(s.Cfg.ClientStall) {
			t.stalls++
			s.Stats["client_stall"]++
			d := 1 + s.Uint(s.Cfg.ClientStallMax)
			s.Event("stall", d/1e6)
			SleepNS(d)
			return
		}
	}
	if v := s.decidePreempt(); v > 0 {
		nt := s.runq[v-1]
		s.runq = append(s.runq[:v-1], s.runq[v:]...)
		s.runq = append(s.runq, t)
		t.wait = ""
		s.nextTask = nt
		s.Preempts++
		s.park()
	}
}

// LoopPoint is inserted at the head of every loop body.
func LoopPoint() { Point() }

// Yield gives up the processor (runtime.Gosched).
func Yield() {
	s := S
	if !enter() {
		return
	}
	s.runq = append(s.runq, s.cur)
	s.park()
}

// SleepNS blocks the current task for d simulated nanoseconds.
func SleepNS(d int64) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.cur.killed {
		panic(killed{})
	}
	if d <= 0 {
		Yield()
		return
	}
	t := s.cur
	s.After(d, func() { s.ready(t) })
	s.block("sleep")
}

// After schedules fire at now+d (runs in scheduler context).
func (s *Sim) After(d int64, fire func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	at := s.now + d
	if at < s.now {
		at = math.MaxInt64
	}
	tm := &Timer{at: at, seq: s.seq, fire: fire}
	heap.Push(&s.timers, tm)
	return tm
}

// Cancel removes a timer; reports whether it was pending.
func (s *Sim) Cancel(tm *Timer) bool {
	if tm == nil || tm.dead || tm.idx < 0 {
		return false
	}
	heap.Remove(&s.timers, tm.idx)
	tm.dead = true
	return true
}

type cond struct {
	t  *Task
	fn func() bool
	tm *Timer
	ok bool
}

// WaitCond blocks the current (harness) task until fn() or the timeout; reports whether fn held.
func (s *Sim) WaitCond(fn func() bool, timeout int64) bool {
	if fn() {
		return true
	}
	c := &cond{t: s.cur, fn: fn}
	if timeout >= 0 {
		c.tm = s.After(timeout, func() {
			s.dropCond(c)
			s.ready(c.t)
		})
	}
	s.conds = append(s.conds, c)
	s.block("cond")
	return c.ok
}

func (s *Sim) dropCond(c *cond) {
	for i, x := range s.conds {
		if x == c {
			s.conds = append(s.conds[:i], s.conds[i+1:]...)
			return
		}
	}
}

// JoinTask makes everything t did happen before what the caller does next.
func (s *Sim) JoinTask(t *Task) {
	if s.cur == nil {
		return
	}
	if t.done {
		s.cur.vc = s.cur.vc.join(t.endVC)
	} else {
		s.cur.vc = s.cur.vc.join(t.vc)
	}
}

// Kill ends a process: all its tasks stop at once, nothing they defer has any effect.
func (s *Sim) Kill(p *Proc) {
	p.Dead = true
	for _, t := range p.TaskList() {
		s.killTask(t)
	}
}

func (s *Sim) killTask(t *Task) {
	if t.done || t == s.cur {
		return
	}
	t.killed = true
	t.wait = ""
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			break
		}
	}
	for i := 0; i < len(s.conds); {
		if s.conds[i].t == t {
			s.Cancel(s.conds[i].tm)
			s.conds = append(s.conds[:i], s.conds[i+1:]...)
		} else {
			i++
		}
	}
	if t.co == nil { // never started
		t.done = true
		s.freeSlot(t)
		delete(t.Proc.tasks, t)
		delete(s.live, t)
		return
	}
	save := s.cur
	for i := 0; !t.done && i < 1000; i++ {
		s.resume(t)
	}
	if !t.done {
		s.Problem("harness", "task "+t.Name+" does not unwind", "")
		t.co = nil // leak it
		delete(t.Proc.tasks, t)
		delete(s.live, t)
	}
	s.cur = save
}

// ExitNow ends the process of the current task as os.Exit does.
func ExitNow(code int, why string) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: exit outside the simulation: " + why)
	}
	t := s.cur
	if t.killed {
		panic(killed{})
	}
	s.crashProc(t, "exit", fmt.Sprintf("%d: %s", code, why), "")
	t.killed = true
	panic(killed{})
}

// KillSelf kills the whole process of the current task (crash injection inside an operation).
func KillSelf(why string) {
	s := S
	t := s.cur
	if t.Proc.Dead {
		t.killed = true
		panic(killed{})
	}
	t.Proc.Dead = true
	s.Event("crash-injected", why)
	if t.Proc.OnDeath != nil {
		t.Proc.OnDeath()
	}
	t.killed = true
	panic(killed{})
}

// Fatal reports a Go runtime "fatal error" (not recoverable) in the current process.
func Fatal(msg string) {
	s := S
	t := s.cur
	s.crashProc(t, "fatal", msg, string(debug.Stack()))
	t.killed = true
	panic(killed{})
}

// Goexit ends the current task (runtime.Goexit).
func Goexit() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.cur.killed = true
	panic(killed{})
}

// Cur returns the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Run executes the simulation, with driver as the harness's own (never killed) task, until the driver returns.
func (s *Sim) Run(driver func()) {
	hp := s.NewProc("harness")
	d := s.spawn(hp, "driver", driver)
	for !d.done && !s.stopped {
		if len(s.conds) > 0 {
			for i := 0; i < len(s.conds); {
				c := s.conds[i]
				if c.fn() {
					c.ok = true
					s.Cancel(c.tm)
					s.conds = append(s.conds[:i], s.conds[i+1:]...)
					s.ready(c.t)
				} else {
					i++
				}
			}
		}
		if s.nextTask == nil && len(s.runq) == 0 {
			if len(s.timers) == 0 {
				s.Problem("deadlock", "nothing can run: "+s.Describe(), "")
				break
			}
			tm := heap.Pop(&s.timers).(*Timer)
			if tm.at > s.now {
				s.now = tm.at
			}
			tm.dead = true
			tm.fire()
			for len(s.timers) > 0 && s.timers[0].at <= s.now {
				tm := heap.Pop(&s.timers).(*Timer)
				tm.dead = true
				tm.fire()
			}
			continue
		}
		var t *Task
		if s.nextTask != nil {
			t = s.nextTask
			s.nextTask = nil
		} else {
			i := s.pick()
			t = s.runq[i]
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
		}
		if t.done || t.killed {
			continue
		}
		s.Switches++
		s.mix(&s.ILHash, uint64(t.ID)<<8|uint64(t.Proc.ID))
		s.mix(&s.Hash, uint64(t.ID))
		s.resume(t)
		if t.Proc.Dead {
			s.Kill(t.Proc)
		}
	}
	s.stopped = true
	if hp.Exited {
		s.Problem("harness", hp.ExitMsg, s.lastStack)
	}
	// unwind everything
	var all []*Task
	for t := range s.live {
		all = append(all, t)
	}
	for _, t := range all {
		t.killed = true
	}
	for _, t := range all {
		s.killTask(t)
	}
	S = nil
	if len(coroPool) > 4096 {
		for _, c := range coroPool[4096:] {
			c.stop()
		}
		coroPool = coroPool[:4096]
	}
}

// Describe lists the blocked tasks.
func (s *Sim) Describe() string {
	var all []*Task
	for t := range s.live {
		all = append(all, t)
	}
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[j].ID < all[i].ID {
				all[i], all[j] = all[j], all[i]
			}
		}
	}
	var b strings.Builder
	for i, t := range all {
		if i > 20 {
			b.WriteString(" ...")
			break
		}
		w := t.wait
		if w == "" {
			w = "runnable"
		}
		fmt.Fprintf(&b, " [%s#%d %s]", t.Name, t.ID, w)
	}
	return b.String()
}

// Enter, Block and Ready are the entry points of the replacement packages.
func Enter() bool             { return enter() }
func (s *Sim) Block(w string) { s.block(w) }
func (s *Sim) Ready(t *Task)  { s.ready(t) }

// Recover is put around recover() in rewritten code: a simulated kill is not recoverable.
func Recover(r any) any {
	if r == nil {
		return nil
	}
	if _, ok := r.(killed); ok {
		panic(killed{})
	}
	if s := S; s != nil && s.cur != nil && s.cur.killed {
		panic(killed{})
	}
	return r
}

// Decisions is the number of choice points passed so far.
func (s *Sim) Decisions() uint64 { return s.dec }
