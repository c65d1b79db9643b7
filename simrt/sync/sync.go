// Package sync replaces the standard sync under simulation.
package sync

import (
	"fmt"
	"unsafe"

	"verif.local/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

// sim returns the simulation, or nil outside a task. Killed tasks unwind.
func sim() *simrt.Sim {
	if !simrt.Enter() {
		return nil
	}
	return simrt.S
}

type Mutex struct {
	locked  bool
	waiters []*simrt.Task
	vc      simrt.VC
}

func (m *Mutex) Lock() {
	s := sim()
	if s == nil {
		m.locked = true
		return
	}
	for m.locked {
		m.waiters = append(m.waiters, simrt.Cur())
		s.Block("mutex")
	}
	m.locked = true
	s.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	s := sim()
	if m.locked {
		return false
	}
	m.locked = true
	if s != nil {
		s.Acquire(&m.vc)
	}
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Killed() {
		return
	}
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		m.locked = false
		return
	}
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.Release(&m.vc)
	w := m.waiters
	m.waiters = nil
	for _, t := range w {
		s.Ready(t)
	}
	simrt.Point()
}

type RWMutex struct {
	writer  bool
	readers int
	pending int // writers waiting: new readers queue behind them
	waiters []*simrt.Task
	wvc     simrt.VC // released by writers
	rvc     simrt.VC // released by readers
}

func (m *RWMutex) wake(s *simrt.Sim) {
	w := m.waiters
	m.waiters = nil
	for _, t := range w {
		s.Ready(t)
	}
}

func (m *RWMutex) Lock() {
	s := sim()
	if s == nil {
		m.writer = true
		return
	}
	m.pending++
	for m.writer || m.readers > 0 {
		m.waiters = append(m.waiters, simrt.Cur())
		s.Block("rwmutex lock")
	}
	m.pending--
	m.writer = true
	s.Acquire(&m.wvc)
	s.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	s := sim()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	if s != nil {
		s.Acquire(&m.wvc)
		s.Acquire(&m.rvc)
	}
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Killed() {
		return
	}
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		m.writer = false
		return
	}
	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	s.Release(&m.wvc)
	m.wake(s)
	simrt.Point()
}

func (m *RWMutex) RLock() {
	s := sim()
	if s == nil {
		m.readers++
		return
	}
	for first := true; m.writer || (first && m.pending > 0); first = false {
		m.waiters = append(m.waiters, simrt.Cur())
		s.Block("rwmutex rlock")
	}
	m.readers++
	s.Acquire(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	s := sim()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	if s != nil {
		s.Acquire(&m.wvc)
	}
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Killed() {
		return
	}
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		m.readers--
		return
	}
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.Release(&m.rvc)
	m.wake(s)
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n       int
	waiters []*simrt.Task
	vc      simrt.VC
}

func (w *WaitGroup) Add(d int) {
	if simrt.Killed() {
		return
	}
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		w.n += d
		return
	}
	simrt.Point()
	w.n += d
	if d < 0 {
		s.Release(&w.vc)
	}
	if w.n < 0 {
		panic(fmt.Errorf("sync: negative WaitGroup counter"))
	}
	if w.n == 0 {
		ws := w.waiters
		w.waiters = nil
		for _, t := range ws {
			s.Ready(t)
		}
		simrt.Point()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s := sim()
	if s == nil {
		return
	}
	if w.n > 0 { // a waiter released by the counter reaching zero stays released
		w.waiters = append(w.waiters, simrt.Cur())
		s.Block("waitgroup")
	}
	s.Acquire(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L       Locker
	waiters []*cw
	vc      simrt.VC
}
type cw struct {
	t    *simrt.Task
	done bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := sim()
	if s == nil {
		panic("sync.Cond.Wait outside the simulation")
	}
	w := &cw{t: simrt.Cur()}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.done {
		s.Block("cond")
	}
	s.Acquire(&c.vc)
	c.L.Lock()
}
func (c *Cond) signal(n int) {
	if simrt.Killed() {
		return
	}
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		return
	}
	s.Release(&c.vc)
	for n != 0 && len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.done = true
		s.Ready(w.t)
		n--
	}
	simrt.Point()
}
func (c *Cond) Signal()    { c.signal(1) }
func (c *Cond) Broadcast() { c.signal(-1) }

type Pool struct {
	New   func() any
	items []any
	vc    simrt.VC
}

func (p *Pool) Get() any {
	s := sim()
	if n := len(p.items); n > 0 && (s == nil || s.Choose(4) != 3) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		if s != nil {
			s.Acquire(&p.vc)
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil || simrt.Killed() {
		return
	}
	if s := sim(); s != nil {
		s.Release(&p.vc)
	}
	p.items = append(p.items, x)
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) acq() {
	simrt.AtomicSync(unsafe.Pointer(m), true, true)
}
func (m *Map) Load(k any) (any, bool) { m.acq(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.acq()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.acq()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	m.keys = append(m.keys, k)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.acq()
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.acq()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.acq()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.acq()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
			m.acq()
		}
	}
}
func (m *Map) Clear() { m.acq(); m.m, m.keys = nil, nil }
