package simrt

import (
	"fmt"
	"unsafe"
)

type item struct {
	val any
	vc  VC
}

type hchan struct {
	cap     int
	buf     []item
	free    []VC // clocks of the receives that freed buffer slots
	closed  bool
	closeVC VC
	recvq   []*waiter
	sendq   []*waiter
	keep    any
}

type waiter struct {
	t   *Task
	val any
	ok  bool
	sel *selState // shared by the waiters of one select
	idx int
	fin bool
}

type selState struct {
	done       bool
	idx        int
	val        any
	ok         bool
	closedSend bool
}

func (w *waiter) dead() bool { return w.fin || w.t.killed || w.t.done || w.sel.done }

func (s *Sim) hc(p ptr, c int) *hchan {
	h := s.chans[p]
	if h == nil {
		h = &hchan{cap: c}
		s.chans[p] = h
	}
	return h
}

func sch[T any](ch chan<- T) (*hchan, bool) {
	if ch == nil {
		return nil, false
	}
	return S.hc(*(*ptr)(unsafe.Pointer(&ch)), cap(ch)), true
}
func rch[T any](ch <-chan T) (*hchan, bool) {
	if ch == nil {
		return nil, false
	}
	return S.hc(*(*ptr)(unsafe.Pointer(&ch)), cap(ch)), true
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.dead() {
			return w
		}
	}
	return nil
}
func hasLive(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !(*q)[0].dead() {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

// trySend performs a send if it can proceed now.
func (s *Sim) trySend(h *hchan, v any) bool {
	if h.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if w := popLive(&h.recvq); w != nil {
		// rendezvous with a waiting receiver
		w.t.vc = w.t.vc.join(s.cur.vc)
		if h.cap == 0 {
			s.cur.vc = s.cur.vc.join(w.t.vc)
		} else if len(h.free) > 0 {
			s.cur.vc = s.cur.vc.join(h.free[0])
			h.free = append(h.free[1:], w.t.vc.clone())
		}
		s.tick(s.cur)
		s.tick(w.t)
		w.fin, w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, true, w.idx, v, true
		s.ready(w.t)
		return true
	}
	if len(h.buf) < h.cap {
		if len(h.free) > 0 {
			s.cur.vc = s.cur.vc.join(h.free[0])
			h.free = h.free[1:]
		}
		h.buf = append(h.buf, item{v, s.cur.vc.clone()})
		s.tick(s.cur)
		return true
	}
	return false
}

func (s *Sim) tryRecv(h *hchan) (v any, ok, done bool) {
	if len(h.buf) > 0 {
		it := h.buf[0]
		h.buf[0] = item{}
		h.buf = h.buf[1:]
		s.cur.vc = s.cur.vc.join(it.vc)
		h.free = append(h.free, s.cur.vc.clone())
		s.tick(s.cur)
		if w := popLive(&h.sendq); w != nil {
			w.t.vc = w.t.vc.join(h.free[0])
			h.free = h.free[1:]
			h.buf = append(h.buf, item{w.val, w.t.vc.clone()})
			s.tick(w.t)
			w.fin, w.sel.done, w.sel.idx = true, true, w.idx
			s.ready(w.t)
		}
		return it.val, true, true
	}
	if w := popLive(&h.sendq); w != nil {
		s.cur.vc = s.cur.vc.join(w.t.vc)
		w.t.vc = w.t.vc.join(s.cur.vc)
		s.tick(s.cur)
		s.tick(w.t)
		w.fin, w.sel.done, w.sel.idx = true, true, w.idx
		s.ready(w.t)
		return w.val, true, true
	}
	if h.closed {
		s.cur.vc = s.cur.vc.join(h.closeVC)
		return nil, false, true
	}
	return nil, false, false
}

func blockForever(why string) {
	if S == nil || S.cur == nil {
		panic("simrt: blocking for ever outside the simulation")
	}
	for {
		S.block(why)
	}
}

// BlockForever is an empty select.
func BlockForever() { blockForever("select{}") }

// SendCh(ch)(v) is ch <- v.
func SendCh[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !enter() {
			if S == nil || S.cur == nil {
				ch <- v
				return
			}
		}
		s := S
		h, ok := sch(ch)
		if !ok {
			blockForever("send on nil channel")
		}
		h.keep = ch
		if s.trySend(h, v) {
			Point()
			return
		}
		w := &waiter{t: s.cur, val: v, sel: &selState{}}
		h.sendq = append(h.sendq, w)
		s.block("chan send")
		if w.sel.closedSend {
			panic(fmt.Errorf("send on closed channel"))
		}
	}
}

func recvAny[T any](ch <-chan T) (any, bool) {
	if !enter() {
		v, ok := <-ch
		return v, ok
	}
	s := S
	h, ok := rch(ch)
	if !ok {
		blockForever("receive from nil channel")
	}
	if v, ok, done := s.tryRecv(h); done {
		Point()
		return v, ok
	}
	w := &waiter{t: s.cur, sel: &selState{}}
	h.recvq = append(h.recvq, w)
	s.block("chan receive")
	return w.sel.val, w.sel.ok
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Recv[T any](ch <-chan T) T {
	v, _ := recvAny(ch)
	return conv[T](v)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvAny(ch)
	return conv[T](v), ok
}

func Close[T any](ch chan<- T) {
	if !enter() {
		close(ch)
		return
	}
	s := S
	h, ok := sch(ch)
	if !ok {
		panic(fmt.Errorf("close of nil channel"))
	}
	if h.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	h.closed = true
	h.closeVC = s.cur.vc.clone()
	s.tick(s.cur)
	for w := popLive(&h.recvq); w != nil; w = popLive(&h.recvq) {
		w.t.vc = w.t.vc.join(h.closeVC)
		w.fin, w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, true, w.idx, nil, false
		s.ready(w.t)
	}
	for w := popLive(&h.sendq); w != nil; w = popLive(&h.sendq) {
		w.fin, w.sel.done, w.sel.idx, w.sel.closedSend = true, true, w.idx, true
		s.ready(w.t)
	}
	Point()
}

// CloseQuiet closes from scheduler or timer context.
func (s *Sim) CloseCh(p ptr, c int) {
	h := s.hc(p, c)
	if h.closed {
		return
	}
	h.closed = true
	if s.cur != nil {
		h.closeVC = s.cur.vc.clone()
		s.tick(s.cur)
	}
	for w := popLive(&h.recvq); w != nil; w = popLive(&h.recvq) {
		w.t.vc = w.t.vc.join(h.closeVC)
		w.fin, w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, true, w.idx, nil, false
		s.ready(w.t)
	}
}

// PutNB delivers v without blocking from scheduler context (timers); false if the buffer is full.
// vc is what happened before the timer was set.
func PutNB[T any](ch chan T, v T, vc VC) bool {
	s := S
	h, _ := sch((chan<- T)(ch))
	if h.closed {
		return false
	}
	if w := popLive(&h.recvq); w != nil {
		w.t.vc = w.t.vc.join(vc)
		w.fin, w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, true, w.idx, v, true
		s.ready(w.t)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, item{v, vc})
		return true
	}
	return false
}

func ChanLen[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	if S == nil || S.cur == nil {
		return len(ch)
	}
	Point()
	h, _ := rch(ch)
	return len(h.buf)
}

// ---- select ----

type Case struct {
	h    *hchan
	send bool
	val  any
	keep any
}

type Sel struct {
	I   int
	val any
	ok  bool
}

func CaseRecv[T any](ch <-chan T) Case {
	if ch == nil {
		return Case{}
	}
	h, _ := rch(ch)
	return Case{h: h, keep: ch}
}

func CaseSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		if ch == nil {
			return Case{}
		}
		h, _ := sch(ch)
		return Case{h: h, send: true, val: v, keep: ch}
	}
}

func SelVal[T any](ch <-chan T, s *Sel) T          { return conv[T](s.val) }
func SelVal2[T any](ch <-chan T, s *Sel) (T, bool) { return conv[T](s.val), s.ok }

func Select(hasDefault bool, cases ...Case) *Sel {
	if !enter() {
		panic("simrt: select outside the simulation")
	}
	s := S
	var readyIdx []int
	for i, c := range cases {
		if c.h == nil {
			continue
		}
		c.h.keep = c.keep
		if c.send {
			if c.h.closed || hasLive(&c.h.recvq) || len(c.h.buf) < c.h.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if len(c.h.buf) > 0 || hasLive(&c.h.sendq) || c.h.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		i := readyIdx[s.Choose(len(readyIdx))]
		c := cases[i]
		if c.send {
			s.trySend(c.h, c.val)
			return &Sel{I: i}
		}
		v, ok, _ := s.tryRecv(c.h)
		return &Sel{I: i, val: v, ok: ok}
	}
	if hasDefault {
		return &Sel{I: -1}
	}
	st := &selState{}
	n := 0
	for i, c := range cases {
		if c.h == nil {
			continue
		}
		n++
		w := &waiter{t: s.cur, val: c.val, sel: st, idx: i}
		if c.send {
			c.h.sendq = append(c.h.sendq, w)
		} else {
			c.h.recvq = append(c.h.recvq, w)
		}
	}
	s.block("select")
	if st.closedSend {
		panic(fmt.Errorf("send on closed channel"))
	}
	return &Sel{I: st.idx, val: st.val, ok: st.ok}
}

// ---- range over channel ----

type ChanIt[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) (*ChanIt[T], T) {
	var z T
	return &ChanIt[T]{ch}, z
}
func ChanIter0[T any](ch <-chan T) *ChanIt[T] { return &ChanIt[T]{ch} }
func (c *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(c.ch)
	if !ok {
		return false
	}
	if p != nil {
		*p = v
	}
	return true
}
