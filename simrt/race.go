package simrt

import (
	"fmt"
	"unsafe"
)

type ptr = unsafe.Pointer

// VC is a vector clock indexed by task slot.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) join(o VC) VC {
	if len(o) > len(v) {
		n := make(VC, len(o))
		copy(n, v)
		v = n
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

type epoch struct {
	slot int
	c    uint32
	site string
	task int
}

type cell struct {
	w     epoch
	hasW  bool
	reads []epoch
}

const minFree = 96 // slots are recycled only after this many are idle, so that recent ones keep detecting

func (s *Sim) allocSlot(t *Task) {
	if len(s.freeSlots) > minFree {
		t.slot = s.freeSlots[0]
		s.freeSlots = s.freeSlots[1:]
	} else {
		t.slot = len(s.slots)
		s.slots = append(s.slots, 0)
	}
	t.vc = make(VC, t.slot+1)
	t.vc[t.slot] = s.slots[t.slot]
}

func (s *Sim) freeSlot(t *Task) {
	if t.slot < 0 {
		return
	}
	s.slots[t.slot] = t.vc.at(t.slot) + 1
	s.freeSlots = append(s.freeSlots, t.slot)
	t.slot = -1
}

// tick advances t's own clock (after it released something).
func (s *Sim) tick(t *Task) {
	if t.slot >= 0 {
		t.vc[t.slot]++
	}
}

// Release merges the current task's clock into *v; Acquire the other way round.
func (s *Sim) Release(v *VC) {
	if s.cur == nil {
		return
	}
	*v = (*v).join(s.cur.vc)
	s.tick(s.cur)
}
func (s *Sim) Acquire(v *VC) {
	if s.cur == nil {
		return
	}
	s.cur.vc = s.cur.vc.join(*v)
}

func (s *Sim) race(kind string, site string, e epoch, what string) {
	a, b := site, e.site
	if a > b {
		a, b = b, a
	}
	key := a + "|" + b
	if s.raceSeen[key] {
		return
	}
	s.raceSeen[key] = true
	s.Problem("race", fmt.Sprintf("unsynchronised %s at %s and earlier access at %s", kind, site, e.site), "")
}

func (s *Sim) access(m map[ptr]*cell, p ptr, write bool, site string) {
	t := s.cur
	if s.Cfg.NoRace || t.slot < 0 {
		return
	}
	c := m[p]
	if c == nil {
		c = &cell{}
		m[p] = c
	}
	if c.hasW && c.w.slot != t.slot && t.vc.at(c.w.slot) < c.w.c {
		k := "read"
		if write {
			k = "write"
		}
		s.race(k, site, c.w, "")
	}
	me := epoch{t.slot, t.vc[t.slot], site, t.ID}
	if write {
		for _, r := range c.reads {
			if r.slot != t.slot && t.vc.at(r.slot) < r.c {
				s.race("write", site, r, "")
			}
		}
		c.reads = c.reads[:0]
		c.w, c.hasW = me, true
		return
	}
	for i := range c.reads {
		if c.reads[i].slot == t.slot {
			c.reads[i] = me
			return
		}
	}
	// drop reads that happen before this one
	k := 0
	for _, r := range c.reads {
		if t.vc.at(r.slot) < r.c {
			c.reads[k] = r
			k++
		}
	}
	c.reads = append(c.reads[:k], me)
}

// R and W are put around every shared load and store of rewritten code.
func R[T any](p *T, site string) *T {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return p
	}
	Point()
	if p != nil {
		s.access(s.shadow, ptr(p), false, site)
	}
	return p
}

func W[T any](p *T, site string) *T {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return p
	}
	Point()
	if p != nil {
		s.access(s.shadow, ptr(p), true, site)
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) ptr { return *(*ptr)(unsafe.Pointer(&m)) }

// MR and MW are put around every map read and write.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	s := S
	if s == nil || s.cur == nil || s.cur.killed || m == nil {
		return m
	}
	Point()
	s.access(s.mshadow, mapPtr[M, K, V](m), false, site)
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	s := S
	if s == nil || s.cur == nil || s.cur.killed || m == nil {
		return m
	}
	Point()
	s.access(s.mshadow, mapPtr[M, K, V](m), true, site)
	return m
}

// AtomicSync is called by atomic operations: acquire and/or release on p.
func AtomicSync(p unsafe.Pointer, acq, rel bool) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.cur.killed {
		panic(killed{})
	}
	Point()
	v := s.avc[p]
	if v == nil {
		v = &VC{}
		s.avc[p] = v
	}
	if acq {
		s.Acquire(v)
	}
	if rel {
		s.Release(v)
	}
}

// Store(p, site)(v) is *p = v, recorded after v was evaluated.
func Store[T any](p *T, site string) func(T) {
	return func(v T) {
		*W(p, site) = v
	}
}

// MapSet(m, site)(k)(v) is m[k] = v.
func MapSet[M ~map[K]V, K comparable, V any](m M, site string) func(K) func(V) {
	return func(k K) func(V) {
		return func(v V) {
			MW[M, K, V](m, site)[k] = v
		}
	}
}

// Zero clears a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
