package main

import (
	"math"

	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// version is one save of one field of one document.
type version struct {
	d, f   string
	l      int
	tf     map[string]int
	inv    int64 // event clock at the call
	ret    int64 // event clock at the return, 0: not returned
	retNS  int64 // simulated time of the return
	settle int64 // simulated time from which it counts as settled on its own (observed after a reopen); MaxInt64: not
	base   bool  // observed after a reopen
	old    bool  // begun before the last crash
	firm   bool  // settled at that crash
	upd    bool  // index-only save
}

// total is a field's pair of totals after one of its saves (or as found after a reopen).
type total struct {
	size, length int
	ver          *version // nil: the state found at a reopen
	settle       int64
}

type refModel struct {
	clk    int64
	fields map[string]bool
	docs   map[string]bool
	vers   map[string]map[string][]*version // field -> doc -> versions in order
	all    []*version
	chain  map[string][]total        // field -> states since the last reopen (index 0 = the base)
	nbase  map[string]map[string]int // field -> term -> count at the base
	nset   map[string]map[string]nfloor
	older  map[string][]total         // states that may come back while the base has not settled
	seen   map[string]seen            // postings found at a reopen
	terms  map[string]map[string]bool // field -> every term ever saved
	resave bool
}

func newModel() *refModel {
	return &refModel{fields: map[string]bool{}, docs: map[string]bool{}, vers: map[string]map[string][]*version{},
		chain: map[string][]total{}, nbase: map[string]map[string]int{}, nset: map[string]map[string]nfloor{}, older: map[string][]total{}, seen: map[string]seen{}, terms: map[string]map[string]bool{}}
}

func (m *refModel) tick() int64 { m.clk++; return m.clk }

func tfMap(t []TF) map[string]int {
	out := make(map[string]int, len(t))
	for _, x := range t {
		out[x.T] = x.N
	}
	return out
}

func (o *Op) field() model.Field {
	return model.Field{Name: o.F, Length: o.L, TF: tfMap(o.T)}
}

func (m *refModel) begin(o *Op, upd bool) *version {
	v := &version{d: o.D, f: o.F, l: o.L, tf: tfMap(o.T), inv: m.tick(), settle: math.MaxInt64, upd: upd}
	m.fields[o.F] = true
	m.docs[o.D] = true
	if m.vers[o.F] == nil {
		m.vers[o.F] = map[string][]*version{}
	}
	for _, w := range m.vers[o.F][o.D] {
		if !w.upd && !upd {
			m.resave = true
		}
	}
	m.vers[o.F][o.D] = append(m.vers[o.F][o.D], v)
	if m.terms[o.F] == nil {
		m.terms[o.F] = map[string]bool{}
	}
	for t := range v.tf {
		m.terms[o.F][t] = true
	}
	m.all = append(m.all, v)
	if !upd {
		c := m.chain[o.F]
		if len(c) == 0 {
			c = []total{{settle: math.MinInt64}}
		}
		last := c[len(c)-1]
		m.chain[o.F] = append(c, total{size: last.size + 1, length: last.length + o.L, ver: v, settle: math.MaxInt64})
	}
	return v
}

func (m *refModel) end(v *version, now int64) {
	v.ret = m.tick()
	v.retNS = now
}

// bound says which saves must be visible (settled) and which may be (begun).
type bound struct {
	clk    int64 // saves begun later do not count
	retClk int64 // live reads: saves returned by then must be visible
	cut    int64 // crash reads: saves returned by this time must be visible
	live   bool
}

func (b bound) begun(v *version) bool { return v.inv <= b.clk }

// must: the save is one the answer has to reflect.
func (b bound) must(v *version) bool {
	if v.old {
		return v.firm
	}
	if v.ret == 0 {
		return false
	}
	if b.live {
		return v.ret <= b.retClk
	}
	return v.retNS <= b.cut && v.ret <= b.clk
}

type seen struct {
	clk    int64
	settle int64
}

// posting: must d be listed under (f,t); may it be?
func (m *refModel) posting(b bound, f, t, d string) (must, may bool) {
	vs := m.vers[f][d]
	from := int64(-1)
	for _, v := range vs {
		if !b.begun(v) {
			break
		}
		if _, in := v.tf[t]; in {
			may = true
		}
		if b.must(v) {
			from = v.inv
		}
	}
	if from < 0 {
		if s, ok := m.seen[f+"\x00"+t+"\x00"+d]; ok && s.clk <= b.clk && (b.live || s.settle <= b.cut) {
			from = s.clk
		} else {
			return
		}
	} else if s, ok := m.seen[f+"\x00"+t+"\x00"+d]; ok && s.clk <= b.clk && (b.live || s.settle <= b.cut) && s.clk > from {
		from = s.clk
	}
	must = true
	for _, v := range vs {
		if !b.begun(v) {
			break
		}
		if v.inv < from {
			continue
		}
		if _, in := v.tf[t]; !in {
			must = false
		}
	}
	return
}

// contents returns the versions a read of (d,f) may show and whether it may be absent.
func (m *refModel) contents(b bound, d, f string) (may []*version, absent bool) {
	absent = true
	for _, v := range m.vers[f][d] {
		if !b.begun(v) {
			break
		}
		if v.upd {
			continue
		}
		if b.must(v) || v.base && (b.live || v.settle <= b.cut) {
			may = may[:0]
			absent = false
		}
		may = append(may, v)
	}
	return
}

// totals returns the states of f's totals that may be reported (one writer per field).
func (m *refModel) totals(b bound, f string) (out []total) {
	c := m.chain[f]
	if len(c) == 0 {
		c = []total{{settle: math.MinInt64}}
	}
	lo, hi := 0, 0
	for i, t := range c {
		if t.ver != nil && !b.begun(t.ver) {
			break
		}
		hi = i
		if t.ver != nil && b.must(t.ver) {
			lo = i
		}
	}
	if lo == 0 && !b.live && c[0].settle > b.cut {
		out = append(out, m.older[f]...)
	}
	return append(out, c[lo:hi+1]...)
}

// totalBounds: with several writers per field only the bounds are known.
func (m *refModel) totalBounds(b bound, f string) (loS, hiS, loL, hiL int) {
	for i, t := range m.chain[f] {
		if i == 0 {
			loS, hiS, loL, hiL = t.size, t.size, t.length, t.length
			continue
		}
		if b.begun(t.ver) {
			hiS++
			hiL += t.ver.l
		}
		if b.must(t.ver) {
			loS++
			loL += t.ver.l
		}
	}
	return
}

// termRange is the range of counts (f,t) may report (every value in between really occurred).
func (m *refModel) termRange(b bound, f, t string) (lo, hi int) {
	lo = m.nbase[f][t]
	hi = lo
	for _, x := range m.chain[f] {
		if x.ver == nil || !b.begun(x.ver) {
			continue
		}
		if _, in := x.ver.tf[t]; in {
			hi++
			if b.must(x.ver) {
				lo++
			}
		}
	}
	if !b.live {
		if s, ok := m.nset[f][t]; ok && s.at > b.cut && s.low < lo {
			lo = s.low // the count found at the last reopen has not settled again
		}
	}
	return
}

type nfloor struct {
	at  int64
	low int
}

// recovered is what a check after a reopen found.
type recovered struct {
	b        bound
	at       int64 // simulated time of the check
	settle   int64 // when what was found counts as settled
	postings map[string]map[string][]string
	size     map[string]int
	length   map[string]int
	nft      map[string]map[string]int
	docs     map[string]map[string]*version // f -> d -> version shown
}

// adopt makes what was found after a crash the new starting point.
func (m *refModel) adopt(r *recovered) {
	for f := range m.fields {
		if c := m.chain[f]; len(c) > 0 {
			m.older[f] = m.totals(r.b, f)
		}
		ns := map[string]nfloor{}
		nb := map[string]int{}
		for t := range m.terms[f] {
			lo, _ := m.termRange(r.b, f, t)
			ns[t] = nfloor{r.settle, lo}
			nb[t] = r.nft[f][t]
		}
		m.nset[f], m.nbase[f] = ns, nb
		m.chain[f] = []total{{size: r.size[f], length: r.length[f], settle: r.settle}}
	}
	for _, v := range m.all {
		if !v.old {
			v.firm = r.b.must(v)
			v.old = true
		}
	}
	now := m.tick()
	for f, ds := range r.docs {
		for d, v := range ds {
			for _, w := range m.vers[f][d] {
				w.base = w == v
			}
			if v != nil && r.settle < v.settle {
				v.settle = r.settle
			}
		}
	}
	for f, ts := range r.postings {
		for t, ds := range ts {
			for _, d := range ds {
				k := f + "\x00" + t + "\x00" + d
				if s, ok := m.seen[k]; ok && s.settle <= r.settle {
					continue
				}
				m.seen[k] = seen{now, r.settle}
			}
		}
	}
}
