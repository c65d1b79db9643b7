package main

import (
	"fmt"
	"strings"

	"verif.local/simrt"
	simos "verif.local/simrt/os"
)

// wl draws workloads of saves and queries.
type wl struct {
	g       *simrt.Rng
	fields  []string
	docs    []string
	terms   []string
	maxTF   int
	bigN    bool
	times   int
	big     bool            // many fields, documents and terms, many saves at a time
	used    map[string]bool // doc|field saved already
	resave  bool
	clients int
	owner   map[string]int // field -> client (one writer per field)
	shared  bool           // any client writes any field
	gaps    int            // 0 none, 1 short, 2 long
}

func newWL(g *simrt.Rng) *wl {
	w := &wl{g: g, used: map[string]bool{}, owner: map[string]int{}, clients: 1}
	pool := []string{"title", "text", "id", "summary", "author", "a.b.c"}
	n := g.Range(1, 4)
	w.fields = pool[:n]
	if g.Chance(0.5) {
		w.fields = pool[6-n:]
	}
	nd := g.Pick(1, 2, 3, 5, 8, 14)
	for i := 0; i < nd; i++ {
		if g.Chance(0.1) {
			w.docs = append(w.docs, fmt.Sprintf("documento-%c-%d", 'a'+i%26, i))
		} else {
			w.docs = append(w.docs, fmt.Sprintf("d%d", i))
		}
	}
	nt := g.Pick(1, 2, 4, 8, 20, 40)
	for i := 0; i < nt; i++ {
		switch {
		case g.Chance(0.08):
			w.terms = append(w.terms, fmt.Sprintf("ção%d", i))
		case g.Chance(0.03):
			w.terms = append(w.terms, strings.Repeat("longo", 60)+fmt.Sprint(i))
		default:
			w.terms = append(w.terms, fmt.Sprintf("t%d", i))
		}
	}
	if g.Chance(0.05) {
		w.terms = append(w.terms, "")
	}
	if g.Chance(0.15) {
		w.alike()
	} else if g.Chance(0.06) {
		w.big, w.times = true, g.Pick(5, 10, 25)
		for i := g.Pick(0, 4, 20); i > 0; i-- {
			w.fields = append(w.fields[:len(w.fields):len(w.fields)], fmt.Sprintf("field%d", i))
		}
		for i := g.Pick(0, 40, 120, 400); i > 0; i-- {
			w.docs = append(w.docs, fmt.Sprintf("doc%d", i))
		}
		for i := g.Pick(0, 40, 120); i > 0; i-- {
			w.terms = append(w.terms, fmt.Sprintf("term%d", i))
		}
	}
	w.maxTF = g.Pick(1, 3, 6, 12)
	w.bigN = g.Chance(0.2)
	w.gaps = g.Intn(3)
	w.assign(1)
	return w
}

// alike chooses names that run together: field, term and document joined in any way are easily mistaken for others.
func (w *wl) alike() {
	g := w.g
	sep := []string{"", "", "", ":", "|", "_", "-", ".", " ", "/", ",", "#", "\t", "\n", "\x01"}[g.Intn(15)]
	piece := []string{"1", "11", "a", "aa", "a1"}
	draw := func(n int) (out []string) {
		have := map[string]bool{}
		for try := 0; try < 40 && len(out) < n; try++ {
			x := piece[g.Intn(len(piece))]
			for g.Chance(0.5) {
				x += sep + piece[g.Intn(len(piece))]
			}
			if !have[x] && len(x) < 30 {
				have[x] = true
				out = append(out, x)
			}
		}
		return
	}
	w.fields, w.docs, w.terms = draw(len(w.fields)), draw(len(w.docs)), draw(len(w.terms))
}

func (w *wl) assign(n int) {
	w.clients = n
	for i, f := range w.fields {
		w.owner[f] = i % n
	}
}

func (w *wl) tf() []TF {
	g := w.g
	n := g.Range(0, w.maxTF)
	if g.Chance(0.9) && n == 0 {
		n = 1
	}
	seen := map[string]bool{}
	var out []TF
	for i := 0; i < n; i++ {
		t := w.terms[g.Intn(len(w.terms))]
		if seen[t] {
			continue
		}
		seen[t] = true
		c := g.Range(1, 5)
		if w.bigN && g.Chance(0.2) {
			c = g.Pick(127, 128, 255, 256, 40000, 65535, 65536, 1000000)
		}
		out = append(out, TF{t, c})
	}
	return out
}

// many draws a save with more terms than any buffer holds.
func (w *wl) many(n int) []TF {
	var out []TF
	for i := 0; i < n; i++ {
		out = append(out, TF{fmt.Sprintf("m%d", i), 1 + i%3})
	}
	return out
}

// save draws one save; ok is false if everything has been saved already.
func (w *wl) save() (Op, bool) {
	g := w.g
	for try := 0; try < 30; try++ {
		d, f := w.docs[g.Intn(len(w.docs))], w.fields[g.Intn(len(w.fields))]
		k := d + "\x00" + f
		if w.used[k] && !w.resave {
			continue
		}
		w.used[k] = true
		o := Op{K: "save", C: w.owner[f], D: d, F: f, T: w.tf()}
		if w.shared {
			o.C = g.Intn(w.clients)
		}
		for _, t := range o.T {
			o.L += t.N
		}
		if g.Chance(0.1) {
			o.L = g.Pick(0, 1, 300, 70000, 1<<20, 1<<30, 1<<31-1)
		}
		return o, true
	}
	return Op{}, false
}

// batch draws n saves with gaps.
func (w *wl) batch(n int) (ops []Op) {
	if w.big && n > 2 {
		if n *= w.times; n > 400 {
			n = 400
		}
	}
	for i := 0; i < n; i++ {
		o, ok := w.save()
		if !ok {
			// fresh documents keep coming
			w.docs = append(w.docs, fmt.Sprintf("n%d", len(w.docs)))
			if o, ok = w.save(); !ok {
				continue
			}
		}
		if d := w.gap(); d > 0 {
			ops = append(ops, Op{K: "sleep", C: o.C, N: d})
		}
		ops = append(ops, o)
	}
	return
}

func (w *wl) gap() int64 {
	g := w.g
	switch w.gaps {
	case 1:
		if g.Chance(0.3) {
			return g.Int63n(3 * sec)
		}
	case 2:
		if g.Chance(0.4) {
			return g.Int63n(9 * sec)
		}
	}
	return 0
}

// query draws a query over what may have been saved.
func (w *wl) query(c int) Op {
	g := w.g
	f := w.fields[g.Intn(len(w.fields))]
	t := w.terms[g.Intn(len(w.terms))]
	o := Op{C: c, F: f}
	switch g.Intn(8) {
	case 0:
		o.K = "size"
	case 1:
		o.K = "len"
	case 2, 3:
		o.K, o.T = "docs", []TF{{t, 1}}
	case 4:
		o.K = "index"
	case 5:
		o.K = "nft"
		for i := 0; i < g.Range(1, 4); i++ {
			o.X = append(o.X, w.terms[g.Intn(len(w.terms))])
		}
		if w.big && g.Chance(0.3) {
			o.X = append([]string{}, w.terms...)
		}
	default:
		o.K = "fields"
		for i := 0; i < g.Range(1, 5); i++ {
			o.X = append(o.X, w.docs[g.Intn(len(w.docs))])
		}
		if w.big && g.Chance(0.3) {
			o.X = append([]string{}, w.docs...)
		}
	}
	return o
}

// even leaves slow disks and stalled tasks to smaller workloads.
func (w *wl) even(p *Plan) *Plan {
	if w.big {
		delete(p.P, "lat_ppm")
		delete(p.P, "lat_max")
		p.Sched.Stall, p.Sched.StallMax = 0, 0
	}
	return p
}

func ctl(k string, n int64) Op { return Op{K: k, C: -1, N: n} }
func fault(f simos.Fault) Op   { return Op{K: "fault", C: -1, Ft: &f} }

func cacheSize(g *simrt.Rng) int64 { return int64(g.Pick(0, 1, 1, 2, 3, 5, 50, 300000)) }

// latency makes the disk a little slow in some runs.
func latency(g *simrt.Rng, p *Plan, max int64) {
	if g.Chance(0.5) {
		p.P["lat_ppm"] = int64(g.Pick(20000, 200000))
		p.P["lat_max"] = max
	}
	p.P["chunk"] = int64(g.Range(1, 4))
}

// crashCycles: saves, wait, crash, reopen, check; several times over.
func crashCycles(g *simrt.Rng, w *wl, power bool, settle int64) (ops []Op) {
	n := g.Pick(1, 1, 2, 2, 3, 4)
	how := "kill"
	if power {
		how = "power"
	}
	ops = append(ops, ctl("open", cacheSize(g)))
	for c := 0; c < n; c++ {
		k := g.Pick(1, 2, 4, 8, 16)
		ops = append(ops, w.batch(k)...)
		switch g.Intn(5) {
		case 0: // at once
			ops = append(ops, ctl(how, 0))
		case 1, 2: // when just settled, or somewhere around
			ops = append(ops, ctl("wait", settle+g.Int63n(10*sec)), ctl(how, 0))
		case 3:
			ops = append(ops, ctl("wait", g.Int63n(2*settle)))
			ops = append(ops, w.batch(g.Range(1, 6))...)
			ops = append(ops, ctl("wait", g.Int63n(settle)), ctl(how, 0))
		case 4: // in the middle of the saves
			ops = append(ops, ctl("wait", g.Int63n(settle)))
			ops = append(ops, w.batch(g.Range(1, 8))...)
			ops = append(ops, ctl(how, 1+g.Int63n(40*sec)))
		}
		if g.Chance(0.15) { // crash again right after, or while, opening
			ops = append(ops, ctl("open", cacheSize(g)), ctl(how, 1+g.Int63n(20*sec)))
		}
		ops = append(ops, ctl("open", cacheSize(g)))
	}
	if g.Chance(0.4) {
		ops = append(ops, w.batch(g.Range(1, 4))...)
		ops = append(ops, ctl("check", 0))
	}
	return
}

func genSettle(kind string) func(g *simrt.Rng, tier string, i int) *Plan {
	return func(g *simrt.Rng, tier string, i int) *Plan {
		if g.Chance(0.15) {
			return genThreads(g, tier, i) // several threads saving to the same fields
		}
		p := &Plan{P: map[string]int64{}}
		w := newWL(g)
		if g.Chance(0.3) {
			w.assign(g.Range(1, 3))
		}
		switch kind {
		case "docs":
			if g.Chance(0.5) {
				w.resave = true
				p.P["nototals"] = 1
			}
			if g.Chance(0.5) && len(w.docs) > 3 {
				w.docs = w.docs[:3] // many fields per document
			}
		case "terms":
			if g.Chance(0.3) && len(w.terms) > 3 {
				w.terms = w.terms[:3]
			}
		}
		latency(g, p, 5*ms)
		p.Sched = schedGen(g, w.clients > 1)
		if g.Chance(0.2) {
			p.Sched.Stall, p.Sched.StallMax = 0.0005, 20*sec
		}
		p.P["root"] = int64(g.Pick(0, 0, 0, 1, 2))
		p.Ops = crashCycles(g, w, false, 30*sec)
		if g.Chance(0.06) {
			for j := range p.Ops {
				if p.Ops[j].K == "save" {
					p.Ops[j].T = w.many(g.Pick(90, 101, 130, 250))
					break
				}
			}
		}
		return w.even(p)
	}
}

func genKill(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec, "grows": 1}}
	w := newWL(g)
	if g.Chance(0.3) {
		w.assign(g.Range(1, 3))
	}
	if g.Chance(0.2) {
		w.resave = true
		p.P["nototals"] = 1
	}
	latency(g, p, 20*ms)
	p.Sched = schedGen(g, w.clients > 1)
	p.P["snaps"] = int64(g.Range(3, 8))
	p.P["snapgap"] = int64(g.Pick(0, 3, 8, 20, 60))
	ops := []Op{ctl("open", cacheSize(g))}
	ops = append(ops, w.batch(g.Pick(1, 3, 6, 12))...)
	ops = append(ops, ctl("wait", g.Int63n(50*sec)))
	ops = append(ops, w.batch(g.Pick(0, 1, 3, 6))...)
	// a kill inside some operation of the flushes and merges that follow; then opening may be hit as well
	kinds := []string{"", "w", "rename", "write", "create", "remove", "mkdir", "fsync"}
	ops = append(ops, ctl("bg", 0), fault(simos.Fault{Kind: "kill", Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 4, 8, 15, 30)}), ctl("wait", 20*sec+g.Int63n(40*sec)))
	n := g.Range(0, 3)
	for k := 0; k < n; k++ {
		ops = append(ops, ctl("kill", 0), fault(simos.Fault{Kind: "kill", Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 3, 5, 9, 16, 40)}), ctl("open", cacheSize(g)))
		ops = append(ops, w.batch(g.Pick(0, 1, 3))...)
		ops = append(ops, ctl("wait", g.Int63n(40*sec)))
	}
	ops = append(ops, ctl("faultsoff", 0), ctl("open", cacheSize(g)), ctl("wait", 35*sec), ctl("check", 0))
	p.Ops = ops
	return w.even(p)
}

func genPower(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec}}
	w := newWL(g)
	if g.Chance(0.5) {
		p.P["perdir"] = 1
	}
	if g.Chance(0.3) {
		w.assign(g.Range(1, 3))
	}
	if g.Chance(0.2) {
		w.resave = true
		p.P["nototals"] = 1
	}
	latency(g, p, 5*ms)
	p.Sched = schedGen(g, w.clients > 1)
	if g.Chance(0.5) {
		p.Ops = crashCycles(g, w, true, 30*sec)
		return w.even(p)
	}
	ops := []Op{ctl("open", cacheSize(g))}
	if g.Chance(0.25) { // what no merge has reached yet
		p.P["mayexit"] = 1
		for k := 0; k < g.Range(1, 2); k++ {
			ops = append(ops, fault(simos.Fault{Kind: []string{"eio", "enospc"}[g.Intn(2)], Count: -1, Dur: 1000 * sec, Op: "rename", Match: "/index"}))
			for j := 0; j < g.Range(1, 4); j++ {
				ops = append(ops, w.batch(g.Range(1, 4))...)
				ops = append(ops, ctl("wait", g.Int63n(20*sec)))
			}
			ops = append(ops, ctl("wait", 31*sec), ctl("power", 0), ctl("faultsoff", 0), ctl("open", cacheSize(g)), ctl("check", 0))
			if g.Chance(0.5) {
				ops = append(ops, ctl("wait", g.Int63n(40*sec)), ctl("power", 0), ctl("open", cacheSize(g)), ctl("check", 0))
			}
		}
		p.Ops = ops
		return w.even(p)
	}
	ops = append(ops, w.batch(g.Pick(1, 3, 6, 12))...)
	ops = append(ops, ctl("wait", 10*sec+g.Int63n(60*sec)))
	ops = append(ops, w.batch(g.Pick(0, 1, 3, 6))...)
	kinds := []string{"", "w", "rename", "write", "create", "remove", "fsync"}
	for k := 0; k < g.Range(1, 3); k++ {
		ops = append(ops, ctl("bg", 0), fault(simos.Fault{Kind: "power", Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 4, 8, 15, 30)}), ctl("wait", g.Int63n(90*sec)))
		ops = append(ops, ctl("open", cacheSize(g)))
		ops = append(ops, w.batch(g.Pick(0, 1, 3))...)
	}
	ops = append(ops, ctl("faultsoff", 0), ctl("wait", g.Int63n(50*sec)), ctl("power", 0), ctl("open", cacheSize(g)), ctl("wait", 35*sec), ctl("check", 0))
	p.Ops = ops
	return w.even(p)
}

func genFaults(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec, "mayexit": 1}}
	w := newWL(g)
	if g.Chance(0.3) {
		w.assign(g.Range(1, 3))
	}
	if g.Chance(0.2) {
		w.resave = true
		p.P["nototals"] = 1
	}
	latency(g, p, 5*ms)
	p.Sched = schedGen(g, w.clients > 1)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 3); k++ {
		ops = append(ops, w.batch(g.Pick(1, 3, 6, 12))...)
		ops = append(ops, ctl("wait", 31*sec+g.Int63n(10*sec)))
		if g.Chance(0.5) { // open afresh: cold cache, so that reads go to the disk
			ops = append(ops, ctl("kill", 0), ctl("open", cacheSize(g)))
		}
		n := g.Range(1, 2)
		for j := 0; j < n; j++ {
			f := simos.Fault{Kind: []string{"eio", "eio", "enospc", "short"}[g.Intn(4)]}
			switch g.Intn(3) {
			case 0:
				f.Op = []string{"write", "create", "rename", "remove", "mkdir", "fsync", "w"}[g.Intn(7)]
			case 1:
				f.Op = []string{"read", "open", "readdir", "stat", "r"}[g.Intn(5)]
			}
			f.Nth = g.Pick(0, 0, 1, 3, 7, 15)
			if g.Chance(0.5) {
				f.Count, f.Dur = -1, 1+g.Int63n(40*sec)
			} else {
				f.Count = g.Pick(1, 1, 2, 5)
			}
			if g.Chance(0.4) {
				f.Match = []string{"docs", "index", "nfterm", "/metrics", "temp"}[g.Intn(5)]
			}
			ops = append(ops, fault(f))
		}
		if g.Chance(0.2) { // a slow flush that fails in the end, and meanwhile more for the same documents
			m := []string{"docs", "docs", "nfterm", "/metrics", "temp"}[g.Intn(5)]
			ops = append(ops, fault(simos.Fault{Kind: "slow", Op: []string{"write", "create", "fsync", "rename"}[g.Intn(4)], Match: m, Dur: 1*sec + g.Int63n(6*sec), Count: g.Range(1, 3)}),
				fault(simos.Fault{Kind: "eio", Op: "rename", Match: m, Count: g.Range(1, 3)}))
			for j := 0; j < g.Range(3, 12); j++ {
				b := w.batch(1)
				if len(b) > 0 {
					ops = append(ops, Op{K: "sleep", C: b[0].C, N: g.Int63n(3 * sec)})
				}
				ops = append(ops, b...)
			}
		}
		// during the fault: more fields of documents already there, reads, a crash
		ops = append(ops, w.batch(g.Pick(0, 1, 3, 6))...)
		for j := 0; j < g.Intn(5); j++ {
			ops = append(ops, w.query(g.Intn(w.clients)))
		}
		ops = append(ops, ctl("wait", g.Int63n(35*sec)))
		if g.Chance(0.4) {
			ops = append(ops, ctl("kill", 0), ctl("open", cacheSize(g)), ctl("wait", g.Int63n(30*sec)))
		}
		ops = append(ops, ctl("faultsoff", 0), ctl("check", 0))
		if g.Chance(0.5) {
			ops = append(ops, ctl("wait", g.Int63n(int64(g.Pick(40, 40, 100))*sec)))
		}
		ops = append(ops, ctl("kill", 0), ctl("open", cacheSize(g)))
	}
	p.Ops = ops
	return w.even(p)
}

func genProgress(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"progress": 1, "w": 30 * sec}}
	w := newWL(g)
	nc := g.Range(1, 4)
	w.assign(nc)
	if g.Chance(0.4) {
		w.shared, p.P["multi"] = true, 1
	}
	if g.Chance(0.6) {
		p.P["lat_ppm"] = int64(g.Pick(50000, 300000, 1000000))
		p.P["lat_max"] = int64(g.Pick(1, 10, 50)) * ms
	}
	p.P["chunk"] = int64(g.Range(1, 4))
	p.Sched = schedGen(g, true)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 4); k++ {
		for j := 0; j < g.Range(0, 2); j++ {
			f := simos.Fault{Kind: "stall", Dur: 1 + g.Int63n(int64(g.Pick(5, 60, 300))*sec), Nth: g.Pick(0, 1, 3, 8, 20)}
			if g.Chance(0.4) {
				f.Op = []string{"w", "r", "rename", "write", "readdir", "fsync", "create", "stat"}[g.Intn(8)]
			}
			if g.Chance(0.3) {
				f.Match = []string{"docs", "index", "nfterm", "/metrics", "temp"}[g.Intn(5)]
			}
			ops = append(ops, fault(f))
		}
		ops = append(ops, w.batch(g.Pick(2, 6, 12))...)
		if g.Chance(0.2) {
			f := w.fields[0]
			ops = append(ops, Op{K: "save", C: w.owner[f], D: fmt.Sprintf("big%d", k), F: f, T: w.many(g.Pick(101, 220)), L: 500})
		}
		for j := 0; j < g.Intn(8); j++ {
			ops = append(ops, w.query(g.Intn(nc)))
		}
		if g.Chance(0.5) {
			ops = append(ops, ctl("wait", g.Int63n(40*sec)))
		}
	}
	ops = append(ops, ctl("ondisk", 0))
	p.Ops = ops
	return w.even(p)
}

func genDamage(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec}}
	w := newWL(g)
	p.Sched = schedGen(g, false)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 3); k++ {
		ops = append(ops, w.batch(g.Pick(1, 3, 6, 12))...)
		ops = append(ops, ctl("wait", g.Int63n(30*sec)))
	}
	fragments := g.Chance(0.25) // not merged yet
	if fragments {
		p.P["mayexit"] = 1
		ops = append(ops, fault(simos.Fault{Kind: []string{"eio", "enospc"}[g.Intn(2)], Count: -1, Dur: 1000 * sec, Op: "rename", Match: "/index"}))
		ops = append(ops, w.batch(g.Pick(1, 3, 6))...)
	}
	ops = append(ops, ctl("wait", 30*sec+g.Int63n(15*sec)), ctl("kill", 0), ctl("faultsoff", 0))
	p.P["trials"] = int64(g.Pick(0, 7, 15))
	d := Op{K: "damage", C: -1, N: int64(g.U64() >> 20), L: g.Pick(0, 0, 0, 1, 3)}
	if fragments && g.Chance(0.7) {
		d.F = "/temp/"
	} else if g.Chance(0.6) {
		d.F = []string{"docs/metrics/", "/index", "/nfterm", "/metrics", "/temp/"}[g.Intn(5)]
	}
	p.Ops = append(ops, d)
	return w.even(p)
}

func genMerge(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec}}
	w := newWL(g)
	if g.Chance(0.5) {
		w.assign(g.Range(1, 3))
	}
	latency(g, p, 50*ms)
	p.Sched = schedGen(g, w.clients > 1)
	p.P["snaps"] = int64(g.Range(2, 7))
	p.P["snapgap"] = int64(g.Pick(2, 5, 10, 25))
	p.P["snapmatch"], p.P["grows"] = 1, 1
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 5); k++ {
		if g.Chance(0.2) {
			ops = append(ops, slowOps(g, 4*sec))
		}
		ops = append(ops, w.batch(g.Pick(1, 3, 6, 12))...)
		for j := 0; j < g.Intn(4); j++ {
			o := w.query(g.Intn(w.clients))
			o.K, o.X = "index", nil
			ops = append(ops, o)
		}
		ops = append(ops, ctl("wait", g.Int63n(25*sec)))
		if g.Chance(0.3) {
			ops = append(ops, ctl("kill", 0), ctl("open", cacheSize(g)))
		}
	}
	switch g.Intn(6) {
	case 0: // no merge succeeds for a while, and meanwhile more and more is to be merged
		p.P["mayexit"] = 1
		ops = append(ops, fault(simos.Fault{Kind: []string{"eio", "enospc"}[g.Intn(2)], Count: -1, Dur: 1000 * sec, Op: "rename", Match: "/index"}))
		for k := g.Pick(2, 4, 8, 8, 40); k > 0; k-- {
			ops = append(ops, w.batch(g.Range(1, 3))...)
			ops = append(ops, ctl("wait", 13*sec+g.Int63n(10*sec)))
		}
		ops = append(ops, ctl("faultsoff", 0))
	case 1, 2, 3:
		p.P["mayexit"] = 1
		f := simos.Fault{Kind: []string{"eio", "enospc"}[g.Intn(2)], Count: g.Pick(1, 1, 2, 3), Nth: g.Pick(0, 0, 1, 3), Op: []string{"", "read", "readdir", "write", "rename", "remove", "open", "create", "fsync"}[g.Intn(9)],
			Match: []string{"temp", "index"}[g.Intn(2)]}
		ops = append(ops, fault(f), ctl("wait", 16*sec+g.Int63n(30*sec)), ctl("faultsoff", 0))
	}
	ops = append(ops, ctl("quiet", 45*sec), ctl("check", 0), ctl("kill", 0), ctl("open", cacheSize(g)), ctl("check", 0))
	p.Ops = ops
	return w.even(p)
}

// odd names: whatever a caller may use as an id or a field name.
var oddNames = []string{"", "a/b", "../x", "..", ".", "/abs", "docs", "metrics", "index", "nfterm", "temp", "raw", "a%2Fb", "%", "%%", "%41", "A", "a", "index_temp", "index_old", "metrics_temp",
	"a b", " ", "ção", "日本語", "a\\b", "x:y", "*", "~", "-", "--", "con", "a.", ".hidden", "a\nb", "q?z=1&b", "\"", "'", "a//b", "a/", "./a", "a/../b", "docs/metrics", "é", "e\u0301", "%2e%2e", "%2E", "_", "__", "d0", "d0_temp", "d0_old", "d0.tmp", "nfterm_old",
	"00000000-0000-0000-0000-000000000000", "http://x.org/a?b=c#d", "\x01", "a\tb", "C:\\x", "..\\x", "...", "field:docs", "doc$", "$HOME", "@", "=", "+", "a+b", "title_temp", "text_old", "tmp", "lost+found"}

var noise = []rune("ab./\\%_~ é日\x7f:0")

func genNames(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec}}
	w := newWL(g)
	long := g.Chance(0.4)
	pick := func(n, longest int) (out []string) {
		have := map[string]bool{}
		for len(out) < n {
			x := oddNames[g.Intn(len(oddNames))]
			switch g.Intn(8) {
			case 0:
				x += oddNames[g.Intn(len(oddNames))]
			case 1:
				x = strings.ToUpper(x)
			case 2: // raw noise
				b := make([]rune, g.Range(1, 12))
				for j := range b {
					b[j] = noise[g.Intn(len(noise))]
				}
				x = string(b)
			case 3:
				x = strings.ReplaceAll(strings.ReplaceAll(x, "%", "%25"), "/", "%2F")
			case 4:
				x += strings.Repeat("x", g.Intn(30))
			case 5: // about as long as a file name may be, or longer, once encoded or as it is; alike but for an end
				if long && longest > 255 {
					y := strings.Repeat([]string{"x", "/", "é", "%", "%41"}[g.Intn(5)], 255)
					x = []string{x + y, y + x, y[:len(y)/2] + x + y[len(y)/2:], y}[g.Intn(4)][:g.Pick(83, 84, 85, 86, 127, 128, 254, 255, 255)]
					if g.Chance(0.4) {
						x += strings.Repeat("x", g.Pick(1, 2, 200, 4000)) + oddNames[g.Intn(len(oddNames))]
					}
				}
			}
			x = strings.ToValidUTF8(x, "")
			if len(x) > longest || x == "" && !g.Chance(0.5) || have[x] || x == "never-a-field" {
				continue
			}
			have[x] = true
			out = append(out, x)
		}
		return
	}
	w.fields = pick(g.Range(1, 5), 80)
	w.docs = pick(g.Range(1, 6), 5000)
	w.assign(1)
	latency(g, p, 2*ms)
	p.Sched = schedGen(g, false)
	p.P["root"] = int64(g.Pick(0, 1, 2))
	ops := []Op{ctl("open", cacheSize(g))}
	n := g.Range(1, 3)
	for k := 0; k < n; k++ {
		m := len(w.fields) * len(w.docs)
		for j := 0; j < g.Range(1, 8) && len(w.used) < m; j++ {
			if o, ok := w.save(); ok {
				ops = append(ops, o)
			}
		}
		ops = append(ops, ctl("check", 0), ctl("wait", 31*sec+g.Int63n(20*sec)), ctl("check", 0), ctl("outside", 0), ctl("kill", 0), ctl("open", cacheSize(g)))
	}
	ops = append(ops, ctl("outside", 0))
	p.Ops = ops
	return w.even(p)
}

// slowOps makes one or two operations wait while everything else goes on.
func slowOps(g *simrt.Rng, longest int64) Op {
	f := simos.Fault{Kind: "slow", Nth: g.Pick(0, 0, 1, 2, 5, 10), Count: g.Pick(1, 1, 2), Dur: longest/4 + g.Int63n(longest-longest/4),
		Op: []string{"", "read", "readdir", "write", "rename", "remove", "open", "create", "fsync"}[g.Intn(9)], Match: []string{"", "temp", "index", "docs", "metrics", "nfterm"}[g.Intn(6)]}
	return fault(f)
}

func genAgain(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 60 * sec}}
	w := newWL(g)
	if g.Chance(0.3) {
		w.assign(g.Range(1, 3))
	}
	latency(g, p, int64(g.Pick(1, 20, 200))*ms)
	p.Sched = schedGen(g, true)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 4); k++ {
		ops = append(ops, w.batch(g.Pick(0, 1, 3, 8))...)
		ops = append(ops, ctl("wait", 30*sec+g.Int63n(20*sec)), ctl("again", cacheSize(g)), ctl("check", 0))
	}
	if g.Chance(0.5) {
		for k := g.Range(1, 2); k > 0; k-- {
			ops = append(ops, slowOps(g, 12*sec))
		}
		for k := g.Range(1, 5); k > 0; k-- {
			ops = append(ops, w.batch(g.Pick(1, 3, 8))...)
			ops = append(ops, ctl("wait", g.Int63n(14*sec)))
		}
	}
	ops = append(ops, w.batch(g.Pick(1, 3, 8, 16))...)
	ops = append(ops, ctl("wait", 61*sec+g.Int63n(30*sec)), ctl("check", 0), ctl("kill", 0), ctl("open", cacheSize(g)), ctl("check", 0))
	p.Ops = ops
	return w.even(p)
}

// genStill uses one store for long.
func genStill(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"multi": 1, "nototals": 1}}
	w := newWL(g)
	w.big = false
	w.assign(g.Range(1, 4))
	w.shared = w.clients > 1
	latency(g, p, int64(g.Pick(1, 50))*ms)
	p.Sched = schedGen(g, true)
	quiet := 61*sec + g.Int63n(15*sec)
	ops := []Op{ctl("open", cacheSize(g))}
	if g.Chance(0.5) { // not on an empty folder
		ops = append(ops, w.batch(g.Range(1, 8))...)
		ops = append(ops, ctl("wait", 35*sec), ctl("kill", 0), ctl("open", cacheSize(g)))
	}
	ops = append(ops, Op{K: "still", C: -1, N: quiet})
	faults := g.Chance(0.3)
	if faults {
		p.P["mayexit"] = 1
	}
	var same *simos.Fault
	if !faults && g.Chance(0.4) { // again and again
		same = &simos.Fault{Kind: "slow", Nth: g.Pick(0, 0, 1, 2, 5), Count: 1, Dur: int64(g.Pick(2, 6, 12, 30)) * sec,
			Op: []string{"read", "readdir", "write", "rename", "remove", "open", "create", "fsync"}[g.Intn(8)], Match: []string{"", "temp", "index", "docs", "metrics", "nfterm"}[g.Intn(6)]}
	}
	if faults && g.Chance(0.6) {
		same = &simos.Fault{Kind: "eio", Nth: g.Pick(0, 0, 1, 2), Count: g.Pick(1, 1, 3), Op: []string{"read", "read", "readdir", "open", "rename", "write", "fsync", "create", "remove"}[g.Intn(9)],
			Match: []string{"temp", "temp", "index", "docs"}[g.Intn(4)]}
	}
	for k := g.Pick(10, 20, 40); k > 0; k-- {
		switch {
		case same != nil:
			ops = append(ops, fault(*same))
		case faults && g.Chance(0.5):
			ops = append(ops, fault(simos.Fault{Kind: "eio", Op: []string{"read", "open", "rename", "write", "remove"}[g.Intn(5)], Match: []string{"docs", "docs", "temp", "index"}[g.Intn(4)], Count: g.Pick(1, 2, 5)}))
		case g.Chance(0.2):
			ops = append(ops, slowOps(g, 6*sec))
		}
		for j := g.Pick(1, 2, 4, 8); j > 0; j-- {
			ops = append(ops, w.batch(1)...)
			for g.Chance(0.6) {
				ops = append(ops, w.query(g.Intn(w.clients)))
			}
		}
		if g.Chance(0.7) {
			ops = append(ops, ctl("wait", g.Int63n(20*sec)))
		}
	}
	p.Ops = append(ops, ctl("faultsoff", 0), Op{K: "still", C: -1, N: quiet})
	return p
}

// genLeft crashes a store over and over while it writes.
func genLeft(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec, "nototals": 1}}
	w := newWL(g)
	w.big, w.resave = false, true
	w.gaps = 0
	if n := g.Range(1, 2); len(w.fields) > n {
		w.fields = w.fields[:n]
	}
	if n := g.Range(1, 3); len(w.docs) > n {
		w.docs = w.docs[:n]
	}
	if len(w.terms) > 4 {
		w.terms = w.terms[:4]
	}
	w.assign(1)
	latency(g, p, 5*ms)
	p.Sched = schedGen(g, false)
	p.P["root"] = int64(g.Pick(0, 0, 1, 2))
	kinds := []string{"", "w", "rename", "rename", "write", "create", "remove", "fsync"}
	where := []string{"", "", "docs", "index", "metrics", "nfterm", "temp"}
	op, match := kinds[g.Intn(len(kinds))], ""
	if g.Chance(0.25) {
		return genFailing(g, p, w)
	}
	same := g.Chance(0.5) // the same point every time
	if same && g.Chance(0.6) {
		op, match = kinds[1+g.Intn(len(kinds)-1)], where[g.Intn(len(where))]
	}
	kill := func() Op {
		if !same {
			op, match = kinds[g.Intn(len(kinds))], ""
			if g.Chance(0.3) {
				match = where[g.Intn(len(where))]
			}
		}
		kind := "kill"
		if g.Chance(0.2) {
			kind = "power"
		}
		return fault(simos.Fault{Kind: kind, Op: op, Match: match, Nth: g.Pick(0, 0, 0, 1, 2, 3, 5, 8)})
	}
	ops := []Op{ctl("open", cacheSize(g))}
	n := g.Pick(10, 30, 45, 60)
	for c := 0; c < n; c++ {
		ops = append(ops, w.batch(g.Range(1, 3))...)
		ops = append(ops, kill(), ctl("wait", g.Int63n(25*sec)))
		if g.Chance(0.2) { // or any other moment
			ops = append(ops, ctl("faultsoff", 0), ctl("wait", g.Int63n(10*sec)))
		}
		if g.Chance(0.15) { // before it has opened
			ops = append(ops, ctl("kill", 0), kill(), ctl("open", cacheSize(g)))
		}
		ops = append(ops, ctl("faultsoff", 0), ctl("kill", 0), ctl("open", cacheSize(g)))
		if g.Chance(0.03) {
			ops = append(ops, Op{K: "tidy", C: -1, N: 45 * sec})
		}
	}
	p.Ops = append(ops, Op{K: "tidy", C: -1, N: 45 * sec}, ctl("check", 0))
	return w.even(p)
}

// genFailing has an operation on a file fail over and over, while the store goes on.
func genFailing(g *simrt.Rng, p *Plan, w *wl) *Plan {
	p.P["mayexit"] = 1
	kind := []string{"eio", "enospc", "short"}
	op := []string{"write", "rename", "fsync", "create"}
	where := []string{"", "docs", "index", "index", "index", "index", "metrics", "nfterm", "temp"}
	late := g.Chance(0.6) // when all but merges is written
	f := func() Op {
		f := simos.Fault{Op: op[g.Intn(4)], Match: where[g.Intn(len(where))], Nth: g.Pick(0, 0, 0, 1, 2), Count: g.Pick(1, 1, 2)}
		f.Kind = kind[g.Intn(2)]
		if f.Op == "write" {
			f.Kind = kind[g.Intn(3)]
		}
		if late {
			f.Match = ""
		}
		return fault(f)
	}
	same, always := f(), g.Chance(0.7)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := g.Pick(10, 30, 60); k > 0; k-- {
		if !always {
			same = f()
		}
		if late {
			if g.Chance(0.3) {
				ops = append(ops, w.batch(g.Range(1, 3))...)
				ops = append(ops, ctl("wait", 10*sec+g.Int63n(25*sec)))
			}
			ops = append(ops, same)
		} else {
			ops = append(ops, same)
			ops = append(ops, w.batch(g.Range(1, 3))...)
		}
		ops = append(ops, ctl("wait", 5*sec+g.Int63n(25*sec)), ctl("faultsoff", 0), ctl("revive", cacheSize(g)))
		if g.Chance(0.05) {
			ops = append(ops, Op{K: "tidy", C: -1, N: 45 * sec})
		}
	}
	p.Ops = append(ops, Op{K: "tidy", C: -1, N: 45 * sec}, ctl("kill", 0), ctl("open", cacheSize(g)), Op{K: "tidy", C: -1, N: 45 * sec}, ctl("check", 0))
	return w.even(p)
}

func genLive(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"nototals": 1}}
	w := newWL(g)
	w.resave = true
	if g.Chance(0.5) {
		w.assign(g.Range(1, 3))
	}
	if g.Chance(0.4) && len(w.docs) > 4 {
		w.docs = w.docs[:4]
	}
	latency(g, p, int64(g.Pick(1, 50, 1000))*ms)
	p.Sched = schedGen(g, w.clients > 1)
	if g.Chance(0.3) {
		p.Sched.Stall, p.Sched.StallMax = 0.001, 15*sec
	}
	ops := []Op{ctl("open", int64(g.Pick(0, 0, 1, 1, 2, 3, 5, 50)))}
	for k := 0; k < g.Range(1, 4); k++ {
		if g.Chance(0.3) {
			ops = append(ops, slowOps(g, 6*sec))
		}
		for j := 0; j < g.Pick(4, 10, 20); j++ {
			ops = append(ops, w.batch(1)...)
			if g.Chance(0.6) {
				o := w.query(g.Intn(w.clients))
				if o.K != "fields" {
					o.K, o.T, o.X = "fields", nil, nil
					for q := 0; q < g.Range(1, 6); q++ {
						o.X = append(o.X, w.docs[g.Intn(len(w.docs))])
					}
				}
				ops = append(ops, o)
			}
		}
		if g.Chance(0.7) {
			ops = append(ops, ctl("wait", g.Int63n(20*sec)))
		}
		ops = append(ops, ctl("check", 0))
		if g.Chance(0.2) && p.P["lat_max"] <= 100*ms {
			ops = append(ops, ctl("kill", 0), ctl("open", int64(g.Pick(0, 1, 2, 5))))
		}
	}
	p.Ops = ops
	return w.even(p)
}

func genTwin(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"mem": 1}}
	w := newWL(g)
	latency(g, p, int64(g.Pick(1, 50))*ms)
	p.Sched = schedGen(g, false)
	ops := []Op{ctl("open", cacheSize(g))}
	for k := 0; k < g.Range(1, 5); k++ {
		if g.Chance(0.3) {
			ops = append(ops, slowOps(g, 6*sec))
		}
		for j := 0; j < g.Pick(3, 8, 20); j++ {
			ops = append(ops, w.batch(1)...)
			for g.Chance(0.5) {
				ops = append(ops, w.query(0))
			}
		}
		if g.Chance(0.7) {
			ops = append(ops, ctl("wait", g.Int63n(40*sec)))
		}
		ops = append(ops, ctl("check", 0))
	}
	p.Ops = ops
	return w.even(p)
}

func genThreads(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"multi": 1}}
	w := newWL(g)
	w.assign(g.Range(2, 6))
	w.shared = true
	if g.Chance(0.5) {
		w.gaps = 0
	}
	latency(g, p, int64(g.Pick(1, 50, 1000))*ms)
	p.Sched = schedGen(g, true)
	if g.Chance(0.3) {
		p.Sched.Stall, p.Sched.StallMax = 0.0005, 15*sec
	}
	ops := []Op{ctl("open", cacheSize(g))}
	settle := 31 * sec
	for k := 0; k < g.Range(1, 3); k++ {
		if g.Chance(0.3) {
			ops = append(ops, slowOps(g, 6*sec))
			settle = 60 * sec
		}
		for j := 0; j < g.Pick(4, 10, 25); j++ {
			ops = append(ops, w.batch(1)...)
			for g.Chance(0.45) {
				ops = append(ops, w.query(g.Intn(w.clients)))
			}
		}
		if g.Chance(0.3) {
			// the same number of simultaneous writers, right through a flush
			ops = append(ops, ctl("bg", 0), ctl("pause", g.Int63n(20*sec)))
		}
		ops = append(ops, ctl("check", 0))
	}
	if p.P["lat_max"] > 100*ms {
		settle = 400 * sec // such a disk needs its time
	}
	ops = append(ops, ctl("wait", settle), ctl("check", 0), ctl("kill", 0), ctl("open", cacheSize(g)), ctl("check", 0))
	p.Ops = ops
	return w.even(p)
}

func init() {
	reg(&property{id: "S01", quick: 4000, world: "disk", gen: genSettle("postings"), only: []string{"posting-lost", "posting-phantom"}})
	reg(&property{id: "S02", quick: 4000, world: "disk", gen: genSettle("totals"), only: []string{"totals"}})
	reg(&property{id: "S03", quick: 4000, world: "disk", gen: genSettle("terms"), only: []string{"nft"}})
	reg(&property{id: "S04", quick: 4000, world: "disk", gen: genSettle("docs"), only: []string{"doc", "doc-lost", "doc-stale", "doc-wrong"}})
	reg(&property{id: "S05", quick: 4000, world: "disk", gen: genKill})
	reg(&property{id: "S06", quick: 4000, world: "disk", gen: genPower})
	reg(&property{id: "S07", quick: 4000, world: "disk", gen: genFaults})
	reg(&property{id: "S08", quick: 3500, world: "disk", gen: genProgress})
	reg(&property{id: "S09", quick: 6000, world: "disk", gen: genDamage})
	reg(&property{id: "S10", quick: 3000, world: "disk", gen: genMerge})
	reg(&property{id: "S11", quick: 5000, world: "disk", gen: genNames})
	reg(&property{id: "S12", quick: 2000, world: "disk", gen: genAgain})
	reg(&property{id: "S13", quick: 2000, world: "disk", gen: genImage})
	reg(&property{id: "S14", quick: 600, world: "disk", gen: genLeft})
	reg(&property{id: "L04", quick: 1000, world: "disk", gen: genStill, only: []string{"goroutines", "open-files"}})
	reg(&property{id: "L01", quick: 6000, world: "disk", gen: genLive, only: []string{"doc", "doc-lost", "doc-stale", "doc-wrong"}})
	reg(&property{id: "L02", quick: 6000, world: "disk", gen: genTwin})
	reg(&property{id: "L03", quick: 6000, world: "disk", gen: genThreads, races: true})
}
