package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	lib "github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzclient"

	gsearch "github.com/sira-serverless-ir-arch/goirlib/search"
	"verif.local/simrt"
)

func init() { worlds["search"] = searchWorldRun }

// idxDoc is one document handed to the index.
type idxDoc struct {
	id      string
	f       map[string]*Op
	inv     int64
	ret     int64
	retNS   int64
	settled bool
	gone    bool // begun before a crash and not settled: may or may not be there, in part
}

type searchWorld struct {
	*run
	proc    *simrt.Proc
	st      lib.Storage
	inv     index.Index
	sr      gsearch.Search
	docs    []*idxDoc
	clk     int64
	clients []*simrt.Task
	first   map[string][]model.DocumentScore // query -> first answer (at rest)
	live    bool
	repeat  bool
	stop    bool
	gen     int
	mem     bool
	pending int
	murky   bool // a crash left counts that are not known exactly
}

func (w *searchWorld) tick() int64 { w.clk++; return w.clk }

func searchWorldRun(r *run) {
	w := &searchWorld{run: r, first: map[string][]model.DocumentScore{}}
	w.live = r.plan.P["live"] != 0
	w.repeat = r.plan.P["repeat"] != 0
	var pend []Op
	for i := range r.plan.Ops {
		o := r.plan.Ops[i]
		if o.C >= 0 {
			pend = append(pend, o)
			continue
		}
		w.begin(pend)
		pend = nil
		w.control(&o)
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
	}
	w.begin(pend)
	w.join()
}

func (w *searchWorld) begin(ops []Op) {
	if len(ops) == 0 || w.proc == nil || w.proc.Dead {
		return
	}
	by := map[int][]Op{}
	maxc := 0
	for _, o := range ops {
		by[o.C] = append(by[o.C], o)
		if o.C > maxc {
			maxc = o.C
		}
	}
	for c := 0; c <= maxc; c++ {
		l := by[c]
		if len(l) == 0 {
			continue
		}
		sr, inv := w.sr, w.inv
		t := w.proc.Go(fmt.Sprintf("client%d", c), func() {
			for i := range l {
				w.client(inv, sr, &l[i])
			}
		})
		t.Client = true
		w.clients = append(w.clients, t)
	}
}

func (w *searchWorld) running() bool {
	for _, t := range w.clients {
		if !t.Done() {
			return true
		}
	}
	return false
}

func (w *searchWorld) join() {
	if len(w.clients) == 0 {
		w.death()
		return
	}
	ok := w.s.WaitCond(func() bool { return w.proc.Dead || !w.running() }, 3600*sec)
	if !ok && !w.proc.Dead {
		w.res.bad("stuck", "a search or an indexing does not return within an hour: %s", short(w.s.Describe()))
		w.stop = true
	}
	for _, t := range w.clients {
		w.s.JoinTask(t)
	}
	w.clients = nil
	w.death()
}

func (w *searchWorld) death() {
	if w.proc != nil && w.proc.Dead && w.proc.Exited && !w.stop {
		w.res.bad("died", "the process ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
		w.stop = true
	}
}

func (w *searchWorld) control(o *Op) {
	switch o.K {
	case "open":
		w.join()
		if w.stop {
			return
		}
		w.open(o)
	case "kill":
		w.join()
		w.kill()
	case "wait":
		w.join()
		if w.proc != nil && !w.proc.Dead {
			w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
		}
		w.death()
	case "join":
		w.join()
	case "rest": // nothing a search started may still run
		w.join()
		w.rest()
	case "fault":
		f := *o.Ft
		f.After += w.s.Elapsed()
		w.fs.Faults = append(w.fs.Faults, &f)
	default:
		w.res.Trouble = "unknown step " + o.K
		w.stop = true
	}
}

func (w *searchWorld) kill() {
	if w.proc == nil || w.proc.Dead || w.mem {
		return
	}
	now := w.s.Elapsed()
	w.s.Kill(w.proc)
	w.res.stat("kills", 1)
	for _, d := range w.docs {
		if d.ret == 0 || d.retNS > now-30*sec {
			if !d.settled {
				d.gone = true
				w.murky = true
			}
		} else {
			d.settled = true
		}
	}
	w.fs.CloseAll()
	w.proc = nil
}

func (w *searchWorld) open(o *Op) {
	if w.proc != nil && !w.proc.Dead {
		if w.mem {
			return
		}
		w.kill()
	}
	w.gen++
	p := w.s.NewProc(fmt.Sprintf("store%d", w.gen))
	simrt.ResetGlobals()
	w.fs.Use()
	var err error
	w.mem = o.N < 0
	t := p.Go("open", func() {
		if w.mem {
			w.st = lib.NewMemory()
		} else {
			w.st, err = lib.NewDiskStore("store/", int(o.N))
		}
		if err == nil {
			w.inv = index.NewIndex(w.st)
			w.sr = gsearch.NewStandard(w.inv)
		}
	})
	w.s.WaitCond(func() bool { return t.Done() || p.Dead }, 1200*sec)
	w.s.JoinTask(t)
	w.proc = p
	if p.Dead || err != nil || !t.Done() {
		w.res.bad("open", "opening the folder failed: %v %s", err, p.ExitMsg)
		w.stop = true
	}
}

func (w *searchWorld) client(inv index.Index, sr gsearch.Search, o *Op) {
	switch o.K {
	case "idx":
		d := &idxDoc{id: o.D, f: map[string]*Op{}, inv: w.tick()}
		var nd model.NormalizedDocument
		for i := range o.S {
			s := &o.S[i]
			if d.f[s.F] != nil {
				continue
			}
			d.f[s.F] = s
			nd.Fields = append(nd.Fields, s.field())
		}
		w.docs = append(w.docs, d)
		w.s.Event("index", o.D)
		inv.IndexDocument(o.D, nd)
		d.ret, d.retNS = w.tick(), w.s.Elapsed()
		w.s.Event("indexed", o.D)
		w.res.stat("indexed", 1)
	case "sleep":
		simrt.SleepNS(o.N)
	case "search":
		w.search(sr, o)
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

func (o *Op) queries() (q []model.Query) {
	for _, s := range o.Q {
		q = append(q, model.Query{FieldName: s.F, Boost: s.Boost, Terms: append([]string(nil), s.Terms...)})
	}
	return
}

func (w *searchWorld) search(sr gsearch.Search, o *Op) {
	inv := w.tick()
	w.s.Event("search", o.Q)
	got := zzclient.Search(sr, o.queries())
	ret := w.tick()
	w.s.Event("searched", len(got))
	w.res.stat("searches", 1)
	w.res.stat("hits", int64(len(got)))
	for _, g := range got {
		w.res.State = w.res.State*1099511628211 ^ hash64(g.Id) ^ math.Float64bits(g.Score)
	}
	if w.live || w.murky {
		w.judgeLive(o, got, inv, ret)
		return
	}
	if w.repeat {
		k := fmt.Sprintf("%q", o.Q)
		if f, ok := w.first[k]; ok {
			w.res.stat("repeats", 1)
			if len(f) != len(got) {
				w.res.bad("unstable", "the same query returned %d documents, earlier %d: %s", len(got), len(f), short(k))
				return
			}
			for i := range f {
				if f[i].Id != got[i].Id {
					w.res.bad("unstable", "rank %d of the same query is %q (score %v), earlier %q (score %v): %s", i+1, got[i].Id, got[i].Score, f[i].Id, f[i].Score, short(k))
					return
				}
				if math.Float64bits(f[i].Score) != math.Float64bits(got[i].Score) {
					w.res.bad("unstable", "the score of %q for the same query is %v, earlier %v", f[i].Id, got[i].Score, f[i].Score)
					return
				}
			}
		} else {
			w.first[k] = got
		}
		return
	}
	exp := w.expect(o.Q)
	checkRanking(w.res, got, exp, short(fmt.Sprintf("%q", o.Q)))
}

// expect computes every matching document's score from the plain definition.
func (w *searchWorld) expect(q []SubQ) map[string]float64 {
	out := map[string]float64{}
	for _, s := range q {
		n, length := 0, 0
		df := map[string]int{}
		for _, d := range w.docs {
			if f := d.f[s.F]; f != nil {
				n++
				length += f.L
				for t := range tfMap(f.T) {
					df[t]++
				}
			}
		}
		for _, d := range w.docs {
			f := d.f[s.F]
			if f == nil {
				continue
			}
			tf := tfMap(f.T)
			match := false
			sum := 0.0
			for _, t := range s.Terms {
				x, in := tf[t]
				if !in {
					continue
				}
				match = true
				idf := math.Log(1 + (float64(n)-float64(df[t])+0.5)/(float64(df[t])+0.5))
				avg := float64(length) / float64(n)
				sum += idf * float64(x) * 2.2 / (float64(x) + 1.2*(1-0.75+0.75*float64(f.L)/avg))
			}
			if match {
				b := s.Boost
				if b == 0 {
					b = 1
				}
				out[d.id] += b * sum
			}
		}
	}
	return out
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))+1e-12
}

func checkRanking(res *Result, got []model.DocumentScore, exp map[string]float64, q string) {
	seen := map[string]bool{}
	for i, g := range got {
		e, ok := exp[g.Id]
		switch {
		case !ok:
			res.bad("wrong-match", "%q is returned but contains no query term in a queried field: %s", g.Id, q)
			return
		case seen[g.Id]:
			res.bad("twice", "%q is returned more than once: %s", g.Id, q)
			return
		case !near(g.Score, e):
			res.bad("score", "%q has score %v, its stored counts give %v: %s", g.Id, g.Score, e, q)
			return
		}
		seen[g.Id] = true
		if i > 0 && got[i-1].Score < g.Score {
			res.bad("order", "score %v comes before %v: %s", got[i-1].Score, g.Score, q)
			return
		}
	}
	for id := range exp {
		if !seen[id] {
			miss := []string{}
			for id := range exp {
				if !seen[id] {
					miss = append(miss, id)
				}
			}
			sort.Strings(miss)
			res.bad("missed", "matching documents are not returned: %s: %s", short(miss), q)
			return
		}
	}
}

func (d *idxDoc) matches(q []SubQ) bool {
	for _, s := range q {
		if f := d.f[s.F]; f != nil {
			tf := tfMap(f.T)
			for _, t := range s.Terms {
				if _, in := tf[t]; in {
					return true
				}
			}
		}
	}
	return false
}

func (w *searchWorld) judgeLive(o *Op, got []model.DocumentScore, inv, ret int64) {
	q := short(fmt.Sprintf("%q", o.Q))
	by := map[string]*idxDoc{}
	for _, d := range w.docs {
		by[d.id] = d
	}
	var allowed map[string][2]float64
	if !w.murky && len(by) == len(w.docs) {
		allowed = w.between(o.Q, inv, ret)
		w.res.stat("overlapping_scores", int64(len(got)))
	}
	seen := map[string]bool{}
	for i, g := range got {
		d := by[g.Id]
		a, bounded := allowed[g.Id]
		switch {
		case d == nil || d.inv > ret || !d.matches(o.Q):
			w.res.bad("wrong-match", "%q is returned but was not indexed with a query term in a queried field: %s", g.Id, q)
		case seen[g.Id]:
			w.res.bad("twice", "%q is returned more than once: %s", g.Id, q)
		case math.IsNaN(g.Score) || math.IsInf(g.Score, 0) || g.Score <= 0:
			w.res.bad("score", "%q has score %v: %s", g.Id, g.Score, q)
		case i > 0 && !(got[i-1].Score >= g.Score):
			w.res.bad("order", "score %v comes before %v: %s", got[i-1].Score, g.Score, q)
		case bounded && (g.Score < a[0] && !near(g.Score, a[0]) || g.Score > a[1] && !near(g.Score, a[1])):
			w.res.bad("score", "%q has score %v, but whatever was counted between the search's begin and end it is from %v to %v: %s", g.Id, g.Score, a[0], a[1], q)
		}
		seen[g.Id] = true
	}
	for _, d := range w.docs {
		if !d.gone && d.ret != 0 && d.ret < inv && !seen[d.id] && d.matches(o.Q) {
			w.res.bad("missed", "%q, indexed before the search began, is not returned: %s", d.id, q)
		}
	}
}

// between gives the least and the highest score of every document, whichever of the documents that were being indexed
// between inv and ret each single count included.
func (w *searchWorld) between(q []SubQ, inv, ret int64) map[string][2]float64 {
	out := map[string][2]float64{}
	for _, s := range q {
		var n, length [2]float64
		df := map[string][2]float64{}
		for _, d := range w.docs {
			f := d.f[s.F]
			if f == nil || d.inv > ret {
				continue
			}
			for i := 0; i < 2; i++ {
				if i == 1 || d.ret != 0 && d.ret < inv {
					n[i]++
					length[i] += float64(f.L)
					for t := range tfMap(f.T) {
						x := df[t]
						x[i]++
						df[t] = x
					}
				}
			}
		}
		for _, d := range w.docs {
			f := d.f[s.F]
			if f == nil || d.inv > ret {
				continue
			}
			tf := tfMap(f.T)
			var sum [2]float64
			match := false
			for _, t := range s.Terms {
				x, in := tf[t]
				if !in {
					continue
				}
				match = true
				for i := 0; i < 2; i++ {
					rel := 0.0 // relative length
					if avg := length[i] / n[1-i]; n[1-i] > 0 && f.L > 0 && (i == 0 || length[0] > 0) {
						rel = float64(f.L) / avg
					}
					part := float64(x) * 2.2 / (float64(x) + 1.2*(1-0.75+0.75*rel))
					if idf := math.Log((n[i] + 1) / (df[t][1-i] + 0.5)); idf > 0 {
						sum[i] += idf * part
					}
				}
			}
			if !match {
				continue
			}
			b := s.Boost
			if b == 0 {
				b = 1
			}
			if d.ret == 0 || d.ret > inv { // this field may not have been found yet
				sum[0] = 0
			}
			x := out[d.id]
			out[d.id] = [2]float64{x[0] + b*sum[0], x[1] + b*sum[1]}
		}
	}
	return out
}

func (w *searchWorld) rest() {
	if w.proc == nil || w.proc.Dead {
		return
	}
	p := w.proc
	// whatever the clients' calls started must be gone; a goroutine on its last steps gets a second
	w.s.WaitCond(func() bool { return p.Dead }, 1*sec)
	w.res.stat("leak_checks", 1)
	for _, t := range p.TaskList() {
		if t.Root.Client && t != t.Root {
			w.res.bad("leak", "a goroutine started by a finished search still runs: %s, waiting: %s", t.Name, t.Waiting())
		}
	}
}

// ---- plans ----

type corpus struct {
	g      *simrt.Rng
	fields []string
	terms  []string
	n      int
	dup    bool
	last   []Op
}

func newCorpus(g *simrt.Rng) *corpus {
	c := &corpus{g: g}
	pool := []string{"title", "text", "abstract", "body"}
	c.fields = pool[:g.Range(1, 4)]
	for i := 0; i < g.Pick(1, 2, 3, 6, 12); i++ {
		c.terms = append(c.terms, fmt.Sprintf("w%d", i))
	}
	if g.Chance(0.1) {
		c.terms = append(c.terms, []string{"", " ", "a b", "ção", "'", strings.Repeat("longo", 60), "W0", "w"}[g.Intn(8)])
	}
	c.dup = g.Chance(0.6)
	return c
}

func (c *corpus) doc(client int) Op {
	g := c.g
	o := Op{K: "idx", C: client, D: fmt.Sprintf("d%d", c.n)}
	if g.Chance(0.1) {
		o.D = fmt.Sprintf("z/%d", c.n)
	}
	c.n++
	if c.dup && c.last != nil && g.Chance(0.5) {
		o.S = c.last // the same content: equal scores
		return o
	}
	for _, f := range c.fields {
		if g.Chance(0.2) {
			continue
		}
		s := Op{K: "save", F: f}
		seen := map[string]bool{}
		for k := 0; k < g.Range(1, 6); k++ {
			t := c.terms[g.Intn(len(c.terms))]
			if !seen[t] {
				seen[t] = true
				n := g.Pick(1, 1, 1, 2, 3, 9)
				s.T = append(s.T, TF{t, n})
				s.L += n
			}
		}
		s.L += g.Pick(0, 0, 0, 1, 7, 100)
		o.S = append(o.S, s)
	}
	if len(o.S) == 0 {
		o.S = []Op{{K: "save", F: c.fields[0], L: 1, T: []TF{{c.terms[0], 1}}}}
	}
	c.last = o.S
	return o
}

func (c *corpus) query(client int) Op {
	g := c.g
	o := Op{K: "search", C: client}
	n := g.Pick(1, 1, 2, 2, 3, 4, 6)
	if g.Chance(0.03) {
		n = 0
	} else if g.Chance(0.02) {
		n = g.Range(10, 40)
	}
	if c.n > 100 && n > 3 {
		n = 3
	}
	for i := 0; i < n; i++ {
		s := SubQ{F: c.fields[g.Intn(len(c.fields))], Boost: []float64{0, 1, 1, 0.5, 2, 3.7, 0.1, 1000, 1e-6}[g.Intn(9)]}
		if g.Chance(0.05) {
			s.F = "nofield"
		}
		k := g.Pick(1, 1, 2, 3, 5, 9)
		if g.Chance(0.06) {
			k = 0
		} else if c.n <= 100 && g.Chance(0.06) {
			k = g.Range(15, 45)
		}
		for j := 0; j < k; j++ {
			if g.Chance(0.12) {
				s.Terms = append(s.Terms, fmt.Sprintf("unknown%d", g.Intn(3)))
			} else {
				s.Terms = append(s.Terms, c.terms[g.Intn(len(c.terms))])
			}
		}
		o.Q = append(o.Q, s)
	}
	return o
}

func genSearch(kind string) func(g *simrt.Rng, tier string, i int) *Plan {
	return func(g *simrt.Rng, tier string, i int) *Plan {
		p := &Plan{P: map[string]int64{}}
		c := newCorpus(g)
		cache := int64(g.Pick(-1, -1, 0, 1, 2, 5, 50, 300000))
		latency(g, p, int64(g.Pick(1, 20))*ms)
		p.Sched = schedGen(g, true)
		nd := g.Pick(1, 2, 4, 8, 15, 30)
		if g.Chance(0.04) || kind == "ends" && g.Chance(0.06) {
			nd = g.Pick(120, 120, 120, 300, 300, 700)
			p.P["lat_ppm"] = 0
		}
		ops := []Op{ctl("open", cache)}
		for j := 0; j < nd; j++ {
			ops = append(ops, c.doc(0))
		}
		ops = append(ops, ctl("join", 0))
		reopen := func() {
			if cache >= 0 && g.Chance(0.4) {
				cache = int64(g.Pick(0, 1, 2, 5, 50))
				ops = append(ops, ctl("wait", 31*sec+g.Int63n(10*sec)), ctl("kill", 0), ctl("open", cache))
			} else if g.Chance(0.3) {
				ops = append(ops, ctl("wait", g.Int63n(40*sec)))
			}
		}
		reopen()
		switch kind {
		case "exact":
			for k := 0; k < g.Range(1, 3); k++ {
				nc := g.Pick(1, 1, 2, 3)
				for j := 0; j < g.Range(1, 6); j++ {
					ops = append(ops, c.query(g.Intn(nc)))
				}
				ops = append(ops, ctl("join", 0))
				if g.Chance(0.3) {
					for j := 0; j < g.Range(1, 4); j++ {
						ops = append(ops, c.doc(0))
					}
					ops = append(ops, ctl("join", 0))
				}
				reopen()
			}
		case "repeat":
			p.P["repeat"] = 1
			var qs []Op
			for j := 0; j < g.Range(1, 3); j++ {
				qs = append(qs, c.query(0))
			}
			for k := 0; k < g.Range(1, 3); k++ {
				nc := g.Pick(1, 2, 3, 4)
				for j := 0; j < g.Range(2, 7); j++ {
					q := qs[g.Intn(len(qs))]
					q.C = g.Intn(nc)
					ops = append(ops, q)
				}
				ops = append(ops, ctl("join", 0))
				reopen()
			}
		case "ends":
			for k := 0; k < g.Range(1, 3); k++ {
				nc := g.Pick(1, 1, 2, 4)
				for j := 0; j < g.Range(1, 5); j++ {
					q := c.query(g.Intn(nc))
					if g.Chance(0.2) && len(q.Q) > 0 {
						for len(q.Q[0].Terms) < 60 {
							q.Q[0].Terms = append(q.Q[0].Terms, c.terms[g.Intn(len(c.terms))])
						}
					}
					ops = append(ops, q)
				}
				ops = append(ops, ctl("rest", 0))
			}
		}
		p.Ops = ops
		return p
	}
}

func genSearchLive(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"live": 1}}
	c := newCorpus(g)
	latency(g, p, int64(g.Pick(1, 50))*ms)
	p.Sched = schedGen(g, true)
	if g.Chance(0.3) {
		p.Sched.Stall, p.Sched.StallMax = 0.0005, 15*sec
	}
	cache := int64(g.Pick(0, 1, 2, 5, 50, 300000))
	ops := []Op{ctl("open", cache)}
	for j := 0; j < g.Range(0, 5); j++ {
		ops = append(ops, c.doc(0))
	}
	for k := 0; k < g.Range(1, 3); k++ {
		nc := g.Range(2, 5)
		if g.Chance(0.2) {
			ops = append(ops, slowOps(g, 6*sec))
		}
		for j := 0; j < g.Pick(4, 10, 20); j++ {
			cl := g.Intn(nc)
			if g.Chance(0.45) {
				q := c.query(cl)
				if len(q.Q) > 3 {
					q.Q = q.Q[:3]
				}
				ops = append(ops, q)
			} else {
				ops = append(ops, c.doc(cl))
			}
			if g.Chance(0.15) {
				ops = append(ops, Op{K: "sleep", C: cl, N: g.Int63n(8 * sec)})
			}
		}
		ops = append(ops, ctl("join", 0))
		if g.Chance(0.2) {
			if g.Chance(0.5) {
				// everything is settled: a crash changes nothing
				ops = append(ops, ctl("wait", 45*sec+g.Int63n(20*sec)), ctl("kill", 0), ctl("open", cache))
			} else {
				ops = append(ops, ctl("wait", g.Int63n(50*sec)))
			}
		}
	}
	p.Ops = ops
	return p
}

func init() {
	reg(&property{id: "Q01", quick: 5000, world: "search", gen: genSearch("exact")})
	reg(&property{id: "Q02", quick: 5000, world: "search", gen: genSearch("repeat")})
	reg(&property{id: "Q03", quick: 10000, world: "search", gen: genSearchLive, races: true})
	reg(&property{id: "Q04", quick: 4000, world: "search", gen: genSearch("ends"), only: []string{"leak"}})
}
