package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/zzclient"

	"verif.local/simrt"
)

func init() { worlds["cache"] = cacheWorldRun }

const (
	kindLRU = iota
	kindRCU
	kindSync
	kindShard
)

type cacheOp struct {
	client   int
	put      bool
	frag     int // C04: number of the fragment used
	key      string
	val      int // put: the value; get: what was seen, -1 if nothing
	inv, ret int64
	invNS    int64
	retNS    int64
}

type heldPtr struct {
	p   *zzclient.Val
	was zzclient.Val
	key string
}

type cacheWorld struct {
	*run
	proc    *simrt.Proc
	kind    int
	cap     int
	lru     *cache.LRUCache[zzclient.Val]
	rcu     *cache.RCU[zzclient.Val]
	sm      *cache.SyncMap[zzclient.Val]
	sh      *cache.Shard[zzclient.Val]
	clk     int64
	ops     []*cacheOp
	held    map[int][]*heldPtr
	clients []*simrt.Task
	fragOf  map[string]*cache.LocalMap[zzclient.Val]
	frags   []*cache.LocalMap[zzclient.Val]
	owner   map[int]string // value -> key it was put for
	seq     int
	stop    bool
}

func (w *cacheWorld) tick() int64 { w.clk++; return w.clk }

func cacheWorldRun(r *run) {
	w := &cacheWorld{run: r, kind: int(r.plan.P["kind"]), cap: int(r.plan.P["cap"]), fragOf: map[string]*cache.LocalMap[zzclient.Val]{}, owner: map[int]string{}, held: map[int][]*heldPtr{}}
	w.proc = w.s.NewProc("app")
	t := w.proc.Go("new", func() {
		switch w.kind {
		case kindLRU:
			w.lru = zzclient.NewLRU(w.cap)
		case kindRCU:
			w.rcu = zzclient.NewRCU()
		case kindSync:
			w.sm = zzclient.NewSync()
		case kindShard:
			w.sh = zzclient.NewShard(w.cap)
		}
	})
	w.s.WaitCond(func() bool { return t.Done() || w.proc.Dead }, 60*sec)
	w.s.JoinTask(t)
	var pend []Op
	flush := func() {
		w.begin(pend)
		pend = nil
	}
	for i := range r.plan.Ops {
		o := r.plan.Ops[i]
		if o.C >= 0 {
			pend = append(pend, o)
			continue
		}
		flush()
		w.join()
		switch o.K {
		case "wait":
			w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
		case "join":
		}
		if w.stop || w.dead() {
			return
		}
	}
	flush()
	w.join()
	if w.stop || w.dead() {
		return
	}
	w.tail()
	if w.stop || w.dead() {
		return
	}
	w.judge()
}

func (w *cacheWorld) dead() bool {
	if w.proc.Dead {
		if w.proc.Exited {
			w.res.bad("died", "the process ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
		}
		w.stop = true
	}
	return w.proc.Dead
}

func (w *cacheWorld) begin(ops []Op) {
	if len(ops) == 0 || w.stop || w.proc.Dead {
		return
	}
	by := map[int][]Op{}
	maxc := 0
	for _, o := range ops {
		by[o.C] = append(by[o.C], o)
		if o.C > maxc {
			maxc = o.C
		}
	}
	for c := 0; c <= maxc; c++ {
		l := by[c]
		if len(l) == 0 {
			continue
		}
		c := c
		t := w.proc.Go(fmt.Sprintf("client%d", c), func() {
			for i := range l {
				w.client(c, &l[i])
			}
		})
		t.Client = true
		w.clients = append(w.clients, t)
	}
}

func (w *cacheWorld) join() {
	if len(w.clients) == 0 {
		return
	}
	ok := w.s.WaitCond(func() bool {
		if w.proc.Dead {
			return true
		}
		for _, t := range w.clients {
			if !t.Done() {
				return false
			}
		}
		return true
	}, 3600*sec)
	if !ok && !w.proc.Dead {
		w.res.bad("stuck", "a get or put does not return within an hour: %s", short(w.s.Describe()))
		w.stop = true
	}
	for _, t := range w.clients {
		w.s.JoinTask(t)
	}
	w.clients = nil
}

func mkVal(n int) zzclient.Val { return zzclient.Val{A: n, B: n, S: fmt.Sprintf("v%d", n)} }

func (w *cacheWorld) client(c int, o *Op) {
	switch o.K {
	case "put":
		w.put(c, o.F, o.D, int(o.N))
	case "burst": // L puts in a row, of keys D0.. D(N-1)
		for i := 0; i < o.L; i++ {
			w.seq++
			w.put(c, o.F, fmt.Sprintf("%s%d", o.D, int64(i)%o.N), 1_000_000+w.seq)
		}
	case "get":
		w.get(c, o.F, o.D)
	case "reread":
		// only what this client got itself: the value another client got was
		// not handed over to this one
		if mine := w.held[c]; len(mine) > 0 {
			w.reread(mine[int(o.N)%len(mine)])
		}
	case "sleep":
		simrt.SleepNS(o.N)
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

func (w *cacheWorld) frag(route string) (*cache.LocalMap[zzclient.Val], int) {
	m, ok := w.sh.Get(route)
	if !ok || m == nil {
		w.res.bad("route", "no fragment for key %q of %d fragments", route, w.cap)
		return nil, -1
	}
	if f := w.fragOf[route]; f != nil && f != m {
		w.res.bad("route", "key %q is routed to another fragment than before", route)
		return nil, -1
	}
	w.fragOf[route] = m
	for i, f := range w.frags {
		if f == m {
			return m, i
		}
	}
	w.frags = append(w.frags, m)
	if len(w.frags) > w.cap {
		w.res.bad("route", "%d different fragments are used, there should be %d", len(w.frags), w.cap)
		return nil, -1
	}
	return m, len(w.frags) - 1
}

func (w *cacheWorld) put(c int, route, key string, n int) {
	o := &cacheOp{client: c, put: true, key: key, val: n, frag: -1}
	var m *cache.LocalMap[zzclient.Val]
	if w.kind == kindShard {
		if m, o.frag = w.frag(route); m == nil {
			return
		}
	}
	w.owner[n] = key
	w.ops = append(w.ops, o)
	o.inv, o.invNS = w.tick(), w.s.Elapsed()
	o.ret = 1<<63 - 1
	v := mkVal(n)
	switch w.kind {
	case kindLRU:
		w.lru.Put(key, v)
	case kindRCU:
		w.rcu.Put(key, v)
	case kindSync:
		w.sm.Put(key, v)
	case kindShard:
		m.Set(key, v)
	}
	o.ret, o.retNS = w.tick(), w.s.Elapsed()
	w.res.stat("puts", 1)
}

func (w *cacheWorld) get(c int, route, key string) {
	o := &cacheOp{client: c, key: key, val: -1, frag: -1}
	var g zzclient.Getter
	switch w.kind {
	case kindLRU:
		g = w.lru
	case kindRCU:
		g = w.rcu
	case kindSync:
		g = w.sm
	case kindShard:
		m, f := w.frag(route)
		if m == nil {
			return
		}
		g, o.frag = m, f
	}
	w.ops = append(w.ops, o)
	o.inv, o.invNS = w.tick(), w.s.Elapsed()
	o.ret = 1<<63 - 1
	v, ok, p := zzclient.Get(g, key)
	o.ret, o.retNS = w.tick(), w.s.Elapsed()
	w.res.stat("gets", 1)
	w.s.Event("got", key, v.A, ok)
	if !ok {
		return
	}
	o.val = v.A
	w.res.stat("hits", 1)
	w.res.State = w.res.State*1099511628211 ^ uint64(v.A)
	if v != mkVal(v.A) {
		w.res.bad("torn", "get of %q returned a value that was never put: %+v", key, v)
	} else if k, in := w.owner[v.A]; !in || k != key {
		w.res.bad("wrong-value", "get of %q returned value %d, put for %q", key, v.A, k)
	}
	w.held[c] = append(w.held[c], &heldPtr{p, v, key})
}

func (w *cacheWorld) reread(h *heldPtr) {
	w.res.stat("rereads", 1)
	if v := zzclient.Reread(h.p); v != h.was {
		w.res.bad("mutated", "the value returned for %q was %v and is now %v", h.key, h.was, v)
	}
}

// tail reads everything once more, quietly, and all values returned earlier.
func (w *cacheWorld) tail() {
	if w.kind == kindRCU || w.kind == kindSync {
		w.s.WaitCond(func() bool { return w.proc.Dead }, 6*sec+1)
		if w.dead() {
			return
		}
	}
	type rk struct{ f, k string }
	seen := map[rk]bool{}
	var list []Op
	for _, o := range w.plan.Ops {
		k := rk{o.F, o.D}
		if (o.K == "put" || o.K == "get") && !seen[k] {
			seen[k] = true
			list = append(list, Op{K: "get", D: o.D, F: o.F})
		}
		if o.K == "burst" {
			for i := int64(0); i < o.N; i++ {
				d := fmt.Sprintf("%s%d", o.D, i)
				if k := (rk{o.F, d}); !seen[k] {
					seen[k] = true
					list = append(list, Op{K: "get", D: d, F: o.F})
				}
			}
		}
	}
	w.begin(list)
	w.join()
	if w.stop || w.proc.Dead {
		return
	}
	t := w.proc.Go("client0", func() {
		for c, n := 0, len(w.held); n > 0; c++ { // by client, in order
			if mine, ok := w.held[c]; ok {
				n--
				for _, h := range mine {
					w.reread(h)
				}
			}
		}
		if w.kind == kindShard {
			for i, f := range w.frags {
				keys := map[string]bool{}
				for _, o := range w.ops {
					if o.put && o.frag == i {
						keys[o.key] = true
					}
				}
				if n := zzclient.ShardData(f); n != len(keys) {
					w.res.bad("size", "a fragment holds %d keys, %d were set in it", n, len(keys))
				}
			}
		}
	})
	t.Client = true
	w.clients = append(w.clients, t)
	w.join()
}

func (w *cacheWorld) judge() {
	switch w.kind {
	case kindLRU:
		w.judgeLin(w.ops, stepLRU(w.cap), "the LRU cache of capacity "+fmt.Sprint(w.cap))
	case kindShard:
		type fk struct {
			f int
			k string
		}
		by := map[fk][]*cacheOp{}
		var order []fk
		for _, o := range w.ops {
			k := fk{o.frag, o.key}
			if by[k] == nil {
				order = append(order, k)
			}
			by[k] = append(by[k], o)
		}
		for _, k := range order {
			w.judgeLin(by[k], stepReg, fmt.Sprintf("key %q of one fragment", k.k))
		}
	default:
		w.judgeEventual()
	}
}

func (w *cacheWorld) judgeLin(ops []*cacheOp, step func(string, *linOp) (string, bool), what string) {
	l := make([]linOp, len(ops))
	for i, o := range ops {
		l[i] = linOp{inv: o.inv, ret: o.ret, in: o}
	}
	switch linearizable(l, "", step, 300000) {
	case 1:
		w.res.stat("histories_explained", 1)
	case -1:
		w.res.stat("histories_undecided", 1)
	case 0:
		var b strings.Builder
		for _, o := range ops {
			if o.put {
				fmt.Fprintf(&b, " [%d-%d c%d put %s=%d]", o.inv, o.ret, o.client, o.key, o.val)
			} else {
				fmt.Fprintf(&b, " [%d-%d c%d get %s->%d]", o.inv, o.ret, o.client, o.key, o.val)
			}
		}
		x := b.String()
		if len(x) > 1500 {
			x = x[:1500] + "…"
		}
		w.res.bad("linear", "no order of the calls explains the answers of %s:%s", what, x)
	}
}

func stepReg(st string, l *linOp) (string, bool) {
	o := l.in.(*cacheOp)
	if o.put {
		return fmt.Sprint(o.val), true
	}
	if o.val < 0 {
		return st, st == ""
	}
	return st, st == fmt.Sprint(o.val)
}

// stepLRU: the state is "key=val;" most recently used first.
func stepLRU(cap int) func(string, *linOp) (string, bool) {
	return func(st string, l *linOp) (string, bool) {
		o := l.in.(*cacheOp)
		var items []string
		if st != "" {
			items = strings.Split(st, ";")
		}
		at := -1
		for i, x := range items {
			if strings.HasPrefix(x, o.key+"=") {
				at = i
			}
		}
		if !o.put {
			if at < 0 {
				return st, o.val < 0
			}
			if items[at] != fmt.Sprintf("%s=%d", o.key, o.val) {
				return st, false
			}
			x := items[at]
			copy(items[1:at+1], items[:at])
			items[0] = x
			return strings.Join(items, ";"), true
		}
		if at >= 0 {
			items = append(items[:at], items[at+1:]...)
		} else if cap <= 0 {
			return st, true
		} else if len(items) >= cap {
			items = items[:cap-1]
		}
		items = append([]string{fmt.Sprintf("%s=%d", o.key, o.val)}, items...)
		return strings.Join(items, ";"), true
	}
}

const publish = 6 * sec

// judgeEventual: per key, is there an order of the puts, agreeing with real time, through which all readers
// only moved forward, none being more than 6 seconds behind?
func (w *cacheWorld) judgeEventual() {
	by := map[string][]*cacheOp{}
	var order []string
	for _, o := range w.ops {
		if by[o.key] == nil {
			order = append(order, o.key)
		}
		by[o.key] = append(by[o.key], o)
	}
	for _, k := range order {
		w.judgeKey(k, by[k])
	}
}

func (w *cacheWorld) judgeKey(key string, ops []*cacheOp) {
	var puts, gets []*cacheOp
	repeat := false
	vals := map[int]int{}
	for _, o := range ops {
		if o.put {
			if _, in := vals[o.val]; in {
				repeat = true
			}
			vals[o.val] = len(puts)
			puts = append(puts, o)
		} else {
			gets = append(gets, o)
		}
	}
	sort.SliceStable(gets, func(i, j int) bool { return gets[i].inv < gets[j].inv })
	for i, g := range gets {
		if g.val >= 0 {
			continue
		}
		for _, p := range puts {
			if p.ret < g.inv && p.retNS+publish <= g.invNS {
				w.res.bad("late", "get of %q finds nothing %.3f s after a put of it returned", key, float64(g.invNS-p.retNS)/1e9)
				return
			}
		}
		for _, h := range gets[:i] {
			if h.val >= 0 && h.ret < g.inv {
				w.res.bad("vanished", "get of %q finds nothing although an earlier get found value %d", key, h.val)
				return
			}
		}
	}
	if repeat {
		w.judgeRepeat(key, puts, gets)
		return
	}
	// after[i][j]: put j is later than put i
	n := len(puts)
	if n > 400 {
		w.judgeRepeat(key, puts, gets) // bursts come from one client
		return
	}
	after := make([][]bool, n)
	for i := range after {
		after[i] = make([]bool, n)
		for j := range puts {
			after[i][j] = puts[i].ret < puts[j].inv
		}
	}
	for i, g := range gets {
		if g.val < 0 {
			continue
		}
		p, in := vals[g.val]
		if !in || puts[p].inv > g.ret {
			w.res.bad("wrong-value", "get of %q returned value %d before it was put", key, g.val)
			return
		}
		for _, h := range gets[:i] {
			if h.val >= 0 && h.ret < g.inv && h.val != g.val {
				if q, in := vals[h.val]; in {
					after[q][p] = true
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if after[i][k] {
				for j := 0; j < n; j++ {
					if after[k][j] {
						after[i][j] = true
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if after[i][i] {
			w.res.bad("back", "readers of %q saw value %d replaced by one put earlier", key, puts[i].val)
			return
		}
	}
	for _, g := range gets {
		if g.val < 0 {
			continue
		}
		p := vals[g.val]
		for q := 0; q < n; q++ {
			if after[p][q] && puts[q].ret < g.inv && puts[q].retNS+publish <= g.invNS {
				w.res.bad("late", "get of %q returns value %d, %.3f s after the put of the later value %d returned", key, g.val, float64(g.invNS-puts[q].retNS)/1e9, puts[q].val)
				return
			}
		}
	}
}

// judgeRepeat: the puts of the key follow one another, values may occur again.
func (w *cacheWorld) judgeRepeat(key string, puts, gets []*cacheOp) {
	at := make([]int, len(gets))
	for i, g := range gets {
		at[i] = -1
		if g.val < 0 {
			continue
		}
		low := 0
		for j, p := range puts {
			if p.ret < g.inv && p.retNS+publish <= g.invNS {
				low = j
			}
		}
		late := low
		for j, h := range gets[:i] {
			if h.ret < g.inv && at[j] > low {
				low = at[j]
			}
		}
		for j := low; j < len(puts) && at[i] < 0; j++ {
			if puts[j].val == g.val && puts[j].inv < g.ret {
				at[i] = j
			}
		}
		if at[i] < 0 {
			cl := "back"
			if low == late {
				cl = "late"
			}
			w.res.bad(cl, "get of %q returns value %d, which was replaced (the value must be put number %d or a later one of %d)", key, g.val, low+1, len(puts))
			return
		}
	}
}

// ---- plans ----

func genLin(kind int) func(g *simrt.Rng, tier string, i int) *Plan {
	return func(g *simrt.Rng, tier string, i int) *Plan {
		p := &Plan{P: map[string]int64{"kind": int64(kind)}}
		p.Sched = schedGen(g, true)
		nk := g.Pick(1, 2, 3, 4, 6)
		routes := []string{""}
		if kind == kindLRU {
			p.P["cap"] = int64(g.Pick(-1, 0, 1, 1, 2, 2, 3, 4, 5))
		} else {
			p.P["cap"] = int64(g.Pick(1, 2, 3, 4, 7, 16, 100))
			routes = nil
			for j := 0; j < g.Range(1, 5); j++ {
				routes = append(routes, []string{"", "a", "title", "text", "d1", "d2", "über", "a b", "x/y", "0", "field7"}[g.Intn(11)])
			}
		}
		nc := g.Range(1, 5)
		n := g.Pick(6, 12, 24, 40)
		putp := []float64{0.2, 0.5, 0.8}[g.Intn(3)]
		val := 0
		var ops []Op
		key := func() string { return fmt.Sprintf("k%d", g.Intn(nk)) }
		for k := 0; k < g.Range(1, 3); k++ {
			for j := 0; j < n; j++ {
				o := Op{C: g.Intn(nc), D: key(), F: routes[g.Intn(len(routes))]}
				switch {
				case g.Chance(0.08):
					o = Op{K: "reread", C: o.C, N: int64(g.Intn(1000))}
				case g.Chance(putp):
					o.K = "put"
					val++
					o.N = int64(val)
				default:
					o.K = "get"
				}
				ops = append(ops, o)
			}
			ops = append(ops, ctl("join", 0))
		}
		p.Ops = ops
		return p
	}
}

func genEventual(kind int) func(g *simrt.Rng, tier string, i int) *Plan {
	return func(g *simrt.Rng, tier string, i int) *Plan {
		p := &Plan{P: map[string]int64{"kind": int64(kind)}}
		p.Sched = schedGen(g, true)
		nk := g.Pick(1, 1, 2, 3, 5)
		nc := g.Range(1, 5)
		n := g.Pick(5, 10, 20, 40)
		owned := g.Chance(0.35) // every key has one writer, values recur
		putp := []float64{0.2, 0.5, 0.8}[g.Intn(3)]
		val := 0
		var ops []Op
		nap := func() int64 {
			switch g.Intn(5) {
			case 0:
				return g.Int63n(100 * ms)
			case 1:
				return int64(g.Range(1, 4)) * 3 * sec // with the ticker
			case 2:
				return g.Int63n(4 * sec)
			default:
				return g.Int63n(2 * sec)
			}
		}
		for k := 0; k < g.Range(1, 4); k++ {
			if g.Chance(0.06) {
				// more puts than the buffer holds
				ops = append(ops, Op{K: "burst", C: 0, D: fmt.Sprintf("b%d.", k), N: int64(g.Pick(1, 7, 1500)), L: g.Pick(300, 999, 1000, 1001, 1200, 2500)})
				if g.Chance(0.4) {
					ops = append(ops, Op{K: "burst", C: 1, D: fmt.Sprintf("c%d.", k), N: int64(g.Pick(1, 7)), L: g.Pick(300, 1200)})
				}
			}
			for j := 0; j < n; j++ {
				ki := g.Intn(nk)
				o := Op{C: g.Intn(nc), D: fmt.Sprintf("k%d", ki)}
				switch {
				case g.Chance(0.25):
					o = Op{K: "sleep", C: o.C, N: nap()}
				case g.Chance(0.05):
					o = Op{K: "reread", C: o.C, N: int64(g.Intn(1000))}
				case g.Chance(putp):
					o.K = "put"
					if owned {
						o.C = ki % nc
						o.N = int64(ki*10 + 1 + g.Intn(3))
					} else {
						val++
						o.N = int64(val)
					}
				default:
					o.K = "get"
				}
				ops = append(ops, o)
			}
			ops = append(ops, ctl("join", 0))
			if g.Chance(0.4) {
				ops = append(ops, ctl("wait", nap()))
			}
		}
		p.Ops = ops
		return p
	}
}

func init() {
	reg(&property{id: "C01", quick: 20000, world: "cache", gen: genLin(kindLRU), races: true})
	reg(&property{id: "C02", quick: 15000, world: "cache", gen: genEventual(kindRCU), races: true})
	reg(&property{id: "C03", quick: 15000, world: "cache", gen: genEventual(kindSync), races: true})
	reg(&property{id: "C04", quick: 20000, world: "cache", gen: genLin(kindShard), races: true})
}
