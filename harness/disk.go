package main

import (
	"fmt"
	"math"
	"strings"

	lib "github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzclient"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"verif.local/simrt"
	simos "verif.local/simrt/os"
)

func init() { worlds["disk"] = diskWorldRun }

type snapshot struct {
	fs  *simos.FS
	b   bound
	at  int64
	why string
	gen int
}

type diskWorld struct {
	*run
	root     string
	cache    int
	proc     *simrt.Proc
	st       lib.Storage
	mem      lib.Storage // reference twin (L02)
	m        *refModel
	w        int64 // settle time
	power    bool
	fresh    bool // nothing checked since the last reopen
	crashB   bound
	totals   bool // totals are checked (no re-saves in the plan)
	multi    bool // several writers per field
	concRead bool
	clients  []*simrt.Task
	started  int64
	snaps    []*snapshot
	lastObs  *obs
	dead     bool
	firstFlt int64 // elapsed ns of the first failing operation since the last check, -1
	opens    int
	resp     int64 // elapsed time at which the disk last started to respond (stalls)
	lastRet  int64
	gen      int
	stillGen int // the store "still" looked at first, and what it found
	still0   int
	stop     bool
	lastSnap *obs
	firstRec *obs
}

func (w *diskWorld) p(k string) int64 { return w.plan.P[k] }

func diskWorldRun(r *run) {
	w := &diskWorld{run: r, root: "store/", m: newModel(), w: 30 * sec, totals: true, firstFlt: -1}
	if x := w.p("w"); x > 0 {
		w.w = x
	}
	w.totals = w.p("nototals") == 0
	w.multi = w.p("multi") != 0
	if w.p("root") == 1 {
		w.root = "a/b c/store"
	} else if w.p("root") == 2 {
		w.root = "/tmp/s"
	}
	if w.p("mem") != 0 {
		w.mem = lib.NewMemory()
	}
	if n := w.p("snaps"); n > 0 {
		left := n
		gap := simrt.NewRng(r.plan.Seed ^ 0x55aa)
		wait := gap.Intn(int(w.p("snapgap")) + 1)
		w.fs.OnOp = func(op, path string, phase int) {
			if left == 0 || w.proc == nil || w.proc.Dead || w.gen != 1 || w.fs.FirstFault >= 0 {
				return
			}
			switch op {
			case "write", "create", "rename", "remove", "fsync", "mkdir", "truncate", "link":
			default:
				return
			}
			if w.p("snapmatch") != 0 && !strings.Contains(path, "/index") && !strings.Contains(path, "/temp") {
				return
			}
			if wait > 0 {
				wait--
				return
			}
			wait = gap.Intn(int(w.p("snapgap")) + 1)
			left--
			w.snap(fmt.Sprintf("%s %s phase %d", op, path, phase))
		}
	}
	w.steps()
	if len(w.res.Viol) == 0 && !w.stop {
		w.finish()
	}
}

func (w *diskWorld) snap(why string) {
	w.snaps = append(w.snaps, &snapshot{fs: w.fs.Clone(), b: bound{clk: w.m.tick(), cut: w.s.Elapsed() - w.w}, at: w.s.Elapsed(), why: why, gen: w.gen})
	w.res.stat("crash_points", 1)
}

// steps runs the plan.
func (w *diskWorld) steps() {
	var pend []Op
	for i := range w.plan.Ops {
		o := w.plan.Ops[i]
		if o.C >= 0 {
			pend = append(pend, o)
			continue
		}
		if len(pend) > 0 {
			w.startClients(pend)
			pend = nil
		}
		w.control(&o)
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
	}
	if len(pend) > 0 {
		w.startClients(pend)
	}
	w.join(-1)
}

func (w *diskWorld) startClients(ops []Op) {
	if w.proc == nil || w.proc.Dead || w.st == nil {
		return
	}
	by := map[int][]Op{}
	maxc := 0
	for _, o := range ops {
		by[o.C] = append(by[o.C], o)
		if o.C > maxc {
			maxc = o.C
		}
	}
	w.started = w.s.Elapsed()
	for c := 0; c <= maxc; c++ {
		if l := by[c]; len(l) > 0 {
			st, mem := w.st, w.mem
			t := w.proc.Go(fmt.Sprintf("client%d", c), func() {
				for i := range l {
					w.client(st, mem, &l[i])
				}
			})
			t.Client = true
			w.clients = append(w.clients, t)
		}
	}
}

func (w *diskWorld) running() bool {
	for _, t := range w.clients {
		if !t.Done() {
			return true
		}
	}
	return false
}

// join waits until the clients are done (limit<0: as long as is reasonable), or the process is dead.
func (w *diskWorld) join(limit int64) {
	if len(w.clients) == 0 {
		if limit > 0 {
			w.s.WaitCond(func() bool { return w.proc == nil || w.proc.Dead }, limit)
		}
		w.noteDeath()
		return
	}
	lim := limit
	if lim < 0 {
		lim = 3600 * sec
	}
	ok := w.s.WaitCond(func() bool { return w.proc.Dead || (limit < 0 && !w.running()) }, lim)
	if limit < 0 && !ok && !w.proc.Dead {
		w.res.bad("stuck", "clients still blocked %ds after they began: %s", lim/sec, short(w.s.Describe()))
		w.stop = true
	}
	for _, t := range w.clients {
		w.s.JoinTask(t)
	}
	if limit < 0 || w.proc.Dead {
		w.clients = nil
	}
	w.noteDeath()
}

func (w *diskWorld) failing() bool { return w.fs.FirstFault >= 0 }

// noteDeath looks at a process that ended by itself.
func (w *diskWorld) noteDeath() {
	if w.proc == nil || !w.proc.Dead || w.dead {
		return
	}
	w.dead = true
	w.clients = nil
	if w.proc.Exited {
		if w.failing() && w.p("mayexit") != 0 {
			w.res.stat("exits_on_fault", 1)
		} else {
			w.res.bad("died", "the process ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
		}
	}
	w.crashed()
}

// crashed fixes what has to be found later.
func (w *diskWorld) crashed() {
	now := w.s.Elapsed()
	if w.crashB.clk == 0 || !w.fresh {
		cut := now
		if f := w.fs.FirstFault; f >= 0 && f < cut && w.fs.LastFault > now-60*sec {
			cut = f // otherwise the store has gone on for long enough with nothing failing any more
		}
		w.crashB = bound{clk: w.m.tick(), cut: cut - w.w}
	} else {
		w.crashB.clk = w.m.tick()
	}
	w.fresh = true
}

func (w *diskWorld) kill() {
	if w.proc != nil && !w.proc.Dead {
		w.s.Event("harness-kill")
		w.s.Kill(w.proc)
		w.res.stat("kills", 1)
		w.dead = true
		w.crashed()
	}
	w.clients = nil
	w.fs.CloseAll()
	w.st = nil
	if w.fs.PowerCut || w.power {
		w.fs.PowerCut, w.power = false, false
		lo, lf := w.fs.PowerLoss(w.rng)
		w.res.stat("power_losses", 1)
		w.res.stat("lost_dir_ops", int64(lo))
		w.res.stat("lost_or_torn_files", int64(lf))
		w.s.Event("power-loss", lo, lf)
	}
}

// open starts a process with a store on the folder; false if it could not be opened.
func (w *diskWorld) open(fs *simos.FS, cache int, name string) (*simrt.Proc, lib.Storage, string) {
	fs.Use()
	p := w.s.NewProc(name)
	simrt.ResetGlobals()
	var st lib.Storage
	var err error
	t := p.Go("open", func() { st, err = lib.NewDiskStore(w.root, cache) })
	ok := w.s.WaitCond(func() bool { return t.Done() || p.Dead }, 1200*sec)
	w.s.JoinTask(t)
	switch {
	case p.Exited:
		return p, nil, "process ended: " + p.ExitMsg + "\n" + w.s.LastStack()
	case p.Dead:
		return p, nil, "killed"
	case !ok:
		w.s.Kill(p)
		return p, nil, "opening the folder does not end: " + short(w.s.Describe())
	case err != nil:
		w.s.Kill(p)
		return p, nil, "error: " + err.Error()
	case st == nil:
		return p, nil, "nil store"
	}
	return p, st, ""
}

func (w *diskWorld) reopen(cache int) {
	if w.proc != nil {
		w.kill()
	}
	w.gen++
	for try := 0; ; try++ {
		before := w.nfaults()
		p, st, why := w.open(w.fs, cache, fmt.Sprintf("store%d", w.gen))
		w.proc, w.st, w.dead = p, st, false
		w.opens++
		if why == "" {
			w.cache = cache
			w.check()
			return
		}
		w.dead = true
		w.fs.CloseAll()
		if why == "killed" { // an injected crash while opening
			w.crashed()
			if w.fs.PowerCut {
				w.fs.PowerCut = false
				w.fs.PowerLoss(w.rng)
				w.res.stat("power_losses", 1)
			}
			w.res.stat("kills_in_open", 1)
			if try > 20 {
				w.stop = true
				return
			}
			continue
		}
		if w.nfaults() != before && w.p("mayexit") != 0 && try < 50 {
			w.res.stat("open_failed_on_fault", 1)
			w.crashed()
			w.sleep(5 * sec)
			if try > 5 {
				w.fs.ClearFaults()
			}
			continue
		}
		w.res.bad("open", "the folder does not open again: %s", why)
		w.stop = true
		return
	}
}

func (w *diskWorld) nfaults() int64 {
	n := int64(0)
	for k, v := range w.fs.Fired {
		if k != "latency" && !strings.HasPrefix(k, "stall") && !strings.HasPrefix(k, "slow") {
			n += v
		}
	}
	return n
}

func (w *diskWorld) sleep(d int64) {
	if d > 0 {
		simrt.SleepNS(d)
	}
}

func (w *diskWorld) control(o *Op) {
	switch o.K {
	case "open":
		w.join(-1)
		w.reopen(int(o.N))
	case "revive": // if it is dead
		w.join(-1)
		if w.proc == nil || w.proc.Dead {
			w.reopen(int(o.N))
		}
	case "again": // a second store on the folder in the same process
		w.join(-1)
		if w.proc == nil || w.proc.Dead {
			return
		}
		var st lib.Storage
		var err error
		t := w.proc.Go("open-again", func() { st, err = lib.NewDiskStore(w.root, int(o.N)) })
		ok := w.s.WaitCond(func() bool { return t.Done() || w.proc.Dead }, 1200*sec)
		w.s.JoinTask(t)
		if w.proc.Dead {
			w.noteDeath()
			return
		}
		if !ok {
			w.res.bad("stuck", "opening the folder again in the same process does not end")
			return
		}
		if err != nil {
			w.res.bad("open", "opening the folder again in the same process failed: %v", err)
			return
		}
		w.st = st
	case "image":
		w.load(o.F)
	case "dump":
		w.dump(o)
	case "until": // this time of the simulation, whatever the clients do
		w.sleep(o.N - w.s.Elapsed())
	case "bg":
	case "join":
		w.join(-1)
	case "kill", "power":
		if o.N > 0 {
			w.join(o.N)
		} else {
			w.join(-1)
		}
		if o.K == "power" {
			w.power = true
		}
		w.kill()
	case "wait":
		w.join(-1)
		w.waitAlive(o.N)
	case "pause": // time passes while the clients run
		w.waitAlive(o.N)
	case "snap":
		if w.proc != nil && !w.proc.Dead {
			w.snap("plan")
		}
	case "fault":
		f := *o.Ft
		f.After += w.s.Elapsed()
		w.fs.Faults = append(w.fs.Faults, &f)
	case "faultsoff":
		w.fs.ClearFaults()
	case "check":
		w.join(-1)
		w.check()
	case "quiet": // fragments must be merged and gone
		w.join(-1)
		w.quiet(o.N)
	case "still": // as many goroutines and open files as at first
		w.join(-1)
		w.still(o.N)
	case "tidy": // no more files than the data needs
		w.join(-1)
		w.tidy(o.N)
	case "damage":
		w.damage(o)
	case "outside":
		w.outside()
	case "ondisk": // every save is on the folder 60 s after the disk responds
		w.onDisk()
	default:
		w.res.Trouble = "unknown step " + o.K
		w.stop = true
	}
}

func (w *diskWorld) waitAlive(d int64) {
	if w.proc == nil || w.proc.Dead {
		w.sleep(d)
	} else {
		w.s.WaitCond(func() bool { return w.proc.Dead }, d)
	}
	w.noteDeath()
}

// client runs one step of a client task (inside the simulated process).
func (w *diskWorld) client(st, mem lib.Storage, o *Op) {
	t0 := w.s.Elapsed()
	switch o.K {
	case "save", "upd":
		v := w.m.begin(o, o.K == "upd")
		w.s.Event("save", o.D, o.F, o.L, len(o.T))
		f := o.field()
		if o.K == "upd" {
			st.UpdateIndex(o.D, f)
		} else {
			st.SaveOrUpdate(o.D, f)
		}
		w.m.end(v, w.s.Elapsed())
		w.s.Event("saved", o.D, o.F)
		w.res.stat("saves", 1)
		w.progress("save", t0)
		if mem != nil {
			mem.SaveOrUpdate(o.D, o.field())
		}
	case "sleep":
		simrt.SleepNS(o.N)
	default:
		w.query(st, mem, o)
		w.res.stat("queries", 1)
		w.progress("query "+o.K, t0)
	}
}

func (w *diskWorld) progress(what string, t0 int64) {
	now := w.s.Elapsed()
	w.lastRet = now
	if w.p("progress") == 0 {
		return
	}
	if w.fs.StallEnd > t0 {
		t0 = w.fs.StallEnd
	}
	if now-t0 > 60*sec {
		w.res.bad("slow", "a %s returned %.1f s after the disk responded again", what, float64(now-t0)/1e9)
	}
}

// query runs one read and compares it with what the model allows at this moment.
func (w *diskWorld) query(st, mem lib.Storage, o *Op) {
	faulty := w.nfaults()
	ret := w.m.tick()
	b := bound{live: true, retClk: ret}
	fin := func() bound { b.clk = w.m.tick(); return b }
	switch o.K {
	case "docs":
		t := o.T[0].T
		got, ok := zzclient.Docs(st, o.F, t)
		w.judgePostings(fin(), o.F, t, got, "live")
		if mem != nil {
			g2, ok2 := zzclient.Docs(mem, o.F, t)
			if ok != ok2 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", g2) {
				w.res.bad("memory-differs", "GetDocuments(%q,%q): disk %v %q, memory %v %q", o.F, t, ok, got, ok2, g2)
			}
		}
	case "index":
		got := zzclient.Index(st, o.F)
		w.judgeIndex(fin(), o.F, got, "live")
		if mem != nil {
			g2 := zzclient.Index(mem, o.F)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", g2) {
				w.res.bad("memory-differs", "GetIndex(%q): disk %s, memory %s", o.F, short(got), short(g2))
			}
		}
	case "size":
		n := st.GetFieldSize(o.F)
		b := fin()
		loS, hiS, _, _ := w.m.totalBounds(b, o.F)
		if w.totals && (n < loS || n > hiS) {
			w.res.bad("size", "live GetFieldSize(%q)=%d, expected %d..%d", o.F, n, loS, hiS)
		}
		if mem != nil && mem.GetFieldSize(o.F) != n {
			w.res.bad("memory-differs", "GetFieldSize(%q): disk %d, memory %d", o.F, n, mem.GetFieldSize(o.F))
		}
	case "len":
		n := st.GetFieldLength(o.F)
		b := fin()
		_, _, lo, hi := w.m.totalBounds(b, o.F)
		if w.totals && (n < lo || n > hi) {
			w.res.bad("length", "live GetFieldLength(%q)=%d, expected %d..%d", o.F, n, lo, hi)
		}
		if mem != nil && mem.GetFieldLength(o.F) != n {
			w.res.bad("memory-differs", "GetFieldLength(%q): disk %d, memory %d", o.F, n, mem.GetFieldLength(o.F))
		}
	case "nft":
		got := zzclient.NumTerm(st, o.F, o.X)
		b := fin()
		for _, t := range o.X {
			n, in := got[t]
			if !in {
				w.res.bad("nft", "GetNumberFieldTerm(%q) leaves out the asked term %q", o.F, t)
			}
			lo, hi := w.m.termRange(b, o.F, t)
			if w.totals && (n < lo || n > hi) {
				w.res.bad("nft", "live GetNumberFieldTerm(%q,%q)=%d, expected %d..%d", o.F, t, n, lo, hi)
			}
		}
		if mem != nil {
			g2 := zzclient.NumTerm(mem, o.F, o.X)
			if fmt.Sprint(got) != fmt.Sprint(g2) {
				w.res.bad("memory-differs", "GetNumberFieldTerm(%q,%q): disk %v, memory %v", o.F, o.X, got, g2)
			}
		}
	case "fields":
		got := zzclient.Fields(st, o.X, o.F)
		b := fin()
		hit := w.nfaults() != faulty // a read failed meanwhile: absence is no statement
		asked := map[string]bool{}
		for _, d := range o.X {
			asked[d] = true
			f, in := got[d]
			w.judgeDoc(b, d, o.F, f, in, "live", hit)
		}
		for _, d := range sortedKeys(got) {
			if !asked[d] {
				w.res.bad("doc", "GetFields answers for %q, which was not asked", d)
			}
		}
		if mem != nil {
			g2 := zzclient.Fields(mem, o.X, o.F)
			if fmt.Sprint(normFields(got)) != fmt.Sprint(normFields(g2)) {
				w.res.bad("memory-differs", "GetFields(%q,%q): disk %s, memory %s", o.X, o.F, short(got), short(g2))
			}
		}
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

func normFields(m map[string]model.Field) map[string]string {
	out := map[string]string{}
	for k, f := range m {
		out[k] = fmt.Sprintf("%q %d %v", f.Name, f.Length, f.TF)
	}
	return out
}

func (w *diskWorld) judgePostings(b bound, f, t string, got []string, when string) {
	in := map[string]bool{}
	for _, d := range got {
		in[d] = true
	}
	for _, d := range sortedKeys(w.m.vers[f]) {
		must, may := w.m.posting(b, f, t, d)
		if must && !in[d] {
			w.res.bad("posting-lost", "%s: document %q is not found under term %q of field %q", when, d, t, f)
		}
		if in[d] && !may {
			w.res.bad("posting-phantom", "%s: document %q is listed under term %q of field %q, which it never had", when, d, t, f)
		}
		delete(in, d)
	}
	for _, d := range sortedKeys(in) {
		w.res.bad("posting-phantom", "%s: unknown document %q under term %q of field %q", when, d, t, f)
	}
}

func (w *diskWorld) judgeIndex(b bound, f string, got map[string][]string, when string) {
	for _, t := range sortedKeys(w.m.terms[f]) {
		w.judgePostings(b, f, t, got[t], when+" (index)")
	}
	for _, t := range sortedKeys(got) {
		if !w.m.terms[f][t] {
			w.res.bad("posting-phantom", "%s: unknown term %q in the index of field %q", when, t, f)
		}
	}
}

func sameField(f model.Field, v *version) bool {
	if f.Name != v.f || f.Length != v.l || len(f.TF) != len(v.tf) {
		return false
	}
	for t, n := range v.tf {
		if x, ok := f.TF[t]; !ok || x != n {
			return false
		}
	}
	return true
}

// judgeDoc compares one document field and returns the version it shows.
func (w *diskWorld) judgeDoc(b bound, d, f string, got model.Field, in bool, when string, excused bool) *version {
	may, absent := w.m.contents(b, d, f)
	if !in {
		if !absent && !excused {
			w.res.bad("doc-lost", "%s: field %q of document %q is missing", when, f, d)
		}
		return nil
	}
	for i := len(may) - 1; i >= 0; i-- {
		if sameField(got, may[i]) {
			return may[i]
		}
	}
	for _, v := range w.m.vers[f][d] {
		if sameField(got, v) {
			w.res.bad("doc-stale", "%s: field %q of document %q reads back as an outdated save (length %d)", when, f, d, v.l)
			return v
		}
	}
	w.res.bad("doc-wrong", "%s: field %q of document %q reads back as %s, never saved so", when, f, d, short(fmt.Sprintf("%q %d %v", got.Name, got.Length, got.TF)))
	return nil
}

// obs is everything a store answers.
type obs struct {
	index   map[string]map[string][]string
	docs    map[string]map[string][]string
	size    map[string]int
	length  map[string]int
	nft     map[string]map[string]int
	fields  map[string]map[string]model.Field
	excused bool
	digest  uint64
}

// readAll asks the store everything (inside process p). It reports why it failed.
func (w *diskWorld) readAll(p *simrt.Proc, st lib.Storage) (*obs, string) {
	o := &obs{index: map[string]map[string][]string{}, docs: map[string]map[string][]string{}, size: map[string]int{}, length: map[string]int{},
		nft: map[string]map[string]int{}, fields: map[string]map[string]model.Field{}}
	fields, docs := sortedKeys(w.m.fields), sortedKeys(w.m.docs)
	style := w.rng.Intn(3)
	n0 := w.nfaults()
	t := p.Go("reader", func() {
		for _, f := range append(fields, "never-a-field") {
			o.index[f] = zzclient.Index(st, f)
			o.docs[f] = map[string][]string{}
			terms := sortedKeys(w.m.terms[f])
			for _, t := range terms {
				o.docs[f][t], _ = zzclient.Docs(st, f, t)
			}
			o.size[f], o.length[f] = st.GetFieldSize(f), st.GetFieldLength(f)
			o.nft[f] = zzclient.NumTerm(st, f, append(terms, "never-a-term"))
			if style == 0 {
				o.fields[f] = zzclient.Fields(st, docs, f)
			}
		}
		if style != 0 {
			for _, d := range docs {
				for _, f := range append(fields, "never-a-field") {
					if o.fields[f] == nil {
						o.fields[f] = map[string]model.Field{}
					}
					for k, v := range zzclient.Fields(st, []string{d}, f) {
						if k != d {
							w.res.bad("doc", "GetFields answers for %q, asked for %q", k, d)
						}
						o.fields[f][k] = v
					}
				}
			}
		}
	})
	ok := w.s.WaitCond(func() bool { return t.Done() || p.Dead }, 1200*sec)
	w.s.JoinTask(t)
	if p.Dead {
		return nil, "process ended: " + p.ExitMsg + "\n" + w.s.LastStack()
	}
	if !ok {
		return nil, "queries do not return: " + short(w.s.Describe())
	}
	o.excused = w.nfaults() != n0
	o.digest = hash64(fmt.Sprint(o.index, o.size, o.length, o.nft, o.fields))
	return o, ""
}

// judge compares everything a store answers with the model.
func (w *diskWorld) judge(o *obs, b bound, when string) *recovered {
	r := &recovered{b: b, at: w.s.Elapsed(), postings: o.index, size: o.size, length: o.length, nft: o.nft, docs: map[string]map[string]*version{}}
	for _, f := range sortedKeys(w.m.fields) {
		w.judgeIndex(b, f, o.index[f], when)
		for _, t := range sortedKeys(w.m.terms[f]) {
			w.judgePostings(b, f, t, o.docs[f][t], when+" (lookup)")
		}
		if w.totals {
			w.judgeTotals(b, f, o.size[f], o.length[f], when)
			for _, t := range sortedKeys(w.m.terms[f]) {
				lo, hi := w.m.termRange(b, f, t)
				if n := o.nft[f][t]; n < lo || n > hi {
					w.res.bad("nft", "%s: %d documents reported for term %q of field %q, expected %d..%d", when, n, t, f, lo, hi)
				}
			}
			if n := o.nft[f]["never-a-term"]; n != 0 {
				w.res.bad("nft", "%s: unknown term counted %d times in field %q", when, n, f)
			}
		}
		r.docs[f] = map[string]*version{}
		for _, d := range sortedKeys(w.m.docs) {
			fd, in := o.fields[f][d]
			r.docs[f][d] = w.judgeDoc(b, d, f, fd, in, when, o.excused)
		}
		for _, d := range sortedKeys(o.fields[f]) {
			if !w.m.docs[d] {
				w.res.bad("doc-wrong", "%s: unknown document %q answered", when, d)
			}
		}
	}
	if n := len(o.index["never-a-field"]) + o.size["never-a-field"] + o.length["never-a-field"] + len(o.fields["never-a-field"]); n != 0 {
		w.res.bad("phantom-field", "%s: a field never saved has contents", when)
	}
	return r
}

func (w *diskWorld) judgeTotals(b bound, f string, size, length int, when string) {
	if w.multi {
		loS, hiS, loL, hiL := w.m.totalBounds(b, f)
		if size < loS || size > hiS || length < loL || length > hiL {
			w.res.bad("totals", "%s: totals of field %q are %d documents, length %d; expected %d..%d and %d..%d", when, f, size, length, loS, hiS, loL, hiL)
		}
		return
	}
	ts := w.m.totals(b, f)
	for _, t := range ts {
		if t.size == size && t.length == length {
			return
		}
	}
	w.res.bad("totals", "%s: totals of field %q are %d documents, length %d, a pair that never held since it had to settle; expected %d/%d .. %d/%d", when, f, size, length,
		ts[0].size, ts[0].length, ts[len(ts)-1].size, ts[len(ts)-1].length)
}

// check reads everything: after a reopen against what had to survive, otherwise against the exact state.
func (w *diskWorld) check() { w.checkN(false) }
func (w *diskWorld) checkN(again bool) {
	if w.st == nil || w.proc == nil || w.proc.Dead {
		return
	}
	o, why := w.readAll(w.proc, w.st)
	if o == nil {
		w.noteDeath()
		if w.proc.Dead && (!w.proc.Exited || w.failing() && w.p("mayexit") != 0) {
			return // killed while reading, or gone because of a disk error
		}
		w.res.bad("read", "reading after opening failed: %s", why)
		w.stop = true
		return
	}
	w.lastObs = o
	w.res.State = o.digest
	if w.gen == 2 && w.fresh && w.firstRec == nil && w.p("grows") != 0 && !o.excused {
		w.firstRec = o
	}
	if w.fresh && w.gen > 1 {
		w.res.stat("recovered_checks", 1)
		r := w.judge(o, w.crashB, "after reopening")
		if o.excused {
			// ask again when reads work
			if again {
				w.stop = true
				return
			}
			w.fs.ClearFaults()
			w.res.stat("asked_again", 1)
			w.checkN(true)
			return
		}
		r.settle = math.MinInt64
		w.m.adopt(r)
		w.fresh = false
		w.crashB = bound{}
		if !w.fs.FaultsPending() {
			w.fs.FirstFault = -1
		}
		w.s.Event("recovered", o.digest)
		return
	}
	w.fresh = false
	w.res.stat("live_checks", 1)
	b := bound{live: true}
	b.clk = w.m.tick()
	b.retClk = b.clk
	if w.failing() && w.fs.FaultsPending() {
		// with failed operations behind it only what had settled before them is promised
		cut := w.fs.FirstFault - w.w
		b = bound{clk: b.clk, cut: cut}
	}
	w.judge(o, b, "live")
}

// finish: settle, crash, reopen, and look at the crash points collected on the way.
func (w *diskWorld) finish() {
	for i, sn := range w.snaps {
		if sn.gen > 1 {
			// judged with the bounds of its own generation only if no later reopen changed the model
			continue
		}
		w.checkSnap(sn, i)
		if len(w.res.Viol) > 0 {
			return
		}
	}
	if w.lastSnap != nil && w.firstRec != nil {
		w.grown(w.lastSnap, w.firstRec, "after the first reopening")
	}
}

// grown: what a kill at an earlier moment would have left, a later kill leaves, too.
func (w *diskWorld) grown(was, now *obs, when string) {
	w.res.stat("growth_checks", 1)
	for _, f := range sortedKeys(was.index) {
		if w.totals {
			for _, t := range sortedKeys(was.index[f]) {
				in := map[string]bool{}
				for _, d := range now.index[f][t] {
					in[d] = true
				}
				for _, d := range was.index[f][t] {
					if !in[d] {
						w.res.bad("posting-lost", "%s: document %q under term %q of field %q was on the folder earlier and is gone", when, d, t, f)
					}
				}
			}
			if now.size[f] < was.size[f] || now.length[f] < was.length[f] {
				w.res.bad("totals", "%s: totals of field %q are %d documents, length %d; earlier the folder had %d and %d", when, f, now.size[f], now.length[f], was.size[f], was.length[f])
			}
			for _, t := range sortedKeys(was.nft[f]) {
				if now.nft[f][t] < was.nft[f][t] {
					w.res.bad("nft", "%s: %d documents reported for term %q of field %q, earlier the folder had %d", when, now.nft[f][t], t, f, was.nft[f][t])
				}
			}
		}
		for _, d := range sortedKeys(was.fields[f]) {
			first, last := -1, -1
			for i, v := range w.m.vers[f][d] {
				if first < 0 && sameField(was.fields[f][d], v) {
					first = i
				}
				if x, in := now.fields[f][d]; in && sameField(x, v) {
					last = i
				}
			}
			if last < first {
				w.res.bad("doc-lost", "%s: field %q of document %q was on the folder earlier and is gone or older now", when, f, d)
			}
		}
	}
}

func (w *diskWorld) checkSnap(sn *snapshot, i int) {
	if w.proc != nil && !w.proc.Dead {
		w.s.Kill(w.proc)
		w.proc.Dead, w.dead = true, true
	}
	when := fmt.Sprintf("killed at %.3fs (%s)", float64(sn.at)/1e9, sn.why)
	p, st, why := w.open(sn.fs, w.cache, fmt.Sprintf("crash%d", i))
	if st == nil {
		w.res.bad("open", "%s: the folder does not open again: %s", when, why)
		return
	}
	o, why := w.readAll(p, st)
	if o == nil {
		w.res.bad("read", "%s: %s", when, why)
		return
	}
	w.res.stat("crash_points_checked", 1)
	w.judgeAt(o, sn.b, when)
	if w.p("grows") != 0 {
		if w.lastSnap != nil {
			w.grown(w.lastSnap, o, when)
		}
		w.lastSnap = o
	}
	if w.rng.Chance(0.4) && len(w.res.Viol) == 0 {
		// the reopened store works on: its flushes and merges run over whatever the crash left behind
		w.s.WaitCond(func() bool { return p.Dead }, 32*sec)
		if p.Dead {
			w.res.bad("died", "%s: the reopened process ended by itself: %s\n%s", when, short(p.ExitMsg), w.s.LastStack())
			return
		}
		o2, why := w.readAll(p, st)
		if o2 == nil {
			w.res.bad("read", "%s: %s", when, why)
			return
		}
		if o2.digest != o.digest {
			w.res.bad("changed", "%s: the reopened store changes its answers by itself", when)
		}
	}
	w.s.Kill(p)
	sn.fs = nil
	w.fs.Use()
}

func (w *diskWorld) judgeAt(o *obs, b bound, when string) {
	// versions begun before a later crash carry that crash's verdict; crash points are taken in the first
	// generation, where ret times alone decide
	saved := make([]bool, len(w.m.all))
	firm := make([]bool, len(w.m.all))
	base := make([]bool, len(w.m.all))
	for i, v := range w.m.all {
		saved[i], firm[i], base[i] = v.old, v.firm, v.base
		v.old, v.firm, v.base = false, false, false
	}
	seenSave, nb, ns, ch, ol := w.m.seen, w.m.nbase, w.m.nset, w.m.chain, w.m.older
	w.m.seen, w.m.nbase, w.m.nset, w.m.older = map[string]seen{}, map[string]map[string]int{}, map[string]map[string]nfloor{}, map[string][]total{}
	w.m.chain = w.m.chain0()
	w.judge(o, b, when)
	w.m.seen, w.m.nbase, w.m.nset, w.m.chain, w.m.older = seenSave, nb, ns, ch, ol
	for i, v := range w.m.all {
		v.old, v.firm, v.base = saved[i], firm[i], base[i]
	}
}

// chain0 rebuilds the totals as if nothing had ever crashed.
func (m *refModel) chain0() map[string][]total {
	c := map[string][]total{}
	for _, v := range m.all {
		if v.upd {
			continue
		}
		x := c[v.f]
		if len(x) == 0 {
			x = []total{{settle: math.MinInt64}}
		}
		l := x[len(x)-1]
		c[v.f] = append(x, total{size: l.size + 1, length: l.length + v.l, ver: v})
	}
	return c
}

// fragments lists the index fragments that are still on the folder.
func (w *diskWorld) fragments() (out []string) {
	for _, p := range w.fs.Files(w.root) {
		if strings.Contains(p, "/temp/") && !strings.HasSuffix(p, "/") {
			out = append(out, p)
		}
	}
	return
}

func (w *diskWorld) quiet(d int64) {
	w.waitAlive(d)
	if w.proc == nil || w.proc.Dead {
		return
	}
	w.res.stat("quiet_checks", 1)
	if fr := w.fragments(); len(fr) > 0 {
		w.res.bad("unmerged", "%d fragments are still on the folder after %d quiet seconds: %s", len(fr), d/sec, short(fr))
	}
}

// still compares what runs and what is open after a quiet while with what ran after the first quiet while of the same
// store. A few more may have come to be used, but not one with every operation.
func (w *diskWorld) still(d int64) {
	w.waitAlive(d)
	if w.proc == nil || w.proc.Dead {
		return
	}
	ts := w.proc.TaskList()
	if w.stillGen != w.opens {
		w.stillGen, w.still0 = w.opens, len(ts)
		return
	}
	w.res.stat("still_checks", 1)
	if len(ts) > w.still0+8 {
		n := map[string]int{}
		for _, t := range ts {
			n[t.Name+" "+t.Waiting()]++
		}
		most := ""
		for _, k := range sortedKeys(n) {
			if most == "" || n[k] > n[most] {
				most = k
			}
		}
		w.res.bad("goroutines", "%d goroutines of the store are there %d s after the last call, %d were there before the first: %d times %s", len(ts), d/sec, w.still0, n[most], short(most))
	}
	if n := w.fs.Open(); n > 8 {
		w.res.bad("open-files", "%d files are open %d s after the last call", n, d/sec)
	}
}

// tidy counts the files: an index, two kinds of statistics and a document are a file each. Every one may have one
// spare, and a few more may be anything, but what crashes leave does not add up.
func (w *diskWorld) tidy(d int64) {
	w.waitAlive(d)
	if w.proc == nil || w.proc.Dead {
		return
	}
	w.res.stat("tidy_checks", 1)
	fields, docs := map[string]bool{}, map[string]bool{}
	for _, v := range w.m.all {
		fields[v.f], docs[v.d] = true, true
	}
	var have []string
	for _, p := range w.fs.Files(w.root) {
		if !strings.HasSuffix(p, "/") {
			have = append(have, strings.TrimPrefix(p, w.fs.Abs(w.root)))
		}
	}
	limit := 2*(3*len(fields)+len(docs)) + 8
	if n := int64(len(have)); n > w.res.Stats["tidy_most"] {
		w.res.Stats["tidy_most"] = n
	}
	if len(have) > limit {
		w.res.bad("leftovers", "%d files are on the folder %d s after it was opened, for %d fields and %d documents, after %d crashes: %s", len(have), d/sec, len(fields), len(docs), w.gen, short(have))
	}
}

func (w *diskWorld) outside() {
	pre := "/work/"
	root := w.root
	if strings.HasPrefix(root, "/") {
		pre = ""
	}
	root = strings.TrimSuffix(pre+root, "/") + "/"
	for _, d := range []string{"/work", "/tmp", "/"} {
		for _, p := range w.fs.Files(d) {
			p = strings.ReplaceAll(p, "//", "/")
			if !strings.HasPrefix(p, root) && !strings.HasPrefix(root, p) && p != "/work/" && p != "/tmp/" {
				w.res.bad("outside", "%q is outside the store's folder %q", p, root)
			}
		}
	}
}

func (w *diskWorld) onDisk() {
	w.join(-1)
	if w.proc == nil || w.proc.Dead {
		return
	}
	// 60 s after the later of the last return and the disk responding again
	for {
		t := w.lastRet
		if w.fs.StallEnd > t {
			t = w.fs.StallEnd
		}
		if t += 60 * sec; t <= w.s.Elapsed() {
			break
		}
		w.waitAlive(t - w.s.Elapsed())
		if w.proc.Dead {
			return
		}
	}
	w.kill()
	w.crashB.cut = w.s.Elapsed()
	w.reopen(w.cache)
	w.check()
}

// damage flips or cuts stored bytes while the store is closed.
func (w *diskWorld) damage(o *Op) {
	if w.proc != nil && !w.proc.Dead {
		w.kill()
	}
	if w.proc != nil {
		w.proc.Dead, w.dead = true, true
	}
	for k := int64(0); k < 1+w.p("trials") && len(w.res.Viol) == 0; k++ {
		w.damaged(o, w.fs.Clone(), simrt.NewRng(uint64(o.N+k*7919)^0x7777))
	}
	w.fs.Use()
	w.stop = true
}

// damaged damages a copy of the folder and opens and reads it.
func (w *diskWorld) damaged(o *Op, fs *simos.FS, g *simrt.Rng) {
	var files []string
	for _, p := range fs.Files(w.root) {
		if !strings.HasSuffix(p, "/") && (o.F == "" || strings.Contains(p, o.F)) {
			files = append(files, p)
		}
	}
	if len(files) == 0 {
		return
	}
	for i := 0; i < 1+int(o.L); i++ {
		p := files[g.Intn(len(files))]
		b, _ := fs.Read(p)
		if len(b) == 0 {
			continue
		}
		n := append([]byte(nil), b...)
		kind := ""
		switch g.Intn(7) {
		case 0, 1:
			kind = "flip"
			for k := 0; k < 1+g.Intn(3); k++ {
				n[g.Intn(len(n))] ^= 1 << g.Intn(8)
			}
		case 2:
			kind = "overwrite"
			n[g.Intn(len(n))] = byte(g.Intn(256))
		case 3:
			kind = "truncate"
			n = n[:g.Intn(len(n))]
		case 4:
			kind = "empty"
			n = n[:0]
		case 5:
			kind = "zeros"
			a := g.Intn(len(n))
			for k := a; k < len(n) && k < a+1+g.Intn(64); k++ {
				n[k] = 0
			}
		case 6: // the end is missing
			kind = "truncate"
			n = n[:len(n)-1-g.Intn(len(n))/4]
		}
		fs.Damage(p, n)
		w.res.stat("damage_"+kind, 1)
		w.s.Event("damage", kind, p)
	}
	// open: a loud failure is fine, a wrong answer is not
	w.gen++
	p, st, why := w.open(fs, int(o.N)%7, fmt.Sprintf("store%d", w.gen))
	defer func() {
		if !p.Dead {
			w.s.Kill(p)
		}
	}()
	if st == nil {
		w.res.stat("damage_refused", 1)
		return
	}
	ob, why := w.readAll(p, st)
	if ob == nil {
		if p.Dead {
			w.res.stat("damage_refused", 1)
			return
		}
		w.res.bad("read", "%s", why)
		return
	}
	w.res.stat("damage_harmless", 1)
	b := w.crashB
	b.cut = w.s.Elapsed()
	w.judge(ob, b, "after damage")
}
