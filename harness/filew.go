package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/file"

	"verif.local/simrt"
	simos "verif.local/simrt/os"
)

// The world of F01: several callers replace and read the same files through package file, on a disk with faults,
// kills and power loss. Each file is an atomic, durable register.

func init() { worlds["file"] = fileWorldRun }

const never = int64(1<<63 - 1)

type fileSave struct {
	v        int
	inv, ret int64 // ticks
	ok       bool
}

type fileRead struct {
	inv, ret int64
	v        int // 0: no such file
}

type oneFile struct {
	saves []*fileSave
	reads []*fileRead
	base  int // contents at the beginning of the epoch, 0: none
}

type fileWorld struct {
	*run
	proc    *simrt.Proc
	files   map[string]*oneFile
	clk     int64
	nextV   int
	clients []*simrt.Task
	gen     int
	calm    bool // nothing has failed and nothing was killed so far
	inSave  int  // saves going on
	inFatal int  // calls going on that may end the process when the disk fails
	byV     map[int]string
	dead    bool
	stop    bool
}

func (w *fileWorld) tick() int64 { w.clk++; return w.clk }

func (w *fileWorld) path(d, f string) string { return d + "/" + f }

func (w *fileWorld) of(p string) *oneFile {
	if w.files[p] == nil {
		w.files[p] = &oneFile{}
	}
	return w.files[p]
}

func fileWorldRun(r *run) {
	w := &fileWorld{run: r, files: map[string]*oneFile{}, calm: true, byV: map[int]string{}}
	if r.plan.P["premade"] == 1 {
		for _, d := range fileDirs {
			r.fs.Premade(d)
		}
	}
	w.begin()
	var pend []Op
	for i := range r.plan.Ops {
		o := r.plan.Ops[i]
		if o.C >= 0 {
			pend = append(pend, o)
			continue
		}
		w.start(pend)
		pend = nil
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
		if w.control(&o); w.stop || len(w.res.Viol) > 0 {
			return
		}
	}
	w.start(pend)
	if w.stop || len(w.res.Viol) > 0 {
		return
	}
	w.join(-1)
	if w.stop || len(w.res.Viol) > 0 {
		return
	}
	w.judge("")
	w.leftovers()
}

// begin starts a process, which makes its directories.
func (w *fileWorld) begin() {
	for try := 0; ; try++ {
		w.gen++
		w.fs.Use()
		w.proc = w.s.NewProc(fmt.Sprintf("app%d", w.gen))
		simrt.ResetGlobals()
		w.dead = false
		w.inFatal = 1
		t := w.proc.Go("open", func() {
			if w.plan.P["premade"] == 0 {
				for _, d := range fileDirs {
					file.CreteDirIfNotExist(d)
				}
			}
		})
		ok := w.s.WaitCond(func() bool { return t.Done() || w.proc.Dead }, 600*sec)
		w.s.JoinTask(t)
		if t.Done() && !w.proc.Dead {
			w.inFatal = 0
		}
		if !ok {
			w.res.bad("stuck", "making directories does not end: %s", short(w.s.Describe()))
			w.stop = true
			return
		}
		if !w.proc.Dead {
			return
		}
		w.death()
		if w.stop = w.stop || len(w.res.Viol) > 0; w.stop {
			return
		}
		w.lost()
		if try > 5 {
			w.fs.ClearFaults()
		}
		w.s.WaitCond(func() bool { return false }, sec)
	}
}

func (w *fileWorld) start(ops []Op) {
	if len(ops) == 0 {
		return
	}
	if w.proc.Dead {
		if w.death(); len(w.res.Viol) == 0 {
			w.lost()
		}
		if len(w.res.Viol) == 0 && !w.stop {
			w.begin()
		}
		if len(w.res.Viol) > 0 || w.stop {
			return
		}
	}
	by := map[int][]Op{}
	max := 0
	for _, o := range ops {
		by[o.C] = append(by[o.C], o)
		if o.C > max {
			max = o.C
		}
	}
	for c := 0; c <= max; c++ {
		l := by[c]
		if len(l) == 0 {
			continue
		}
		t := w.proc.Go(fmt.Sprintf("client%d", c), func() {
			for i := range l {
				w.client(&l[i])
			}
		})
		t.Client = true
		w.clients = append(w.clients, t)
	}
}

func (w *fileWorld) failing() bool {
	if w.fs.FirstFault >= 0 {
		w.calm = false
		return true
	}
	return false
}

func fileBody(p string, v, n int) []byte {
	h := []byte(fmt.Sprintf("%s#%d#", p, v))
	if n < len(h) {
		n = len(h)
	}
	b := make([]byte, 0, n)
	b = append(b, h...)
	x := hash64(string(h))
	for len(b) < n {
		x = x*6364136223846793005 + 1442695040888963407
		if x>>60 < 4 { // compressible
			b = append(b, h...)
		} else {
			b = append(b, byte(x>>56), byte(x>>48), byte(x>>40))
		}
	}
	return b[:n]
}

// version recognises a body, or says what is wrong with it.
func (w *fileWorld) version(p string, b []byte) (int, string) {
	parts := bytes.SplitN(b, []byte("#"), 3)
	if len(parts) < 3 {
		return 0, fmt.Sprintf("%d bytes that were never saved", len(b))
	}
	v := 0
	fmt.Sscan(string(parts[1]), &v)
	want, ok := w.byV[v]
	switch {
	case !ok:
		return 0, fmt.Sprintf("%d bytes that were never saved", len(b))
	case string(parts[0]) != p:
		return 0, "the contents of " + string(parts[0])
	case want != string(b):
		return 0, fmt.Sprintf("a mixture or part of version %d (%d bytes of %d)", v, len(b), len(want))
	}
	return v, ""
}

func (w *fileWorld) client(o *Op) {
	switch o.K {
	case "sleep":
		simrt.SleepNS(o.N)
	case "dir":
		w.inFatal++
		file.CreteDirIfNotExist(o.D)
		w.inFatal--
	case "save":
		p := w.path(o.D, o.F)
		w.nextV++
		v := w.nextV
		body := fileBody(p, v, int(o.N))
		w.byV[v] = string(body)
		buf := file.CompressData(body)
		f := w.of(p)
		sv := &fileSave{v: v, inv: w.tick(), ret: never}
		f.saves = append(f.saves, sv)
		w.inSave++
		w.s.Event("save", p, v)
		err := file.SecureSaveFile(o.D, o.F, buf)
		w.inSave--
		sv.ret, sv.ok = w.tick(), err == nil
		w.s.Event("saved", p, v, err == nil)
		w.res.stat("saves", 1)
		if err != nil {
			w.res.stat("saves_refused", 1)
			if !w.failing() && !strings.HasPrefix(o.D, "nope") {
				w.res.bad("save", "replacing %s fails although nothing is wrong: %v", p, err)
			}
		} else if strings.HasPrefix(o.D, "nope") {
			w.res.bad("save", "saving %s into a missing directory reports success", p)
		}
	case "read":
		p := w.path(o.D, o.F)
		f := w.of(p)
		rd := &fileRead{inv: w.tick()}
		b, err := file.ReadFileOnDisk(p)
		if err == nil {
			b = file.DecompressData(b)
		}
		rd.ret = w.tick()
		w.res.stat("reads", 1)
		if err != nil {
			if os.IsNotExist(err) {
				f.reads = append(f.reads, rd)
			} else if !w.failing() {
				w.res.bad("read", "reading %s fails although nothing is wrong: %v", p, err)
			}
			return
		}
		v, bad := w.version(p, b)
		w.s.Event("read", p, v)
		if bad != "" {
			w.res.bad("torn", "reading %s while it is being replaced gives %s", p, bad)
			return
		}
		rd.v = v
		f.reads = append(f.reads, rd)
	case "list":
		must := map[string]bool{}
		for p, f := range w.files {
			if strings.HasPrefix(p, o.D+"/") && !strings.Contains(p[len(o.D)+1:], "/") && w.anySaved(f) {
				must[p[len(o.D)+1:]] = true
			}
		}
		busy, begun := w.inSave, w.nextV
		w.inFatal++
		l := file.ListFiles(o.D)
		w.inFatal--
		w.res.stat("lists", 1)
		got := map[string]bool{}
		for _, x := range l {
			if got[x] {
				w.res.bad("list", "%s is listed twice in %s", x, o.D)
			}
			got[x] = true
		}
		for x := range must {
			if !got[x] {
				w.res.bad("list", "%s is not listed in %s: %q", x, o.D, l)
			}
		}
		if w.calm && !w.failing() && busy == 0 && begun == w.nextV { // no save anywhere near
			for _, x := range l {
				if w.files[w.path(o.D, x)] == nil {
					w.res.bad("list", "%s is listed in %s, nobody saved it", x, o.D)
				}
			}
		}
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

// anySaved: the file certainly exists.
func (w *fileWorld) anySaved(f *oneFile) bool {
	if f.base != 0 {
		return true
	}
	for _, s := range f.saves {
		if s.ok {
			return true
		}
	}
	return false
}

func (w *fileWorld) running() bool {
	for _, t := range w.clients {
		if !t.Done() {
			return true
		}
	}
	return false
}

func (w *fileWorld) join(limit int64) {
	lim := limit
	if lim < 0 {
		lim = 3600 * sec
	}
	ok := w.s.WaitCond(func() bool { return w.proc.Dead || (limit < 0 && !w.running()) }, lim)
	if limit < 0 && !ok && !w.proc.Dead {
		w.res.bad("stuck", "callers still blocked after an hour: %s", short(w.s.Describe()))
		w.stop = true
	}
	for _, t := range w.clients {
		if t.Done() || w.proc.Dead {
			w.s.JoinTask(t)
		}
	}
	if limit < 0 || w.proc.Dead {
		w.clients = nil
	}
	w.death()
}

// death looks at a process that is no more.
func (w *fileWorld) death() {
	if !w.proc.Dead || w.dead {
		return
	}
	w.dead = true
	w.calm = false
	w.clients = nil
	w.inSave = 0
	if w.proc.Exited {
		if w.failing() && w.inFatal > 0 {
			w.res.stat("exits_on_fault", 1)
		} else {
			w.res.bad("died", "the process ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
			w.stop = true
		}
	}
	now := w.tick()
	for _, f := range w.files {
		for _, s := range f.saves {
			if s.ret == never {
				s.ret = now
			}
		}
	}
}

// lost: the machine lost power if it was to; what is there now is what the files hold from here on.
func (w *fileWorld) lost() {
	w.fs.CloseAll()
	if !w.fs.PowerCut {
		return
	}
	w.fs.PowerCut = false
	w.judge("before the loss of power ") // what was seen until now
	lo, lf := w.fs.PowerLoss(w.rng)
	w.res.stat("power_losses", 1)
	w.res.stat("lost_dir_ops", int64(lo))
	w.res.stat("lost_or_torn_files", int64(lf))
	w.s.Event("power-loss", lo, lf)
	for _, p := range sortedKeys(w.files) {
		f := w.files[p]
		cand := map[int]bool{}
		if !w.someOK(f) {
			cand[f.base] = true
		}
		for _, a := range f.saves {
			over := false
			for _, b := range f.saves {
				over = over || b.ok && b.inv > a.ret
			}
			if !over {
				cand[a.v] = true
			}
		}
		v, bad := 0, ""
		if b, ok := w.fs.Read(p); ok {
			if b, bad = tryGunzip(b); bad == "" {
				v, bad = w.version(p, b)
			}
		}
		if bad != "" {
			w.res.bad("torn", "after a loss of power %s holds %s", p, bad)
		} else if !cand[v] {
			w.res.bad("lost", "after a loss of power %s holds %s, it must hold one of %v", p, vname(v), candList(cand))
		}
		f.base, f.saves, f.reads = v, nil, nil
	}
}

func vname(v int) string {
	if v == 0 {
		return "nothing"
	}
	return fmt.Sprintf("version %d", v)
}

func candList(c map[int]bool) []string {
	var l []int
	for v := range c {
		l = append(l, v)
	}
	sort.Ints(l)
	var out []string
	for _, v := range l {
		out = append(out, vname(v))
	}
	return out
}

func (w *fileWorld) someOK(f *oneFile) bool {
	for _, s := range f.saves {
		if s.ok {
			return true
		}
	}
	return false
}

func tryGunzip(b []byte) (out []byte, bad string) {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err == nil {
		out, err = io.ReadAll(gz)
	}
	if err != nil {
		return nil, fmt.Sprintf("%d bytes that are not a complete file: %v", len(b), err)
	}
	return out, ""
}

// judge checks the history of every file since the last loss of power, ended by a look at what is there now.
func (w *fileWorld) judge(when string) {
	for _, p := range sortedKeys(w.files) {
		f := w.files[p]
		last := &fileRead{inv: w.tick()}
		if b, ok := w.fs.Read(p); ok {
			b, bad := tryGunzip(b)
			if bad == "" {
				last.v, bad = w.version(p, b)
			}
			if bad != "" {
				w.res.bad("torn", "%s%s holds %s", when, p, bad)
				return
			}
		}
		last.ret = w.tick()
		w.res.State = w.res.State*1099511628211 ^ uint64(last.v)
		reads := append(append([]*fileRead(nil), f.reads...), last)
		seen := map[int]bool{}
		var h []linOp
		for _, r := range reads {
			seen[r.v] = true
			h = append(h, linOp{inv: r.inv, ret: r.ret, in: "read", out: fmt.Sprint(r.v)})
		}
		for _, s := range f.saves {
			if s.ok || seen[s.v] { // a save that failed or was cut off may have happened
				ret := s.ret
				h = append(h, linOp{inv: s.inv, ret: ret, in: "save", out: fmt.Sprint(s.v)})
			}
		}
		w.res.stat("histories", 1)
		switch linearizable(h, fmt.Sprint(f.base), func(st string, o *linOp) (string, bool) {
			if o.in == "save" {
				return o.out.(string), true
			}
			return st, st == o.out
		}, 200000) {
		case 0:
			w.res.bad("stale", "%sno order of the saves of %s explains what was read: %s", when, p, w.history(f, last))
		case -1:
			w.res.stat("undecided", 1)
		}
	}
}

func (w *fileWorld) history(f *oneFile, last *fileRead) string {
	type ev struct {
		at int64
		s  string
	}
	var l []ev
	for _, s := range f.saves {
		l = append(l, ev{s.inv, fmt.Sprintf("[save %d", s.v)}, ev{s.ret, fmt.Sprintf("save %d ok=%v]", s.v, s.ok)})
	}
	for _, r := range append(f.reads, last) {
		l = append(l, ev{r.inv, "[read"}, ev{r.ret, "read: " + vname(r.v) + "]"})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
	var out []string
	for _, e := range l {
		out = append(out, e.s)
	}
	if len(out) > 24 {
		out = out[len(out)-24:]
	}
	return fmt.Sprintf("initially %s; %s", vname(f.base), strings.Join(out, ", "))
}

// leftovers: where nothing failed, only the files themselves are left.
func (w *fileWorld) leftovers() {
	if !w.calm || w.failing() {
		return
	}
	for _, p := range w.fs.Files("/work") {
		p = strings.TrimPrefix(p, "/work/")
		if strings.HasSuffix(p, "/") {
			continue
		}
		if w.files[p] == nil || !w.anySaved(w.files[p]) {
			w.res.bad("leftover", "%s is left behind, nobody saved it", p)
			return
		}
	}
}

func (w *fileWorld) control(o *Op) {
	switch o.K {
	case "wait":
		w.join(-1)
		w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
		w.death()
	case "fault":
		ft := *o.Ft
		ft.After = w.s.Elapsed()
		w.fs.Faults = append(w.fs.Faults, &ft)
		return
	case "faultsoff":
		w.failing()
		w.fs.ClearFaults()
		return
	case "kill", "power":
		if o.N > 0 {
			w.join(o.N)
		} else {
			w.join(-1)
		}
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
		if !w.proc.Dead {
			w.s.Event("harness-kill")
			w.s.Kill(w.proc)
			w.res.stat("kills", 1)
		}
		w.death()
		if o.K == "power" {
			w.fs.PowerCut = true
		}
		w.lost()
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
		w.begin()
		return
	default:
		w.res.Trouble = "unknown step " + o.K
		return
	}
	if w.proc.Dead && !w.stop && len(w.res.Viol) == 0 {
		w.lost()
		w.begin()
	}
}

var fileDirs = []string{"data", "data/in/side", "store/a b/metrics"}

func genFile(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{}}
	p.Sched = schedGen(g, true)
	latency(g, p, 20*ms)
	if g.Chance(0.5) {
		p.P["premade"] = 1
		if g.Chance(0.7) {
			p.P["perdir"] = 1
		}
	}
	nc := g.Range(1, 4)
	nf := g.Range(1, 3)
	type fd struct{ d, f string }
	var fl []fd
	for j := 0; j < nf; j++ {
		fl = append(fl, fd{fileDirs[g.Intn(len(fileDirs))], []string{"index.bin", "metrics.bin", "x", "0b1c_temp"}[g.Intn(3)]})
	}
	batch := func(n int) (ops []Op) {
		for j := 0; j < n; j++ {
			x := fl[g.Intn(len(fl))]
			o := Op{C: g.Intn(nc), D: x.d, F: x.f}
			switch g.Intn(10) {
			case 0, 1, 2, 3, 4:
				o.K, o.N = "save", int64(g.Pick(0, 1, 100, 700, 2000, 9000))
				if g.Chance(0.02) {
					o.D = "nope/x"
				}
			case 5, 6, 7:
				o.K = "read"
			case 8:
				o.K, o.F = "list", ""
			case 9:
				if g.Chance(0.5) {
					o.K, o.F = "dir", ""
					if p.P["premade"] == 1 {
						o.K, o.N = "sleep", g.Int63n(200*ms)
					}
				} else {
					o.K, o.N = "sleep", g.Int63n(200*ms)
				}
			}
			ops = append(ops, o)
		}
		return
	}
	kinds := []string{"", "w", "rename", "write", "create", "remove", "fsync", "open"}
	mode := g.Intn(5) // 0 calm, 1 disk faults, 2 kills, 3 power, 4 everything
	var ops []Op
	n := g.Range(1, 4)
	for k := 0; k < n; k++ {
		if (mode == 1 || mode == 4) && g.Chance(0.7) {
			f := simos.Fault{Kind: []string{"eio", "enospc", "short"}[g.Intn(3)], Op: append(kinds, "read", "stat", "readdir", "r")[g.Intn(12)], Nth: g.Pick(0, 0, 1, 2, 5, 9, 20)}
			if g.Chance(0.2) {
				f.Count, f.Dur = -1, 1+g.Int63n(sec)
			} else {
				f.Count = g.Pick(1, 1, 1, 2, 3)
			}
			ops = append(ops, fault(f))
		}
		kind := ""
		switch {
		case mode == 2:
			kind = "kill"
		case mode == 3:
			kind = "power"
		case mode == 4:
			kind = []string{"kill", "power"}[g.Intn(2)]
		}
		if kind != "" && g.Chance(0.6) {
			ops = append(ops, fault(simos.Fault{Kind: kind, Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 4, 8, 15, 30)}))
		}
		ops = append(ops, batch(g.Pick(2, 4, 8, 14))...)
		if kind != "" && g.Chance(0.6) {
			at := int64(0)
			if g.Chance(0.4) {
				at = 1 + g.Int63n(500*ms)
			}
			ops = append(ops, ctl(kind, at))
		} else if g.Chance(0.4) {
			ops = append(ops, ctl("wait", g.Int63n(int64(g.Pick(1000, 50000))*ms)))
		}
	}
	if mode >= 3 {
		ops = append(ops, ctl("faultsoff", 0), ctl("power", 0))
	}
	ops = append(ops, batch(g.Pick(0, 2, 5))...)
	p.Ops = ops
	return p
}

func init() {
	reg(&property{id: "F01", quick: 20000, world: "file", gen: genFile, races: true})
}
