package main

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	lib "github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzclient"

	"verif.local/simrt"
)

// The resave world saves fields of documents again and again, on either store, over crashes, and compares
// every answer with a model in which a save replaces the earlier version.
func init() { worlds["resave"] = resaveWorldRun }

type rsWorld struct {
	*run
	proc   *simrt.Proc
	st     lib.Storage
	mem    bool
	vers   map[string]map[string][]*Op // field -> doc -> versions
	unset  map[string]*Op              // saves not settled yet
	at     map[string]int64
	murky  bool
	opened int64
	gen    int
	stop   bool
}

func resaveWorldRun(r *run) {
	w := &rsWorld{run: r, vers: map[string]map[string][]*Op{}, unset: map[string]*Op{}, at: map[string]int64{}}
	for i := range r.plan.Ops {
		o := r.plan.Ops[i]
		switch o.K {
		case "open":
			w.open(&o)
		case "wait":
			w.s.WaitCond(func() bool { return w.proc == nil || w.proc.Dead }, o.N)
		case "kill":
			w.kill()
		case "save", "check":
			w.do(&o)
		case "redo": // whatever a crash left unknown is saved again
			for _, k := range sortedKeys(w.unset) {
				x := *w.unset[k]
				x.K = "save"
				w.do(&x)
			}
		default:
			w.res.Trouble = "unknown step " + o.K
		}
		if w.proc != nil && w.proc.Dead && w.proc.Exited {
			w.res.bad("died", "the process ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
		}
		if w.stop || len(w.res.Viol) > 0 || w.res.Trouble != "" {
			return
		}
	}
	w.do(&Op{K: "check"})
}

func (w *rsWorld) kill() {
	if w.mem || w.proc == nil || w.proc.Dead {
		return
	}
	now := w.s.Elapsed()
	w.s.Kill(w.proc)
	w.fs.CloseAll()
	w.res.stat("kills", 1)
	for _, k := range sortedKeys(w.unset) {
		if w.at[k] <= now-30*sec {
			delete(w.unset, k)
		} else {
			w.murky = true
		}
	}
	w.proc, w.st = nil, nil
}

func (w *rsWorld) open(o *Op) {
	if w.proc != nil && w.mem {
		return
	}
	w.kill()
	w.gen++
	p := w.s.NewProc(fmt.Sprintf("store%d", w.gen))
	simrt.ResetGlobals()
	w.fs.Use()
	w.mem = o.N < 0
	var err error
	t := p.Go("open", func() {
		if w.mem {
			w.st = lib.NewMemory()
		} else {
			w.st, err = lib.NewDiskStore("store/", int(o.N))
		}
	})
	w.s.WaitCond(func() bool { return t.Done() || p.Dead }, 1200*sec)
	w.s.JoinTask(t)
	w.proc, w.opened = p, w.s.Elapsed()
	if p.Dead || err != nil || !t.Done() {
		w.res.bad("open", "opening the folder failed: %v %s", err, p.ExitMsg)
		w.stop = true
	}
}

func (w *rsWorld) do(o *Op) {
	if w.proc == nil || w.proc.Dead || w.st == nil {
		return
	}
	st := w.st
	t := w.proc.Go("client", func() {
		if o.K == "check" {
			w.check(st)
			return
		}
		if w.vers[o.F] == nil {
			w.vers[o.F] = map[string][]*Op{}
		}
		if len(w.vers[o.F][o.D]) > 0 {
			w.res.stat("resaves", 1)
		}
		x := *o
		x.C = 0
		w.vers[o.F][o.D] = append(w.vers[o.F][o.D], &x)
		k := o.F + "\x00" + o.D
		w.unset[k] = &x
		w.s.Event("save", o.D, o.F)
		st.SaveOrUpdate(o.D, o.field())
		w.at[k] = w.s.Elapsed()
		w.res.stat("saves", 1)
	})
	ok := w.s.WaitCond(func() bool { return t.Done() || w.proc.Dead }, 3600*sec)
	w.s.JoinTask(t)
	if !ok {
		w.res.bad("stuck", "a %s does not return: %s", o.K, short(w.s.Describe()))
		w.stop = true
	}
}

func (w *rsWorld) check(st lib.Storage) {
	w.res.stat("checks", 1)
	if w.murky && len(w.unset) > 0 {
		// a crash lost saves and they have not been repeated: nothing is promised about them
		for _, k := range sortedKeys(w.unset) {
			if w.at[k] < w.opened {
				return
			}
		}
	}
	where := "disk"
	if w.mem {
		where = "memory"
	}
	count := func(id, what string, got, repl, add int) {
		switch {
		case got == repl:
		case got == add || w.murky && got > repl && got < add:
			w.known(where+"-"+id, "%s is %d; with every save replacing the one before it is %d (the sum over all saves is %d)", what, got, repl, add)
		default:
			w.res.bad("resave-"+id, "%s store: %s is %d; replacing gives %d, adding up all saves %d", where, what, got, repl, add)
		}
	}
	for _, f := range sortedKeys(w.vers) {
		size, sizeA, length, lengthA := 0, 0, 0, 0
		df, dfA := map[string]int{}, map[string]int{}
		post, postA := map[string]map[string]bool{}, map[string]map[string]bool{}
		add := func(m map[string]map[string]bool, t, d string) {
			if m[t] == nil {
				m[t] = map[string]bool{}
			}
			m[t][d] = true
		}
		ids := sortedKeys(w.vers[f])
		for _, d := range ids {
			vs := w.vers[f][d]
			for i, v := range vs {
				last := i == len(vs)-1
				sizeA++
				lengthA += v.L
				if last {
					size++
					length += v.L
				}
				for t := range tfMap(v.T) {
					dfA[t]++
					add(postA, t, d)
					if last {
						df[t]++
						add(post, t, d)
					}
				}
			}
		}
		count("size", fmt.Sprintf("GetFieldSize(%q)", f), st.GetFieldSize(f), size, sizeA)
		count("length", fmt.Sprintf("GetFieldLength(%q)", f), st.GetFieldLength(f), length, lengthA)
		terms := sortedKeys(dfA)
		nft := zzclient.NumTerm(st, f, terms)
		for _, t := range terms {
			count("terms", fmt.Sprintf("GetNumberFieldTerm(%q,%q)", f, t), nft[t], df[t], dfA[t])
			got, _ := zzclient.Docs(st, f, t)
			in := map[string]bool{}
			for _, d := range got {
				in[d] = true
				switch {
				case post[t][d]:
				case postA[t][d]:
					w.known(where+"-postings", "document %q is listed under term %q of field %q, which its last version does not contain", d, t, f)
				default:
					w.res.bad("phantom", "%s store: document %q is listed under term %q of field %q, which no version of it ever contained", where, d, t, f)
				}
			}
			for _, d := range sortedKeys(post[t]) {
				if !in[d] {
					w.res.bad("resave-lost", "%s store: document %q is not listed under term %q of field %q of its last version", where, d, t, f)
				}
			}
		}
		got := zzclient.Fields(st, ids, f)
		for _, d := range ids {
			vs := w.vers[f][d]
			v := vs[len(vs)-1]
			x, ok := got[d]
			if !ok || !sameTF(x, v) {
				w.res.bad("resave-contents", "%s store: field %q of %q reads %v %s, its last version is %s", where, f, d, ok, short(x), short(v.field()))
			}
		}
		w.res.State = w.res.State*1099511628211 ^ uint64(size)<<20 ^ uint64(length)
	}
}

func sameTF(x model.Field, o *Op) bool {
	tf := tfMap(o.T)
	if x.Name != o.F || x.Length != o.L || len(x.TF) != len(tf) {
		return false
	}
	for k, n := range tf {
		if x.TF[k] != n {
			return false
		}
	}
	return true
}

func genResave(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{}}
	w := newWL(g)
	w.resave = true
	if len(w.docs) > 4 {
		w.docs = w.docs[:4]
	}
	if len(w.terms) > 6 {
		w.terms = w.terms[:6]
	}
	latency(g, p, int64(g.Pick(1, 50))*ms)
	p.Sched = schedGen(g, false)
	cache := int64(g.Pick(-1, -1, 0, 1, 2, 5, 50))
	var ops []Op
	ops = append(ops, ctl("open", cache))
	var last []Op
	for k := 0; k < g.Range(1, 4); k++ {
		for j := 0; j < g.Pick(1, 3, 6, 10); j++ {
			o, ok := w.save()
			if !ok {
				continue
			}
			o.C = -1
			if len(last) > 0 && g.Chance(0.3) {
				o = last[g.Intn(len(last))] // the very same save once more
			}
			last = append(last, o)
			ops = append(ops, o)
			if g.Chance(0.2) {
				ops = append(ops, ctl("wait", g.Int63n(16*sec)))
			}
		}
		ops = append(ops, ctl("check", 0))
		switch {
		case cache < 0:
		case g.Chance(0.4):
			ops = append(ops, ctl("wait", 31*sec+g.Int63n(10*sec)), ctl("check", 0), ctl("kill", 0), ctl("open", cache), ctl("check", 0))
		case g.Chance(0.5):
			ops = append(ops, ctl("wait", g.Int63n(30*sec)), ctl("kill", 0), ctl("open", cache), ctl("redo", 0), ctl("check", 0))
		}
	}
	p.Ops = ops
	return p
}

func init() { reg(&property{id: "U01", quick: 12000, world: "resave", gen: genResave}) }
