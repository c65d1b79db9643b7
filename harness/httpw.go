package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"sort"
	"strings"
	"unicode"

	goirlibmain "github.com/sira-serverless-ir-arch/goirlib"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/zzclient"
	"github.com/sira-serverless-ir-arch/porter2"

	"verif.local/simrt"
	simos "verif.local/simrt/os"
)

func init() { worlds["http"] = httpWorldRun }

type httpDoc struct {
	id          string
	title, text map[string]int
	lt, lx      int
	inv, ret    int64
	retNS       int64
	settled     bool
	gone        bool
	gen         int  // the start of the service it was posted to
	unsure      bool // another post of the same id may count instead
}

type httpWorld struct {
	*run
	proc    *simrt.Proc
	h       http.Handler
	docs    []*httpDoc
	byID    map[string]*httpDoc
	stopset map[string]bool
	clk     int64
	clients []*simrt.Task
	stop    bool
	murky   bool // the stored counts are not known exactly
	live    bool // posts are going on
	gen     int
	power   bool // the machine is to lose power
	mayExit bool // disk errors may end the service
	prompt  bool // no task is held up by the scheduler: answers must come in time
	blind   bool // disk errors may hide documents from searches
}

func (w *httpWorld) tick() int64 { w.clk++; return w.clk }

func httpWorldRun(r *run) {
	w := &httpWorld{run: r, byID: map[string]*httpDoc{}, stopset: map[string]bool{}}
	w.mayExit = r.plan.P["mayexit"] == 1
	w.prompt = r.plan.Sched.Stall == 0
	var pend []Op
	for i := range r.plan.Ops {
		o := r.plan.Ops[i]
		if o.C >= 0 {
			pend = append(pend, o)
			continue
		}
		w.begin(pend)
		pend = nil
		w.control(&o)
		if w.stop || len(w.res.Viol) > 0 {
			return
		}
	}
	w.begin(pend)
	w.join()
	if w.stop || len(w.res.Viol) > 0 {
		return
	}
	w.final()
}

func (w *httpWorld) control(o *Op) {
	switch o.K {
	case "start":
		w.join()
		if !w.stop {
			w.start()
		}
	case "kill": // with requests under way if N > 0, that long after the last of them was sent
		if o.N > 0 && w.proc != nil && !w.proc.Dead {
			w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
			w.death()
		} else {
			w.join()
		}
		w.kill()
	case "wait":
		w.join()
		if w.proc != nil && !w.proc.Dead {
			w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
		}
		w.death()
	case "power":
		if o.N > 0 && w.proc != nil && !w.proc.Dead {
			w.s.WaitCond(func() bool { return w.proc.Dead }, o.N)
			w.death()
		} else {
			w.join()
		}
		w.power = true
		w.kill()
		w.lost()
	case "fault":
		ft := *o.Ft
		ft.After = w.s.Elapsed()
		if ft.Kind != "stall" && ft.Kind != "kill" && ft.Kind != "power" {
			w.blind = true
		}
		w.fs.Faults = append(w.fs.Faults, &ft)
	case "faultsoff": // with nothing failing any more, everything is served again
		w.join()
		w.fs.ClearFaults()
		w.blind = false
	case "join":
		w.join()
	case "check":
		w.join()
		if !w.stop {
			w.final()
		}
	default:
		w.res.Trouble = "unknown step " + o.K
		w.stop = true
	}
}

// death looks at a service that is no more.
func (w *httpWorld) death() {
	if w.stop || w.proc == nil || !w.proc.Dead {
		return
	}
	if w.proc.Exited {
		if !w.mayExit || w.fs.FirstFault < 0 {
			w.res.bad("died", "the service ended by itself: %s\n%s", short(w.proc.ExitMsg), w.s.LastStack())
			w.stop = true
			return
		}
		w.res.stat("exits_on_fault", 1)
	}
	w.down()
	w.lost()
}

func (w *httpWorld) kill() {
	if w.stop || w.proc == nil {
		return
	}
	if !w.proc.Dead {
		w.s.Event("harness-kill")
		for _, t := range w.clients {
			if !t.Done() {
				w.res.stat("kills_during_requests", 1)
				break
			}
		}
		w.s.Kill(w.proc)
		w.res.stat("kills", 1)
	}
	w.down()
}

// down notes what has to be found later.
func (w *httpWorld) down() {
	cut := w.s.Elapsed()
	if f := w.fs.FirstFault; f >= 0 && f < cut && w.fs.LastFault > cut-60*sec {
		cut = f // otherwise the service has gone on for long enough with nothing failing any more
	}
	w.clients = nil
	w.live = false
	for _, d := range w.docs {
		switch {
		case d.settled:
		case d.ret != 0 && d.retNS <= cut-30*sec && (w.fs.FirstStall < 0 || max(d.retNS, w.fs.StallEnd) <= cut-60*sec):
			d.settled = true // 60 s where the disk did not respond for a while
		default:
			d.gone = true
			w.murky = true
		}
	}
	w.fs.CloseAll()
	w.h = nil
	w.proc = nil
}

// lost takes the power away if it is to.
func (w *httpWorld) lost() {
	if !w.power && !w.fs.PowerCut {
		return
	}
	w.power, w.fs.PowerCut = false, false
	lo, lf := w.fs.PowerLoss(w.rng)
	w.res.stat("power_losses", 1)
	w.res.stat("lost_dir_ops", int64(lo))
	w.res.stat("lost_or_torn_files", int64(lf))
	w.s.Event("power-loss", lo, lf)
}

func (w *httpWorld) start() {
	if w.proc != nil {
		w.kill()
		w.lost()
	}
	for try := 0; !w.stop; try++ {
		w.gen++
		p := w.s.NewProc(fmt.Sprintf("service%d", w.gen))
		simrt.ResetGlobals()
		w.fs.Use()
		w.h = nil
		if !w.blind {
			w.fs.FirstFault = -1
		}
		var ready simrt.VC // a request sees what the serving task did before it began to serve
		w.s.RT["serve"] = func(h http.Handler) {
			w.s.Release(&ready)
			w.h = h
		}
		p.Go("main", func() {
			w.stopset = map[string]bool{}
			zzclient.Words(language.GetWords(language.English), w.stopset)
			goirlibmain.SimMain()
		})
		w.proc = p
		ok := w.s.WaitCond(func() bool { return w.h != nil || p.Dead }, 1200*sec)
		if ok && !p.Dead {
			w.s.Acquire(&ready)
			w.res.stat("starts", 1)
			return
		}
		if !ok || p.Exited && !(w.mayExit && w.fs.FirstFault >= 0) {
			w.res.bad("open", "the service does not start: %s\n%s", short(p.ExitMsg), w.s.LastStack())
			w.stop = true
			return
		}
		w.res.stat("ended_while_starting", 1)
		w.down()
		w.lost()
		if try > 5 {
			w.fs.ClearFaults()
			w.blind = false
		}
		w.s.WaitCond(func() bool { return false }, sec)
	}
}

func (w *httpWorld) begin(ops []Op) {
	if len(ops) == 0 || w.stop {
		return
	}
	if w.death(); w.proc == nil && !w.stop && w.gen > 0 {
		w.start()
	}
	if w.stop || w.proc == nil || w.proc.Dead || w.h == nil {
		return
	}
	by := map[int][]Op{}
	maxc := 0
	for _, o := range ops {
		by[o.C] = append(by[o.C], o)
		if o.C > maxc {
			maxc = o.C
		}
		if o.K == "post" {
			w.live = true
		}
	}
	for c := 0; c <= maxc; c++ {
		l := by[c]
		if len(l) == 0 {
			continue
		}
		h := w.h
		t := w.proc.Go(fmt.Sprintf("client%d", c), func() {
			for i := range l {
				w.client(h, &l[i])
			}
		})
		t.Client = true
		w.clients = append(w.clients, t)
	}
}

func (w *httpWorld) join() {
	if len(w.clients) > 0 && w.proc != nil {
		ok := w.s.WaitCond(func() bool {
			if w.proc.Dead {
				return true
			}
			for _, t := range w.clients {
				if !t.Done() {
					return false
				}
			}
			return true
		}, 3600*sec)
		if !ok && !w.proc.Dead {
			w.res.bad("stuck", "a request is not answered within an hour: %s", short(w.s.Describe()))
			w.stop = true
		}
		for _, t := range w.clients {
			w.s.JoinTask(t)
		}
		w.clients = nil
		w.live = false
	}
	w.death()
}

// call hands a request to the service's handler, as the server's goroutine of that connection does.
func (w *httpWorld) call(h http.Handler, method, target, body string) (rec *httptest.ResponseRecorder, ok bool) {
	req := httptest.NewRequest(method, target, strings.NewReader(body))
	if method == "POST" {
		req.Header.Set("Content-Type", "application/json")
	}
	rec = httptest.NewRecorder()
	began := w.s.Elapsed()
	defer func() {
		if b := max(began, w.fs.StallEnd); ok && w.prompt && w.s.Elapsed()-b > 60*sec {
			w.res.bad("slow", "%s %s %s is answered %d s after the disk responded", method, target, short(body), (w.s.Elapsed()-b)/sec)
		}
	}()
	defer func() {
		if simrt.Killed() {
			return
		}
		if r := recover(); r != nil {
			simrt.Recover(r)
			w.res.bad("panic", "%s %s %s: the handler panics: %v\n%s", method, target, short(body), r, short(string(debug.Stack())))
			ok = false
		}
	}()
	h.ServeHTTP(rec, req)
	w.s.Event("answered", method, rec.Code)
	return rec, true
}

func (w *httpWorld) terms(text string) []string {
	var out []string
	for _, t := range strings.FieldsFunc(text, func(r rune) bool {
		return !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '\''
	}) {
		t = strings.ToLower(t)
		if !w.stopset[t] {
			out = append(out, plain(porter2.Stem(t)))
		}
	}
	return out
}

func count(l []string) map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[x]++
	}
	return m
}

func (w *httpWorld) client(h http.Handler, o *Op) {
	switch o.K {
	case "post":
		t, x := w.terms(o.X[0]), w.terms(o.X[1])
		d := &httpDoc{id: o.D, title: count(t), text: count(x), lt: len(t), lx: len(x), inv: w.tick()}
		d.gen = w.gen
		if w.byID[o.D] != nil {
			// the same document again: its counts are not judged (U01), and only the last version has to be found
			w.murky = true
			for _, old := range w.docs {
				if old.id == o.D {
					old.unsure = true
					if old.ret == 0 && old.gen == d.gen {
						d.unsure = true
					}
				}
			}
		}
		w.byID[o.D] = d
		w.docs = append(w.docs, d)
		b, _ := json.Marshal(map[string]string{"id": o.D, "title": o.X[0], "text": o.X[1]})
		w.s.Event("post", o.D)
		rec, ok := w.call(h, "POST", "/nir", string(b))
		if !ok {
			return
		}
		d.ret, d.retNS = w.tick(), w.s.Elapsed()
		w.res.stat("posts", 1)
		if rec.Code != 201 {
			w.res.bad("status", "indexing document %q is answered %d, not 201: %s", o.D, rec.Code, short(rec.Body.String()))
		}
	case "bad":
		body := []string{`{"title":"alpha beta","text":"gamma"}`, `{"id":"","title":"alpha","text":"beta"}`, `{"id":"x1","title":"alp`,
			``, `[1,2]`, `{"id":7,"title":"alpha","text":"beta"}`, `nonsense`, `{"id":"x2","title":{"a":1},"text":"alpha"}`, `"x"`}[o.N%9]
		rec, ok := w.call(h, "POST", "/nir", body)
		if !ok {
			return
		}
		w.res.stat("bad_requests", 1)
		if rec.Code != 400 {
			w.res.bad("status", "POST of %s is answered %d, not 400", body, rec.Code)
		}
	case "get":
		w.get(h, o.X[0])
	case "sleep":
		simrt.SleepNS(o.N)
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

type httpHit struct {
	Similarity float64 `json:"similarity"`
	Document   struct {
		ID string `json:"id"`
	} `json:"document"`
}

func (w *httpWorld) get(h http.Handler, query string) {
	inv := w.tick()
	w.s.Event("get", query)
	target := "/nir?query=" + url.QueryEscape(query)
	if query == "" && w.clk%2 == 0 {
		target = "/nir"
	}
	live, blind := w.live, w.blind
	rec, ok := w.call(h, "GET", target, "")
	if !ok {
		return
	}
	ret := w.tick()
	w.res.stat("gets", 1)
	if rec.Code != 200 {
		w.res.bad("status", "GET %s is answered %d, not 200: %s", target, rec.Code, short(rec.Body.String()))
		return
	}
	var ans struct {
		Total        int       `json:"total"`
		QueryResults []httpHit `json:"queryResults"`
	}
	if err := json.Unmarshal(rec.Body.Bytes(), &ans); err != nil {
		w.res.bad("body", "GET %s: the answer is not JSON (%v): %s", target, err, short(rec.Body.String()))
		return
	}
	got := ans.QueryResults
	if ans.Total != len(got) || len(got) > 10 {
		w.res.bad("total", "GET %s says %d results and lists %d", target, ans.Total, len(got))
		return
	}
	w.res.stat("hits", int64(len(got)))
	terms := w.terms(query)
	may, must := map[string]bool{}, map[string]bool{}
	for _, d := range w.docs {
		if d.matches(terms) && d.inv <= ret {
			may[d.id] = true
			if !d.gone && !d.unsure && d.ret != 0 && d.ret < inv && !blind {
				must[d.id] = true
			}
		}
	}
	seen := map[string]bool{}
	for i, x := range got {
		w.res.State = w.res.State*1099511628211 ^ hash64(x.Document.ID) ^ math.Float64bits(x.Similarity)
		switch {
		case !may[x.Document.ID]:
			w.res.bad("phantom", "GET %s lists %q, which has none of these words", target, x.Document.ID)
			return
		case seen[x.Document.ID]:
			w.res.bad("twice", "GET %s lists %q twice", target, x.Document.ID)
			return
		case i > 0 && got[i-1].Similarity < x.Similarity:
			w.res.bad("order", "GET %s: similarity %v comes before %v", target, got[i-1].Similarity, x.Similarity)
			return
		case x.Similarity < 0 || !w.murky && !blind && x.Similarity == 0:
			w.res.bad("score", "GET %s: similarity of %q is %v", target, x.Document.ID, x.Similarity)
			return
		}
		seen[x.Document.ID] = true
	}
	if len(may) <= 10 {
		for id := range must {
			if !seen[id] {
				l := []string{}
				for id := range must {
					if !seen[id] {
						l = append(l, id)
					}
				}
				sort.Strings(l)
				w.res.bad("missed", "GET %s does not list %q, accepted before", target, l)
				return
			}
		}
	} else if n := len(must); len(got) < 10 && len(got) < n {
		w.res.bad("missed", "GET %s lists %d documents, %d match", target, len(got), n)
		return
	}
	if live || w.murky || blind {
		return
	}
	// at rest every score is known
	exp := w.expect(terms)
	w.res.stat("exact_rankings", 1)
	low := math.Inf(1)
	for _, x := range got {
		e := exp[x.Document.ID]
		if !near(e, x.Similarity) {
			w.res.bad("score", "GET %s: similarity of %q is %v, its stored counts give %v", target, x.Document.ID, x.Similarity, e)
			return
		}
		if e < low {
			low = e
		}
	}
	for _, id := range sortedKeys(exp) {
		if !seen[id] && exp[id] > low && !near(exp[id], low) {
			w.res.bad("best", "GET %s lists a document with similarity %v, but not %q with %v", target, low, id, exp[id])
			return
		}
	}
}

func (d *httpDoc) matches(terms []string) bool {
	for _, t := range terms {
		if d.title[t] > 0 || d.text[t] > 0 {
			return true
		}
	}
	return false
}

func (w *httpWorld) expect(terms []string) map[string]float64 {
	sw := &searchWorld{run: w.run}
	op := func(tf map[string]int, l int) *Op {
		o := &Op{L: l}
		for _, t := range sortedKeys(tf) {
			o.T = append(o.T, TF{t, tf[t]})
		}
		return o
	}
	for _, d := range w.docs {
		sw.docs = append(sw.docs, &idxDoc{id: d.id, f: map[string]*Op{"title": op(d.title, d.lt), "text": op(d.text, d.lx)}})
	}
	return sw.expect([]SubQ{{F: "title", Terms: terms}, {F: "text", Terms: terms}})
}

// final asks for every accepted document by its own words.
func (w *httpWorld) final() {
	if w.gen == 0 || w.blind {
		return
	}
	var l []Op
	done := map[string]bool{}
	for _, o := range w.plan.Ops {
		if o.K == "post" && !done[o.D] {
			done[o.D] = true
			if d := w.byID[o.D]; d != nil {
				l = append(l, Op{K: "get", X: []string{firstWord(o.X[0])}}, Op{K: "get", X: []string{firstWord(o.X[1])}})
			}
		}
	}
	l = append(l, Op{K: "get", X: []string{"alpha beta"}})
	w.begin(l)
	w.join()
}

func firstWord(s string) string {
	if f := strings.Fields(s); len(f) > 0 {
		return f[0]
	}
	return ""
}

// ---- plans ----

var httpPool = strings.Fields(`alpha beta gamma Delta running connections flies the of and coração naïve o'clock 3d experimental slipstream wing's sky lift drag`)

func genHTTP(crash bool) func(g *simrt.Rng, tier string, i int) *Plan {
	return func(g *simrt.Rng, tier string, i int) *Plan {
		p := &Plan{P: map[string]int64{}}
		if crash && g.Chance(0.4) {
			p.P["perdir"] = 1
		}
		latency(g, p, int64(g.Pick(1, 50))*ms)
		p.Sched = schedGen(g, true)
		if g.Chance(0.15) {
			p.Sched.Stall, p.Sched.StallMax = 0.0003, 10*sec
		}
		pool := httpPool[:g.Pick(2, 4, 8, len(httpPool))]
		n := 0
		var ids []string
		dup := g.Chance(0.1)
		text := func(uniq string) string {
			l := []string{uniq}
			if g.Chance(0.1) {
				return "" // an empty title or text
			}
			for k := 0; k < g.Pick(0, 1, 2, 4, 8); k++ {
				l = append(l, pool[g.Intn(len(pool))])
			}
			return strings.Join(l, []string{" ", ", ", " - "}[g.Intn(3)])
		}
		post := func(c int) Op {
			id := fmt.Sprintf("doc%d", n)
			if g.Chance(0.15) {
				id = []string{"a/b%d", "..%d", "x y.%d", "../up%d", "%%2f%d", "é%d", "%d", "CON%d ", "http://host/p?q=%d&r"}[g.Intn(9)]
				id = fmt.Sprintf(id, n)
				if g.Chance(0.2) {
					id = strings.Repeat([]string{"/", "long", "é"}[g.Intn(3)], 100) + id // too long for a file name
				}
			}
			if dup && len(ids) > 0 && g.Chance(0.3) {
				id = ids[g.Intn(len(ids))]
			}
			ids = append(ids, id)
			n++
			return Op{K: "post", C: c, D: id, X: []string{text(fmt.Sprintf("utitle%dq", n)), text(fmt.Sprintf("utext%dq", n))}}
		}
		get := func(c int) Op {
			var l []string
			for k := 0; k < g.Pick(0, 1, 1, 2, 3, 6); k++ {
				switch {
				case n > 0 && g.Chance(0.3):
					l = append(l, fmt.Sprintf("u%s%dq", []string{"title", "text"}[g.Intn(2)], g.Range(1, n)))
				case g.Chance(0.05):
					l = append(l, "unknownword")
				default:
					l = append(l, pool[g.Intn(len(pool))])
				}
			}
			return Op{K: "get", C: c, X: []string{strings.Join(l, " ")}}
		}
		ops := []Op{ctl("start", 0)}
		rounds := g.Range(1, 3)
		if crash {
			rounds = g.Range(2, 4)
		}
		for k := 0; k < rounds; k++ {
			nc := g.Pick(1, 2, 4, 8)
			if crash && k > 0 && g.Chance(0.3) { // clients repeat what they may have had no answer to
				c := g.Intn(nc)
				for i := len(ops) - 1; i >= 0 && g.Chance(0.9); i-- {
					if ops[i].K == "post" && g.Chance(0.6) {
						ops = append(ops, Op{K: "post", C: c, D: ops[i].D, X: ops[i].X})
					}
				}
			}
			posts := g.Pick(1, 3, 8, 15, 25)
			for j := 0; j < posts; j++ {
				c := g.Intn(nc)
				ops = append(ops, post(c))
				if g.Chance(0.3) {
					ops = append(ops, get(g.Intn(nc)))
				}
				if g.Chance(0.1) {
					ops = append(ops, Op{K: "bad", C: g.Intn(nc), N: int64(g.Intn(9))})
				}
				if g.Chance(0.08) {
					ops = append(ops, Op{K: "sleep", C: c, N: g.Int63n(20 * sec)})
				}
			}
			if crash && g.Chance(0.3) {
				kind := []string{"kill", "power"}[g.Intn(2)]
				kinds := []string{"", "w", "rename", "write", "create", "remove", "fsync"}
				ops = append(ops, fault(simos.Fault{Kind: kind, Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 3, 8, 20, 50)}))
				if g.Chance(0.3) {
					ops = append(ops, ctl("wait", 20*sec+g.Int63n(30*sec)), fault(simos.Fault{Kind: kind, Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 5, 9)}), ctl("start", 0))
				}
				ops = append(ops, ctl("wait", g.Int63n(70*sec)), ctl("start", 0), ctl("check", 0))
				continue
			}
			if crash && g.Chance(0.4) {
				ops = append(ops, ctl([]string{"kill", "power"}[g.Intn(2)], 1+g.Int63n(60*sec)), ctl("start", 0), ctl("check", 0))
				continue
			}
			ops = append(ops, ctl("join", 0))
			for j := 0; j < g.Pick(1, 3, 6); j++ {
				ops = append(ops, get(g.Intn(nc)))
			}
			ops = append(ops, ctl("join", 0))
			if crash {
				wait := 30*sec + g.Int63n(30*sec)
				if g.Chance(0.3) {
					wait = g.Int63n(30 * sec)
				}
				ops = append(ops, ctl("wait", wait), ctl([]string{"kill", "kill", "power"}[g.Intn(3)], 0), ctl("start", 0))
				for j := 0; j < g.Pick(0, 1, 3); j++ {
					ops = append(ops, get(g.Intn(nc)))
				}
				ops = append(ops, ctl("check", 0))
			} else if g.Chance(0.3) {
				ops = append(ops, ctl("wait", g.Int63n(60*sec)))
			}
		}
		p.Ops = ops
		return p
	}
}

// genHTTPFaults: the service on a disk that fails or stalls for a while.
func genHTTPFaults(g *simrt.Rng, tier string, i int) *Plan {
	p := genHTTP(false)(g, tier, i)
	p.P["mayexit"] = 1
	p.Sched.Stall = 0
	var ops []Op
	for _, o := range p.Ops {
		if o.C >= 0 || o.K != "join" {
			ops = append(ops, o)
			continue
		}
		if !g.Chance(0.6) {
			ops = append(ops, o)
			continue
		}
		if g.Chance(0.6) {
			ops = append(ops, o, ctl("wait", 25*sec+g.Int63n(20*sec)))
		}
		if g.Chance(0.3) { // cold caches
			ops = append(ops, ctl("kill", 0), ctl("start", 0))
		}
		for k := 0; k < g.Range(1, 2); k++ {
			f := simos.Fault{Kind: []string{"eio", "eio", "enospc", "short", "stall", "stall"}[g.Intn(6)]}
			switch g.Intn(3) {
			case 0:
				f.Op = []string{"write", "create", "rename", "remove", "mkdir", "fsync", "w"}[g.Intn(7)]
			case 1:
				f.Op = []string{"read", "open", "readdir", "stat", "r"}[g.Intn(5)]
			}
			f.Nth = g.Pick(0, 0, 1, 3, 7, 15)
			if f.Kind == "stall" {
				f.Dur = 1 + g.Int63n(int64(g.Pick(2, 30, 300))*sec)
			} else if g.Chance(0.5) {
				f.Count, f.Dur = -1, 1+g.Int63n(40*sec)
			} else {
				f.Count = g.Pick(1, 1, 2, 5)
			}
			if g.Chance(0.4) {
				f.Match = []string{"docs", "index", "nfterm", "/metrics", "temp"}[g.Intn(5)]
			}
			ops = append(ops, fault(f))
		}
		if g.Chance(0.5) {
			ops = append(ops, o, ctl("wait", g.Int63n(50*sec)))
		}
		ops = append(ops, o)
		if g.Chance(0.7) {
			ops = append(ops, ctl("faultsoff", 0))
			if g.Chance(0.3) {
				ops = append(ops, ctl("check", 0))
			}
		}
	}
	if g.Chance(0.15) {
		// one kind of file is not written for a while, and then the service is gone: on the next start the files
		// are of different ages
		f := simos.Fault{Kind: "stall", Op: "w", Match: []string{"docs", "index", "nfterm", "/metrics", "temp"}[g.Intn(5)], Dur: 20*sec + g.Int63n(60*sec)}
		k := 1
		for k < len(ops) && ops[k].K == "post" && g.Chance(0.8) {
			k++
		}
		at := []Op{fault(f), ctl("wait", g.Int63n(16*sec)), ctl("kill", 0), ctl("faultsoff", 0), ctl("start", 0), ctl("check", 0)}
		if g.Chance(0.5) {
			at = append([]Op{ops[0], fault(f)}, ops[1:k]...)
			at = append(at, ctl("wait", 13*sec+g.Int63n(16*sec)), ctl("kill", 0), ctl("faultsoff", 0), ctl("start", 0), ctl("check", 0))
		} else {
			at = append(append([]Op{}, ops[:k]...), at...)
		}
		ops = append(at, ops[k:]...)
	}
	p.Ops = append(ops, ctl("faultsoff", 0), ctl("check", 0), ctl("wait", g.Int63n(int64(g.Pick(60, 60, 100))*sec)), ctl("kill", 0), ctl("start", 0), ctl("check", 0))
	return p
}

func init() {
	reg(&property{id: "H01", quick: 2500, world: "http", gen: genHTTP(false), races: true})
	reg(&property{id: "H02", quick: 1200, world: "http", gen: genHTTP(true)})
	reg(&property{id: "H03", quick: 1500, world: "http", gen: genHTTPFaults})
}
