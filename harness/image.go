package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"verif.local/simrt"
	simos "verif.local/simrt/os"
)

// An image is a folder some build of goirlib wrote, and what had been saved in it.
type image struct {
	Build string
	Files map[string][]byte // relative to the folder; directories end in /
	Saves []Op
}

//go:embed images
var imageFS embed.FS

var imageNames []string
var images = map[string]*image{}

func init() {
	es, _ := imageFS.ReadDir("images")
	for _, e := range es {
		b, _ := imageFS.ReadFile("images/" + e.Name())
		im := &image{}
		if strings.HasSuffix(e.Name(), ".json") && json.Unmarshal(b, im) == nil {
			n := strings.TrimSuffix(e.Name(), ".json")
			imageNames = append(imageNames, n)
			images[n] = im
		}
	}
	sort.Strings(imageNames)
}

// load puts an image in the place of the folder; everything saved in it settled long ago.
func (w *diskWorld) load(name string) {
	im := images[name]
	if im == nil || w.gen > 0 {
		return
	}
	for _, p := range sortedKeys(im.Files) {
		w.fs.Install(path.Join(w.root, p), im.Files[p], strings.HasSuffix(p, "/"))
	}
	for i := range im.Saves {
		w.m.end(w.m.begin(&im.Saves[i], false), -1<<60)
	}
	w.gen = 1
	w.crashed()
	w.res.stat("images", 1)
	w.res.stat("image_saves", int64(len(im.Saves)))
}

// dump writes the folder to a real file.
func (w *diskWorld) dump(o *Op) {
	im := &image{Build: o.D, Files: map[string][]byte{}}
	base := w.fs.Abs(w.root)
	for _, p := range w.fs.Files(w.root) {
		b, _ := w.fs.Read(p)
		if strings.HasSuffix(p, "/") {
			b = nil
		}
		im.Files[strings.TrimPrefix(strings.TrimPrefix(p, base), "/")] = b
	}
	for _, x := range w.plan.Ops {
		if x.K == "save" {
			x.C = 0
			im.Saves = append(im.Saves, x)
		}
	}
	b, err := json.Marshal(im)
	if err == nil {
		err = os.WriteFile(o.F, b, 0644)
	}
	if err != nil {
		w.res.bad("dump", "%v", err)
	}
}

// imagePlan is the plan that makes an image (image NAME BUILD OUT); the images are made once, see DESIGN.md.
func imagePlan(name, build, out string) *Plan {
	g := simrt.NewRng(uint64(len(name))*7919 + uint64(name[0]))
	p := &Plan{Prop: "S13", World: "disk", P: map[string]int64{}, Seed: g.U64() >> 20}
	p.Sched = schedGen(g, false)
	w := newWL(g)
	w.big, w.gaps, w.bigN, w.maxTF = false, 0, true, 8
	w.fields, w.docs, w.terms = []string{"title", "text"}, nil, nil
	n := 4
	switch {
	case strings.HasSuffix(name, "fragments"):
		n, w.fields = 12, []string{"id", "text", "a.b.c"}
	case strings.HasSuffix(name, "large"):
		n, w.fields = 60, []string{"id", "title", "text"}
	}
	for i := 0; i < n; i++ {
		w.docs = append(w.docs, []string{fmt.Sprintf("d%d", i), fmt.Sprintf("documento-%d", i), fmt.Sprintf("ação %d", i), fmt.Sprintf("%08d.txt", i)}[i%4])
	}
	for i := 0; i < 3+2*n; i++ {
		w.terms = append(w.terms, []string{fmt.Sprintf("t%d", i), fmt.Sprintf("ção%d", i), fmt.Sprintf("o'clock%d", i), fmt.Sprint(i)}[i%4])
	}
	if strings.HasSuffix(name, "odd") {
		w.fields = []string{"docs", "a/b", "..", "", "%41", "x y", "ção", "temp"}
		w.docs = []string{"a/b", "a%2Fb", "..", ".", "", "%", "docs", "metrics", "日本語", strings.Repeat("long/", 100), strings.Repeat("x", 255), strings.Repeat("x", 256), "C:\\x"}
		w.terms = append(w.terms, "", " ", "a\x00b", "%")
	}
	w.assign(1)
	// everything reaches the disk in one flush of each kind: at 30, 30, 35 and 39 s
	ops := []Op{ctl("open", 100), {K: "sleep", C: 0, N: 28*sec + 200*ms}}
	for _, d := range w.docs {
		fs := w.fields
		if n == 60 || len(fs) > 3 {
			fs = fs[:1+g.Intn(len(fs))]
		}
		for _, f := range fs {
			o := Op{K: "save", D: d, F: f, T: w.tf()}
			for _, t := range o.T {
				o.L += t.N
			}
			ops = append(ops, o)
		}
	}
	wait := 43*sec + 500*ms
	if strings.HasSuffix(name, "small") || strings.HasSuffix(name, "odd") {
		wait = 55 * sec
	}
	ops = append(ops, ctl("until", wait), ctl("kill", 0), Op{K: "dump", C: -1, F: out, D: build})
	p.Ops = ops
	return p
}

func genImage(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"w": 30 * sec}}
	name := imageNames[g.Intn(len(imageNames))]
	im := images[name]
	w := newWL(g)
	if g.Chance(0.3) {
		w.resave = true
		p.P["nototals"] = 1
	}
	have := map[string]bool{}
	add := func(l *[]string, k, x string) {
		if !have[k+x] {
			have[k+x] = true
			*l = append(*l, x)
		}
	}
	fields := w.fields[:0:0]
	docs, terms := []string{}, []string{}
	for _, o := range im.Saves {
		add(&fields, "f", o.F)
		add(&docs, "d", o.D)
		for _, t := range o.T {
			add(&terms, "t", t.T)
		}
		if !w.resave {
			w.used[o.D+"\x00"+o.F] = true
		}
	}
	for _, x := range w.fields {
		add(&fields, "f", x)
	}
	for _, x := range w.docs {
		add(&docs, "d", x)
	}
	for _, x := range w.terms {
		add(&terms, "t", x)
	}
	w.fields, w.docs, w.terms = fields, docs, terms
	w.assign(1)
	latency(g, p, 5*ms)
	p.Sched = schedGen(g, false)
	p.P["root"] = int64(g.Pick(0, 0, 1, 2))
	power := g.Chance(0.3)
	ops := []Op{{K: "image", C: -1, F: name}}
	if g.Chance(0.3) { // hit while it opens the folder, merges, or flushes for the first time
		kinds := []string{"", "w", "rename", "write", "create", "remove", "fsync", "read", "readdir"}
		kind := "kill"
		if power {
			kind = "power"
		}
		ops = append(ops, fault(simos.Fault{Kind: kind, Op: kinds[g.Intn(len(kinds))], Nth: g.Pick(0, 1, 2, 4, 8, 15, 30)}))
	}
	if g.Chance(0.3) {
		ops = append(ops, ctl("open", cacheSize(g)), ctl("wait", g.Int63n(40*sec)), ctl("check", 0))
	}
	p.Ops = append(ops, crashCycles(g, w, power, 30*sec)...)
	return w.even(p)
}
