package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/runes"
	"golang.org/x/text/transform"
	"golang.org/x/text/unicode/norm"

	"github.com/sira-serverless-ir-arch/goirlib/zzclient"

	"verif.local/simrt"
)

func init() { worlds["text"] = textWorldRun }

type pipeline struct {
	tok                    tokenizer.Tokenizer
	lower, stop, stem, asc filter.Filter
}

type textWorld struct {
	*run
	stopset map[string]bool
	shared  *pipeline
	docs    []map[string]any // parsed once, flattened by everybody
}

func textWorldRun(r *run) {
	w := &textWorld{run: r, stopset: map[string]bool{}}
	p := r.s.NewProc("app")
	lang := language.English
	if r.plan.P["lang"] == 1 {
		lang = language.Portuguese
	}
	t := p.Go("new", func() {
		zzclient.Words(language.GetWords(lang), w.stopset)
		w.shared = &pipeline{tokenizer.NewStandard(), filter.NewLowercase(), filter.NewStopWords(language.GetWords(lang)), filter.NewStemmer(stemmer.Snowball), filter.NewASCII()}
		for _, o := range r.plan.Ops {
			if o.K == "doc" {
				w.docs = append(w.docs, field.StringToObject(o.X[0]))
			}
		}
	})
	r.s.WaitCond(func() bool { return t.Done() || p.Dead }, 60*sec)
	r.s.JoinTask(t)
	by := map[int][]Op{}
	max := 0
	for _, o := range r.plan.Ops {
		if o.C >= 0 {
			by[o.C] = append(by[o.C], o)
			if o.C > max {
				max = o.C
			}
		}
	}
	var tasks []*simrt.Task
	for c := 0; c <= max && !p.Dead; c++ {
		l := by[c]
		if len(l) == 0 {
			continue
		}
		t := p.Go(fmt.Sprintf("client%d", c), func() {
			for i := range l {
				w.client(&l[i], lang)
			}
		})
		t.Client = true
		tasks = append(tasks, t)
	}
	ok := r.s.WaitCond(func() bool {
		if p.Dead {
			return true
		}
		for _, t := range tasks {
			if !t.Done() {
				return false
			}
		}
		return true
	}, 600*sec)
	switch {
	case p.Dead && p.Exited:
		r.res.bad("died", "the process ended by itself: %s\n%s", short(p.ExitMsg), r.s.LastStack())
		return
	case !ok:
		r.res.bad("stuck", "a filter does not return: %s", short(r.s.Describe()))
		return
	}
	for _, t := range tasks {
		r.s.JoinTask(t)
	}
	r.s.WaitCond(func() bool { return p.Dead }, 1*sec)
	for _, t := range p.TaskList() {
		if t.Root.Client && t != t.Root {
			r.res.bad("leak", "a goroutine started by a finished filter still runs: %s, waiting: %s", t.Name, t.Waiting())
		}
	}
}

func (w *textWorld) client(o *Op, lang language.Language) {
	switch o.K {
	case "stem":
		in := append([]string(nil), o.X...)
		w.s.Event("stem", len(in))
		out := zzclient.Strings(w.shared.stem.Process(in))
		w.res.stat("stemmed", int64(len(in)))
		exp := make([]string, len(o.X))
		for i, x := range o.X {
			exp[i] = porter2.Stem(x)
		}
		w.compare("stemming", o.X, out, exp)
	case "filter":
		f, name := w.shared.lower, "lower-casing"
		conv := strings.ToLower
		if o.N == 1 {
			f, conv, name = w.shared.asc, plain, "stripping accents"
		}
		in := append([]string(nil), o.X...)
		out := zzclient.Strings(f.Process(in))
		exp := make([]string, len(o.X))
		for i, x := range o.X {
			exp[i] = conv(x)
		}
		w.compare(name, o.X, out, exp)
	case "pipe":
		text := o.X[0]
		pl := w.shared
		if o.N == 1 { // its own filter objects, as the service makes them for each request
			pl = &pipeline{tokenizer.NewStandard(), filter.NewLowercase(), filter.NewStopWords(language.GetWords(lang)), filter.NewStemmer(stemmer.Snowball), filter.NewASCII()}
		}
		w.s.Event("pipe", text)
		out := zzclient.Strings(pl.asc.Process(pl.stem.Process(pl.stop.Process(pl.lower.Process(pl.tok.Tokenize(text))))))
		w.res.stat("texts", 1)
		exp := []string{}
		for _, t := range strings.FieldsFunc(text, func(r rune) bool {
			return !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '\''
		}) {
			t = strings.ToLower(t)
			if !w.stopset[t] {
				exp = append(exp, plain(porter2.Stem(t)))
			}
		}
		w.compare("the pipeline", []string{text}, out, exp)
	case "flat":
		text := o.X[0]
		var in map[string]any
		if o.N >= 0 { // one of the shared documents
			in = w.docs[int(o.N)%len(w.docs)]
		} else {
			in = field.StringToObject(text)
		}
		w.s.Event("flat", text)
		out := field.Flatten(in)
		got := zzclient.Any(out)
		zzclient.Own(out)
		id := field.GetID(in)
		w.res.stat("flattened", 1)
		var ref map[string]any
		json.Unmarshal([]byte(text), &ref)
		exp := map[string]any{}
		leaves(ref, "", exp)
		if !reflect.DeepEqual(got, exp) {
			w.res.bad("leaves", "flattening %s gives %v instead of %v", short(text), got, exp)
		}
		want := ""
		if x, ok := ref["Id"]; ok {
			want = fmt.Sprintf("%s", x)
		}
		if id != want {
			w.res.bad("leaves", "the id of %s is %q instead of %q", short(text), id, want)
		}
		var now map[string]any
		if now = zzclient.Any(in); !reflect.DeepEqual(now, ref) {
			w.res.bad("input", "flattening changed its argument: %s is now %v", short(text), now)
		}
		w.res.State = w.res.State*1099511628211 ^ hash64(fmt.Sprint(len(got), id))
	default:
		w.res.Trouble = "unknown client step " + o.K
	}
}

func leaves(in map[string]any, prefix string, out map[string]any) {
	for k, v := range in {
		if m, ok := v.(map[string]any); ok {
			leaves(m, prefix+k+".", out)
		} else {
			out[prefix+k] = v
		}
	}
}

// paths counts the leaves of an object and notes their paths.
func paths(in map[string]any, prefix string, out map[string]bool) (n int) {
	for k, v := range in {
		if m, ok := v.(map[string]any); ok {
			n += paths(m, prefix+k+".", out)
		} else {
			out[prefix+k] = true
			n++
		}
	}
	return
}

// randDoc draws a JSON object whose dotted paths are all different.
func randDoc(g *simrt.Rng, depth int, top bool) map[string]any {
	for {
		m := anyDoc(g, depth, top)
		seen := map[string]bool{}
		if paths(m, "", seen) == len(seen) {
			return m
		}
	}
}

func anyDoc(g *simrt.Rng, depth int, top bool) map[string]any {
	m := map[string]any{}
	n := g.Pick(0, 1, 2, 3, 6)
	if top {
		n = g.Pick(1, 2, 4, 8, 14)
		switch g.Intn(4) {
		case 0:
		case 1:
			m["Id"] = g.Intn(100)
		default:
			m["Id"] = fmt.Sprintf("d%d", g.Intn(100))
		}
	}
	keys := []string{"a", "b", "c", "Title", "text", "Id2", "id", "ação", "x y", "0", "d", "e", "f", "g", "_", "h", "ID", "iD", "Idx", " Id"}
	if g.Chance(0.2) {
		keys = append(keys, "", "", ".", "a.b", "a.b.c", "b.", ".c")
	}
	for j := 0; j < n; j++ {
		k := keys[g.Intn(len(keys))]
		switch g.Intn(8) {
		case 0:
			m[k] = nil
		case 1:
			m[k] = g.Intn(1000)
		case 2:
			m[k] = []any{g.Intn(3), "x", map[string]any{"in": "array"}, []any{1, nil}}[:g.Intn(5)]
			if g.Chance(0.2) {
				m[k] = []any{map[string]any{"alone": "in an array"}}
			}
		case 3:
			m[k] = g.Chance(0.5)
		case 4:
			if depth > 0 {
				m[k] = anyDoc(g, depth-1, false)
				continue
			}
			fallthrough
		case 5:
			if depth > 0 {
				x := anyDoc(g, depth-1, false)
				if g.Chance(0.3) {
					x["Id"] = "nested"
				}
				m[k] = x
				continue
			}
			fallthrough
		default:
			m[k] = textPool[g.Intn(len(textPool))]
		}
	}
	return m
}

func genFlat(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{}}
	p.Sched = schedGen(g, true)
	nc := g.Range(1, 4)
	var docs []string
	for j := 0; j < g.Range(1, 3); j++ {
		b, _ := json.Marshal(randDoc(g, g.Pick(0, 1, 2, 3, 5), true))
		docs = append(docs, string(b))
		p.Ops = append(p.Ops, Op{K: "doc", C: -1, X: []string{string(b)}})
	}
	for j := 0; j < g.Pick(1, 2, 4, 8); j++ {
		o := Op{K: "flat", C: g.Intn(nc), N: -1}
		if k := g.Intn(len(docs)); g.Chance(0.7) {
			o.N, o.X = int64(k), []string{docs[k]}
		} else {
			b, _ := json.Marshal(randDoc(g, 2, true))
			o.X = []string{string(b)}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func plain(s string) string {
	out, _, _ := transform.String(transform.Chain(norm.NFD, runes.Remove(runes.In(unicode.Mn)), norm.NFC), s)
	return out
}

func (w *textWorld) compare(what string, in, out, exp []string) {
	if len(out) != len(exp) {
		w.res.bad("words", "%s gives %d words instead of %d: %q -> %q, want %q", what, len(out), len(exp), in, out, exp)
		return
	}
	for i := range exp {
		w.res.State = w.res.State*1099511628211 ^ hash64(out[i])
		if out[i] != exp[i] {
			w.res.bad("words", "%s gives %q at position %d instead of %q: %s", what, out[i], i, exp[i], short(fmt.Sprintf("%q -> %q", in, out)))
			return
		}
	}
}

var textPool = strings.Fields(`the running connections relational fly flies happily généralement Ações coração não para Straße naïve café résumé
 aerodynamic Experimental INVESTIGATION slipstream wings's o'clock 3d x1 2024 a I of and generously sky skies dying lying news innings
 communism communist proceeding exceed ſ ẞ İstanbul ǅ ﬁsh Ångström ê é́́ zero hopping hoped controlling rolling yes sayed crying`)

func genText(g *simrt.Rng, tier string, i int) *Plan {
	p := &Plan{P: map[string]int64{"lang": int64(g.Pick(0, 0, 1))}}
	p.Sched = schedGen(g, true)
	nc := g.Range(1, 5)
	words := func(n int) []string {
		l := make([]string, n)
		for i := range l {
			l[i] = textPool[g.Intn(len(textPool))]
			if g.Chance(0.1) {
				l[i] = strings.Repeat(l[i], g.Range(2, 5))
			}
			if g.Chance(0.03) {
				l[i] = ""
			}
		}
		return l
	}
	var ops []Op
	for j := 0; j < g.Pick(2, 4, 8); j++ {
		o := Op{C: g.Intn(nc)}
		n := g.Pick(0, 1, 2, 3, 5, 8, 17, 40)
		if g.Chance(0.03) {
			n = g.Pick(300, 1100)
		}
		switch g.Intn(6) {
		case 0, 1:
			o.K, o.X = "stem", words(n)
		case 2:
			o.K, o.X, o.N = "filter", words(n), int64(g.Intn(2))
		default:
			o.K, o.N = "pipe", int64(g.Pick(0, 0, 1))
			var b strings.Builder
			for _, x := range words(n) {
				b.WriteString(x)
				b.WriteString([]string{" ", " ", ", ", ". ", "-", "\n", "  ", "/", "\x00", "\xff"}[g.Intn(10)])
			}
			o.X = []string{b.String()}
		}
		ops = append(ops, o)
	}
	p.Ops = ops
	return p
}

func init() {
	reg(&property{id: "T01", quick: 20000, world: "text", gen: genText, races: true})
	reg(&property{id: "T02", quick: 30000, world: "text", gen: genFlat, races: true})
}
