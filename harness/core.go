package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/google/uuid"
	"verif.local/simrt"
	simos "verif.local/simrt/os"
	simrand "verif.local/simrt/rand"
)

const (
	sec = int64(1e9)
	ms  = int64(1e6)
)

// TF is one term with its frequency.
type TF struct {
	T string `json:"t"`
	N int    `json:"n"`
}

// Op is one step of a plan. C is the client that runs it; control steps have C = -1.
type Op struct {
	K  string       `json:"k"`
	C  int          `json:"c"`
	D  string       `json:"d,omitempty"`
	F  string       `json:"f,omitempty"`
	L  int          `json:"l,omitempty"`
	T  []TF         `json:"t,omitempty"`
	N  int64        `json:"n,omitempty"`
	X  []string     `json:"x,omitempty"`
	Q  []SubQ       `json:"q,omitempty"`
	S  []Op         `json:"s,omitempty"`
	Ft *simos.Fault `json:"ft,omitempty"`
}

type SubQ struct {
	F     string   `json:"f"`
	Boost float64  `json:"b"`
	Terms []string `json:"t"`
}

// Plan is everything a run depends on besides the schedule.
type Plan struct {
	Prop  string           `json:"prop"`
	World string           `json:"world"`
	Seed  uint64           `json:"seed"`
	Sched SchedCfg         `json:"sched"`
	P     map[string]int64 `json:"p,omitempty"`
	Ops   []Op             `json:"ops"`
}

type SchedCfg struct {
	Seed       uint64  `json:"seed"`
	Preempt    float64 `json:"preempt,omitempty"`
	PCT        int     `json:"pct,omitempty"`
	PCTSteps   int     `json:"pctsteps,omitempty"`
	Stall      float64 `json:"stall,omitempty"`
	StallMax   int64   `json:"stallmax,omitempty"`
	NumCPU     int     `json:"ncpu,omitempty"`
	MapShuffle bool    `json:"mapshuffle,omitempty"`
}

// Result is what one run showed.
type Result struct {
	Viol      []Viol           `json:"viol,omitempty"`
	Known     []string         `json:"known,omitempty"`
	Trouble   string           `json:"trouble,omitempty"` // the harness itself failed
	Hash      uint64           `json:"hash"`
	IL        uint64           `json:"il"`
	Steps     uint64           `json:"steps"`
	Switches  uint64           `json:"switches"`
	SimNS     int64            `json:"simns"`
	Faults    map[string]int64 `json:"faults,omitempty"`
	Stats     map[string]int64 `json:"stats,omitempty"`
	State     uint64           `json:"state,omitempty"` // digest of the final observed state
	Trivial   bool             `json:"trivial,omitempty"`
	Trace     []simrt.Decision `json:"-"`
	Decisions uint64           `json:"-"`
	fs        *simos.FS
}

type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (r *Result) bad(class, f string, a ...any) {
	for _, v := range r.Viol {
		if v.Class == class {
			return // one of a kind is enough
		}
	}
	r.Viol = append(r.Viol, Viol{class, fmt.Sprintf(f, a...)})
}
func (r *Result) stat(k string, n int64) {
	if r.Stats == nil {
		r.Stats = map[string]int64{}
	}
	r.Stats[k] += n
}

type run struct {
	plan *Plan
	s    *simrt.Sim
	fs   *simos.FS
	res  *Result
	rng  *simrt.Rng // for harness choices during the run (not scheduling)
	log  func(string)
}

type world func(r *run)

var worlds = map[string]world{}

type property struct {
	id    string
	world string
	gen   func(g *simrt.Rng, tier string, i int) *Plan
	races bool // unsynchronised accesses break the property
	quick int  // runs
	rule  string
	only  []string // violation classes that belong to this property (nil: all)
}

var props = map[string]*property{}

func reg(p *property) { props[p.id] = p }

// makePlan derives run i of a check from the seed.
func makePlan(prop string, seed uint64, tier string, i int) *Plan {
	h := simrt.NewRng(seed*0x9e3779b97f4a7c15 ^ hash64(prop) ^ uint64(i)*0xd1b54a32d192ed03)
	s := h.U64() >> 12
	g := simrt.NewRng(s)
	p := props[prop].gen(g, tier, i)
	p.Prop = prop
	if p.World == "" {
		p.World = props[prop].world
	}
	p.Seed = s
	if p.Sched.Seed == 0 {
		p.Sched.Seed = s ^ 0x5ced
	}
	return p
}

func hash64(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h ^= uint64(x[i])
		h *= 1099511628211
	}
	return h
}

// execute runs a plan; replay (may be nil) fixes the scheduling choices.
func execute(p *Plan, replay map[uint64]int, logf func(string)) *Result {
	cfg := simrt.Config{SchedSeed: p.Sched.Seed, Preempt: p.Sched.Preempt, PCTDepth: p.Sched.PCT, PCTSteps: p.Sched.PCTSteps,
		ClientStall: p.Sched.Stall, ClientStallMax: p.Sched.StallMax, NumCPU: p.Sched.NumCPU, MapShuffle: p.Sched.MapShuffle,
		Replay: replay, Verbose: logf, MaxSteps: 6_000_000 + 20_000*uint64(len(p.Ops))}
	if cfg.ClientStallMax == 0 {
		cfg.ClientStallMax = 1
	}
	pr := props[p.Prop]
	s := simrt.New(cfg)
	r := &run{plan: p, s: s, res: &Result{}, rng: simrt.NewRng(p.Seed ^ 0xabcdef), log: logf}
	r.fs = simos.Mount(s)
	r.fs.Latency = float64(p.P["lat_ppm"]) / 1e6
	r.fs.LatMax = p.P["lat_max"]
	if r.fs.LatMax <= 0 {
		r.fs.LatMax = 1
	}
	r.fs.PerDir = p.P["perdir"] == 1
	if c := p.P["chunk"]; c > 0 {
		r.fs.ChunkMax = int(c)
	}
	uuid.SetRand(simrand.Reader{})
	w := worlds[p.World]
	if w == nil {
		r.res.Trouble = "no world " + p.World
		return r.res
	}
	s.Run(func() {
		simrt.ResetGlobals()
		w(r)
	})
	res := r.res
	for _, pb := range s.Problems {
		switch pb.Class {
		case "race":
			res.stat("races_seen", 1)
			if pr.races {
				res.bad("race", "%s", pb.Msg)
			}
		case "deadlock", "livelock":
			res.bad(pb.Class, "%s", pb.Msg)
		default:
			res.Trouble = pb.Class + ": " + pb.Msg + "\n" + pb.Stack
		}
	}
	if pr.only != nil {
		var keep []Viol
		for _, v := range res.Viol {
			for _, c := range append(pr.only, "died", "open", "read", "stuck", "deadlock", "livelock", "changed") {
				if v.Class == c {
					keep = append(keep, v)
				}
			}
		}
		res.Viol = keep
	}
	res.Hash, res.IL, res.Steps, res.Switches, res.SimNS = s.Hash, s.ILHash, s.Steps(), s.Switches, s.Elapsed()
	res.Trace = s.Trace
	res.Decisions = s.Decisions()
	if res.Faults == nil {
		res.Faults = map[string]int64{}
	}
	for k, v := range r.fs.Fired {
		res.Faults[k] += v
	}
	for k, v := range s.Stats {
		if k == "client_stall" {
			res.Faults[k] += v
		}
	}
	return res
}

// schedGen draws a scheduling strategy.
func schedGen(g *simrt.Rng, concurrent bool) SchedCfg {
	var c SchedCfg
	c.NumCPU = g.Pick(1, 2, 4, 8)
	c.MapShuffle = g.Chance(0.7)
	if !concurrent {
		switch g.Intn(4) {
		case 0:
		case 1:
			c.Preempt = 0.02
		case 2:
			c.Preempt = 0.2
		case 3:
			c.PCT, c.PCTSteps = g.Range(1, 3), g.Range(200, 5000)
		}
		return c
	}
	switch g.Intn(8) {
	case 0:
		c.Preempt = 0.5
	case 1:
		c.Preempt = 0.2
	case 2:
		c.Preempt = 0.05
	case 3:
		c.Preempt = 0.01
	case 4, 5:
		c.PCT, c.PCTSteps = g.Range(1, 5), g.Range(50, 3000)
	case 6:
		c.PCT, c.PCTSteps = g.Range(1, 3), g.Range(1000, 30000)
	case 7:
		c.Preempt = 0.002
	}
	return c
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func short(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return strings.ReplaceAll(s, "\n", " ")
}
