package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/simrt"
)

// Replay is the file a violation leaves behind.
type Replay struct {
	Property  string           `json:"property"`
	Class     string           `json:"class"`
	Violation string           `json:"violation"`
	Run       int              `json:"run"`
	Seed      uint64           `json:"verif_seed"`
	Tier      string           `json:"tier"`
	Hash      uint64           `json:"hash"`
	Plan      *Plan            `json:"plan"`
	Schedule  []simrt.Decision `json:"schedule"` // every choice that is not the plain one
	Random    bool             `json:"random"`   // the schedule is the seed's own
	Crash     bool             `json:"crash"`    // the violation ends the simulator itself
	Notes     []string         `json:"notes,omitempty"`
}

type job struct {
	Cmd  string  `json:"cmd"` // "run", "min", "plan"
	I    int     `json:"i"`
	N    int     `json:"n"`
	Plan *Replay `json:"plan,omitempty"`
	Sec  int     `json:"sec,omitempty"`
}

type answer struct {
	I    int     `json:"i"`
	Res  *Result `json:"res,omitempty"`
	Done bool    `json:"done,omitempty"`
	Min  *Replay `json:"min,omitempty"`
}

// worker runs jobs from stdin; results go to the real stdout, the library's own output nowhere.
func workerMain(prop, tier string, seed uint64) {
	out := quietStdout()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	bw := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(bw)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		switch j.Cmd {
		case "run":
			for i := j.I; i < j.I+j.N; i++ {
				fmt.Fprintf(bw, "{\"i\":%d}\n", i)
				bw.Flush()
				r := execute(makePlan(prop, seed, tier, i), nil, nil)
				enc.Encode(answer{I: i, Res: r})
				bw.Flush()
			}
			enc.Encode(answer{Done: true})
			bw.Flush()
		case "min":
			enc.Encode(answer{Min: minimise(j.Plan, time.Duration(j.Sec)*time.Second), Done: true})
			bw.Flush()
		}
	}
}

func quietStdout() *os.File {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	out := os.NewFile(uintptr(fd), "out")
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	syscall.Dup3(int(null.Fd()), 1, 0)
	return out
}

type child struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	out  *bufio.Reader
	err  *strings.Builder
	last int
}

func startWorker(prop, tier string, seed uint64) (*child, error) {
	cmd := exec.Command(os.Args[0], "worker", prop, tier, strconv.FormatUint(seed, 10))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c := &child{cmd: cmd, in: json.NewEncoder(in), out: bufio.NewReaderSize(out, 1<<20), err: &strings.Builder{}, last: -1}
	cmd.Stderr = &capped{b: c.err}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c, cmd.Start()
}

type capped struct {
	b *strings.Builder
	m sync.Mutex
}

func (c *capped) Write(p []byte) (int, error) {
	c.m.Lock()
	defer c.m.Unlock()
	if c.b.Len() < 20000 {
		c.b.Write(p)
	}
	return len(p), nil
}

const hangLimit = 90 * time.Second

// ask sends a job and hands every answer to f, until the job is done or the worker fails.
func (c *child) ask(j job, limit time.Duration, f func(answer)) (ok bool, why string) {
	if err := c.in.Encode(j); err != nil {
		return false, "worker gone: " + err.Error()
	}
	timer := time.AfterFunc(limit, func() { c.cmd.Process.Kill() })
	defer timer.Stop()
	t0 := time.Now()
	for {
		line, err := c.out.ReadBytes('\n')
		if err != nil {
			c.cmd.Wait()
			if time.Since(t0) >= limit {
				return false, "hang"
			}
			return false, "worker died: " + c.err.String()
		}
		timer.Reset(limit)
		t0 = time.Now()
		var a answer
		if err := json.Unmarshal(line, &a); err != nil {
			return false, "bad answer: " + string(line)
		}
		if a.Done && a.Min == nil {
			return true, ""
		}
		if a.Res == nil && a.Min == nil {
			c.last = a.I
			continue
		}
		f(a)
		if a.Done {
			return true, ""
		}
	}
}

type collector struct {
	sync.Mutex
	runs       int
	hashes     map[int]uint64
	il         map[uint64]int
	states     map[uint64]bool
	faults     map[string]int64
	stats      map[string]int64
	steps      uint64
	switches   uint64
	simNS      int64
	viol       map[string][]foundViol
	known      map[string]int
	trouble    string
	nontrivial int
}

type foundViol struct {
	i   int
	v   Viol
	len int
}

func (c *collector) add(i int, r *Result) {
	c.Lock()
	defer c.Unlock()
	c.runs++
	c.hashes[i] = r.Hash
	c.il[r.IL]++
	if r.State != 0 {
		c.states[r.State] = true
	}
	for k, v := range r.Faults {
		c.faults[k] += v
	}
	for k, v := range r.Stats {
		c.stats[k] += v
	}
	c.steps += r.Steps
	c.switches += r.Switches
	c.simNS += r.SimNS
	for _, k := range r.Known {
		c.known[k]++
	}
	for _, v := range r.Viol {
		c.viol[v.Class] = append(c.viol[v.Class], foundViol{i, v, int(r.Steps)})
	}
	if r.Trouble != "" && (c.trouble == "") {
		c.trouble = fmt.Sprintf("run %d: %s", i, r.Trouble)
	}
	if !r.Trivial && r.Switches > 1 {
		c.nontrivial++
	}
}

func checkMain(prop, tier string, seed uint64, verifDir string, runs int, budget time.Duration, nw int) int {
	t0 := time.Now()
	pr := props[prop]
	if pr == nil {
		fmt.Println("no such property:", prop)
		return 2
	}
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	col := &collector{hashes: map[int]uint64{}, il: map[uint64]int{}, states: map[uint64]bool{}, faults: map[string]int64{}, stats: map[string]int64{}, viol: map[string][]foundViol{}, known: map[string]int{}}
	var crashes []foundViol
	var mu sync.Mutex
	next := 0
	const batch = 8
	stopAt := time.Time{}
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= runs || (budget > 0 && time.Since(t0) > budget) {
			return -1
		}
		if !stopAt.IsZero() && time.Now().After(stopAt) {
			return -1
		}
		i := next
		next += batch
		return i
	}
	var wg sync.WaitGroup
	var fatal string
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := startWorker(prop, tier, seed)
			if err != nil {
				fatal = err.Error()
				return
			}
			defer func() { c.cmd.Process.Kill(); c.cmd.Wait() }()
			for {
				i := take()
				if i < 0 {
					return
				}
				n := batch
				if i+n > runs {
					n = runs - i
				}
				for n > 0 {
					ok, why := c.ask(job{Cmd: "run", I: i, N: n}, hangLimit, func(a answer) {
						col.add(a.I, a.Res)
						if len(a.Res.Viol) > 0 {
							mu.Lock()
							if stopAt.IsZero() {
								stopAt = time.Now().Add(2 * time.Second)
							}
							mu.Unlock()
						}
					})
					if ok {
						break
					}
					last := c.last
					v := Viol{"crash", why}
					if why == "hang" {
						v = Viol{"hang", fmt.Sprintf("the run does not end within %s of real time", hangLimit)}
					}
					mu.Lock()
					crashes = append(crashes, foundViol{last, v, 0})
					if len(crashes) > 3 || last < 0 {
						fatal = "workers keep dying: " + why
					}
					if stopAt.IsZero() {
						stopAt = time.Now().Add(2 * time.Second)
					}
					f := fatal
					mu.Unlock()
					if f != "" {
						return
					}
					n -= last + 1 - i
					i = last + 1
					if c, err = startWorker(prop, tier, seed); err != nil {
						fatal = err.Error()
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	search := time.Since(t0)
	if len(crashes) > 0 && len(col.viol) == 0 {
		// only a stack overflow or a hang of the code under test is a finding; anything else is our own trouble
		c := crashes[0]
		if c.v.Class == "hang" || strings.Contains(c.v.Msg, "stack overflow") || strings.Contains(c.v.Msg, "stack exceeds") {
			rp := &Replay{Property: prop, Class: c.v.Class, Violation: short(c.v.Msg), Run: c.i, Seed: seed, Tier: tier, Plan: makePlan(prop, seed, tier, c.i), Random: true, Crash: true}
			if w2 := confirm(rp, verifDir); w2 != "" {
				return violation(rp, verifDir, prop)
			}
		}
		fmt.Printf("TROUBLE: run %d: %s\n", c.i, c.v.Msg)
		return 2
	}
	if fatal != "" {
		fmt.Println("TROUBLE:", fatal)
		return 2
	}
	if col.trouble != "" {
		fmt.Println("TROUBLE:", col.trouble)
		return 2
	}
	code := 0
	nviol := 0
	if len(col.viol) > 0 {
		nviol = 1
		code = reportViolation(col, prop, tier, seed, verifDir)
		if code == 2 {
			return 2
		}
	}
	// determinism: some runs once more, in other processes and another order
	redo, diff := 0, 0
	if code == 0 {
		redo, diff = recheck(col, prop, tier, seed)
		if diff > 0 {
			fmt.Printf("TROUBLE: %d of %d repeated runs differ: the simulation is not deterministic\n", diff, redo)
			return 2
		}
	}
	for _, k := range sortedKeys(col.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	writeEvidence(col, pr, tier, seed, verifDir, search, time.Since(t0), redo, nviol)
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %.0f s simulated, %.1f s, %d violations\n", prop, tier, col.runs, len(col.il), float64(col.simNS)/1e9, time.Since(t0).Seconds(), nviol)
	return code
}

func recheck(col *collector, prop, tier string, seed uint64) (n, diff int) {
	var idx []int
	for i := range col.hashes {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	c, err := startWorker(prop, tier, seed)
	if err != nil {
		return 0, 0
	}
	defer func() { c.cmd.Process.Kill(); c.cmd.Wait() }()
	step := len(idx) / 12
	if step < 1 {
		step = 1
	}
	for k := len(idx) - 1; k >= 0; k -= step {
		i := idx[k]
		ok, _ := c.ask(job{Cmd: "run", I: i, N: 1}, hangLimit, func(a answer) {
			n++
			if a.Res.Hash != col.hashes[i] {
				diff++
				fmt.Printf("run %d: hash %x, earlier %x\n", i, a.Res.Hash, col.hashes[i])
			}
		})
		if !ok {
			diff++
		}
	}
	return
}

func reportViolation(col *collector, prop, tier string, seed uint64, verifDir string) int {
	// the shortest failing run of each kind, the most telling kind first
	classes := sortedKeys(col.viol)
	sort.SliceStable(classes, func(i, j int) bool { return len(col.viol[classes[i]]) > len(col.viol[classes[j]]) })
	for _, cl := range classes {
		l := col.viol[cl]
		sort.Slice(l, func(i, j int) bool { return l[i].len < l[j].len || l[i].len == l[j].len && l[i].i < l[j].i })
		f := l[0]
		fmt.Printf("found: run %d, %s: %s (%d runs)\n", f.i, cl, short(f.v.Msg), len(l))
	}
	cl := classes[0]
	f := col.viol[cl][0]
	rp := &Replay{Property: prop, Class: cl, Violation: f.v.Msg, Run: f.i, Seed: seed, Tier: tier, Plan: makePlan(prop, seed, tier, f.i), Random: true}
	c, err := startWorker(prop, tier, seed)
	if err == nil {
		sec := 25
		if tier == "thorough" {
			sec = 120
		}
		var m *Replay
		ok, why := c.ask(job{Cmd: "min", Plan: rp, Sec: sec}, time.Duration(sec+60)*time.Second, func(a answer) { m = a.Min })
		c.cmd.Process.Kill()
		c.cmd.Wait()
		if ok && m != nil {
			if w := confirm(m, verifDir); w != "" {
				return violation(m, verifDir, prop)
			}
			fmt.Println("the minimised run does not reproduce; falling back to the original")
		} else {
			fmt.Println("minimiser:", why)
		}
	}
	if w := confirm(rp, verifDir); w != "" {
		return violation(rp, verifDir, prop)
	}
	fmt.Println("TROUBLE: the violation does not reproduce in a fresh process")
	return 2
}

func violation(rp *Replay, verifDir, prop string) int {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%x.json", prop, rp.Run, hash64(rp.Class+rp.Violation)&0xffffff))
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, b, 0644)
	fmt.Printf("%s: %s\n", rp.Class, rp.Violation)
	for _, n := range rp.Notes {
		fmt.Println("  " + n)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// confirm replays in a fresh process; "" if the violation is not there.
func confirm(rp *Replay, verifDir string) string {
	tmp, err := os.CreateTemp("", "replay*.json")
	if err != nil {
		return ""
	}
	defer os.Remove(tmp.Name())
	b, _ := json.Marshal(rp)
	tmp.Write(b)
	tmp.Close()
	cmd := exec.Command(os.Args[0], "replay", tmp.Name())
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	timer := time.AfterFunc(hangLimit+30*time.Second, func() { cmd.Process.Kill() })
	out, _ := cmd.CombinedOutput()
	timer.Stop()
	if strings.Contains(string(out), "REPRODUCED") {
		return "yes"
	}
	if rp.Crash && (rp.Class == "hang" || strings.Contains(string(out), "stack")) {
		return "yes"
	}
	fmt.Println(short(string(out)))
	return ""
}

func replayMain(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Println(err)
		return 2
	}
	out := quietStdout()
	debug.SetMaxStack(256 << 20)
	var logf func(string)
	if verbose {
		logf = func(l string) { fmt.Fprintln(out, l) }
	}
	res := execute(rp.Plan, rp.schedule(), logf)
	if res.Trouble != "" {
		fmt.Fprintln(out, "TROUBLE", res.Trouble)
	}
	for _, v := range res.Viol {
		fmt.Fprintf(out, "%s: %s\n", v.Class, v.Msg)
	}
	for _, v := range res.Viol {
		if v.Class == rp.Class {
			same := "same execution"
			if rp.Hash != 0 && rp.Hash != res.Hash {
				same = fmt.Sprintf("another execution: hash %x, recorded %x", res.Hash, rp.Hash)
			}
			fmt.Fprintf(out, "REPRODUCED property=%s %s (%s)\n", rp.Property, rp.Class, same)
			return 1
		}
	}
	fmt.Fprintln(out, "NOT reproduced")
	return 0
}

func (r *Replay) schedule() map[uint64]int {
	if r.Random {
		return nil
	}
	m := map[uint64]int{}
	for _, d := range r.Schedule {
		m[d.I] = d.V
	}
	return m
}

// minimise shrinks the plan, then the schedule, keeping the kind of violation.
func minimise(rp *Replay, limit time.Duration) *Replay {
	end := time.Now().Add(limit)
	class := rp.Class
	fails := func(p *Plan, sch map[uint64]int) *Result {
		r := execute(p, sch, nil)
		if r.Trouble != "" {
			return nil
		}
		for _, v := range r.Viol {
			if v.Class == class {
				return r
			}
		}
		return nil
	}
	cur := clonePlan(rp.Plan)
	res := fails(cur, nil)
	if res == nil {
		return rp
	}
	n0 := len(cur.Ops)
	try := func(p *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		// a change of the plan moves all choices: let the seed, then a few others, find the failure again
		for k := 0; k < 6; k++ {
			q := p
			if k > 0 {
				q = clonePlan(p)
				q.Sched.Seed += uint64(k) * 7919
				if k == 3 {
					q.Sched.Preempt, q.Sched.PCT = 0, 0
				}
			}
			if r := fails(q, nil); r != nil {
				cur, res = q, r
				return true
			}
			if time.Now().After(end) {
				return false
			}
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before := len(cur.Ops)
		for size := (len(cur.Ops) + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i < len(cur.Ops); {
				q := clonePlan(cur)
				e := i + size
				if e > len(q.Ops) {
					e = len(q.Ops)
				}
				q.Ops = append(q.Ops[:i:i], q.Ops[e:]...)
				if !try(q) {
					i += size
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		for _, simpler := range []func(p *Plan) bool{
			func(p *Plan) bool { ok := p.Sched.Stall != 0; p.Sched.Stall = 0; return ok },
			func(p *Plan) bool { ok := p.P["lat_ppm"] != 0; delete(p.P, "lat_ppm"); return ok },
			func(p *Plan) bool { ok := p.P["root"] != 0; delete(p.P, "root"); return ok },
			func(p *Plan) bool { ok := p.Sched.MapShuffle; p.Sched.MapShuffle = false; return ok },
			func(p *Plan) bool { ok := p.Sched.NumCPU > 1; p.Sched.NumCPU = 1; return ok },
			func(p *Plan) bool {
				ok := false
				for i := range p.Ops {
					if len(p.Ops[i].T) > 1 && p.Ops[i].K == "save" {
						p.Ops[i].T = p.Ops[i].T[:1]
						ok = true
					}
				}
				return ok
			},
			func(p *Plan) bool {
				ok := false
				for i := range p.Ops {
					if p.Ops[i].C > 0 {
						p.Ops[i].C = 0
						ok = true
					}
				}
				return ok
			},
		} {
			q := clonePlan(cur)
			if simpler(q) {
				try(q)
			}
		}
		if len(cur.Ops) == before || time.Now().After(end) {
			break
		}
	}
	// the schedule: keep only the choices that matter
	list := append([]simrt.Decision(nil), res.Trace...)
	toMap := func(l []simrt.Decision) map[uint64]int {
		m := map[uint64]int{}
		for _, d := range l {
			m[d.I] = d.V
		}
		return m
	}
	total := len(list)
	if r := fails(cur, toMap(list)); r == nil {
		out := *rp
		out.Plan, out.Hash, out.Random, out.Schedule = cur, res.Hash, true, nil
		return &out
	}
	if r := fails(cur, toMap(nil)); r != nil {
		list, res = nil, r
	}
	for size := (len(list) + 1) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
		for i := 0; i < len(list) && time.Now().Before(end); {
			e := i + size
			if e > len(list) {
				e = len(list)
			}
			l := append(append([]simrt.Decision(nil), list[:i]...), list[e:]...)
			if r := fails(cur, toMap(l)); r != nil {
				list, res = l, r
			} else {
				i += size
			}
		}
	}
	out := *rp
	out.Plan, out.Hash, out.Random, out.Schedule = cur, res.Hash, false, list
	for _, v := range res.Viol {
		if v.Class == class {
			out.Violation = v.Msg
		}
	}
	out.Notes = []string{fmt.Sprintf("minimised: %d of %d steps, %d of %d schedule choices", len(cur.Ops), n0, len(list), total)}
	for _, o := range cur.Ops {
		b, _ := json.Marshal(o)
		if len(out.Notes) < 40 {
			out.Notes = append(out.Notes, short(string(b)))
		}
	}
	return &out
}
