// Package os replaces the standard os under simulation: an in-memory file system whose operations are
// scheduling points, may be slow, stall, fail, tear or be the place of a crash, and which knows what would
// survive a loss of power.
package os

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt"
)

type inode struct {
	id    int
	dir   bool
	mode  fs.FileMode
	mtime int64
	nlink int

	// regular files
	data    []byte
	durable []byte
	dirty   bool
	dirtyAt int64 // last unsynced write
	// directories: as the running system sees them, and as they are on stable storage
	kids  map[string]*inode
	dkids map[string]*inode
}

type metaOp struct {
	at  int64
	dir *inode
	do  func()
}

// Fault makes the matching operations of simulated processes fail, stall or end the machine.
type Fault struct {
	Kind   string `json:"kind"`            // "eio", "enospc", "short", "stall", "slow" (that operation alone), "kill", "power"
	Op     string `json:"op,omitempty"`    // operation kind, "" = any; "w" = any modifying operation
	After  int64  `json:"after,omitempty"` // ns of simulated time since the start of the run
	Nth    int    `json:"nth,omitempty"`   // skip this many matching operations first
	Count  int    `json:"count,omitempty"` // hit this many (0 = 1; -1 = until Dur is over)
	Dur    int64  `json:"dur,omitempty"`   // length of a window or of a stall, ns
	Match  string `json:"match,omitempty"` // substring of the path
	seen   int
	fired  int
	first  int64
	closed bool
}

type FS struct {
	s       *simrt.Sim
	root    *inode
	cwd     string
	nextID  int
	journal []metaOp
	handles map[*File]bool

	Faults   []*Fault
	Latency  float64 // probability that an operation takes time
	LatMax   int64
	ChunkMax int  // writes are split into at most this many pieces
	PerDir   bool // a sync makes durable only the changes of that very file or directory

	Ops        int64
	OpCount    map[string]int64
	Fired      map[string]int64 // fault kind/op -> times
	FirstFault int64            // simulated time of the first failing operation, -1
	LastFault  int64
	FirstStall int64
	StallEnd   int64
	PowerCut   bool
	Trace      []string
	OnOp       func(op, path string, phase int) // harness observation, no scheduling effect
	OnCrash    func(kind string)
	stallUntil int64
	Touched    map[string]bool // every path ever modified
}

// Mount makes a fresh file system the one the simulation uses.
func Mount(s *simrt.Sim) *FS {
	f := &FS{s: s, cwd: "/work", handles: map[*File]bool{}, OpCount: map[string]int64{}, Fired: map[string]int64{},
		FirstFault: -1, LastFault: -1, FirstStall: -1, ChunkMax: 3, Touched: map[string]bool{}}
	f.root = f.newDir()
	for _, d := range []string{"/work", "/tmp"} {
		n := f.newDir()
		f.root.kids[d[1:]] = n
		f.root.dkids[d[1:]] = n
	}
	s.RT["fs"] = f
	return f
}

func cur() *FS {
	if simrt.S == nil {
		return nil
	}
	f, _ := simrt.S.RT["fs"].(*FS)
	return f
}

func (f *FS) Use() { f.s.RT["fs"] = f }

func (f *FS) newInode(mode fs.FileMode) *inode {
	f.nextID++
	return &inode{id: f.nextID, mode: mode, mtime: f.s.Now(), nlink: 1}
}
func (f *FS) newDir() *inode {
	n := f.newInode(fs.ModeDir | 0755)
	n.dir = true
	n.kids = map[string]*inode{}
	n.dkids = map[string]*inode{}
	return n
}

// Clone copies the current contents into an independent file system with no faults (everything durable).
func (f *FS) Clone() *FS {
	c := &FS{s: f.s, cwd: f.cwd, handles: map[*File]bool{}, OpCount: map[string]int64{}, Fired: map[string]int64{},
		FirstFault: -1, LastFault: -1, FirstStall: -1, ChunkMax: 1, Touched: map[string]bool{}}
	seen := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if m := seen[n]; m != nil {
			return m
		}
		c.nextID++
		m := &inode{id: c.nextID, dir: n.dir, mode: n.mode, mtime: n.mtime, nlink: n.nlink}
		seen[n] = m
		if n.dir {
			m.kids, m.dkids = map[string]*inode{}, map[string]*inode{}
			for _, k := range sortedKids(n.kids) {
				x := cp(n.kids[k])
				m.kids[k], m.dkids[k] = x, x
			}
		} else {
			m.data = append([]byte(nil), n.data...)
			m.durable = m.data
		}
		return m
	}
	c.root = cp(f.root)
	return c
}

func sortedKids(m map[string]*inode) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- operation prologue: scheduling, latency, faults ----

var modifying = map[string]bool{"create": true, "write": true, "fsync": true, "rename": true, "remove": true, "mkdir": true, "truncate": true, "link": true, "chmod": true, "chtimes": true, "syncdir": true}

func matchOp(want, op string) bool {
	if want == "" || want == op {
		return true
	}
	if want == "w" {
		return modifying[op]
	}
	if want == "r" {
		return !modifying[op]
	}
	return false
}

// quiet reports whether operations are free of faults and scheduling (harness tasks and code outside tasks).
func (f *FS) quiet() bool {
	t := simrt.Cur()
	return t == nil || t.Proc.Name == "harness" || t.Proc.Dead && !simrt.Killed()
}

// op runs the prologue of one operation; the error, if any, is what the operation must return.
// short is set if a write must be cut short.
func (f *FS) op(kind, p string) (err error, short bool) {
	if simrt.Killed() {
		simrt.Enter() // unwinds
	}
	if f.quiet() {
		return nil, false
	}
	f.Ops++
	f.OpCount[kind]++
	simrt.Point()
	if f.OnOp != nil {
		f.OnOp(kind, p, 0)
	}
	s := f.s
	if f.Latency > 0 && s.Chance(f.Latency) {
		f.Fired["latency"]++
		simrt.SleepNS(1 + s.Uint(f.LatMax))
	}
	for f.stallUntil > s.Now() {
		simrt.SleepNS(f.stallUntil - s.Now())
	}
	el := s.Elapsed()
	for _, ft := range f.Faults {
		if ft.closed || el < ft.After || !matchOp(ft.Op, kind) || (ft.Match != "" && !strings.Contains(p, ft.Match)) {
			continue
		}
		if ft.Kind == "short" && kind != "write" {
			continue
		}
		if ft.fired > 0 && ft.Dur > 0 && ft.Kind != "stall" && ft.Kind != "slow" && el > ft.first+ft.Dur {
			ft.closed = true
			continue
		}
		ft.seen++
		if ft.seen <= ft.Nth {
			continue
		}
		if ft.fired == 0 {
			ft.first = el
		}
		ft.fired++
		n := ft.Count
		if n == 0 {
			n = 1
		}
		if n > 0 && ft.fired >= n {
			ft.closed = true
		}
		f.Fired[ft.Kind+"/"+kind]++
		s.Event("fault", ft.Kind, kind, p)
		switch ft.Kind {
		case "stall":
			if f.FirstStall < 0 {
				f.FirstStall = el
			}
			f.stallUntil = later(f.stallUntil, s.Now()+ft.Dur)
			f.StallEnd = later(f.StallEnd, el+ft.Dur)
			for f.stallUntil > s.Now() {
				simrt.SleepNS(f.stallUntil - s.Now())
			}
			el = s.Elapsed()
		case "slow":
			simrt.SleepNS(ft.Dur)
			el = s.Elapsed()
		case "kill":
			f.crash("kill", kind)
		case "power":
			f.PowerCut = true
			f.crash("power", kind)
		case "eio", "enospc", "short":
			if f.FirstFault < 0 {
				f.FirstFault = el
			}
			f.LastFault = el
			if ft.Kind == "short" {
				return nil, true
			}
			if ft.Kind == "enospc" && (kind == "write" || kind == "create" || kind == "mkdir" || kind == "rename" || kind == "link" || kind == "fsync") {
				return syscall.ENOSPC, false
			}
			return syscall.EIO, false
		}
	}
	return nil, false
}

func (f *FS) crash(kind, op string) {
	if f.OnCrash != nil {
		f.OnCrash(kind)
	}
	simrt.KillSelf(kind + " at " + op)
}

// after is a scheduling point behind an operation's effect.
func (f *FS) after(kind, p string) {
	if f.quiet() {
		return
	}
	if f.OnOp != nil {
		f.OnOp(kind, p, 1)
	}
	simrt.Point()
}

// ---- stable storage ----

func (f *FS) meta(dir *inode, do func()) {
	f.settle()
	f.journal = append(f.journal, metaOp{f.s.Now(), dir, do})
}

const metaCommit = int64(30 * time.Second)
const dataFlush = int64(40 * time.Second)

// settle commits what the background commit would have written by now.
func (f *FS) settle() {
	n := 0
	for n < len(f.journal) && f.s.Now()-f.journal[n].at > metaCommit {
		f.journal[n].do()
		n++
	}
	if n > 0 {
		f.journal = append([]metaOp(nil), f.journal[n:]...)
	}
}

// commit is what a sync of n makes durable of the directory changes: all of them where the file system has one
// journal, those in the directory itself where it promises no more (PerDir).
func (f *FS) commit(n *inode) {
	var rest []metaOp
	for _, m := range f.journal {
		if !f.PerDir || m.dir == n {
			m.do()
		} else {
			rest = append(rest, m)
		}
	}
	f.journal = rest
}

func (n *inode) syncData() {
	n.durable = append([]byte(nil), n.data...)
	n.dirty = false
}

// wrote notes that n's data changed.
func (f *FS) wrote(n *inode) {
	if n.dirty && f.s.Now()-n.dirtyAt > dataFlush {
		// the older state had been written back
	}
	n.dirty = true
	n.dirtyAt = f.s.Now()
	n.mtime = f.s.Now()
}

// PowerLoss replaces the contents by what stable storage holds: a prefix of the uncommitted directory
// operations, and for every file with unsynced data the old, the new, a torn or an empty version.
func (f *FS) PowerLoss(rng *simrt.Rng) (lostOps, lostFiles int) {
	f.settle()
	keep := len(f.journal)
	switch rng.Intn(4) {
	case 0:
		keep = 0
	case 1:
	default:
		keep = rng.Intn(len(f.journal) + 1)
	}
	if f.PerDir { // any prefix of the changes of each directory
		prob := 0.5
		switch {
		case keep == 0:
			prob = 0
		case keep == len(f.journal):
			prob = 0.9
		}
		cut := map[*inode]bool{}
		for _, m := range f.journal {
			if !cut[m.dir] && rng.Float() >= prob {
				cut[m.dir] = true
			}
			if cut[m.dir] {
				lostOps++
			} else {
				m.do()
			}
		}
	} else {
		lostOps = len(f.journal) - keep
		for _, m := range f.journal[:keep] {
			m.do()
		}
	}
	f.journal = nil
	mode := rng.Intn(3) // all lost, mixed, mixed
	seen := map[*inode]bool{}
	var walk func(n *inode)
	walk = func(n *inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.dir {
			n.kids = map[string]*inode{}
			for _, k := range sortedKids(n.dkids) {
				n.kids[k] = n.dkids[k]
				walk(n.dkids[k])
			}
			return
		}
		if n.dirty && f.s.Now()-n.dirtyAt > dataFlush {
			n.syncData()
		}
		if n.dirty {
			c := rng.Intn(4)
			if mode == 0 {
				c = 0
			}
			if c != 1 {
				lostFiles++
			}
			switch c {
			case 0: // nothing new reached the disk
				n.data = append([]byte(nil), n.durable...)
			case 1: // everything did
			case 2: // cut
				n.data = append([]byte(nil), n.data[:rng.Intn(len(n.data)+1)]...)
			case 3: // right size, some blocks missing
				d := append([]byte(nil), n.data...)
				bs := 512
				for o := 0; o < len(d); o += bs {
					if rng.Intn(2) == 0 {
						for i := o; i < o+bs && i < len(d); i++ {
							if i < len(n.durable) {
								d[i] = n.durable[i]
							} else {
								d[i] = 0
							}
						}
					}
				}
				n.data = d
			}
			n.syncData()
		}
	}
	walk(f.root)
	f.handles = map[*File]bool{}
	return
}

// Open is the number of files that are open.
func (f *FS) Open() int { return len(f.handles) }

// CloseAll forgets the open files of a dead process.
func (f *FS) CloseAll() {
	for h := range f.handles {
		h.closed = true
	}
	f.handles = map[*File]bool{}
	f.stallUntil = 0
	if e := f.s.Elapsed(); f.StallEnd > e {
		f.StallEnd = e
	}
}

// ---- path resolution ----

func (f *FS) abs(p string) string {
	if !path.IsAbs(p) {
		p = f.cwd + "/" + p
	}
	return p
}

// walkTo resolves p; parent is the directory holding the last element (nil for the root).
func (f *FS) walkTo(p string) (parent *inode, name string, n *inode, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	ap := f.abs(p)
	trail := strings.HasSuffix(ap, "/")
	var parts []string
	for _, x := range strings.Split(ap, "/") {
		if x != "" && x != "." {
			parts = append(parts, x)
		}
	}
	type lvl struct {
		n    *inode
		name string
	}
	stack := []lvl{{f.root, "/"}}
	for i, x := range parts {
		d := stack[len(stack)-1].n
		if !d.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if x == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if f.denied(d, 0100) {
			return nil, "", nil, syscall.EACCES
		}
		if len(x) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		k := d.kids[x]
		if k == nil {
			if i == len(parts)-1 {
				return d, x, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, lvl{k, x})
	}
	top := stack[len(stack)-1]
	if trail && !top.n.dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	if len(stack) == 1 {
		return nil, "/", top.n, nil
	}
	return stack[len(stack)-2].n, top.name, top.n, nil
}

// denied: the process is not privileged and owns every file; bits are those of the owner.
func (f *FS) denied(n *inode, bits fs.FileMode) bool {
	return n != nil && n.mode&bits != bits && !f.quiet()
}

const umask = 022

func (f *FS) touch(p string) { f.Touched[path.Clean(f.abs(p))] = true }

func (f *FS) linkAt(d *inode, name string, n *inode) {
	d.kids[name] = n
	d.mtime = f.s.Now()
	f.meta(d, func() { d.dkids[name] = n })
}
func (f *FS) unlinkAt(d *inode, name string) {
	delete(d.kids, name)
	d.mtime = f.s.Now()
	f.meta(d, func() { delete(d.dkids, name) })
}

// ---- harness access (no scheduling, no faults) ----

// Files lists every path below dir (files and directories), sorted.
func (f *FS) Files(dir string) []string {
	var out []string
	_, _, n, err := f.walkTo(dir)
	if err != nil {
		return nil
	}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		for _, k := range sortedKids(n.kids) {
			c := n.kids[k]
			q := p + "/" + k
			if c.dir {
				out = append(out, q+"/")
				walk(q, c)
			} else {
				out = append(out, q)
			}
		}
	}
	walk(path.Clean(f.abs(dir)), n)
	return out
}

// Premade makes a directory with its parents, safely on stable storage.
func (f *FS) Premade(p string) {
	d := f.root
	for _, x := range strings.Split(path.Clean(f.abs(p)), "/") {
		if x == "" {
			continue
		}
		n := d.kids[x]
		if n == nil {
			n = f.newDir()
			d.kids[x], d.dkids[x] = n, n
		}
		d = n
	}
}

// Read returns a file's contents.
func (f *FS) Read(p string) ([]byte, bool) {
	_, _, n, err := f.walkTo(p)
	if err != nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Damage replaces a file's contents in place (stored bytes changed behind the system's back).
func (f *FS) Damage(p string, data []byte) {
	_, _, n, err := f.walkTo(p)
	if err == nil && !n.dir {
		n.data = data
		n.durable = data
		n.dirty = false
	}
}

// Install puts a file or directory in place, durable, without any of it being an operation.
func (f *FS) Install(p string, data []byte, dir bool) {
	n := f.root
	parts := strings.Split(strings.Trim(path.Clean(f.abs(p)), "/"), "/")
	for i, k := range parts {
		c := n.kids[k]
		if c == nil {
			if c = f.newDir(); i == len(parts)-1 && !dir {
				c = f.newInode(0644)
				c.data = append([]byte(nil), data...)
				c.durable = c.data
			}
			n.kids[k], n.dkids[k] = c, c
		}
		n = c
	}
}

// Abs is the absolute name of p.
func (f *FS) Abs(p string) string { return path.Clean(f.abs(p)) }

// Size of everything below dir in bytes.
func (f *FS) Size(dir string) (n int) {
	for _, p := range f.Files(dir) {
		if b, ok := f.Read(p); ok {
			n += len(b)
		}
	}
	return
}

// FaultsPending reports whether some fault has not been used up.
func (f *FS) FaultsPending() bool {
	for _, x := range f.Faults {
		if !x.closed {
			return true
		}
	}
	return false
}

// ClearFaults ends the fault phase.
func (f *FS) ClearFaults() {
	f.Faults = nil
	f.stallUntil = 0
}

func later(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
