package snip

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type pt struct{ x, y int }
type inner struct {
	n   int
	arr [4]int
	m   map[string]int
}
type outer struct {
	inner
	p  *inner
	sl []pt
	mu sync.Mutex
	f  func(int) int
	e  error
	ch chan int
}

type num interface{ ~int | ~float64 }

func sum[T num](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

type stack[T any] struct{ items []T }

func (s *stack[T]) push(x T) { s.items = append(s.items, x) }
func (s *stack[T]) pop() (x T, ok bool) {
	if len(s.items) == 0 {
		return x, false
	}
	x = s.items[len(s.items)-1]
	s.items = s.items[:len(s.items)-1]
	return x, true
}

type strs []string
type named map[string][]int

var counter int
var table = map[string]int{"a": 1, "b": 2}
var fns = []func() int{func() int { counter++; return counter }}
var initd string

func init() { initd = "init-ran" }

func two() (int, error)  { return 7, errors.New("two") }
func (p pt) val() int    { return p.x + p.y }
func (p *pt) set(a int)  { p.x = a }
func (o *outer) get() *inner { return o.p }

type iface interface{ val() int }

const big = 1 << 40

func All(out func(string, ...any)) {
	o := &outer{p: &inner{m: map[string]int{"k": 1}}, sl: []pt{{1, 2}, {3, 4}}}
	o.n = 3
	o.inner.arr[2] = 5
	o.p.arr[1] += 9
	o.p.m["k"]++
	o.p.m["z"] += 4
	o.sl[1].x -= 2
	o.sl[0], o.sl[1] = o.sl[1], o.sl[0]
	o.get().n |= 6
	o.f = func(i int) int { return i * o.n }
	var err error
	o.n, err = two()
	_, o.e = two()
	out("struct %v %v %v %v %v %v", o.n, o.arr, *o.p, o.sl, o.f(2), err)
	out("err %v", o.e)
	o.sl[0].set(11)
	out("method %v %v", o.sl[0].val(), iface(o.sl[1]).val())
	mv := o.sl[0].val
	o.sl[0].set(99)
	out("methodvalue %v", mv())
	var s stack[string]
	s.push("a")
	s.push("b")
	v, ok := s.pop()
	out("generic %v %v %v %v", v, ok, sum(1, 2, 3), sum[float64](1.5, 2))
	// maps
	m := named{"x": {1, 2}, "y": nil}
	m["x"][1] = 8
	m["y"] = append(m["y"], 4, 5)
	delete(m, "zz")
	if l, ok := m["x"]; ok {
		out("map %v %v", l, len(m))
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	tot := 0
	for _, v := range m {
		for i := range v {
			tot += v[i] * i
		}
	}
	var kk string
	var vv []int
	n := 0
	for kk, vv = range m {
		n += len(kk) + len(vv)
	}
	out("keys %v %v %v", keys, tot, n)
	for range m {
		n++
	}
	// closures over loop variables (go 1.19 semantics: shared)
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { return i })
	}
	for _, x := range []int{5, 6, 7} {
		fs = append(fs, func() int { return x })
	}
	for k, x := range map[string]int{"q": 8} {
		fs = append(fs, func() int { return x + len(k) })
	}
	r := ""
	for _, f := range fs {
		r += fmt.Sprint(f(), " ")
	}
	out("loopvars %s", r)
	// labels, goto, switch, fallthrough
	c := 0
outerL:
	for i := 0; i < 5; i++ {
		for j := range [3]int{} {
			switch {
			case i == j:
				continue outerL
			case i == 3:
				break outerL
			case j == 1:
				c += 100
				fallthrough
			default:
				c++
			}
		}
	}
	out("labels %d", c)
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	out("goto %d", i)
	switch x := any(o.sl[0]).(type) {
	case iface:
		out("ts iface %v", x.val())
	default:
		out("ts other")
	}
	switch y := any(3).(type) {
	case string, int:
		out("ts2 %v", y)
	}
	// arrays, pointers to arrays, slices
	arr := [5]int{1, 2, 3, 4, 5}
	pa := &arr
	pa[2] = 30
	for i, x := range pa {
		arr[i] = x + 1
	}
	for i, x := range arr {
		arr[4-i] = x
	}
	sl := arr[1:4:5]
	sl = append(sl, 77)
	copy(sl, sl[1:])
	out("arrays %v %v %v %d", arr, sl, cap(sl), len(pa))
	for i, c := range "héy" {
		out("rune %d %c", i, c)
	}
	// channels
	ch := make(chan int, 3)
	done := make(chan struct{})
	res := make(chan string)
	go func() {
		defer close(done)
		for v := range ch {
			counter += v
		}
	}()
	for i := 0; i < 6; i++ {
		ch <- i
	}
	close(ch)
	<-done
	out("chan %d %d", counter, len(ch))
	o.ch = make(chan int, 1)
	o.ch <- 4
	var got int
	got, ok = <-o.ch
	out("recv2 %d %v", got, ok)
	select {
	case v := <-o.ch:
		out("bad %d", v)
	default:
		out("default")
	}
	go func(a, b string) { res <- a + b }("x", strings.Repeat("y", 3))
	select {
	case s, ok := <-res:
		out("sel %s %v", s, ok)
	case <-time.After(time.Hour):
		out("timeout")
	}
	func() {
		select {
		case o.ch <- 9:
			out("sent")
			return
		}
	}()
	out("selret %d", selret(o.ch))
	tick := time.NewTicker(time.Second)
	cnt := 0
loop:
	for {
		select {
		case <-tick.C:
			cnt++
			if cnt == 3 {
				break loop
			}
			continue loop
		}
	}
	tick.Stop()
	out("tick %d", cnt)
	// sync
	var wg sync.WaitGroup
	var mu sync.RWMutex
	var once sync.Once
	var av atomic.Value
	var cnt64 int64
	shared := map[int]int{}
	for i := 0; i < 10; i++ {
		wg.Add(1)
		i := i
		go worker(&wg, &mu, shared, i)
		once.Do(func() { av.Store("once") })
		atomic.AddInt64(&cnt64, int64(i))
	}
	wg.Wait()
	out("sync %d %v %d", len(shared), av.Load(), atomic.LoadInt64(&cnt64))
	cond := sync.NewCond(&mu)
	ready := false
	go func() {
		mu.Lock()
		ready = true
		mu.Unlock()
		cond.Broadcast()
	}()
	mu.Lock()
	for !ready {
		cond.Wait()
	}
	mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	<-ctx.Done()
	out("ctx %v", ctx.Err())
	cancel()
	// panics and recover
	out("recover %v", try(func() { var m map[string]int; m["x"] = 1 }))
	out("recover %v", try(func() { _ = sl[len(sl)] }))
	out("recover %v", try(func() { var p *outer; p.n = 3 }))
	out("recover %v", try(func() { close(ch) }))
	out("deferred %d", deferred())
	// files
	dir, _ := os.MkdirTemp("", "self")
	fn := filepath.Join(dir, "f")
	out("write %v", os.WriteFile(fn, []byte("hello"), 0644))
	f, _ := os.OpenFile(fn, os.O_APPEND|os.O_WRONLY, 0)
	fmt.Fprintf(f, " world %d", 1)
	f.Sync()
	f.Close()
	b, err := os.ReadFile(fn)
	out("read %s %v", b, err)
	out("mkdir %v", os.MkdirAll(filepath.Join(dir, "a/b/c"), 0755))
	out("rename %v", os.Rename(fn, filepath.Join(dir, "a/g")))
	_, err = os.Stat(fn)
	out("stat %v", os.IsNotExist(err))
	err = os.Rename(filepath.Join(dir, "a/g"), filepath.Join(dir, "a/b"))
	out("rename dir %v", err != nil)
	err = os.Remove(filepath.Join(dir, "a"))
	out("remove %v", err != nil)
	es, _ := os.ReadDir(filepath.Join(dir, "a"))
	for _, e := range es {
		out("ent %s %v", e.Name(), e.IsDir())
	}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		out("walk %s", strings.TrimPrefix(p, dir))
		return err
	})
	f, err = os.Open(filepath.Join(dir, "nope"))
	out("open %v", strings.HasSuffix(err.Error(), "no such file or directory"))
	f, _ = os.Open(filepath.Join(dir, "a/g"))
	f.Seek(6, io.SeekStart)
	b, _ = io.ReadAll(f)
	f.Close()
	_, err = f.Read(b)
	out("seek %s %v", b, errors.Is(err, os.ErrClosed))
	_, err = os.OpenFile(filepath.Join(dir, "a/g"), os.O_CREATE|os.O_EXCL, 0)
	out("excl %v", os.IsExist(err))
	out("rmall %v", os.RemoveAll(dir))
	out("pkg %v %v %v %v", counter, table["b"], fns[0](), initd)
	counter = 41
	table["b"]++
	out("big %d", big)
	var iface2 any = o.sl
	if l, ok := iface2.([]pt); ok {
		l[0].x = 1
		out("iface %v", o.sl[0])
	}
	x, y := 1, 2
	x, y = y, x
	func() { x, err = two() }()
	out("swap %d %d %v", x, y, err)
	var sm sync.Map
	sm.Store("a", 1)
	act, loaded := sm.LoadOrStore("a", 2)
	out("syncmap %v %v", act, loaded)
	type local struct{ a, b *int }
	l := local{a: &x}
	*l.a += 5
	*l.a++
	(*l.a)--
	out("ptr %d", x)
	mp := map[pt]*inner{{1, 2}: {n: 4}}
	mp[pt{1, 2}].n++
	mp[pt{1, 2}].arr[3]--
	out("mp %v", *mp[pt{1, 2}])
	var st struct {
		a [2]struct{ b map[string]pt }
	}
	st.a[1].b = map[string]pt{"u": {5, 6}}
	out("nest %v %v", st.a[1].b["u"].y, len(st.a[0].b))
	defer func() { out("end") }()
	for i := range m["x"] {
		defer func(n int) { out("d%d", n) }(i)
	}
	var t *time.Timer = time.AfterFunc(time.Minute, func() { out("never") })
	out("stop %v", t.Stop())
	out("bool %v %v", x == y || !ok, float64(x)/2)
	go fmt.Sprint("builtin")
	var wg2 sync.WaitGroup
	wg2.Add(2)
	go wg2.Done()
	d := &outer{p: &inner{}}
	go d.incr(&wg2, 1, []int{2, 3}...)
	wg2.Wait()
	out("goargs %d", d.p.n)
	p2 := &o.sl[1].y
	*p2 = 70
	out("addr %v", o.sl[1])
	bs := []byte("abc")
	bs[1] ^= 0x20
	bs[0] <<= 1
	out("bytes %v", bs)
}

func (o *outer) incr(wg *sync.WaitGroup, a int, xs ...int) {
	defer wg.Done()
	for _, x := range xs {
		o.p.n += a * x
	}
}

func selret(c chan int) int {
	select {
	case v := <-c:
		return v
	}
}

func worker(wg *sync.WaitGroup, mu *sync.RWMutex, m map[int]int, i int) {
	defer wg.Done()
	mu.Lock()
	defer mu.Unlock()
	m[i] = i
}

func try(f func()) (r any) {
	defer func() {
		r = recover()
		if e, ok := r.(error); ok {
			r = e.Error()
		}
	}()
	f()
	return nil
}

func deferred() (n int) {
	defer func() { n *= 2 }()
	n = 4
	return n + 1
}
