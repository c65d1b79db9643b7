#!/bin/bash
# differential self-test of the rewriter: the same program natively and under the simulator
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
(cd ../ && go build -o $T/rewriter .)
cp -r src $T/nat; mkdir $T/nat/cmd
cat > $T/nat/cmd/main.go <<'X'
package main
import ("fmt"; "example.test/self/snip")
func main() { snip.All(func(f string, a ...any) { fmt.Printf(f+"\n", a...) }) }
X
(cd $T/nat && GOFLAGS=-mod=mod go run ./cmd > $T/native.txt)
rm -r $T/nat/cmd
(cd $T && GOFLAGS=-mod=mod ./rewriter -src $T/nat -out $T/gen -simrt /verif/simrt)
mkdir $T/gen/cmd
cat > $T/gen/cmd/main.go <<'X'
package main
import ("fmt"; "strings"; "example.test/self/snip"; "verif.local/simrt"; simos "verif.local/simrt/os"; "os")
func main() {
  for seed := uint64(0); seed < 200; seed++ {
	cfg := simrt.Config{SchedSeed: seed, Preempt: float64(seed%5)*0.1, MapShuffle: seed%2==1}
	if seed%3 == 2 { cfg.PCTDepth = 3; cfg.PCTSteps = 2000 }
	run := func(cfg simrt.Config) (string, uint64, []simrt.Decision) {
	var b strings.Builder
	s := simrt.New(cfg)
	simos.Mount(s)
	s.Run(func() {
		p := s.NewProc("p")
		simrt.ResetGlobals()
		t := p.Go("main", func() { snip.All(func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }) })
		s.WaitCond(func() bool { return t.Done() || p.Dead }, 1e12)
		if p.Exited { fmt.Fprintln(&b, "EXIT", p.ExitMsg, s.LastStack()) }
	})
	for _, p := range s.Problems { fmt.Fprintln(&b, "PROBLEM", p.Class, p.Msg) }
	return b.String(), s.Hash, s.Trace
	}
	o1, h1, tr := run(cfg)
	o2, h2, _ := run(cfg)
	cfg.Replay = map[uint64]int{}
	for _, d := range tr { cfg.Replay[d.I] = d.V }
	o3, h3, _ := run(cfg)
	if o1 != o2 || h1 != h2 || h3 != h1 || o3 != o1 { fmt.Println("NOT DETERMINISTIC", seed, h1, h2, h3) ; os.Exit(1)}
	if seed == 0 { os.WriteFile(os.Args[1], []byte(o1), 0644) } else if b, _ := os.ReadFile(os.Args[1]); string(b) != o1 { fmt.Println("seed", seed, "differs\n"+o1); os.Exit(1) }
  }
}
X
(cd $T/gen && GOFLAGS=-mod=mod go mod edit -require github.com/gin-gonic/gin@v1.9.1 && cp /repo/go.sum . && GOFLAGS=-mod=mod go run ./cmd $T/sim.txt)
diff $T/native.txt $T/sim.txt && echo "selftest ok: $(wc -l < $T/sim.txt) lines equal, 200 seeds deterministic"
