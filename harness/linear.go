package main

import (
	"math/bits"
)

// linOp is one call in a history; pending calls have ret = maxInt64.
type linOp struct {
	inv, ret int64
	in       any
	out      any
}

// linearizable decides whether some order of the calls, respecting real time, explains every answer.
// step returns the state after the call and whether the answer fits. States are compared as strings.
// 1: yes, 0: no, -1: too expensive to tell.
func linearizable(ops []linOp, init string, step func(st string, o *linOp) (string, bool), budget int) int {
	n := len(ops)
	if n == 0 {
		return 1
	}
	type key struct {
		done string
		st   string
	}
	done := make([]uint64, (n+63)/64)
	seen := map[key]bool{}
	nodes := 0
	enc := func() string {
		b := make([]byte, 0, len(done)*8)
		for _, w := range done {
			for i := 0; i < 8; i++ {
				b = append(b, byte(w>>(8*i)))
			}
		}
		return string(b)
	}
	var rec func(st string, left int) int
	rec = func(st string, left int) int {
		if left == 0 {
			return 1
		}
		if nodes++; nodes > budget {
			return -1
		}
		k := key{enc(), st}
		if seen[k] {
			return 0
		}
		seen[k] = true
		// only a call that began before every unfinished call returned may be next
		minRet := int64(1<<63 - 1)
		for i := 0; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 1 || ops[i].inv > minRet {
				continue
			}
			s2, ok := step(st, &ops[i])
			if !ok {
				continue
			}
			done[i/64] |= 1 << (i % 64)
			r := rec(s2, left-1)
			done[i/64] &^= 1 << (i % 64)
			if r != 0 {
				return r
			}
		}
		return 0
	}
	left := n
	for _, w := range done {
		left -= bits.OnesCount64(w)
	}
	return rec(init, left)
}
