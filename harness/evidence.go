package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"time"
)

func writeEvidence(col *collector, pr *property, tier string, seed uint64, verifDir string, search, wall time.Duration, redo, nviol int) {
	hours := search.Hours()
	cov := map[string]any{
		"evaluations":                   col.runs,
		"distinct_nontrivial":           len(col.il),
		"rule":                          "one case = one simulated run of a seeded plan (workload, faults) under a seeded schedule; distinct = distinct hash of the sequence of task switches (which task of which process runs next, over the whole run); non-trivial = more than one task switch",
		"runs_per_hour":                 float64(col.runs) / hours,
		"seeds_per_hour":                float64(col.runs) / hours,
		"simulated_seconds":             float64(col.simNS) / 1e9,
		"scheduling_points":             col.steps,
		"context_switches":              col.switches,
		"distinct_final_states":         len(col.states),
		"faults_injected":               col.faults,
		"observations":                  col.stats,
		"runs_repeated_for_determinism": redo,
		"components_real":               realComponents(pr.world),
		"components_stub":               stubComponents(pr.world),
		"samples":                       samples(pr.id, seed, tier, col),
	}
	if pr.rule != "" {
		cov["rule"] = pr.rule + "; " + cov["rule"].(string)
	}
	ev := map[string]any{
		"property": pr.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{
			"the rewriter keeps the meaning of the rewritten source (checked by its differential self-test)",
			"the simulated file system, clock, channels, locks and maps behave as the Go runtime and a POSIX file system do",
			"schedules and faults are sampled, not enumerated: the property held on the runs counted here",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", pr.id+".json"), append(b, '\n'), 0644)
}

func samples(prop string, seed uint64, tier string, col *collector) []any {
	var out []any
	for _, i := range []int{0, col.runs / 2} {
		if _, ok := col.hashes[i]; !ok {
			continue
		}
		p := makePlan(prop, seed, tier, i)
		if len(p.Ops) > 12 {
			n := len(p.Ops)
			p.Ops = p.Ops[:12]
			if p.P == nil {
				p.P = map[string]int64{}
			}
			p.P["_steps_in_all"] = int64(n)
		}
		for j := range p.Ops {
			if len(p.Ops[j].T) > 5 {
				p.Ops[j].T = p.Ops[j].T[:5]
			}
		}
		out = append(out, map[string]any{"run": i, "plan": p})
	}
	return out
}

func realComponents(world string) []string {
	switch world {
	case "disk":
		return []string{"storage (DiskStorage, DiskIO, Serialize, Memory)", "file", "cache.LRU", "model", "container/list", "flatbuffers, gzip, uuid (unrewritten)"}
	case "file":
		return []string{"file", "gzip, uuid (unrewritten)"}
	case "search":
		return []string{"search", "index", "similarity", "metric", "storage (Disk, Memory)", "file", "cache.LRU", "model"}
	case "cache":
		return []string{"cache", "container/list"}
	case "text":
		return []string{"filter", "filter/stemmer", "tokenizer", "language", "porter2", "golang.org/x/text"}
	case "http":
		return []string{"main.go", "search", "index", "storage", "file", "cache", "filter", "tokenizer", "gin router, binding, rendering (unrewritten)", "porter2", "golang.org/x/text"}
	}
	return nil
}

func stubComponents(world string) []string {
	out := []string{"goroutine scheduler, channels, select, locks, maps' iteration order, clock, timers, log, rand (simulated)"}
	if world != "cache" && world != "text" {
		out = append(out, "file system and disk (simulated, with faults)", "process life and death (simulated)")
	}
	if world == "http" {
		out = append(out, "network listener (requests are handed to the real handler as simulated tasks)")
	}
	return out
}
