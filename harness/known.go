package main

import (
	"os"
	"path/filepath"
	"strings"
)

// listed findings: "property id" -> text after "KNOWN-FINDING: property=P "
var listed = map[string]string{}

// loadKnown reads known-findings.txt: lines "KNOWN-FINDING: property=P ID: what fails". Nothing is ever added here at
// run time; "fixed:" lines are for people and suppress nothing.
func loadKnown() {
	exe, _ := os.Executable()
	for _, dir := range []string{os.Getenv("VERIF_DIR"), filepath.Dir(filepath.Dir(exe))} {
		if dir == "" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			rest, ok := strings.CutPrefix(strings.TrimSpace(l), "KNOWN-FINDING: property=")
			if !ok {
				continue
			}
			prop, text, _ := strings.Cut(rest, " ")
			id, _, ok := strings.Cut(text, ":")
			if ok {
				listed[prop+" "+id] = text
			}
		}
		return
	}
}

// known notes a deviation that is a listed finding; if it is not listed it is a violation.
func (r *run) known(id, f string, a ...any) {
	if text, ok := listed[r.plan.Prop+" "+id]; ok {
		for _, k := range r.res.Known {
			if k == text {
				return
			}
		}
		r.res.Known = append(r.res.Known, text)
		return
	}
	r.res.bad(id, f, a...)
}
