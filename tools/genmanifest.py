#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {
 'X01': 'the tokenizer is a pure sequential function of its argument: it uses no scheduling, clock, I/O, randomness or other party, so a simulator has nothing to decide (input generation alone would be property-based testing, another technique)',
 'X03': 'BM25 is a pure arithmetic function: there is no schedule, time, I/O or fault for a simulation to vary (that search results carry exactly these scores under every schedule is Q01)',
}
GROUP = {
 'S': ('deterministic simulation of the real disk store on a simulated file system with seeded crashes, power loss, disk faults, latency and schedules; a reference model of all saves judges every recovered state', 'the flatbuffers, gzip and hash code runs unrewritten'),
 'L': ('deterministic simulation of the real stores with seeded schedules, flush timing, disk latency and cache sizes; answers compared with a reference model (and with each other), happens-before race detection', 'happens-before race detection covers the accesses made by rewritten code'),
 'Q': ('deterministic simulation of search and indexing tasks over the real stores under seeded schedules; results compared with an independent BM25 reference, leak and race detection', 'scores are compared with a relative tolerance of 1e-9 (bit for bit in Q02)'),
 'C': ('deterministic simulation of concurrent clients on the real cache under seeded schedules and simulated time; recorded histories checked against a sequential model, race detection', 'histories are checked per run; undecided linearizability searches (none seen) are counted in the evidence'),
 'T': ('deterministic simulation of concurrent callers of the real filters and of JSON flattening (and of the stemmer and x/text they use) under seeded schedules; results compared with a sequential computation, leak and race detection', 'the word rules themselves are taken from porter2 and x/text'),
 'F': ('deterministic simulation of concurrent callers of the real file package on a simulated file system with seeded schedules, kills, power loss and disk faults; each file checked as an atomic durable register by a linearizability search over the recorded history', 'gzip runs unrewritten'),
 'H': ('deterministic simulation of the real service (main) with concurrent requests, seeded schedules, disk latency, kills and restarts on a simulated file system; answers judged by a model of accepted documents', 'requests enter at the HTTP handler, the network below it is not simulated'),
 'U': ('deterministic simulation of re-saves on both real stores with seeded flush timing, kills and restarts; every answer compared with a model in which a save replaces the earlier one', 'deviations that are exactly the listed findings are reported as KNOWN-FINDING'),
}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    t, n = GROUP[i[0]]
    checks.append({
        'property': i,
        'quick_cmd': './run.sh check %s quick' % i,
        'thorough_cmd': './run.sh check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': t,
        'level': 'exploration',
        'level_note': 'Seeded search over schedules, timings and faults: the property held on every simulated run counted in the evidence file; nothing is said about unexplored ones. Trusts the source rewriter and the simulated scheduler, clock and file system (self-tested); ' + n + '.',
    })
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the checks rewrite a copy of /repo\'s working tree (goroutines, channels, locks, time, files, maps) onto the simulator in simrt/, build it with harness/ and run it. known-findings.txt lists recorded and repaired defects.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
