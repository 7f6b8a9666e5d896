//go:build go1.24

package main

import (
	"encoding/json"
	"os"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

func writeEvidence(file string, pr *prop, tier, level string, seed int64, reps []*Report, wall float64, violations, checked, mism, workers, nrace int) {
	if file == "" {
		return
	}
	sum := &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Kinds: map[string]int64{}, Outcomes: map[string]int64{}, HostReads: map[string]int64{}}
	sched, dist := map[uint64]struct{}{}, map[uint64]struct{}{}
	sites := make([]byte, len(simrt.SiteHits))
	raceRuns := int64(0)
	add := func(dst, src map[string]int64) {
		for k, v := range src {
			dst[k] += v
		}
	}
	var samples []interface{}
	for _, rep := range reps {
		s := rep.Stats
		if s == nil {
			continue
		}
		sum.Runs += s.Runs
		sum.Evals += s.Evals
		sum.Steps += s.Steps
		sum.SimNS += s.SimNS
		sum.Switches += s.Switches
		sum.Stalls += s.Stalls
		sum.Crashed += s.Crashed
		if s.Race {
			raceRuns += s.Runs
		}
		add(sum.Faults, s.Faults)
		add(sum.Probes, s.Probes)
		add(sum.Kinds, s.Kinds)
		add(sum.Outcomes, s.Outcomes)
		add(sum.HostReads, s.HostReads)
		for _, h := range s.Schedules {
			sched[h] = struct{}{}
		}
		for _, h := range s.Distinct {
			dist[h] = struct{}{}
		}
		for i, b := range s.SiteBits {
			if i < len(sites) {
				sites[i] |= b
			}
		}
		for _, x := range s.Samples {
			if len(samples) < 4 && len(x) < 6000 {
				samples = append(samples, json.RawMessage(x))
			}
		}
	}
	hit := 0
	for _, b := range sites {
		if b != 0 {
			hit++
		}
	}
	hours := wall / 3600
	cov := map[string]interface{}{
		"evaluations":                      sum.Evals,
		"distinct_nontrivial":              len(dist),
		"rule":                             pr.rule,
		"samples":                          samples,
		"simulated_runs":                   sum.Runs,
		"seeds":                            sum.Runs,
		"runs_per_hour":                    int64(float64(sum.Runs) / hours),
		"runs_under_the_race_detector":     raceRuns,
		"simulated_steps":                  sum.Steps,
		"simulated_steps_are":              "statements of the instrumented code that were executed under the scheduler; the library has no timers, so steps are its time",
		"simulated_clock_seconds":          float64(sum.SimNS) / 1e9,
		"faults_injected":                  sum.Faults,
		"run_kinds":                        sum.Kinds,
		"outcomes":                         sum.Outcomes,
		"probes":                           sum.Probes,
		"host_reads_by_the_code":           sum.HostReads,
		"preemptions_inside_operations":    sum.Switches,
		"callers_stalled":                  sum.Stalls,
		"callers_cut_off_by_crash":         sum.Crashed,
		"distinct_interleavings":           len(sched),
		"distinct_interleavings_are":       "different sequences of (task, statement at which it was preempted) of the multi-task runs",
		"statements_of_the_code":           len(simrt.Sites) - 1,
		"statements_reached":               hit,
		"runs_repeated_in_another_process": checked,
		"repeated_runs_which_differed":     mism,
		"workers":                          workers,
		"workers_with_race_detector":       nrace,
		"real_components":                  []string{"all non-test Go files of /repo (instrumented copies of the working tree)", "participle", "encoding/json", "regexp", "strconv"},
		"simulated_components":             []string{"goroutine scheduling", "sync and channels", "time", "math/rand", "os environment", "map iteration order", "process restart (package state)", "memory of documents and destinations (page protection)"},
	}
	ev := map[string]interface{}{
		"property": pr.id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"statements are the unit of preemption; interleavings within one statement are left to the race detector",
			"third party and standard library code runs as it is and is not preempted",
			"the PCRE build (tag pcre, needs cgo and libpcre) is not simulated",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}
