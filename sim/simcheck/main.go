//go:build go1.24

// Command simcheck searches simulated executions for violations of a property.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

// Report is what a worker writes when it ends, and the content of a replay file.
type Report struct {
	Plan      *Plan      `json:"plan,omitempty"`
	Violation *Violation `json:"violation,omitempty"`
	Original  *Plan      `json:"original,omitempty"`
	Stats     *Stats     `json:"stats,omitempty"`
}

const graceAfterFind = 4 * time.Second

func main() {
	debug.SetMaxStack(6 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|replay|one ...")
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "simcheck: %v\n%s\n", r, debug.Stack())
			os.Exit(2)
		}
	}()
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "one":
		cmdOne(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func runSeed(seed uint64, id string, run uint64) uint64 {
	r := simrt.NewRng(seed ^ hashStr(id) ^ run*0x9E3779B97F4A7C15)
	r.U64()
	return r.U64() >> 8
}

func makePlan(pr *prop, seed, run uint64) *Plan {
	s := runSeed(seed, pr.id, run)
	p := pr.gen(simrt.NewRng(s), run)
	p.Property = pr.id
	p.Run = run
	p.Seed = s
	p.Race = simrt.RaceBuild
	return p.clone()
}

// execute runs a plan. Nothing follows from one with an operation which may only have
// needed more time.
func execute(pr *prop, p *Plan) *Violation {
	undecided = false
	v := pr.exec(p)
	if undecided {
		probe("undecided: loops over long lists")
		return nil
	}
	return v
}

// oneRun executes a plan and returns the digest of what was observed.
func oneRun(pr *prop, p *Plan) (*Plan, *Violation, uint64) {
	q := p.clone()
	stats.sig = 14695981039346656037
	v := execute(pr, q)
	return q, v, stats.sig
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("property", "", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Uint64("first", 0, "")
	stride := fs.Uint64("stride", 1, "")
	again := fs.Uint64("again", 0, "")
	secs := fs.Float64("seconds", 10, "")
	max := fs.Int64("max", 1<<60, "")
	out := fs.String("out", "", "")
	status := fs.String("status", "", "")
	minSecs := fs.Float64("minimise", 20, "")
	flag := fs.String("flag", "", "a file which exists once some worker has found something")
	fs.Parse(args)
	pr := findProp(*id)
	if pr == nil {
		fatalf("no property %q", *id)
	}
	runtime.GOMAXPROCS(2)
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var sf *os.File
	if *status != "" {
		var err error
		if sf, err = os.Create(*status); err != nil {
			fatalf("%v", err)
		}
	}
	rep := &Report{}
	digests := map[uint64]uint64{}
	const sample = 25
	at := func(run uint64) {
		if sf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], run)
			sf.WriteAt(b[:], 0)
		}
	}
	for k := int64(0); k < *max && time.Now().Before(end); k++ {
		run := *first + uint64(k)**stride
		at(run)
		if k%16 == 15 && *flag != "" {
			// The others go on for some seconds, so that one sees how easily it is found.
			if fi, err := os.Stat(*flag); err == nil && time.Since(fi.ModTime()) > graceAfterFind {
				break
			}
		}
		p := makePlan(pr, *seed, run)
		q, v, dig := oneRun(pr, p)
		stats.runs++
		stats.kinds[p.Kind]++
		if k < sample {
			digests[run] = dig
		}
		if k < 2 {
			b, _ := json.Marshal(p)
			stats.samples = append(stats.samples, string(b))
		}
		if v != nil {
			rep.Original = p

			if *flag != "" {
				if f, err := os.OpenFile(*flag, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
					f.Close()
				}
			}
			rep.Plan, rep.Violation = minimise(pr, q, v, time.Duration(*minSecs*float64(time.Second)))
			rep.Plan.Run, rep.Plan.Seed, rep.Plan.Race = p.Run, p.Seed, p.Race
			break
		}
	}
	sites := 0
	bits := make([]byte, len(simrt.SiteHits))
	for i, h := range simrt.SiteHits {
		if h != 0 {
			sites++
		}
		bits[i] = h
	}
	rep.Stats = &Stats{Runs: stats.runs, Evals: stats.evals, Faults: stats.faults, Probes: stats.probes, Kinds: stats.kinds, Outcomes: stats.outcomes,
		Steps: stats.steps, SimNS: stats.simNS, Switches: stats.switches, Stalls: stats.stalls, Crashed: stats.crashed, Samples: stats.samples, Sites: sites, SiteBits: bits, Race: simrt.RaceBuild,
		HostReads: map[string]int64{"clock": simrt.Reads.Clock, "random": simrt.Reads.Rand, "map order": simrt.Reads.Map, "environment": simrt.Reads.Env, "pool": simrt.Reads.Pool}}
	for h := range stats.sched {
		rep.Stats.Schedules = append(rep.Stats.Schedules, h)
	}
	for h := range stats.distinct {
		rep.Stats.Distinct = append(rep.Stats.Distinct, h)
	}
	if rep.Violation == nil {
		// The same seeds once more as another worker, which has a different past.
		for k := uint64(0); k < sample; k++ {
			run := *again + k**stride
			at(run)
			p := makePlan(pr, *seed, run)
			_, v, dig := oneRun(pr, p)
			if v != nil {
				break
			}
			digests[run] = dig
		}
	}
	rep.Stats.Digests = digests
	b, err := json.Marshal(rep)
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fatalf("%v", err)
	}
	os.Exit(0)
}

// cmdOne executes the plan of a file, and nothing else.
func cmdOne(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatalf("%v", err)
	}
	rep := &Report{}
	if err := json.Unmarshal(b, rep); err != nil {
		fatalf("%v", err)
	}
	pr := findProp(rep.Plan.Property)
	_, v, _ := oneRun(pr, rep.Plan)
	res, _ := json.Marshal(v)
	fmt.Println(string(res))
	if v != nil {
		os.Exit(1)
	}
	os.Exit(0)
}

// runOne executes a plan in a process of its own.
func runOne(bin, file string) (*Violation, string, error) {
	cmd := exec.Command(bin, "one", file)
	cmd.Env = append(os.Environ(), raceEnv)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, se.String(), fmt.Errorf("timeout")
	}
	code := 0
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	} else if err != nil {
		return nil, se.String(), err
	}
	if code == 0 {
		return nil, se.String(), nil
	}
	if code == 1 {
		v := &Violation{}
		if err := json.Unmarshal(so.Bytes(), v); err != nil {
			return nil, se.String(), err
		}
		return v, se.String(), nil
	}
	if d := processDeath(se.String()); d != "" {
		return &Violation{Class: "process-death", Detail: d}, se.String(), nil
	}
	return nil, se.String(), fmt.Errorf("exit %d: %s", code, tail(se.String(), 2000))
}

// processDeath recognises errors of the Go runtime which end the process.
func processDeath(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "out of memory") && !strings.Contains(l, "cannot allocate") {
			return l
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

const raceEnv = "GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0"

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	raceBin := fs.String("race", "", "the build with the race detector")
	fs.Parse(args)
	file := fs.Arg(0)
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	rep := &Report{}
	if err := json.Unmarshal(b, rep); err != nil {
		fatalf("%v", err)
	}
	bin := os.Args[0]
	if rep.Plan.Race {
		bin = *raceBin
	}
	v, serr, err := runOne(bin, file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if v == nil {
		fmt.Printf("the property %s holds in this execution\n", rep.Plan.Property)
		os.Exit(0)
	}
	fmt.Fprint(os.Stderr, tail(serr, 4000))
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	if rep.Violation != nil && *v == *rep.Violation {
		fmt.Println("this is exactly the recorded violation")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Plan.Property, file)
	os.Exit(1)
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Float64("seconds", 20, "")
	workers := fs.Int("workers", 8, "")
	raceBin := fs.String("race", "", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	tmp := fs.String("tmp", os.TempDir(), "")
	known := fs.String("known", "", "")
	level := fs.String("level", "exploration", "")
	max := fs.Int64("max", 1<<60, "")
	fs.Parse(args)
	pr := findProp(*id)
	if pr == nil {
		fatalf("no property %q", *id)
	}
	fmt.Printf("property %s, tier %s, seed %d, %d workers, %.0f s\n", *id, *tier, *seed, *workers, *secs)
	start := time.Now()
	type worker struct {
		cmd    *exec.Cmd
		out    string
		status string
		serr   *bytes.Buffer
		race   bool
		err    error
	}
	var ws []*worker
	nrace := 0
	if pr.race && *raceBin != "" {
		nrace = (*workers + 2) / 3
	}
	launch := func(race bool, i, n int) {
		bin := os.Args[0]
		sd := *seed
		if race {
			bin = *raceBin
			sd = *seed + 0x5000_0000
		}
		name := fmt.Sprintf("w%d-%v", i, race)
		w := &worker{out: filepath.Join(*tmp, name+".json"), status: filepath.Join(*tmp, name+".status"), serr: &bytes.Buffer{}, race: race}
		w.cmd = exec.Command(bin, "worker", "-property", *id, "-seed", fmt.Sprint(sd), "-first", fmt.Sprint(i), "-stride", fmt.Sprint(n),
			"-again", fmt.Sprint((i+1)%n), "-seconds", fmt.Sprint(*secs), "-max", fmt.Sprint(*max), "-out", w.out, "-status", w.status, "-flag", filepath.Join(*tmp, "found"))
		w.cmd.Env = append(os.Environ(), raceEnv, "GOTRACEBACK=single")
		w.cmd.Stderr = w.serr
		if err := w.cmd.Start(); err != nil {
			fatalf("%v", err)
		}
		ws = append(ws, w)
	}
	for i := 0; i < *workers-nrace; i++ {
		launch(false, i, *workers-nrace)
	}
	for i := 0; i < nrace; i++ {
		launch(true, i, nrace)
	}
	done := make(chan *worker, len(ws))
	for _, w := range ws {
		go func(w *worker) { w.err = w.cmd.Wait(); done <- w }(w)
	}
	watchdog := time.After(time.Duration((*secs + 180) * float64(time.Second)))
	var reps []*Report
	failed := ""
	for n := 0; n < len(ws); n++ {
		select {
		case w := <-done:
			b, rerr := os.ReadFile(w.out)
			rep := &Report{}
			if w.err == nil && rerr == nil && json.Unmarshal(b, rep) == nil {
				if rep.Violation != nil && rep.Violation.Class == "race" {
					fmt.Fprint(os.Stderr, firstRace(w.serr.String()))
				}
				reps = append(reps, rep)
				continue
			}
			// The worker died. If that was the doing of the code under test it will happen again.
			if d := processDeath(w.serr.String()); d != "" {
				if sb, err := os.ReadFile(w.status); err == nil && len(sb) == 8 {
					sd := *seed
					if w.race {
						sd += 0x5000_0000
					}
					p := makePlan(pr, sd, binary.LittleEndian.Uint64(sb))
					p.Race = w.race
					reps = append(reps, &Report{Plan: p, Violation: &Violation{Class: "process-death", Detail: d}})
					continue
				}
			}
			failed = fmt.Sprintf("worker failed: %v\n%s", w.err, tail(w.serr.String(), 3000))
		case <-watchdog:
			for _, w := range ws {
				w.cmd.Process.Kill()
			}
			st := ""
			for _, w := range ws {
				if sb, err := os.ReadFile(w.status); err == nil && len(sb) == 8 {
					st += fmt.Sprintf(" %d", binary.LittleEndian.Uint64(sb))
				}
			}
			fmt.Fprintf(os.Stderr, "watchdog: workers do not end; they are at runs%s\n", st)
			os.Exit(2)
		}
	}
	// Violations: each is replayed in a fresh process before it is reported.
	os.Remove(filepath.Join(*tmp, "found"))
	found := 0
	for _, rep := range reps {
		if rep.Violation != nil {
			found++
		}
	}
	if found > 0 {
		fmt.Printf("found by %d of %d workers after %.0f s\n", found, len(ws), time.Since(start).Seconds())
	}
	findings := readKnown(*known, *id)
	violations := 0
	seen := map[string]bool{}
	sort.SliceStable(reps, func(i, j int) bool {
		return reps[i].Violation != nil && (reps[j].Violation == nil || planSize(reps[i].Plan) < planSize(reps[j].Plan))
	})
	for _, rep := range reps {
		v := rep.Violation
		if v == nil || seen[v.Class] {
			continue
		}
		rep.Plan.Property = *id
		os.MkdirAll(*replays, 0o755)
		file := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", *id, v.Class, rep.Plan.Seed))
		saved := &Report{Plan: rep.Plan, Violation: v, Original: rep.Original}
		b, _ := json.MarshalIndent(saved, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			fatalf("%v", err)
		}
		bin := os.Args[0]
		if rep.Plan.Race {
			bin = *raceBin
		}
		rv, serr, err := runOne(bin, file)
		if err != nil || rv == nil || rv.Class != v.Class || (v.Class != "process-death" && rv.Detail != v.Detail) {
			// Try what was found before it was made smaller.
			if rep.Original != nil {
				saved = &Report{Plan: rep.Original, Violation: v}
				b, _ := json.MarshalIndent(saved, "", " ")
				os.WriteFile(file, append(b, '\n'), 0o644)
				rv, serr, err = runOne(bin, file)
			}
			if err != nil || rv == nil || rv.Class != v.Class {
				failed = fmt.Sprintf("a violation does not replay: %v; replayed: %v %v %s", v, rv, err, tail(serr, 500))
				continue
			}
			saved.Violation = rv
			b, _ := json.MarshalIndent(saved, "", " ")
			os.WriteFile(file, append(b, '\n'), 0o644)
		}
		seen[v.Class] = true
		if k := matchKnown(findings, saved); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k)
			continue
		}
		violations++
		fmt.Printf("%s: %s\n", rv.Class, rv.Detail)
		if p := saved.Plan; len(p.Sched.Segments) > 0 {
			fmt.Printf("seed %d, run %d, schedule of %d slices\n", p.Seed, p.Run, len(p.Sched.Segments))
		} else {
			fmt.Printf("seed %d, run %d\n", p.Seed, p.Run)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, file)
	}
	mism, checked := 0, 0
	dig := map[string]uint64{}
	for _, rep := range reps {
		if rep.Stats == nil {
			continue
		}
		for run, d := range rep.Stats.Digests {
			k := fmt.Sprint(rep.Stats.Race, run)
			if o, ok := dig[k]; ok {
				checked++
				if o != d {
					mism++
					fmt.Fprintf(os.Stderr, "run %d differs\n", run)
				}
			} else {
				dig[k] = d
			}
		}
	}
	writeEvidence(*evidence, pr, *tier, *level, int64(*seed), reps, time.Since(start).Seconds(), violations, checked, mism, *workers, nrace)
	if violations > 0 {
		os.Exit(1)
	}
	if failed != "" {
		fmt.Fprintln(os.Stderr, failed)
		os.Exit(2)
	}
	if mism > 0 {
		fmt.Fprintf(os.Stderr, "%d of %d runs differ when they are repeated in another process\n", mism, checked)
		os.Exit(2)
	}
	fmt.Printf("no violation of %s\n", *id)
	os.Exit(0)
}

func firstRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "\n=================="); j > 0 {
		s = s[:j]
	}
	return s + "\n"
}

// readKnown returns the findings which are on file: lines "known: property=<id> class=<class> replay=<digest>".
func readKnown(file, id string) []string {
	if file == "" {
		return nil
	}
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return out
}

// matchKnown compares a violation with the findings on file: the class and the exact detail.
func matchKnown(findings []string, rep *Report) string {
	for _, k := range findings {
		if k == rep.Violation.Class+": "+rep.Violation.Detail {
			return k
		}
	}
	return ""
}
