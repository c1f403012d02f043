package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/simrt"
)

var out *os.File // the real standard output

func main() {
	out = os.Stdout
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	if len(os.Args) < 2 {
		usage()
	}
	raceSetup()
	fs := flag.NewFlagSet("simcheck", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	runs := fs.Int("runs", 0, "number of runs")
	tier := fs.String("tier", "quick", "quick or thorough")
	wi := fs.Int("w", 0, "worker")
	wn := fs.Int("of", 1, "workers")
	dir := fs.String("dir", "", "scratch directory")
	file := fs.String("file", "", "replay file")
	evid := fs.String("evidence", "", "evidence file to write")
	rdir := fs.String("replays", "", "directory for replay files")
	one := fs.Int("run", -1, "run index")
	wall := fs.Int("wall", 600, "wall clock limit, s")
	verb := fs.Bool("v", false, "print the log")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		worker(*prop, *seed, *runs, *tier, *wi, *wn, *dir, *wall)
	case "check":
		os.Exit(check(*prop, *seed, *runs, *tier, *dir, *evid, *rdir, *wall))
	case "replay":
		os.Exit(replay(*file, *verb))
	case "shrink":
		rp, err := loadReplay(*file)
		if err != nil {
			fmt.Fprintln(out, err)
			os.Exit(3)
		}
		runtime.GOMAXPROCS(1)
		shrink(rp, time.Duration(*wall)*time.Second, *file)
	case "one":
		p := genPlan(*prop, *seed, *one, *tier == "thorough")
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Fprintln(out, string(b))
		r := execute1(*prop, p, runSeed(*seed, *prop, *one), nil, *verb)
		for _, l := range r.o.Log {
			fmt.Fprintln(out, l)
		}
		fmt.Fprintln(out, r.o.End, r.o.Detail, r.o.Stack, r.internal)
		fmt.Fprintln(out, "violation:", r.v, "hash", r.o.Hash, "steps", r.o.Steps, "probes", r.o.Probes, "faults", r.o.Faults)
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|replay|shrink|one ...")
	os.Exit(3)
}

// stats of one worker.
type stats struct {
	Runs     int            `json:"runs"`
	SimNs    int64          `json:"sim_ns"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Preempts int64          `json:"preempts"`
	Tasks    int64          `json:"tasks"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Scns     map[string]int `json:"scns"`
	Twice    int            `json:"twice"`
	Differ   int            `json:"differ"`
	Faulty   int            `json:"faulty"`
	Capped   bool           `json:"capped"`
	WallS    float64        `json:"wall_s"`
	Internal string         `json:"internal,omitempty"`
	Slowest  float64        `json:"slowest_s"`
	SlowRun  int            `json:"slow_run"`
	Samples  []string       `json:"samples,omitempty"`
}

func worker(prop string, seed uint64, runs int, tier string, wi, wn int, dir string, wall int) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	start := time.Now()
	st := &stats{Faults: map[string]int{}, Probes: map[string]int{}, Scns: map[string]int{}}
	hf, err := os.Create(filepath.Join(dir, fmt.Sprintf("hashes.%d", wi)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	hw := bufio.NewWriter(hf)
	prog, _ := os.Create(filepath.Join(dir, fmt.Sprintf("progress.%d", wi)))
	stopPath := filepath.Join(dir, "stop")
	var mu sync.Mutex
	runStart := time.Now()
	go func() { // a run that makes no progress in real time
		for {
			time.Sleep(5 * time.Second)
			mu.Lock()
			d := time.Since(runStart)
			mu.Unlock()
			if d > 120*time.Second {
				fmt.Fprintf(os.Stderr, "watchdog: run takes %v\n", d)
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	stop := 1 << 60
	finish := func() {
		st.WallS = time.Since(start).Seconds()
		hw.Flush()
		b, _ := json.Marshal(st)
		fmt.Fprintf(out, "STATS %s\n", b)
	}
	var word [8]byte
	n := 0
	for idx := wi; idx < runs; idx += wn {
		if n%16 == 0 {
			if b, err := os.ReadFile(stopPath); err == nil {
				if v, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil {
					stop = v
				}
			}
			if time.Since(start) > time.Duration(wall)*time.Second {
				st.Capped = true
				break
			}
		}
		if idx > stop {
			break
		}
		n++
		binary.LittleEndian.PutUint64(word[:], uint64(idx))
		prog.WriteAt(word[:], 0)
		mu.Lock()
		runStart = time.Now()
		mu.Unlock()
		p := genPlan(prop, seed, idx, tier == "thorough")
		sd := runSeed(seed, prop, idx)
		r := execute1(prop, p, sd, nil, false)
		if s := r.wall.Seconds(); s > st.Slowest {
			st.Slowest, st.SlowRun = s, idx
		}
		st.Runs++
		st.Scns[p.Scn]++
		st.SimNs += r.o.Now
		st.Steps += r.o.Steps
		st.Switches += r.o.Switches
		st.Preempts += r.o.Preempts
		st.Tasks += int64(r.o.TaskCount)
		if len(r.o.Faults) > 0 {
			st.Faulty++
		}
		for k, v := range r.o.Faults {
			st.Faults[k] += v
		}
		for k, v := range r.o.Probes {
			st.Probes[k] += v
		}
		if r.o.Switches > 1 {
			binary.LittleEndian.PutUint64(word[:], r.o.Hash)
			hw.Write(word[:])
		}
		if r.internal != "" {
			st.Internal = fmt.Sprintf("run %d: %s", idx, r.internal)
			finish()
			os.Exit(3)
		}
		if r.v != nil {
			rp := &Replay{Property: prop, Seed: seed, Run: idx, SimSeed: sd, Plan: p, Choices: trimChoices(r.o.Choices), Violation: r.v}
			f := filepath.Join(dir, fmt.Sprintf("violation.%d.json", idx))
			rp.save(f)
			if simrt.RaceEnabled && r.v.End == "race" && !confirm(f) {
				st.Probes["race-not-confirmed"]++
				continue
			}
			fmt.Fprintf(out, "VIOL %d %s\n", idx, f)
			break
		}
		if n <= 2 || n%1000 == 0 {
			r2 := execute1(prop, p, sd, nil, false)
			st.Twice++
			if r2.o.Hash != r.o.Hash || r2.o.Steps != r.o.Steps {
				st.Differ++
			}
		}
		if wi == 0 && n <= 3 {
			st.Samples = append(st.Samples, sample(p, r, idx, sd))
		}
	}
	finish()
}

func sample(p *Plan, r *result, idx int, sd uint64) string {
	b, _ := json.Marshal(p)
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return fmt.Sprintf("run %d seed %d: ended %s at virtual %v, %d task switches, %d preemptions, faults %v, trace %016x; plan %s",
		idx, sd, r.o.End, time.Duration(r.o.Now), r.o.Switches, r.o.Preempts, r.o.Faults, r.o.Hash, s)
}

// check runs the workers and reports.
func check(prop string, seed uint64, runs int, tier, dir, evid, rdir string, wall int) int {
	sp, ok := props[prop]
	if !ok {
		fmt.Fprintln(out, "no such property", prop)
		return 3
	}
	if runs == 0 {
		runs = sp.quick
		if tier == "thorough" {
			runs = sp.thor
		}
	}
	start := time.Now()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	type wres struct {
		st   *stats
		viol int
		file string
		err  string
		last int
	}
	res := make([]wres, nw)
	var mu sync.Mutex
	min := 1 << 60
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i].viol = -1
			cmd := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-runs", fmt.Sprint(runs), "-tier", tier,
				"-w", fmt.Sprint(i), "-of", fmt.Sprint(nw), "-dir", dir, "-wall", fmt.Sprint(wall))
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
			var eb bytes.Buffer
			cmd.Stderr = &limited{b: &eb}
			po, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				res[i].err = err.Error()
				return
			}
			sc := bufio.NewScanner(po)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				l := sc.Text()
				switch {
				case strings.HasPrefix(l, "STATS "):
					st := &stats{}
					if json.Unmarshal([]byte(l[6:]), st) == nil {
						res[i].st = st
					}
				case strings.HasPrefix(l, "VIOL "):
					f := strings.Fields(l)
					res[i].viol, _ = strconv.Atoi(f[1])
					res[i].file = f[2]
					mu.Lock()
					if res[i].viol < min {
						min = res[i].viol
						os.WriteFile(filepath.Join(dir, "stop.tmp"), []byte(fmt.Sprint(min)), 0o644)
						os.Rename(filepath.Join(dir, "stop.tmp"), filepath.Join(dir, "stop"))
					}
					mu.Unlock()
				}
			}
			err := cmd.Wait()
			if err != nil && res[i].err == "" {
				res[i].err = err.Error() + "\n" + eb.String()
			}
			if b, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress.%d", i))); e == nil && len(b) >= 8 {
				res[i].last = int(binary.LittleEndian.Uint64(b))
			}
		}()
	}
	wg.Wait()
	tot := &stats{Faults: map[string]int{}, Probes: map[string]int{}, Scns: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var rp *Replay
	fail := ""
	for i := range res {
		if s := res[i].st; s != nil {
			tot.Runs += s.Runs
			tot.SimNs += s.SimNs
			tot.Steps += s.Steps
			tot.Switches += s.Switches
			tot.Preempts += s.Preempts
			tot.Tasks += s.Tasks
			tot.Twice += s.Twice
			tot.Differ += s.Differ
			tot.Faulty += s.Faulty
			tot.Capped = tot.Capped || s.Capped
			tot.Samples = append(tot.Samples, s.Samples...)
			if s.Slowest > tot.Slowest {
				tot.Slowest, tot.SlowRun = s.Slowest, s.SlowRun
			}
			for k, v := range s.Faults {
				tot.Faults[k] += v
			}
			for k, v := range s.Probes {
				tot.Probes[k] += v
			}
			for k, v := range s.Scns {
				tot.Scns[k] += v
			}
			if s.Internal != "" && fail == "" {
				fail = "simulator or harness error: " + s.Internal
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				hashes[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
		if res[i].err != "" && res[i].st == nil {
			if strings.Contains(res[i].err, simrt.AppPath) && !strings.Contains(res[i].err, "watchdog:") {
				// the whole process died inside the code under test
				idx := res[i].last
				if idx < min {
					min = idx
					p := genPlan(prop, seed, idx, tier == "thorough")
					rp = &Replay{Property: prop, Seed: seed, Run: idx, SimSeed: runSeed(seed, prop, idx), Plan: p,
						Violation: &Violation{Prop: prop, Msg: "the process dies: " + firstLine(res[i].err), End: "fatal", Stk: trimStack(res[i].err)}}
				}
			} else if fail == "" {
				fail = "worker failed: " + res[i].err
			}
		}
	}
	for i := range res {
		if res[i].viol == min && res[i].viol >= 0 {
			if r, err := loadReplay(res[i].file); err == nil {
				rp = r
			}
		}
	}
	searched := time.Since(start).Seconds()
	code := 0
	var path string
	if rp != nil {
		code = 1
		os.MkdirAll(rdir, 0o755)
		path = filepath.Join(rdir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, rp.Run))
		rp.Race = sp.race
		orig := *rp
		rp.save(path)
		os.Remove(path + ".log")
		if rp.Violation.End != "fatal" {
			sub(60*time.Second, "shrink", "-file", path, "-wall", "20")
			if _, ok := sub(60*time.Second, "replay", "-file", path); !ok {
				orig.Notes = append(orig.Notes, "the minimised run did not reproduce; this is the original one")
				orig.save(path)
				if _, ok := sub(60*time.Second, "replay", "-file", path); !ok {
					orig.Notes = append(orig.Notes, "this run depends on something outside the simulator's control: a fresh process did not reproduce it")
					orig.save(path)
				}
			}
			if r, err := loadReplay(path); err == nil {
				rp = r
			}
		}
		fmt.Fprintf(out, "run %d of seed %d: %s\n", rp.Run, seed, rp.Violation)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", prop, path)
	} else if fail != "" {
		code = 3
		fmt.Fprintln(out, fail)
	}
	writeEvidence(evid, prop, tier, seed, tot, len(hashes), searched, time.Since(start).Seconds(), nw, rp, path, fail)
	fmt.Fprintf(out, "%s: %d runs, %d distinct traces, %.0f simulated s, %.1f s wall, slowest run %d %.2fs, twice %d differ %d\n", prop, tot.Runs, len(hashes), float64(tot.SimNs)/1e9, searched, tot.SlowRun, tot.Slowest, tot.Twice, tot.Differ)
	return code
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

// sub runs this program; ok means it exited with 1 (violation reproduced) for replays.
func sub(limit time.Duration, args ...string) (string, bool) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = os.Environ()
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return "", false
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	e, ok := err.(*exec.ExitError)
	return b.String(), ok && e.ExitCode() == 1
}

// confirm tells whether a fresh process sees the race too. The detector keeps
// only some of the earlier accesses, so it gets several attempts; and it may
// take recycled memory for shared memory, which does not repeat.
func confirm(file string) bool {
	for i := 0; i < 6; i++ {
		if _, ok := sub(60*time.Second, "replay", "-file", file); ok {
			return true
		}
	}
	return false
}

func replay(file string, verbose bool) int {
	rp, err := loadReplay(file)
	if err != nil {
		fmt.Fprintln(out, err)
		return 3
	}
	runtime.GOMAXPROCS(1)
	ch := rp.Choices
	if ch == nil && rp.Violation != nil && rp.Violation.End != "fatal" {
		ch = map[string][]uint32{}
	}
	r := execute1(rp.Property, rp.Plan, rp.SimSeed, ch, true)
	if verbose {
		for _, l := range r.o.Log {
			fmt.Fprintln(out, l)
		}
	}
	if r.internal != "" {
		fmt.Fprintln(out, r.internal)
		return 3
	}
	if r.v == nil {
		fmt.Fprintln(out, "not reproduced: the run ended without a violation of", rp.Property)
		return 0
	}
	rp.Log = r.o.Log
	if len(rp.Log) > 600 {
		rp.Log = rp.Log[len(rp.Log)-600:]
	}
	rp.Violation = r.v
	rp.save(file)
	fmt.Fprintf(out, "%s\n%s\n", r.v, r.v.Stk)
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

func writeEvidence(path, prop, tier string, seed uint64, t *stats, distinct int, searched, wall float64, nw int, rp *Replay, rpath, fail string) {
	if path == "" {
		return
	}
	perHour := 0
	if searched > 0 {
		perHour = int(float64(t.Runs) / searched * 3600)
	}
	probes := map[string]int{}
	other := map[string]int{}
	for k, v := range t.Probes {
		if strings.HasPrefix(k, "other-") {
			other[k[6:]] = v
		} else {
			probes[k] = v
		}
	}
	cov := map[string]interface{}{
		"evaluations":                 t.Runs,
		"distinct_nontrivial":         distinct,
		"rule":                        "a run counts as distinct if its trace hash (every task switch, network and serial event, call and outcome, in order) differs from all others of this check, and as non-trivial if at least two tasks took turns in it",
		"simulated_runs":              t.Runs,
		"seeds_per_hour":              perHour,
		"simulated_seconds":           float64(t.SimNs) / 1e9,
		"statements_executed":         t.Steps,
		"task_switches":               t.Switches,
		"preemptions":                 t.Preempts,
		"tasks":                       t.Tasks,
		"runs_with_faults":            t.Faulty,
		"faults_injected":             t.Faults,
		"conditions_reached":          probes,
		"oracles_of_other_properties": other,
		"scenarios":                   t.Scns,
		"workers":                     nw,
		"stopped_by_wall_clock":       t.Capped,
		"determinism":                 map[string]int{"runs_repeated": t.Twice, "runs_that_differed": t.Differ},
		"real_components":             realComponents,
		"stubs":                       stubComponents,
		"samples":                     t.Samples,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
		"coverage": cov, "wall_s": wall,
		"assumptions": assumptions,
	}
	if rp != nil {
		ev["violations"] = []interface{}{map[string]interface{}{"what": rp.Violation.Msg, "replay": rpath, "run": rp.Run}}
	}
	if fail != "" {
		ev["error"] = fail
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
	_ = sort.Strings
}

var realComponents = []string{
	"every non-test source file of package modbus, rewritten statement by statement from /repo's working tree (scheduling points added, standard packages redirected to the simulator)",
	"standard library: io, bytes, fmt, errors, strings, encoding/hex, log, net/url, container types",
}

var stubComponents = []string{
	"goroutine scheduling, channels and select, sync, sync/atomic, context, time: simulator (simrt and shims), same semantics, order decided by the seed",
	"net (dial, listen, accept, TCP connections, deadlines): simulated network simnet",
	"github.com/goburrow/serial: simulated serial line simserial",
	"crypto/tls: pass-through without cryptography",
	"math/rand, crypto/rand: seeded",
	"encoding/binary Read/Write: same results, with scheduling points between elements",
}

var assumptions = []string{
	"sampling: what no seeded run reached is not covered",
	"interleavings are explored at statement granularity under sequential consistency; weak-memory effects are covered only through X01's happens-before check",
	"the simulated network and serial line deliver what a TCP connection or a raw 8-bit serial line can deliver; kernel-specific behaviour beyond that is not modelled",
}
