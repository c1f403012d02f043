package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif.local/sim/caller"
	"verif.local/sim/simrt"
)

// The race build: the code under test is compiled with the race detector, the
// simulator and the harness are not, so only the code's own accesses and its
// own synchronisation count.

var raceLog string // file the detector writes its reports to
var raceOff int64

const raceOpts = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path="

// raceSetup makes sure that reports go to a file this process can read.
func raceSetup() {
	if !simrt.RaceEnabled {
		return
	}
	g := os.Getenv("GORACE")
	if i := strings.Index(g, "log_path="); i >= 0 {
		raceLog = strings.Fields(g[i+9:])[0] + fmt.Sprintf(".%d", os.Getpid())
		return
	}
	exe, err := os.Executable()
	if err == nil {
		path := filepath.Join(os.TempDir(), fmt.Sprintf("simrace.%d", os.Getpid()))
		err = syscall.Exec(exe, os.Args, append(os.Environ(), "GORACE="+raceOpts+path))
	}
	fmt.Fprintln(os.Stderr, "cannot set up the race detector:", err)
	os.Exit(3)
}

// execute1 runs a plan; in the race build it adds what the detector found.
func execute1(prop string, p *Plan, seed uint64, ch map[string][]uint32, verbose bool) *result {
	n := simrt.RaceErrors()
	r := execute(prop, p, seed, ch, verbose)
	if !simrt.RaceEnabled {
		return r
	}
	if prop == "X01" { // only races count
		r.v = nil
	}
	if simrt.RaceErrors() == n {
		return r
	}
	for _, rep := range raceReports() {
		if what := rep.judge(); what != "" && r.v == nil {
			r.v = &Violation{Prop: prop, Msg: what, At: r.o.Now, End: "race", Stk: trimStack(rep.text)}
		}
	}
	if r.v == nil {
		simrt.Probe("race-report-outside")
	}
	return r
}

type raceReport struct {
	text string
	kind [2]string
	stk  [2][]string // functions, innermost first
}

// raceReports reads the reports written since the last time.
func raceReports() []raceReport {
	f, err := os.Open(raceLog)
	if err != nil {
		return nil
	}
	defer f.Close()
	st, _ := f.Stat()
	b := make([]byte, st.Size()-raceOff)
	f.ReadAt(b, raceOff)
	raceOff = st.Size()
	var rs []raceReport
	for _, t := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
		if i := strings.Index(t, "=================="); i >= 0 {
			t = t[:i]
		}
		r := raceReport{text: t}
		sec := -1
		for _, l := range strings.Split(t, "\n") {
			switch {
			case strings.HasPrefix(l, "Goroutine ") || strings.Contains(l, "created at:"):
				sec = 2
			case l != "" && l[0] != ' ' && strings.Contains(l, " at 0x") && sec < 1:
				sec++
				r.kind[sec] = l
			case strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && sec >= 0 && sec < 2:
				r.stk[sec] = append(r.stk[sec], strings.TrimSpace(l))
			}
		}
		rs = append(rs, r)
	}
	return rs
}

// culprit is the innermost frame that is neither the standard library's nor
// the simulator's.
// The runtime reports the simulator's own appends, copies and map accesses,
// which are not the code's: then there is none.
func culprit(stk []string) string {
	if len(stk) > 0 && strings.HasPrefix(stk[0], "verif.local/sim/caller.") {
		return callerMark
	}
	for _, f := range stk {
		if strings.HasPrefix(f, "runtime.") {
			continue
		}
		if f != stk[0] && strings.HasPrefix(f, "verif.local/sim/") {
			return ""
		}
		break
	}
	for _, f := range stk {
		if strings.HasPrefix(f, simrt.AppPath) || strings.HasPrefix(f, "main.") {
			return f
		}
	}
	return ""
}

// judge tells whether both accesses are the code's own.
func (r raceReport) judge() string {
	a, b := culprit(r.stk[0]), culprit(r.stk[1])
	ok := func(s string) bool { return strings.HasPrefix(s, simrt.AppPath) }
	if !(ok(a) && (ok(b) || b == callerMark)) && !(ok(b) && a == callerMark) {
		return ""
	}
	k := func(s string) string { return strings.ToLower(strings.Split(s, " at 0x")[0]) }
	fn := func(s string) string { return s[strings.LastIndex(s, "/")+1:] }
	return fmt.Sprintf("data race: %s in %s and %s in %s are not ordered", k(r.kind[0]), fn(a), k(r.kind[1]), fn(b))
}

const callerMark = "sim/its caller"

// reuses is the user of the code using its argument, or a result, for
// something else.
func reuses(b []byte, v []uint16) {
	caller.Reuse(b)
	caller.Reuse16(v)
}
