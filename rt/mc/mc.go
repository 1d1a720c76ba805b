// Package mc explores: it enumerates the executions of scheduled harnesses
// within a deviation bound and the cases of sequential ones, over several
// worker processes, confirms what fails by running it again, and writes the
// evidence.
package mc

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/browles/drip/zzv/rt/vs"
)

// Unit is one exploration of a check.
type Unit struct {
	Name string
	// scheduled: every execution of Body within Bound deviations
	Body   func()
	Cfg    vs.Config
	Bound  int // quick
	BoundT int // thorough (0: Bound+1)
	// sequential: Enum walks its cases
	Enum func(e *Enum)
	Race bool // run under the race detector
	// Weight is the unit's share of the time (default 1)
	Weight float64
	// DeadlockOK: an execution whose main thread blocks for ever is no violation
	DeadlockOK bool
	// Only in the thorough tier
	ThoroughOnly bool
}

// Check is what decides one property.
type Check struct {
	ID          string
	Units       []Unit
	Assumptions []string
	QuickSecs   int // exploration time (default 25)
	ThorSecs    int // default 420
	Explain     string
}

var checks []*Check

// Register adds a check to the binary.
func Register(c *Check) { checks = append(checks, c) }

// Thorough tells the tier to harnesses.
var Thorough bool

// Pick returns the bound of the tier.
func Pick(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

// Failure is one violation as a worker found it.
type Failure struct {
	Unit    string   `json:"unit"`
	Race    bool     `json:"race,omitempty"`
	Devs    []vs.Dev `json:"devs,omitempty"`
	Index   int64    `json:"index"`
	Case    string   `json:"case,omitempty"`
	Class   string   `json:"class"`
	Message string   `json:"message"`
	Trace   []string `json:"trace,omitempty"`
	Known   string   `json:"known,omitempty"`
}

// UnitStats is what a worker did in one unit.
type UnitStats struct {
	Unit        string           `json:"unit"`
	Execs       int64            `json:"execs"`
	States      int64            `json:"states"`
	Trans       int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Outcomes    int              `json:"outcomes"`
	MaxPoints   int              `json:"max_points,omitempty"`
	MaxThreads  int              `json:"max_threads,omitempty"`
	Bound       int              `json:"bound"` // highest completed
	Complete    bool             `json:"complete"`
	Diverged    int64            `json:"diverged,omitempty"`
	ByCost      []int64          `json:"by_cost,omitempty"`
	Counters    map[string]int64 `json:"counters,omitempty"`
	Samples     []string         `json:"samples,omitempty"`
	Secs        float64          `json:"secs"`
	Interrupted string           `json:"interrupted,omitempty"`
}

type report struct {
	Stats    []UnitStats
	Failures []Failure
}

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding | fixed
	Unit     string `json:"unit"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

var known []knownEntry

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &known); err != nil {
		fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
		os.Exit(3)
	}
}

func isKnown(id, unit, msg string) string {
	for _, k := range known {
		if k.Property != id || k.Status != "finding" || k.Match == "" {
			continue
		}
		if k.Unit != "" {
			if ok, _ := regexp.MatchString(k.Unit, unit); !ok {
				continue
			}
		}
		if ok, _ := regexp.MatchString(k.Match, msg); ok {
			return k.What
		}
	}
	return ""
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

func classOf(msg string) string {
	l, _, _ := strings.Cut(msg, "\n")
	l = digits.ReplaceAllString(l, "#")
	if len(l) > 200 {
		l = l[:200]
	}
	return l
}

var (
	fID       = flag.String("id", "", "property")
	fTier     = flag.String("tier", "quick", "")
	fWorker   = flag.Int("worker", -1, "")
	fOf       = flag.Int("of", 1, "")
	fSecs     = flag.Float64("secs", 0, "")
	fUnit     = flag.String("unit", "", "only units matching")
	fReplay   = flag.String("replay", "", "failure to replay")
	fOut      = flag.String("out", "", "")
	fProg     = flag.String("prog", "", "")
	fRaceBin  = flag.String("racebin", "", "")
	fRaceSet  = flag.Bool("raceset", false, "run the race units")
	fVerif    = flag.String("verif", "/verif", "")
	fList     = flag.Bool("list", false, "")
	fNeedRace = flag.Bool("needrace", false, "exit 0 if the check has race units")
	fBound    = flag.Int("bound", -1, "")
	fScratch  = flag.String("scratch", "", "")
	fWorkers  = flag.Int("workers", 0, "")
)

// Main is the main function of a harness binary.
func Main() {
	flag.Parse()
	Thorough = *fTier == "thorough"
	if *fList {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		return
	}
	var chk *Check
	for _, c := range checks {
		if c.ID == *fID {
			chk = c
		}
	}
	if chk == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", *fID)
		os.Exit(3)
	}
	if *fNeedRace {
		for _, u := range chk.Units {
			if u.Race && (!u.ThoroughOnly || Thorough) {
				os.Exit(0)
			}
		}
		os.Exit(1)
	}
	loadKnown(filepath.Join(*fVerif, "known_findings.json"))
	slog.SetDefault(slog.New(discard{}))
	switch {
	case *fReplay != "":
		runtime.GOMAXPROCS(2)
		replay(chk)
	case *fWorker >= 0:
		runtime.GOMAXPROCS(2)
		worker(chk)
	default:
		master(chk)
	}
}

// ---------------------------------------------------------------- worker

type progress struct {
	mem []byte
}

func openProgress(path string) *progress {
	if path == "" {
		return &progress{mem: make([]byte, 1<<16)}
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return &progress{mem: make([]byte, 1<<16)}
	}
	f.Truncate(1 << 16)
	m, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return &progress{mem: make([]byte, 1<<16)}
	}
	return &progress{mem: m}
}

func (p *progress) set(unit string, idx int64, devs []vs.Dev, desc []byte) {
	m := p.mem
	n := 8
	n += copy(m[n:n+256], unit)
	m[n] = 0
	n++
	n += copy(m[n:], fmt.Sprint(idx))
	m[n] = 0
	n++
	if devs != nil {
		j, _ := json.Marshal(devs)
		n += copy(m[n:len(m)-1], j)
	}
	if n >= len(m)-2 {
		n = len(m) - 3
	}
	m[n] = 0
	n++
	n += copy(m[n:len(m)-1], desc)
	m[0], m[1], m[2] = byte(n), byte(n>>8), byte(n>>16)
}

func readProgress(path string) (Failure, bool) {
	var f Failure
	m, err := os.ReadFile(path)
	if err != nil || len(m) < 8 {
		return f, false
	}
	n := int(m[0]) | int(m[1])<<8 | int(m[2])<<16
	if n < 8 || n > len(m) {
		return f, false
	}
	parts := bytes.SplitN(m[8:n], []byte{0}, 4)
	if len(parts) < 4 {
		return f, false
	}
	f.Unit = string(parts[0])
	fmt.Sscan(string(parts[1]), &f.Index)
	if len(parts[2]) > 0 {
		json.Unmarshal(parts[2], &f.Devs)
	}
	f.Case = string(parts[3])
	return f, true
}

type workerState struct {
	chk  *Check
	prog *progress
	rep  report
	beat int64
	mu   sync.Mutex
}

var ws *workerState

func (w *workerState) save() {
	b, _ := json.Marshal(&w.rep)
	tmp := *fOut + ".tmp"
	os.WriteFile(tmp, b, 0o600)
	os.Rename(tmp, *fOut)
}

func selected(chk *Check, race bool) []Unit {
	var out []Unit
	var re *regexp.Regexp
	if *fUnit != "" {
		re = regexp.MustCompile(*fUnit)
	}
	for _, u := range chk.Units {
		if u.Race != race || (u.ThoroughOnly && !Thorough) {
			continue
		}
		if re != nil && !re.MatchString(u.Name) {
			continue
		}
		if u.Weight == 0 {
			u.Weight = 1
		}
		out = append(out, u)
	}
	return out
}

func worker(chk *Check) {
	debug.SetGCPercent(400)
	w := &workerState{chk: chk, prog: openProgress(*fProg)}
	ws = w
	units := selected(chk, *fRaceSet)
	total := 0.0
	for _, u := range units {
		total += u.Weight
	}
	start := time.Now()
	end := start.Add(time.Duration(*fSecs * float64(time.Second)))
	go watchdog()
	for i := range units {
		u := &units[i]
		left := time.Until(end)
		if left < 0 {
			left = 0
		}
		dl := time.Now().Add(time.Duration(float64(left) * u.Weight / total))
		total -= u.Weight
		t0 := time.Now()
		var st UnitStats
		if u.Enum != nil {
			st = w.enumUnit(u, dl)
		} else {
			st = w.schedUnit(u, dl)
		}
		st.Secs = time.Since(t0).Seconds()
		w.rep.Stats = append(w.rep.Stats, st)
		w.save()
	}
	os.Exit(0)
}

// watchdog ends the process when a single case makes no progress at all for
// very long: an endless loop in the code under test.
func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		b := beatNow()
		if b != last {
			last, since = b, time.Now()
			continue
		}
		if time.Since(since) > 90*time.Second {
			fmt.Fprintln(os.Stderr, "watchdog: a single case ran for over 90 s")
			os.Exit(4)
		}
	}
}

func beatNow() int64 { ws.mu.Lock(); defer ws.mu.Unlock(); return ws.beat }
func beatUp() {
	if ws != nil {
		ws.mu.Lock()
		ws.beat++
		ws.mu.Unlock()
	}
}

func (w *workerState) fail(f Failure) (stop bool) {
	f.Class = classOf(f.Message)
	f.Known = isKnown(w.chk.ID, f.Unit, f.Message)
	n, unknown := 0, 0
	for _, x := range w.rep.Failures {
		if x.Unit == f.Unit && x.Class == f.Class && x.Known == f.Known {
			n++
		}
		if x.Unit == f.Unit && x.Known == "" {
			unknown++
		}
	}
	if n < 2 {
		w.rep.Failures = append(w.rep.Failures, f)
	}
	return f.Known == "" && unknown >= 3
}

type node struct {
	devs []vs.Dev
}

// Fails turns a result into failure messages.
func fails(u *Unit, r *vs.Result) []string {
	var out []string
	out = append(out, r.Fails...)
	switch r.Outcome {
	case vs.Crash:
		out = append(out, r.Msg)
	case vs.Deadlock:
		if !u.DeadlockOK {
			out = append(out, "deadlock: "+r.Msg)
		}
	case vs.StepLimit:
		out = append(out, "no end within the step limit: "+r.Msg)
	}
	return out
}

func (w *workerState) schedUnit(u *Unit, dl time.Time) UnitStats {
	st := UnitStats{Unit: u.Name, Bound: -1, Counters: map[string]int64{}}
	bound := u.Bound
	if Thorough {
		bound = u.BoundT
		if bound == 0 {
			bound = u.Bound + 1
		}
	}
	if *fBound >= 0 {
		bound = *fBound
	}
	hashes := map[uint64]struct{}{}
	stop := false
	idx := int64(0)
	// The first execution of a process may fill caches that outlive it. The
	// race detector reports each race only once.
	w.prog.set(u.Name, -1, []vs.Dev{}, nil)
	beatUp()
	var early []string
	if warm := vs.Run(u.Cfg, nil, u.Body); u.Race && warm.Races > 0 {
		early = raceReports()
	}
	run := func(d []vs.Dev, count bool) *vs.Result {
		w.prog.set(u.Name, -1, append([]vs.Dev{}, d...), nil)
		beatUp()
		r := vs.Run(u.Cfg, d, u.Body)
		if u.Race && r.Races > 0 {
			r.Fails = append(r.Fails, raceReports()...)
		}
		r.Fails = append(r.Fails, early...)
		early = nil
		if count {
			st.Execs++
			st.Traces++
			from := 0
			if n := len(d); n > 0 {
				from = int(d[n-1].Pos)
			}
			st.States += int64(len(r.Points) - from)
			st.Trans += int64(r.Steps)
			if len(hashes) < 1<<20 {
				hashes[r.Hash] = struct{}{}
			}
			if len(r.Points) > st.MaxPoints {
				st.MaxPoints = len(r.Points)
			}
			if r.Threads > st.MaxThreads {
				st.MaxThreads = r.Threads
			}
			if r.Outcome == vs.Diverged {
				st.Diverged++
				if len(st.Samples) < 4 {
					st.Samples = append(st.Samples, "DIVERGED "+r.Msg)
				}
			}
			for len(st.ByCost) <= len(d) {
				st.ByCost = append(st.ByCost, 0)
			}
			st.ByCost[len(d)]++
		}
		if count || *fWorker == 0 {
			if r.Outcome != vs.Diverged {
				for _, m := range fails(u, r) {
					if w.fail(Failure{Unit: u.Name, Race: u.Race, Devs: append([]vs.Dev{}, d...), Index: -1, Message: m}) {
						stop = true
					}
				}
			}
		}
		return r
	}
	children := func(d []vs.Dev, r *vs.Result, same, next *[]node, lastLevel bool) {
		from := 0
		if n := len(d); n > 0 {
			from = int(d[n-1].Pos) + 1
		}
		for i := len(r.Points) - 1; i >= from; i-- {
			p := r.Points[i]
			if lastLevel && !p.Free {
				continue
			}
			for a := 1; a < int(p.N); a++ {
				nd := make([]vs.Dev, len(d)+1)
				copy(nd, d)
				nd[len(d)] = vs.Dev{Pos: uint32(i), Alt: uint16(a), Sig: p.Sig}
				if p.Free {
					*same = append(*same, node{nd})
				} else {
					*next = append(*next, node{nd})
				}
			}
		}
	}
	// level 0 is walked by every worker; its cost-1 children are dealt out
	var next []node
	level0 := []node{{nil}}
	mine := func() bool { idx++; return idx%int64(*fOf) == int64(*fWorker) }
	n0 := 0
	for len(level0) > 0 && !stop {
		d := level0[len(level0)-1].devs
		level0 = level0[:len(level0)-1]
		n0++
		r := run(d, n0%*fOf == *fWorker%*fOf)
		if *fWorker == 0 && n0 == 1 {
			st.Samples = append(st.Samples, fmt.Sprintf("default schedule: %d decisions, %d steps, %d threads, outcome %s", len(r.Points), r.Steps, r.Threads, r.Outcome))
		}
		var nx []node
		children(d, r, &level0, &nx, bound == 0)
		for _, n := range nx {
			if mine() {
				next = append(next, n)
			}
		}
		if time.Now().After(dl) && n0 > 1 {
			st.Interrupted = fmt.Sprintf("time, bound 0, %d executions", n0)
			stop = true
		}
	}
	if !stop {
		st.Bound = 0
	}
	for lvl := 1; lvl <= bound && !stop && st.Interrupted == ""; lvl++ {
		cur := next
		next = nil
		for len(cur) > 0 && !stop {
			d := cur[len(cur)-1].devs
			cur = cur[:len(cur)-1]
			r := run(d, true)
			last := lvl == bound || len(next) > 3_000_000
			if last && lvl < bound && st.Interrupted == "" {
				st.Interrupted = fmt.Sprintf("work list full at bound %d", lvl+1)
			}
			children(d, r, &cur, &next, last)
			if len(st.Samples) < 4 && len(d) > 0 && r.Outcome != vs.Diverged && st.Execs%17 == 3 {
				st.Samples = append(st.Samples, fmt.Sprintf("deviations %v: outcome %s, hash %x, %d points", d, r.Outcome, r.Hash, len(r.Points)))
			}
			if time.Now().After(dl) && len(cur) > 0 {
				st.Interrupted = fmt.Sprintf("time, in bound %d with %d open", lvl, len(cur))
				break
			}
		}
		if len(cur) > 0 || stop {
			break
		}
		st.Bound = lvl
	}
	if stop && st.Interrupted == "" {
		st.Interrupted = "stopped at violations"
	}
	st.Outcomes = len(hashes)
	st.Complete = st.Interrupted == "" && st.Bound >= bound
	return st
}

// ---------------------------------------------------------------- enumeration

// Enum walks the cases of a sequential unit.
type Enum struct {
	trace    []string // of the case that is replayed
	w        *workerState
	u        *Unit
	idx      int64
	only     int64
	shard, n int64
	dl       time.Time
	stop     bool
	expired  bool
	st       *UnitStats
	states   map[string]struct{}
	desc     []byte
	cur      int64
	msgs     []string
	tick     int64
}

// Mine counts a case and tells whether this worker runs it.
func (e *Enum) Mine() bool {
	e.idx++
	if e.only >= 0 {
		return e.idx-1 == e.only
	}
	if e.stop {
		return false
	}
	return (e.idx-1)%e.n == e.shard
}

// Stopped tells the harness to give up (time or violations).
func (e *Enum) Stopped() bool {
	if e.only >= 0 {
		return e.idx > e.only
	}
	if e.stop {
		return true
	}
	e.tick++
	if e.tick%64 == 0 && time.Now().After(e.dl) {
		e.stop, e.expired = true, true
	}
	return e.stop
}

// Case runs one case; desc identifies it to a reader.
func (e *Enum) Case(desc []byte, f func()) {
	if !e.Mine() {
		return
	}
	e.Run(desc, f)
}

// Casef is Case with a formatted description.
func (e *Enum) Casef(f func(), format string, args ...any) {
	if !e.Mine() {
		return
	}
	e.Run([]byte(fmt.Sprintf(format, args...)), f)
}

// Run runs the case Mine has granted.
func (e *Enum) Run(desc []byte, f func()) {
	e.cur = e.idx - 1
	e.desc = desc
	e.st.Execs++
	e.st.Traces++
	if e.st.Execs&15 == 1 || len(desc) > 200 {
		beatUp()
	}
	e.w.prog.set(e.u.Name, e.cur, nil, desc)
	if len(e.st.Samples) < 3 || (len(e.st.Samples) < 6 && e.st.Execs%5003 == 0) {
		s := fmt.Sprintf("%q", desc)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		e.st.Samples = append(e.st.Samples, s)
	}
	e.protect(f)
}

func (e *Enum) protect(f func()) {
	defer func() {
		if r := recover(); r != nil {
			e.Failf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// Failf reports a violation in the current case.
func (e *Enum) Failf(format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	if e.only >= 0 {
		e.msgs = append(e.msgs, m)
	}
	d := fmt.Sprintf("%q", e.desc)
	if len(d) > 2000 {
		d = d[:2000] + "..."
	}
	if e.w.fail(Failure{Unit: e.u.Name, Race: e.u.Race, Index: e.cur, Case: d, Message: m}) {
		e.stop = true
	}
}

// State counts a distinct state of the reference model.
func (e *Enum) State(key string) {
	if len(e.states) < 4<<20 {
		e.states[key] = struct{}{}
	}
}

// Trans counts transitions of the reference model.
func (e *Enum) Trans(n int) { e.st.Trans += int64(n) }

// Count adds to a named counter.
func (e *Enum) Count(name string, n int) { e.st.Counters[name] += int64(n) }

// Sched explores a scheduled body as one case of the enumeration.
func (e *Enum) Sched(cfg vs.Config, body func()) *vs.Result {
	cfg.Trace = cfg.Trace || e.only >= 0
	r := vs.Run(cfg, nil, body)
	if e.only >= 0 {
		e.trace = append(e.trace, r.Trace...)
	}
	for _, m := range fails(e.u, r) {
		e.Failf("%s", m)
	}
	return r
}

// Walk runs body for every combination of its data choices within bound deviations.
func (e *Enum) Walk(bound int, body func()) (execs int) {
	type it struct {
		d    []vs.Dev
		cost int
	}
	todo := []it{{nil, 0}}
	cfg := vs.Config{NoPoints: true}
	for len(todo) > 0 && !e.stop {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		beatUp()
		r := vs.Run(cfg, x.d, body)
		execs++
		e.st.Trans += int64(len(r.Points))
		for _, m := range fails(e.u, r) {
			e.Failf("%s [choices %v]", m, x.d)
		}
		if r.Outcome == vs.Diverged {
			e.st.Diverged++
		}
		from := 0
		if n := len(x.d); n > 0 {
			from = int(x.d[n-1].Pos) + 1
		}
		for i := from; i < len(r.Points); i++ {
			p := r.Points[i]
			c := x.cost
			if !p.Free {
				c++
			}
			if c > bound {
				continue
			}
			for a := 1; a < int(p.N); a++ {
				nd := append(append([]vs.Dev{}, x.d...), vs.Dev{Pos: uint32(i), Alt: uint16(a), Sig: p.Sig})
				todo = append(todo, it{nd, c})
			}
		}
	}
	return
}

func (w *workerState) enumUnit(u *Unit, dl time.Time) UnitStats {
	st := UnitStats{Unit: u.Name, Counters: map[string]int64{}}
	e := &Enum{w: w, u: u, only: -1, shard: int64(*fWorker), n: int64(*fOf), dl: dl, st: &st, states: map[string]struct{}{}}
	e.enumProtect(u)
	st.Complete = !e.stop
	if e.stop {
		st.Interrupted = "stopped at violations"
		if e.expired {
			st.Interrupted = fmt.Sprintf("time, at case %d", e.idx)
		}
	}
	if st.States == 0 {
		st.States = int64(len(e.states))
	}
	st.Counters["cases"] = e.idx
	return st
}

func (e *Enum) enumProtect(u *Unit) {
	defer func() {
		if r := recover(); r != nil {
			// outside of any case: the harness itself
			e.Failf("panic in harness: %v\n%s", r, debug.Stack())
		}
	}()
	u.Enum(e)
}

// ---------------------------------------------------------------- race reports

var raceOff int64

// raceReports returns the reports of accesses in the code under test written
// since the last call.
func raceReports() []string {
	var data []byte
	base := os.Getenv("ZZV_RACELOG")
	if base == "" {
		return []string{"data race (no log)"}
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err == nil && int64(len(b)) > raceOff {
		data = b[raceOff:]
		raceOff = int64(len(b))
	}
	var out []string
	for _, rep := range strings.Split(string(data), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if m := summarize(rep); m != "" {
			out = append(out, m)
		}
	}
	return out
}

// summarize names the two accesses; empty if one of them is not in the code under test.
func summarize(rep string) string {
	lines := strings.Split(rep, "\n")
	var tops []string
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at ") || strings.HasPrefix(t, "Write at ") || strings.HasPrefix(t, "Previous read at ") || strings.HasPrefix(t, "Previous write at ") {
			// first frame of the code under test or of a harness
			fr := ""
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
				f := strings.TrimSpace(lines[j])
				if strings.HasPrefix(f, "github.com/browles/drip/") {
					fr = f
					break
				}
			}
			if fr == "" || strings.HasPrefix(fr, "github.com/browles/drip/zzv/") {
				return ""
			}
			k := "read"
			if strings.Contains(t, "rite at") {
				k = "write"
			}
			tops = append(tops, k+" in "+strings.TrimSuffix(strings.TrimPrefix(fr, "github.com/browles/drip/"), "()"))
		}
	}
	if len(tops) < 2 {
		return ""
	}
	sort.Strings(tops)
	return "data race: " + strings.Join(tops[:2], " / ") + "\n" + rep
}

// ---------------------------------------------------------------- replay

func replay(chk *Check) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var doc struct {
		Failure
		Tier string `json:"tier"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if doc.Tier != "" {
		Thorough = doc.Tier == "thorough"
	}
	var u *Unit
	for i := range chk.Units {
		if chk.Units[i].Name == doc.Unit {
			u = &chk.Units[i]
		}
	}
	if u == nil {
		fmt.Fprintln(os.Stderr, "no unit", doc.Unit)
		os.Exit(3)
	}
	w := &workerState{chk: chk, prog: openProgress(*fProg)}
	ws = w
	go watchdog()
	var msgs []string
	var trace []string
	if u.Enum != nil {
		st := UnitStats{Counters: map[string]int64{}}
		e := &Enum{w: w, u: u, only: doc.Index, n: 1, st: &st, states: map[string]struct{}{}}
		e.enumProtect(u)
		msgs, trace = e.msgs, e.trace
	} else {
		var early []string
		if warm := vs.Run(u.Cfg, nil, u.Body); u.Race && warm.Races > 0 {
			early = raceReports()
		}
		cfg := u.Cfg
		cfg.Trace = true
		r := vs.Run(cfg, doc.Devs, u.Body)
		if u.Race && r.Races > 0 {
			r.Fails = append(r.Fails, raceReports()...)
		}
		r.Fails = append(r.Fails, early...)
		msgs = fails(u, r)
		trace = r.Trace
		// The detector remembers the last few accesses to a place, and which
		// ones it forgets differs from time to time.
		for t := time.Now(); u.Race && len(msgs) == 0 && time.Since(t) < 10*time.Second; {
			r = vs.Run(u.Cfg, doc.Devs, u.Body)
			if r.Races > 0 {
				r.Fails = append(r.Fails, raceReports()...)
			}
			msgs = fails(u, r)
		}
		if r.Outcome == vs.Diverged {
			trace = append(trace, "DIVERGED: "+r.Msg)
		}
	}
	out := Failure{Unit: doc.Unit, Trace: trace}
	for _, m := range msgs {
		if classOf(m) == doc.Class || doc.Class == "" {
			out.Message = m
			break
		}
	}
	if out.Message == "" && len(msgs) > 0 {
		out.Message = msgs[0]
	}
	if out.Message != "" {
		out.Class = classOf(out.Message)
	}
	j, _ := json.MarshalIndent(out, "", " ")
	if *fOut != "" {
		os.WriteFile(*fOut, j, 0o600)
	} else {
		for _, l := range trace {
			fmt.Println(l)
		}
		fmt.Println(out.Message)
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- master

type proc struct {
	cmd  *exec.Cmd
	out  string
	prog string
	err  error
	log  bytes.Buffer
}

func self(race bool) string {
	if race {
		return *fRaceBin
	}
	s, _ := os.Executable()
	return s
}

func raceEnv(dir string, k int) []string {
	base := filepath.Join(dir, fmt.Sprintf("race%d", k))
	return append(os.Environ(), "ZZV_RACELOG="+base, "GORACE=log_path="+base+" halt_on_error=0 history_size=3 atexit_sleep_ms=0 exitcode=0")
}

func spawn(race bool, dir string, k, n int, secs float64) *proc {
	tag := fmt.Sprintf("%v%d", race, k)
	p := &proc{out: filepath.Join(dir, "out"+tag), prog: filepath.Join(dir, "prog"+tag)}
	args := []string{"-id", *fID, "-tier", *fTier, "-worker", fmt.Sprint(k), "-of", fmt.Sprint(n), "-secs", fmt.Sprint(secs),
		"-out", p.out, "-prog", p.prog, "-verif", *fVerif, "-unit", *fUnit, "-bound", fmt.Sprint(*fBound)}
	if race {
		args = append(args, "-raceset")
	}
	p.cmd = exec.Command(self(race), args...)
	p.cmd.Env = raceEnv(dir, k)
	p.cmd.Stdout = &p.log
	p.cmd.Stderr = &p.log
	p.err = p.cmd.Start()
	return p
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func (p *proc) wait(limit time.Duration) {
	if p.err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- p.cmd.Wait() }()
	select {
	case p.err = <-done:
	case <-time.After(limit):
		p.cmd.Process.Kill()
		<-done
		p.err = fmt.Errorf("killed after %v", limit)
	}
}

// confirm replays a failure; it counts only if it fails the same way each time.
func confirm(chk *Check, f *Failure, dir string, times int) bool {
	in := filepath.Join(dir, "replay.json")
	out := filepath.Join(dir, "replay.out")
	doc := map[string]any{"unit": f.Unit, "devs": f.Devs, "index": f.Index, "class": f.Class, "tier": *fTier}
	b, _ := json.Marshal(doc)
	os.WriteFile(in, b, 0o600)
	for i := 0; i < times; i++ {
		os.Remove(out)
		var log bytes.Buffer
		cmd := exec.Command(self(f.Race), "-id", chk.ID, "-tier", *fTier, "-replay", in, "-out", out, "-verif", *fVerif, "-prog", filepath.Join(dir, "rprog"))
		cmd.Env = raceEnv(dir, 100+i)
		cmd.Stdout, cmd.Stderr = &log, &log
		p := &proc{cmd: cmd}
		p.err = cmd.Start()
		p.wait(150 * time.Second)
		rb, err := os.ReadFile(out)
		if err != nil {
			// the process died: that is the failure if the worker died as well
			if strings.HasPrefix(f.Message, "the process died") && p.err != nil {
				f.Message = "the process died: " + firstLine(log.String()) + "\n" + tail(log.String(), 4000)
				continue
			}
			return false
		}
		var r Failure
		json.Unmarshal(rb, &r)
		if r.Message == "" {
			return false
		}
		if r.Class != f.Class {
			f.Class = r.Class
		}
		f.Message = r.Message
		if len(r.Trace) > 0 {
			f.Trace = r.Trace
		}
	}
	return true
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal") || strings.Contains(l, "panic") || strings.Contains(l, "watchdog") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func master(chk *Check) {
	t0 := time.Now()
	dir := *fScratch
	if dir == "" {
		var err error
		dir, err = os.MkdirTemp("", "zzv")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(dir)
	}
	secs := float64(chk.QuickSecs)
	if secs == 0 {
		secs = 25
	}
	if Thorough {
		secs = float64(chk.ThorSecs)
		if secs == 0 {
			secs = 420
		}
	}
	if *fSecs > 0 {
		secs = *fSecs
	}
	n := *fWorkers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	var merged []UnitStats
	var failures []Failure
	var notes []string
	began := time.Now()
	for _, race := range []bool{false, true} {
		units := selected(chk, race)
		if len(units) == 0 {
			continue
		}
		if race && *fRaceBin == "" {
			notes = append(notes, "race units not run")
			continue
		}
		share := secs
		if nr, na := len(selected(chk, true)), len(selected(chk, false)); nr > 0 && na > 0 {
			wr, wa := 0.0, 0.0
			for _, u := range selected(chk, true) {
				wr += u.Weight
			}
			for _, u := range selected(chk, false) {
				wa += u.Weight
			}
			if race {
				// What the other units have left over is theirs.
				share = max(secs*wr/(wr+wa), secs-time.Since(began).Seconds())
			} else {
				share = secs * wa / (wr + wa)
			}
		}
		var ps []*proc
		for k := 0; k < n; k++ {
			ps = append(ps, spawn(race, dir, k, n, share))
		}
		var wg sync.WaitGroup
		for _, p := range ps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.wait(time.Duration(share*float64(time.Second)) + 200*time.Second)
			}()
		}
		wg.Wait()
		byUnit := map[string]*UnitStats{}
		for k, p := range ps {
			var rep report
			if b, err := os.ReadFile(p.out); err == nil {
				json.Unmarshal(b, &rep)
			}
			if p.err != nil {
				f, ok := readProgress(p.prog)
				msg := fmt.Sprintf("worker %d: %v: %s", k, p.err, firstLine(p.log.String()))
				notes = append(notes, msg)
				fmt.Fprintln(os.Stderr, msg)
				if ok {
					f.Race = race
					f.Message = "the process died: " + firstLine(p.log.String()) + "\n" + tail(p.log.String(), 4000)
					f.Class = classOf(f.Message)
					failures = append(failures, f)
				}
			}
			for _, s := range rep.Stats {
				m := byUnit[s.Unit]
				if m == nil {
					c := s
					byUnit[s.Unit] = &c
					continue
				}
				merge(m, &s)
			}
			for _, f := range rep.Failures {
				f.Race = race
				failures = append(failures, f)
			}
		}
		for _, u := range units {
			m := byUnit[u.Name]
			if m == nil {
				notes = append(notes, "unit "+u.Name+" did not finish")
				continue
			}
			merged = append(merged, *m)
		}
	}
	// one failure per class, the one with the fewest deviations first
	sort.SliceStable(failures, func(i, j int) bool {
		if len(failures[i].Devs) != len(failures[j].Devs) {
			return len(failures[i].Devs) < len(failures[j].Devs)
		}
		return len(failures[i].Case) < len(failures[j].Case)
	})
	seen := map[string]int{}
	violations := 0
	knownSeen := map[string]bool{}
	tConfirm := time.Now()
	for i := range failures {
		f := &failures[i]
		if f.Known == "" {
			f.Known = isKnown(chk.ID, f.Unit, f.Message)
		}
		if f.Known != "" {
			if !knownSeen[f.Known] {
				knownSeen[f.Known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, f.Known)
			}
			continue
		}
		key := f.Unit + "|" + f.Class
		if seen[key] >= 2 || violations >= 4 || (violations > 0 && time.Since(tConfirm) > 60*time.Second) || time.Since(tConfirm) > 200*time.Second {
			continue
		}
		if seen[key] == 1 && violations > 0 {
			continue
		}
		seen[key]++
		times := 3
		if strings.HasPrefix(f.Message, "the process died") {
			times = 1
		}
		if !confirm(chk, f, dir, times) {
			notes = append(notes, "not reproduced, not counted: "+f.Unit+": "+f.Class)
			fmt.Fprintf(os.Stderr, "not reproduced, not counted: %s: %s\n", f.Unit, f.Class)
			continue
		}
		if k := isKnown(chk.ID, f.Unit, f.Message); k != "" {
			if !knownSeen[k] {
				knownSeen[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k)
			}
			continue
		}
		violations++
		path := filepath.Join(*fVerif, "evidence", fmt.Sprintf("%s.replay%d.json", chk.ID, violations))
		doc := map[string]any{"property": chk.ID, "unit": f.Unit, "race": f.Race, "devs": f.Devs, "index": f.Index, "case": f.Case,
			"class": f.Class, "message": f.Message, "trace": f.Trace, "tier": *fTier, "replay_cmd": "./check --replay " + path}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		fmt.Printf("  unit %s: %s\n", f.Unit, tail(f.Message, 1500))
		if f.Case != "" {
			fmt.Printf("  case %s\n", tail(f.Case, 600))
		}
	}
	evidence(chk, merged, notes, violations, time.Since(t0).Seconds(), knownSeen)
	if violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func merge(m, s *UnitStats) {
	m.Execs += s.Execs
	m.States += s.States
	m.Trans += s.Trans
	m.Traces += s.Traces
	m.Diverged += s.Diverged
	if s.Outcomes > m.Outcomes {
		m.Outcomes = s.Outcomes
	}
	if s.MaxPoints > m.MaxPoints {
		m.MaxPoints = s.MaxPoints
	}
	if s.MaxThreads > m.MaxThreads {
		m.MaxThreads = s.MaxThreads
	}
	if s.Bound < m.Bound {
		m.Bound = s.Bound
	}
	m.Complete = m.Complete && s.Complete
	if m.Interrupted == "" {
		m.Interrupted = s.Interrupted
	}
	for len(m.ByCost) < len(s.ByCost) {
		m.ByCost = append(m.ByCost, 0)
	}
	for i, v := range s.ByCost {
		m.ByCost[i] += v
	}
	for k, v := range s.Counters {
		if k == "cases" {
			if v > m.Counters[k] {
				m.Counters[k] = v
			}
			continue
		}
		m.Counters[k] += v
	}
	for _, x := range s.Samples {
		if len(m.Samples) < 6 {
			m.Samples = append(m.Samples, x)
		}
	}
	if s.Secs > m.Secs {
		m.Secs = s.Secs
	}
}

func evidence(chk *Check, stats []UnitStats, notes []string, violations int, wall float64, knownSeen map[string]bool) {
	var states, trans, traces, div int64
	complete := len(stats) > 0
	var samples []string
	units := []map[string]any{}
	for _, s := range stats {
		states += s.States
		trans += s.Trans
		traces += s.Traces
		div += s.Diverged
		complete = complete && s.Complete
		for i, x := range s.Samples {
			if i < 3 && len(samples) < 24 {
				samples = append(samples, s.Unit+": "+x)
			}
		}
		m := map[string]any{"unit": s.Unit, "executions": s.Execs, "states": s.States, "transitions": s.Trans, "complete": s.Complete, "secs": s.Secs}
		if s.MaxPoints > 0 || len(s.ByCost) > 0 {
			m["deviation_bound_completed"] = s.Bound
			m["executions_by_deviations"] = s.ByCost
			m["distinct_outcomes_per_worker_max"] = s.Outcomes
			m["max_decisions"] = s.MaxPoints
			m["max_threads"] = s.MaxThreads
		}
		if len(s.Counters) > 0 {
			m["counters"] = s.Counters
		}
		if s.Interrupted != "" {
			m["interrupted"] = s.Interrupted
		}
		if s.Diverged > 0 {
			m["diverged"] = s.Diverged
		}
		units = append(units, m)
	}
	if len(notes) > 0 {
		complete = false
	}
	var kn []string
	for k := range knownSeen {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	doc := map[string]any{
		"property": chk.ID, "tier": *fTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"samples": samples, "exhaustive": complete, "units": units, "notes": append([]string{}, notes...), "known_findings": append([]string{}, kn...),
			"diverged": div, "rule": chk.Explain,
		},
		"assumptions": append([]string{}, chk.Assumptions...), "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	p := filepath.Join(*fVerif, "evidence", chk.ID+".json")
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d states, %d transitions, %d executions of the implementation, exhaustive=%v, %d violations, %.1fs\n",
		chk.ID, *fTier, states, trans, traces, complete, violations, wall)
	for _, s := range stats {
		fmt.Printf("  %-32s execs=%d states=%d trans=%d complete=%v %s", s.Unit, s.Execs, s.States, s.Trans, s.Complete, s.Interrupted)
		if len(s.ByCost) > 0 {
			fmt.Printf(" bound=%d bycost=%v outcomes=%d points=%d threads=%d", s.Bound, s.ByCost, s.Outcomes, s.MaxPoints, s.MaxThreads)
		}
		if s.Diverged > 0 {
			fmt.Printf(" DIVERGED=%d", s.Diverged)
		}
		fmt.Printf(" %.1fs\n", s.Secs)
	}
}
