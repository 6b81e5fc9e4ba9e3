package mon

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type worker struct {
	run      *childRun
	id       int
	tid      int32
	events   map[string]int64
	seen     map[string]map[uint64]struct{}
	distinct map[uint64]struct{}
	samples  map[string][]string
	evals    int64
	cases    int64
	// current case, for the watchdog
	cur atomic.Int64 // (stream<<40 | index) + 1; 0 when idle
}

type childRun struct {
	chk      *Check
	tier     string
	seed     uint64
	journal  *os.File
	mu       sync.Mutex
	viol     []violation
	maxViol  int
	stopped  atomic.Bool
	progress func()
}

func (r *childRun) addViolation(v violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) < 50 {
		r.viol = append(r.viol, v)
	}
	if len(r.viol) >= r.maxViol {
		r.stopped.Store(true)
	}
}

type childResult struct {
	Violations []violation
	Events     map[string]int64
	Seen       map[string]int64
	Distinct   int64
	Samples    []string
	Evals      int64
	Cases      int64
	PerStream  map[string]int64
	Stopped    bool
}

// Main is the entry point of the check binary.
func Main() {
	id := flag.String("check", "", "property id")
	child := flag.String("child", "", "internal: result file")
	journal := flag.String("journal", "", "internal: journal file")
	only := flag.String("case", "", "run only stream:index")
	stream := flag.String("stream", "", "run only this stream")
	replay := flag.String("replay", "", "replay file")
	tier := flag.String("tier", "", "quick or thorough")
	workers := flag.Int("workers", 0, "number of workers")
	scale := flag.Float64("scale", 1, "development: multiply case counts")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	if *list {
		for _, id := range ids() {
			fmt.Println(id)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		} else {
			seed = Hash("seed", s)
		}
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		var v struct {
			Property, Stream, Tier string
			Index                  int
			Seed                   uint64
		}
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		*id, *tier, seed = v.Property, v.Tier, v.Seed
		*only = fmt.Sprintf("%s:%d", v.Stream, v.Index)
	}
	chk := registry[*id]
	if chk == nil {
		fatal("unknown check %q", *id)
	}
	if *child != "" {
		childMain(chk, *tier, seed, *child, *journal, *only, *stream, *workers, *scale)
		return
	}
	parentMain(chk, *tier, seed, *only, *stream, *workers, *scale)
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	os.Exit(2)
}

// childMain runs the cases.
func childMain(chk *Check, tier string, seed uint64, out, journal, only, onlyStream string, nw int, scale float64) {
	debug.SetTraceback("all")
	debug.SetMaxStack(256 << 20)
	if !raceEnabled {
		gb := chk.MemGB
		if gb == 0 {
			gb = 16
		}
		lim := syscall.Rlimit{Cur: uint64(gb) << 30, Max: uint64(gb) << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		debug.SetMemoryLimit(int64(gb) << 29)
	}
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 16 {
			nw = 16
		}
	}
	if chk.Serial || only != "" {
		nw = 1
	}
	r := &childRun{chk: chk, tier: tier, seed: seed, maxViol: 5}
	if journal != "" {
		f, err := os.OpenFile(journal, os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		r.journal = f
	}
	type job struct{ s, lo, hi int }
	var jobs []job
	for si, s := range chk.Streams {
		if onlyStream != "" && s.Name != onlyStream {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale)
		if n == 0 && s.Quick > 0 {
			n = 1
		}
		if only != "" {
			i := strings.LastIndex(only, ":")
			if only[:i] != s.Name {
				continue
			}
			k, _ := strconv.Atoi(only[i+1:])
			jobs = append(jobs, job{si, k, k + 1})
			continue
		}
		// Chunks small enough to balance the workers.
		chunk := n / (nw * 16)
		if chunk < 1 {
			chunk = 1
		}
		if chunk > 64 {
			chunk = 64
		}
		for k := 0; k < n; k += chunk {
			jobs = append(jobs, job{si, k, min(k+chunk, n)})
		}
	}
	var next atomic.Int64
	perStream := make([]atomic.Int64, len(chk.Streams))
	ws := make([]*worker, nw)
	var wg sync.WaitGroup
	for i := range ws {
		w := &worker{run: r, id: i, events: map[string]int64{}, seen: map[string]map[uint64]struct{}{},
			distinct: map[uint64]struct{}{}, samples: map[string][]string{}}
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			atomic.StoreInt32(&w.tid, int32(syscall.Gettid()))
			for !r.stopped.Load() {
				k := int(next.Add(1)) - 1
				if k >= len(jobs) {
					return
				}
				j := jobs[k]
				for c := j.lo; c < j.hi && !r.stopped.Load(); c++ {
					w.one(j.s, c)
					perStream[j.s].Add(1)
				}
			}
		}()
	}
	go watchdog(r, ws, out)
	wg.Wait()
	writeResult(r, ws, perStream, out)
}

var resultMu sync.Mutex

func writeResult(r *childRun, ws []*worker, perStream []atomic.Int64, out string) {
	resultMu.Lock()
	defer resultMu.Unlock()
	res := childResult{Events: map[string]int64{}, Seen: map[string]int64{}, PerStream: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	seen := map[string]map[uint64]struct{}{}
	samples := map[string]string{}
	for _, w := range ws {
		for k, v := range w.events {
			res.Events[k] += v
		}
		for k := range w.distinct {
			distinct[k] = struct{}{}
		}
		for k, m := range w.seen {
			if seen[k] == nil {
				seen[k] = map[uint64]struct{}{}
			}
			for x := range m {
				seen[k][x] = struct{}{}
			}
		}
		for k, s := range w.samples {
			if _, ok := samples[k]; !ok && len(s) > 0 {
				samples[k] = s[0]
			}
		}
		res.Evals += w.evals
		res.Cases += w.cases
	}
	for k, m := range seen {
		res.Seen[k] = int64(len(m))
	}
	var ks []string
	for k := range samples {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.Samples = append(res.Samples, k+": "+samples[k])
	}
	for i := range perStream {
		res.PerStream[r.chk.Streams[i].Name] = perStream[i].Load()
	}
	res.Distinct = int64(len(distinct))
	res.Stopped = r.stopped.Load()
	r.mu.Lock()
	res.Violations = r.viol
	r.mu.Unlock()
	writeJSON(out, res)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path+".tmp", append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		fatal("%v", err)
	}
}

func (w *worker) one(si, index int) {
	s := &w.run.chk.Streams[si]
	w.cur.Store(int64(si)<<40 | int64(index) + 1)
	if w.run.journal != nil {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], uint64(si)+1)
		binary.LittleEndian.PutUint64(b[8:], uint64(index))
		w.run.journal.WriteAt(b[:], int64(16*w.id))
	}
	c := &Case{R: caseRand(w.run.seed, w.run.chk.ID, s.Name, index), Index: index, Stream: s.Name, Tier: w.run.tier, w: w}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					return
				}
				c.Report("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		s.Run(c)
	}()
	w.cases++
	w.evals++
	w.cur.Store(0)
	if w.run.journal != nil {
		var b [16]byte
		w.run.journal.WriteAt(b[:], int64(16*w.id))
	}
}

// Catch runs f and returns the panic it raised, if any, with its stack.
func Catch(f func()) (p any, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			p, stack = e, trimStack(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "runtime/debug.Stack") || strings.Contains(lines[i], "runtime/debug/stack.go") {
			continue
		}
		out = append(out, lines[i])
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// watchdog ends the run when one case used up its CPU budget: executions of
// the code under test must be bounded. It counts CPU time of the worker's
// thread, not wall-clock time.
func watchdog(r *childRun, ws []*worker, out string) {
	limit := r.chk.CPUSec
	if limit == 0 {
		limit = 60
	}
	type st struct {
		cur   int64
		start float64
	}
	states := make([]st, len(ws))
	for {
		time.Sleep(500 * time.Millisecond)
		for i, w := range ws {
			cur := w.cur.Load()
			if cur == 0 {
				states[i] = st{}
				continue
			}
			cpu, ok := threadCPU(int(atomic.LoadInt32(&w.tid)))
			if !ok {
				continue
			}
			if states[i].cur != cur {
				states[i] = st{cur, cpu}
				continue
			}
			if cpu-states[i].start > float64(limit) {
				si, idx := int(cur>>40), int((cur-1)&(1<<40-1))
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				r.addViolation(violation{r.chk.Streams[si].Name, idx,
					fmt.Sprintf("execution not bounded: one case used more than %d s of CPU time\n%s", limit, findStack(buf)), ""})
				// The other workers' counters are being written: report only the violation.
				res := childResult{Violations: r.viol, Stopped: true, Cases: 1, Evals: 1}
				writeJSON(out, res)
				os.Exit(0)
			}
		}
	}
}

func findStack(b []byte) string {
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		if bytes.Contains(g, []byte("golang/freetype")) {
			lines := strings.Split(string(g), "\n")
			if len(lines) > 20 {
				lines = lines[:20]
			}
			return strings.Join(lines, "\n")
		}
	}
	return ""
}

func threadCPU(tid int) (float64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/schedstat", tid))
	if err == nil {
		var ns int64
		if _, err := fmt.Sscan(string(b), &ns); err == nil {
			return float64(ns) / 1e9, true
		}
	}
	b, err = os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100, true
}

// verifDir is /verif, or wherever the evidence goes.
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type childOutcome struct {
	res     *childResult
	crashed bool
	log     string
	races   []string
	timeout bool
}

func runChild(chk *Check, tier string, seed uint64, dir, only, onlyStream string, nw int, scale float64, journal string, limit time.Duration) childOutcome {
	out := filepath.Join(dir, "result.json")
	os.Remove(out)
	args := []string{"-check", chk.ID, "-child", out, "-tier", tier, "-workers", strconv.Itoa(nw), "-scale", fmt.Sprint(scale)}
	if journal != "" {
		args = append(args, "-journal", journal)
	}
	if only != "" {
		args = append(args, "-case", only)
	}
	if onlyStream != "" {
		args = append(args, "-stream", onlyStream)
	}
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(exe, args...)
	racelog := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatUint(seed, 10),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racelog)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	logf, err := os.Create(filepath.Join(dir, "child.log"))
	if err != nil {
		fatal("%v", err)
	}
	cmd.Stdout, cmd.Stderr = logf, logf
	runtime.LockOSThread() // Pdeathsig is tied to the thread.
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o childOutcome
	select {
	case err = <-done:
	case <-time.After(limit):
		o.timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	logf.Close()
	o.log = tail(filepath.Join(dir, "child.log"))
	if b, e := os.ReadFile(out); e == nil {
		var res childResult
		if json.Unmarshal(b, &res) == nil {
			o.res = &res
		}
	}
	if err != nil || o.res == nil {
		o.crashed = !o.timeout
	}
	ms, _ := filepath.Glob(racelog + ".*")
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				o.races = append(o.races, strings.TrimSpace(blk))
			}
		}
		os.Remove(m)
	}
	return o
}

func tail(path string) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var lines []string
	for sc.Scan() && len(lines) < 60 {
		lines = append(lines, sc.Text())
	}
	return strings.Join(lines, "\n")
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Match    string `json:"match"`  // for known: a substring of the violation that identifies the failing input
	What     string `json:"what"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func parentMain(chk *Check, tier string, seed uint64, only, onlyStream string, nw int, scale float64) {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+chk.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	code := parentRun(chk, tier, seed, only, onlyStream, nw, scale, dir, t0)
	os.RemoveAll(dir)
	os.Exit(code)
}

func parentRun(chk *Check, tier string, seed uint64, only, onlyStream string, nw int, scale float64, dir string, t0 time.Time) int {
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	journal := filepath.Join(dir, "journal")
	o := runChild(chk, tier, seed, dir, only, onlyStream, nw, scale, journal, limit)
	var viol []violation
	inconclusive := ""
	if o.res != nil {
		viol = append(viol, o.res.Violations...)
	}
	for _, r := range o.races {
		viol = append(viol, violation{"race-detector", 0, "data race reported by the race detector\n" + head(r, 60), ""})
	}
	if o.timeout {
		inconclusive = "the run did not finish within its wall-clock limit"
	}
	if o.crashed {
		// A fatal error that could not be recovered. Which case was it?
		susp := readJournal(journal, chk)
		fmt.Printf("child ended abnormally; suspects: %v\n", susp)
		found := false
		for _, s := range susp {
			so := runChild(chk, tier, seed, dir, s, "", 1, scale, "", 300*time.Second)
			if so.crashed {
				i := strings.LastIndex(s, ":")
				k, _ := strconv.Atoi(s[i+1:])
				viol = append(viol, violation{s[:i], k, "the process crashed\n" + head(so.log, 40), ""})
				found = true
			} else if so.res != nil {
				viol = append(viol, so.res.Violations...)
			}
		}
		if !found && len(viol) == 0 {
			if strings.Contains(o.log, "github.com/golang/freetype") && (strings.Contains(o.log, "fatal error") || strings.Contains(o.log, "panic")) {
				s, k := "crash", 0
				if len(susp) > 0 {
					i := strings.LastIndex(susp[0], ":")
					s = susp[0][:i]
					k, _ = strconv.Atoi(susp[0][i+1:])
				}
				viol = append(viol, violation{s, k, "the process crashed (not reproduced by a single case)\n" + head(o.log, 50), ""})
			} else {
				inconclusive = "the child process crashed outside the code under test:\n" + o.log
			}
		}
	}
	// Split off the known findings.
	known := loadKnown()
	var fresh []violation
	reported := map[string]bool{}
	for _, v := range viol {
		matched := false
		for _, k := range known {
			if k.Property == chk.ID && k.Status == "known" && k.Match != "" && strings.Contains(v.Msg, k.Match) {
				if !reported[k.Match] {
					reported[k.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k.What)
				}
				matched = true
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	res := o.res
	if res == nil {
		res = &childResult{}
	}
	if len(fresh) == 0 && inconclusive == "" && only == "" && onlyStream == "" {
		for _, e := range chk.Required {
			if res.Events[e] == 0 {
				inconclusive = "the run never observed the event " + e
				break
			}
		}
	}
	writeEvidence(chk, tier, seed, res, len(fresh), time.Since(t0).Seconds(), only != "" || onlyStream != "")
	if len(fresh) > 0 {
		rdir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		for i, v := range fresh {
			if i >= 5 {
				break
			}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", chk.ID, v.Stream, v.Index))
			writeJSON(path, map[string]any{"property": chk.ID, "stream": v.Stream, "index": v.Index, "seed": seed, "tier": tier, "message": v.Msg, "case": v.Desc,
				"how": "bash /verif/check.sh " + chk.ID + " -replay " + path})
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
			fmt.Printf("  %s case %d: %s\n", v.Stream, v.Index, strings.ReplaceAll(head(v.Msg, 30), "\n", "\n    "))
			if v.Desc != "" {
				fmt.Printf("  case: %s\n", strings.ReplaceAll(head(v.Desc, 12), "\n", "\n    "))
			}
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", chk.ID, inconclusive)
		return 2
	}
	fmt.Printf("ok property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n",
		chk.ID, tier, seed, res.Cases, res.Evals, res.Distinct, time.Since(t0).Seconds())
	return 0
}

func head(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

func readJournal(path string, chk *Check) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for i := 0; i+16 <= len(b); i += 16 {
		s := binary.LittleEndian.Uint64(b[i:])
		k := binary.LittleEndian.Uint64(b[i+8:])
		if s > 0 && int(s) <= len(chk.Streams) {
			out = append(out, fmt.Sprintf("%s:%d", chk.Streams[s-1].Name, k))
		}
	}
	return out
}

func writeEvidence(chk *Check, tier string, seed uint64, res *childResult, nviol int, wall float64, partial bool) {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	name := chk.ID + ".json"
	if partial {
		name = chk.ID + ".partial.json"
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	writeJSON(filepath.Join(dir, name), map[string]any{
		"property": chk.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         res.Evals,
			"cases":               res.Cases,
			"distinct_nontrivial": res.Distinct,
			"rule":                chk.Rule,
			"samples":             samples,
			"cases_per_stream":    res.PerStream,
			"events_observed":     res.Events,
			"distinct_states":     res.Seen,
		},
		"assumptions": append([]string{}, chk.Assumptions...),
		"wall_s":      wall,
		"violations":  nviol,
	})
}
