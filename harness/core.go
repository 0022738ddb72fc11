package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the monitor of one property.
type Check struct {
	ID       string
	Level    string // exploration | fault_enumeration
	Rule     string
	Race     bool
	Quick    int // number of cases
	Thorough int
	Workers  int // 0: one per core, capped
	Run      func(c *Case)
	Setup    func(w *Worker) // once per worker, may be nil
	Assume   []string
	HangSecs int // 0: default
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Worker is the state of one worker process.
type Worker struct {
	Check    *Check
	Tier     string
	Seed     int64
	Scratch  string // directory owned by this worker
	known    map[string]bool
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []json.RawMessage
	mu       sync.Mutex
	out      *json.Encoder
	outF     *os.File
	evals    int64
	State    any
	curCase  atomic.Int64
	verbose  bool
	allowExp bool
}

// Case is one deterministic execution.
type Case struct {
	W    *Worker
	Idx  int
	R    *rand.Rand
	logm sync.Mutex
	log  []string
	hash uint64
	ntr  bool
	dirs int
	cln  []func()
}

type failure struct {
	Key string
	Msg string
}
type harnessErr struct{ Msg string }
type caseStop struct{}

func hashString(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Logf appends to the operation log (which is the replay description).
func (c *Case) Logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.logm.Lock()
	c.hash = c.hash*1099511628211 ^ hashString(s)
	if len(c.log) < 4000 {
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.log = append(c.log, s)
	}
	c.logm.Unlock()
	if c.W.verbose {
		fmt.Fprintln(os.Stderr, "  |", s)
	}
}

// Fail reports a violation; key identifies it for the known-findings file.
func (c *Case) Fail(key, f string, a ...any) { panic(failure{key, fmt.Sprintf(f, a...)}) }

// Harness reports that the check could not do its work.
func (c *Case) Harness(f string, a ...any) { panic(harnessErr{fmt.Sprintf(f, a...)}) }

func (c *Case) Must(err error, what string) {
	if err != nil {
		c.Harness("%s: %v", what, err)
	}
}

// Nontrivial marks the case as non-trivial by the rule of the check.
func (c *Case) Nontrivial() { c.ntr = true }

func (c *Case) Count(name string, n int) { c.W.Count(name, n) }

func (w *Worker) Count(name string, n int) {
	w.mu.Lock()
	w.counters[name] += int64(n)
	w.mu.Unlock()
}

// Eval counts evaluations inside a case (beyond the case itself).
func (c *Case) Eval(n int) { atomic.AddInt64(&c.W.evals, int64(n)) }

// Distinct records an observed distinct thing by hash.
func (c *Case) Distinct(s string) {
	h := hashString(s)
	c.W.mu.Lock()
	c.W.distinct[h] = struct{}{}
	c.W.mu.Unlock()
}

func (c *Case) Sample(v any) {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	if len(c.W.samples) >= 3 {
		return
	}
	b, err := json.Marshal(v)
	if err == nil && len(b) < 6000 {
		c.W.samples = append(c.W.samples, b)
	}
}

// Dir returns a fresh scratch directory removed when the case ends.
func (c *Case) Dir() string {
	c.dirs++
	d := filepath.Join(c.W.Scratch, fmt.Sprintf("c%d_%d", c.Idx, c.dirs))
	if err := os.MkdirAll(d, 0o777); err != nil {
		c.Harness("mkdir: %v", err)
	}
	c.Cleanup(func() { _ = os.RemoveAll(d) })
	return d
}

func (c *Case) Cleanup(f func()) { c.cln = append(c.cln, f) }

func (c *Case) Thorough() bool { return c.W.Tier == "thorough" }

type event struct {
	Kind     string            `json:"kind"`
	Idx      int               `json:"idx"`
	Key      string            `json:"key,omitempty"`
	Msg      string            `json:"msg,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Counters map[string]int64  `json:"counters,omitempty"`
	Distinct []uint64          `json:"distinct,omitempty"`
	Samples  []json.RawMessage `json:"samples,omitempty"`
	Evals    int64             `json:"evals,omitempty"`
}

func caseSeed(prop string, seed int64, idx int) int64 {
	return int64(hashString(fmt.Sprintf("%s/%d/%d", prop, seed, idx)) >> 1)
}

// runCase executes one case and returns its outcome event.
func (w *Worker) runCase(idx int) (ev event) {
	c := &Case{W: w, Idx: idx, R: rand.New(rand.NewSource(caseSeed(w.Check.ID, w.Seed, idx)))}
	w.curCase.Store(int64(idx))
	atomic.AddInt64(&w.evals, 1)
	ev = event{Kind: "ok", Idx: idx}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case caseStop:
				case failure:
					ev.Kind, ev.Key, ev.Msg = "violation", x.Key, x.Msg
				case harnessErr:
					ev.Kind, ev.Msg = "harness", x.Msg
				default:
					ev.Kind, ev.Key = "violation", "panic"
					ev.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}
		}()
		w.Check.Run(c)
	}()
	func() {
		defer func() {
			if r := recover(); r != nil && ev.Kind == "ok" {
				if x, ok := r.(failure); ok {
					ev.Kind, ev.Key, ev.Msg = "violation", x.Key, x.Msg
				} else {
					ev.Kind, ev.Key = "violation", "panic-cleanup"
					ev.Msg = fmt.Sprintf("panic in cleanup: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}
		}()
		for i := len(c.cln) - 1; i >= 0; i-- {
			c.cln[i]()
		}
	}()
	if ev.Kind != "ok" {
		c.logm.Lock()
		ev.Log = append([]string{}, c.log...)
		c.logm.Unlock()
	} else if c.ntr {
		w.mu.Lock()
		w.distinct[c.hash] = struct{}{}
		if len(w.samples) < 1 && len(c.log) > 0 {
			l := c.log
			if len(l) > 25 {
				l = l[:25]
			}
			if b, err := json.Marshal(map[string]any{"case": idx, "log": l}); err == nil && len(b) < 8000 {
				w.samples = append(w.samples, b)
			}
		}
		w.mu.Unlock()
	}
	return ev
}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (w *Worker) emit(ev event) {
	w.mu.Lock()
	_ = w.out.Encode(ev)
	w.mu.Unlock()
}

func workerMain(ch *Check, tier string, seed int64, part, parts, n int, outPath, scratch string, known map[string]bool) {
	f, err := os.OpenFile(outPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := &Worker{Check: ch, Tier: tier, Seed: seed, Scratch: scratch, known: known, counters: map[string]int64{},
		distinct: map[uint64]struct{}{}, outF: f, out: json.NewEncoder(f)}
	debug.SetGCPercent(300)
	hang := ch.HangSecs
	if hang == 0 {
		hang = 200
	}
	if tier == "thorough" {
		hang *= 3
	}
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			t := time.Since(time.Unix(0, started.Load()))
			if t > time.Duration(hang)*time.Second {
				buf := make([]byte, 4<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG case %d after %v\n%s\n", w.curCase.Load(), t, buf)
				os.Exit(97)
			}
		}
	}()
	if ch.Setup != nil {
		ch.Setup(w)
	}
	code := 0
	for i := part; i < n; i += parts {
		started.Store(time.Now().UnixNano())
		w.emit(event{Kind: "start", Idx: i})
		ev := w.runCase(i)
		if ev.Kind == "violation" && w.known[ev.Key] {
			ev.Kind = "known"
		}
		w.emit(ev)
		if ev.Kind == "violation" {
			code = 1
			break
		}
		if ev.Kind == "harness" {
			// this case gave no answer; others may
			if code = 3; atomic.AddInt64(&harnessN, 1) >= 5 {
				break
			}
		}
	}
	ds := make([]uint64, 0, len(w.distinct))
	for d := range w.distinct {
		ds = append(ds, d)
	}
	w.emit(event{Kind: "end", Counters: w.counters, Distinct: ds, Samples: w.samples, Evals: w.evals})
	_ = f.Close()
	os.Exit(code)
}

type knownEntry struct{ prop, key, text string }

func loadKnown(path string) []knownEntry {
	var out []knownEntry
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(l, " ", 4)
		if len(fs) < 4 || !strings.HasPrefix(fs[1], "property=") || !strings.HasPrefix(fs[2], "key=") {
			continue
		}
		out = append(out, knownEntry{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "key="), fs[3]})
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick|thorough")
	seed := flag.Int64("seed", 1, "seed")
	isWorker := flag.Bool("worker", false, "")
	part := flag.Int("part", 0, "")
	parts := flag.Int("parts", 1, "")
	n := flag.Int("n", 0, "override number of cases")
	outPath := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	replay := flag.String("replay", "", "replay file")
	one := flag.Int("case", -1, "run a single case verbosely")
	tool := flag.String("tool", "", "")
	flag.Parse()
	if *tool != "" {
		toolMain(*tool, flag.Args())
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" && *seed == 1 {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			*seed = v
		}
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *one = rf.Property, rf.Tier, rf.Seed, rf.Case
	}
	ch := checks[*prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	kn := loadKnown(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	km := map[string]bool{}
	for _, k := range kn {
		if k.prop == ch.ID {
			km[k.key] = true
		}
	}
	cases := ch.Quick
	if *tier == "thorough" {
		cases = ch.Thorough
		if cases == 0 {
			cases = ch.Quick * 10
		}
	}
	if *n > 0 {
		cases = *n
	}
	if *isWorker {
		workerMain(ch, *tier, *seed, *part, *parts, cases, *outPath, *scratch, km)
		return
	}
	if *one >= 0 {
		d, err := os.MkdirTemp("", "vmon")
		if err != nil {
			os.Exit(2)
		}
		w := &Worker{Check: ch, Tier: *tier, Seed: *seed, Scratch: d, known: km, counters: map[string]int64{},
			distinct: map[uint64]struct{}{}, verbose: true}
		if ch.Setup != nil {
			ch.Setup(w)
		}
		ev := w.runCase(*one)
		_ = os.RemoveAll(d)
		fmt.Printf("%s key=%s %s\n", ev.Kind, ev.Key, ev.Msg)
		if ev.Kind == "violation" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, *replay)
			os.Exit(1)
		}
		return
	}
	os.Exit(parentMain(ch, *tier, *seed, cases, kn))
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
}

type workerResult struct {
	part   int
	exit   int
	events []event
	stderr string
}

func parentMain(ch *Check, tier string, seed int64, cases int, kn []knownEntry) int {
	t0 := time.Now()
	workers := ch.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if workers > cases {
		workers = cases
	}
	tmp, err := os.MkdirTemp("", "vmon-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	_ = os.Remove(filepath.Join(evDir, ch.ID+".json"))

	self, _ := os.Executable()
	results := make([]workerResult, workers)
	procs := make([]*exec.Cmd, workers)
	var wg sync.WaitGroup
	var killed atomic.Bool
	var pmu sync.Mutex
	for p := 0; p < workers; p++ {
		p := p
		sd := filepath.Join(tmp, fmt.Sprintf("w%d", p))
		_ = os.MkdirAll(sd, 0o777)
		out := filepath.Join(tmp, fmt.Sprintf("out%d.jsonl", p))
		errp := filepath.Join(tmp, fmt.Sprintf("err%d.txt", p))
		ef, err := os.Create(errp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmd := exec.Command(self, "-worker", "-prop", ch.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(cases),
			"-part", fmt.Sprint(p), "-parts", fmt.Sprint(workers), "-out", out, "-scratch", sd)
		cmd.Stderr = ef
		cmd.Stdout = ef
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
		pmu.Lock()
		if killed.Load() {
			pmu.Unlock()
			_ = ef.Close()
			break
		}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs[p] = cmd
		pmu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			_ = ef.Close()
			r := workerResult{part: p}
			if err != nil {
				r.exit = -1
				if ee, ok := err.(*exec.ExitError); ok {
					r.exit = ee.ExitCode()
				}
			}
			if f, err := os.Open(out); err == nil {
				dec := json.NewDecoder(f)
				for {
					var ev event
					if dec.Decode(&ev) != nil {
						break
					}
					r.events = append(r.events, ev)
				}
				_ = f.Close()
			}
			if b, err := os.ReadFile(errp); err == nil {
				if len(b) > 1<<20 {
					b = b[:1<<20]
				}
				r.stderr = string(b)
			}
			pmu.Lock()
			results[p] = r
			if r.exit != 0 && r.exit != 3 && !killed.Load() {
				killed.Store(true)
				results[p].part = p
				for q, c := range procs {
					if q != p && c != nil && c.Process != nil {
						_ = c.Process.Kill()
					}
				}
				first = p
			}
			pmu.Unlock()
		}()
	}
	wg.Wait()

	counters := map[string]int64{}
	distinct := map[uint64]struct{}{}
	var samples []json.RawMessage
	var evals int64
	knownHits := map[string]string{}
	var viol *event
	var harness string
	done := 0
	for i := range results {
		r := &results[i]
		var last event
		ended := false
		for _, ev := range r.events {
			ev := ev
			switch ev.Kind {
			case "start":
				last = ev
			case "ok":
				done++
			case "known":
				done++
				knownHits[ev.Key] = ev.Msg
			case "violation":
				if viol == nil {
					viol = &ev
				}
			case "harness":
				harness = fmt.Sprintf("case %d: %s", ev.Idx, ev.Msg)
			case "end":
				ended = true
				for k, v := range ev.Counters {
					counters[k] += v
				}
				for _, d := range ev.Distinct {
					distinct[d] = struct{}{}
				}
				if len(samples) < 4 {
					samples = append(samples, ev.Samples...)
				}
				evals += ev.Evals
			}
		}
		if !ended && (!killed.Load() || i == first) {
			// the worker died
			st := r.stderr
			switch {
			case strings.Contains(st, "WARNING: DATA RACE"):
				viol = &event{Kind: "violation", Idx: last.Idx, Key: "race", Msg: clip(st[strings.Index(st, "WARNING: DATA RACE"):], 8000)}
			case r.exit == 97:
				viol = &event{Kind: "violation", Idx: last.Idx, Key: "hang", Msg: "no progress: " + clip(hangExcerpt(st), 12000)}
				if !strings.Contains(st, "/repo/") && !strings.Contains(st, "go-bond/bond") {
					harness, viol = "hang outside bond: "+clip(st, 3000), nil
				}
			case strings.Contains(st, "panic:") || strings.Contains(st, "fatal error:"):
				viol = &event{Kind: "violation", Idx: last.Idx, Key: "crash", Msg: clip(crashExcerpt(st), 8000)}
				if strings.Contains(st, "out of memory") || strings.Contains(st, "no space left") {
					harness, viol = "resources: "+clip(st, 2000), nil
				}
			default:
				harness = fmt.Sprintf("worker %d exit %d in case %d: %s", i, r.exit, last.Idx, clip(st, 3000))
			}
		}
	}
	var shown []string
	for _, k := range kn {
		if k.prop != ch.ID {
			continue
		}
		if _, ok := knownHits[k.key]; ok {
			shown = append(shown, fmt.Sprintf("KNOWN-FINDING: property=%s %s (key=%s)", ch.ID, k.text, k.key))
		} else if strings.Contains(k.text, "[rare]") {
			shown = append(shown, fmt.Sprintf("KNOWN-FINDING: property=%s %s (key=%s; not met in this run)", ch.ID, k.text, k.key))
		}
	}
	sort.Strings(shown)
	for _, s := range shown {
		fmt.Println(s)
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ch.Rule,
		"samples":             samples,
		"cases":               done,
		"observed":            counters,
		"workers":             workers,
	}
	evd := map[string]any{
		"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": append([]string{"Go 1.21 runtime, pebble and the operating system behave as specified"}, ch.Assume...),
	}
	if b, err := json.MarshalIndent(evd, "", " "); err == nil {
		_ = os.WriteFile(filepath.Join(evDir, ch.ID+".json"), b, 0o644)
	}
	if viol != nil {
		rp := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", ch.ID, viol.Idx))
		b, _ := json.MarshalIndent(replayFile{ch.ID, tier, seed, viol.Idx, viol.Key, viol.Msg, viol.Log}, "", " ")
		_ = os.WriteFile(rp, b, 0o644)
		fmt.Printf("case %d (%s): %s\n", viol.Idx, viol.Key, clip(viol.Msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
		return 1
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "CHECK ERROR:", harness)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", ch.ID, tier, done, evals, len(distinct), time.Since(t0).Seconds())
	ks := make([]string, 0, len(counters))
	for k := range counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s=%d", k, counters[k])
	}
	fmt.Println()
	return 0
}

var first int

var harnessN int64

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func crashExcerpt(st string) string {
	for _, m := range []string{"fatal error:", "panic:"} {
		if i := strings.Index(st, m); i >= 0 {
			return st[i:]
		}
	}
	return st
}

func hangExcerpt(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "go-bond/bond") {
			out = append(out, g)
		}
	}
	if len(out) == 0 {
		return st
	}
	return strings.Join(out, "\n\n")
}

// Par runs n functions concurrently; the first failure becomes the case's.
func (c *Case) Par(n int, f func(g int, r *rand.Rand)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad any
	seeds := make([]int64, n)
	for g := range seeds {
		seeds[g] = c.R.Int63()
	}
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case failure, harnessErr, caseStop:
					default:
						r = failure{"panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
					}
					mu.Lock()
					if bad == nil {
						bad = r
					}
					mu.Unlock()
				}
			}()
			f(g, rand.New(rand.NewSource(seeds[g])))
		}()
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}
