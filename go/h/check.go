//go:build go1.21

// Package h contains the shared machinery of the checks: work distribution,
// schedule exploration, evidence, known findings, stores and the reference model.
package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation of a property.
type Violation struct {
	Key    string `json:"key"`    // stable identification of the failing input / history
	Detail string `json:"detail"` // human readable
	Replay string `json:"replay"` // how to reproduce
}

// Ctx is handed to a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Shard    int
	NShards  int
	Deadline time.Time
	Args     []string

	mu          sync.Mutex
	item        int64
	res         Out
	seen        map[uint64]struct{}
	known       []Known
	stop        bool
	vkeys       map[string]bool
	beat        atomic.Int64
	cur         atomic.Value // func() string
	unknownSeen int
}

// Out is the result of one worker.
type Out struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Evals       int64            `json:"evals"`
	Distinct    int64            `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Incomplete  bool             `json:"incomplete"`
	Bounds      map[string]any   `json:"bounds"`
	Errors      []string         `json:"errors"`
}

// Quick returns whether the quick tier is running.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier, t in thorough.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Quick() {
		return q
	}
	return t
}

// Mine advances the work item counter and returns whether this worker owns the item.
func (c *Ctx) Mine() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	i := c.item
	c.item++
	return int(i%int64(c.NShards)) == c.Shard
}

// MineHash returns whether this worker owns the item named s.
func (c *Ctx) MineHash(s string) bool {
	return int(Hash(s)%uint64(c.NShards)) == c.Shard
}

// Expired returns true if the check has to stop (time, or a violation was found).
func (c *Ctx) Expired() bool { return c.timeUp(true) }

// timeUp returns whether to stop; mark records that the stated bound was not completed.
func (c *Ctx) timeUp(mark bool) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stop || time.Now().After(c.Deadline) {
		c.res.Incomplete = c.res.Incomplete || mark
		return true
	}
	return false
}

// Begin notes the case that is executed next, so that a crash of the worker or an
// endless loop can be attributed to it.
func (c *Ctx) Begin(desc func() string) {
	c.cur.Store(desc)
	c.beat.Add(1)
	if caseFile != nil {
		d := desc()
		caseFile.Truncate(0)
		caseFile.WriteAt([]byte(d), 0)
	}
}

// caseFile receives the current case when a worker is repeated after a crash.
var caseFile = func() *os.File {
	if n := os.Getenv("VH_CASES"); n != "" {
		f, _ := os.Create(n)
		return f
	}
	return nil
}()

// stuckAfter is how long a single case (normally well below a second) may take.
const stuckAfter = 100 * time.Second

func heapInUse() uint64 {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

// watch reports a violation and ends the worker if one case never finishes.
func (c *Ctx) watch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if b := c.beat.Load(); b != last || b == 0 {
			last, since = b, time.Now()
			continue
		}
		hog := time.Since(since) > 3*time.Second && heapInUse() > 3200<<20
		if time.Since(since) < stuckAfter && !hog {
			continue
		}
		d := c.cur.Load().(func() string)()
		buf := make([]byte, 8192)
		buf = buf[:runtime.Stack(buf, true)]
		o := Out{Incomplete: true, Violations: []Violation{{Key: "endless loop: " + d, Detail: "no progress for " + time.Since(since).Round(time.Second).String() + " in " + d, Replay: d + "\n" + string(buf)}}}
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("\n@@RESULT ")
		json.NewEncoder(w).Encode(&o)
		w.Flush()
		os.Exit(0)
	}
}

// Hash of a string.
func Hash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

// State records a state; returns true if it was not seen before by this worker.
func (c *Ctx) State(s string) bool { return c.StateHash(Hash(s)) }

// StateHash is State for a precomputed hash.
func (c *Ctx) StateHash(h uint64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.seen[h]; ok {
		return false
	}
	c.seen[h] = struct{}{}
	c.res.States++
	return true
}

// States counts n states known to be distinct.
func (c *Ctx) States(n int) {
	c.mu.Lock()
	c.res.States += int64(n)
	c.mu.Unlock()
}

// Trans counts transitions.
func (c *Ctx) Trans(n int) {
	c.mu.Lock()
	c.res.Transitions += int64(n)
	c.mu.Unlock()
}

// Trace counts executions of the real code that were checked.
func (c *Ctx) Trace(n int) {
	c.mu.Lock()
	c.res.Traces += int64(n)
	c.mu.Unlock()
}

// Count increments a named counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	if c.res.Counters == nil {
		c.res.Counters = map[string]int64{}
	}
	c.res.Counters[name] += int64(n)
	c.mu.Unlock()
}

// Bound records a bound of the exploration in the evidence.
func (c *Ctx) Bound(name string, v any) {
	c.mu.Lock()
	if c.res.Bounds == nil {
		c.res.Bounds = map[string]any{}
	}
	c.res.Bounds[name] = v
	c.mu.Unlock()
}

// Sample stores an example (the first few are kept).
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, v)
	}
	c.mu.Unlock()
}

// SampleN returns true if more samples are wanted.
func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Samples) < 4
}

// Errorf records a problem of the check itself.
func (c *Ctx) Errorf(f string, a ...any) {
	c.mu.Lock()
	if len(c.res.Errors) < 20 {
		c.res.Errors = append(c.res.Errors, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Violate records a violation. key identifies the failing history.
func (c *Ctx) Violate(key, replay, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.vkeys[key] {
		return
	}
	c.vkeys[key] = true
	v := Violation{Key: key, Detail: fmt.Sprintf(f, a...), Replay: replay}
	c.res.Violations = append(c.res.Violations, v)
	if isKnown(c.known, c.ID, key) == nil {
		c.unknownSeen++
		if c.unknownSeen >= keepGoing {
			c.stop = true
		}
	}
}

// Stopped returns whether an unlisted violation was found already.
func (c *Ctx) Stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.stop
}

// keepGoing is the number of violations after which a worker stops (development aid: VH_KEEP).
var keepGoing = func() int {
	if n, _ := strconv.Atoi(os.Getenv("VH_KEEP")); n > 0 {
		return n
	}
	return 1
}()

// Known is one entry of the known findings file.
type Known struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(dir string) []Known {
	var res []Known
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{Status: "known"}
		if err := json.Unmarshal([]byte(l[len("known: "):]), &k); err == nil {
			res = append(res, k)
		}
	}
	return res
}

func isKnown(ks []Known, prop, key string) *Known {
	for i := range ks {
		if ks[i].Status == "known" && ks[i].Property == prop && ks[i].Key == key {
			return &ks[i]
		}
	}
	return nil
}

// Spec describes a check.
type Spec struct {
	Level       string
	Rule        string
	Assumptions []string
	Budget      time.Duration // quick; thorough uses 10x up to 800 s
	ThoroughX   int
	Workers     int // 0: number of CPUs
	Procs       int // GOMAXPROCS in worker (default 1)
	Run         func(c *Ctx)
}

// Main runs the requested check.
func Main(specs map[string]Spec) {
	worker := flag.String("worker", "", "i/n")
	tier := flag.String("tier", "", "quick|thorough")
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "verification dir")
	budget := flag.Duration("budget", 0, "time budget")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	spec, ok := specs[*prop]
	if !ok {
		var ids []string
		for id := range specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property", *prop, "have", ids)
		os.Exit(2)
	}
	bud := spec.Budget
	if bud == 0 {
		bud = 60 * time.Second
	}
	if *tier == "thorough" {
		x := spec.ThoroughX
		if x == 0 {
			x = 10
		}
		bud *= time.Duration(x)
		if bud > 780*time.Second {
			bud = 780 * time.Second
		}
	}
	if *budget != 0 {
		bud = *budget
	}
	known := loadKnown(*verif)
	if *worker != "" {
		var i, n int
		fmt.Sscanf(*worker, "%d/%d", &i, &n)
		procs := spec.Procs
		if procs == 0 {
			procs = 1
		}
		runtime.GOMAXPROCS(procs)
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(2200 << 20)
		debug.SetMaxStack(128 << 20)
		if f := os.Getenv("VH_PROF"); f != "" { // development aid
			if w, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		c := &Ctx{ID: *prop, Tier: *tier, Seed: seed, Shard: i, NShards: n, Deadline: time.Now().Add(bud), Args: flag.Args(),
			seen: map[uint64]struct{}{}, known: known, vkeys: map[string]bool{}}
		go c.watch()
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Errorf("panic in check: %v\n%s", r, debug.Stack())
				}
			}()
			spec.Run(c)
		}()
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("\n@@RESULT ")
		json.NewEncoder(w).Encode(&c.res)
		w.Flush()
		return
	}
	os.Exit(parent(*prop, *tier, *verif, seed, bud, spec, known))
}

func parent(prop, tier, verif string, seed int64, bud time.Duration, spec Spec, known []Known) int {
	start := time.Now()
	n := spec.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	outs := make([]*Out, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	worker := func(i int, cases string) (o *Out, crashed bool, e string) {
		args := append([]string{"-worker", fmt.Sprintf("%d/%d", i, n), "-prop", prop, "-tier", tier, "-verif", verif, "-budget", bud.String()}, flag.Args()...)
		cmd := exec.Command(os.Args[0], args...)
		if cases != "" {
			cmd.Env = append(os.Environ(), "VH_CASES="+cases)
		}
		logf, _ := os.CreateTemp("", "vh-worker-*.log")
		defer os.Remove(logf.Name())
		defer logf.Close()
		cmd.Stderr = logf
		stdout, err := os.CreateTemp("", "vh-out-*.log")
		if err != nil {
			return nil, false, err.Error()
		}
		defer os.Remove(stdout.Name())
		defer stdout.Close()
		cmd.Stdout = stdout
		if err := cmd.Start(); err != nil {
			return nil, false, err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var werr error
		timeout := false
		select {
		case werr = <-done:
		case <-time.After(bud + stuckAfter + 20*time.Second):
			timeout = true
			_ = cmd.Process.Signal(os.Signal(sigQuit))
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				cmd.Process.Kill()
				<-done
			}
			werr = fmt.Errorf("worker did not finish in time")
		}
		b, _ := os.ReadFile(stdout.Name())
		s := string(b)
		if k := strings.LastIndex(s, "@@RESULT "); k >= 0 {
			o = &Out{}
			if err := json.Unmarshal([]byte(s[k+9:]), o); err == nil {
				return o, false, ""
			}
		}
		lb, _ := os.ReadFile(logf.Name())
		ls := string(lb)
		crashed = !timeout && (strings.Contains(ls, "fatal error: ") || strings.Contains(ls, "panic: ")) &&
			!strings.Contains(ls, "out of memory") && !strings.Contains(ls, "cannot allocate")
		if len(lb) > 4000 {
			lb = append(lb[:3000:3000], lb[len(lb)-1000:]...)
		}
		return nil, crashed, fmt.Sprintf("worker %d: %v\n%s", i, werr, lb)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o, crashed, e := worker(i, "")
			if crashed {
				// The process died. Repeat it to find out in which case.
				cf, err := os.CreateTemp("", "vh-case-*.txt")
				if err == nil {
					defer os.Remove(cf.Name())
					cf.Close()
					_, again, _ := worker(i, cf.Name())
					if cs, _ := os.ReadFile(cf.Name()); again && len(cs) > 0 {
						o = &Out{Incomplete: true, Violations: []Violation{{Key: "crash: " + string(cs), Detail: "the process crashes in: " + string(cs) + "\n" + e, Replay: string(cs) + "\n" + e}}}
						e = ""
					}
				}
			}
			outs[i], errs[i] = o, e
		}(i)
	}
	wg.Wait()
	tot := Out{Counters: map[string]int64{}, Bounds: map[string]any{}}
	var crash []string
	for i, o := range outs {
		if o == nil {
			crash = append(crash, errs[i])
			continue
		}
		tot.States += o.States
		tot.Transitions += o.Transitions
		tot.Traces += o.Traces
		tot.Incomplete = tot.Incomplete || o.Incomplete
		for k, v := range o.Counters {
			tot.Counters[k] += v
		}
		for k, v := range o.Bounds {
			tot.Bounds[k] = v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, o.Samples...)
		}
		tot.Violations = append(tot.Violations, o.Violations...)
		tot.Errors = append(tot.Errors, o.Errors...)
	}
	rc := 0
	// Known findings and violations.
	reported := map[string]bool{}
	nviol := 0
	for _, v := range tot.Violations {
		if reported[v.Key] {
			continue
		}
		reported[v.Key] = true
		if k := isKnown(known, prop, v.Key); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, k.What, v.Key)
			continue
		}
		nviol++
		if nviol > 3 && nviol > keepGoing {
			continue
		}
		rp := filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.txt", prop, nviol))
		txt := fmt.Sprintf("property: %s\nkey: %s\n\n%s\n\nreplay:\n%s\n", prop, v.Key, v.Detail, v.Replay)
		_ = os.WriteFile(rp, []byte(txt), 0o644)
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Printf("%s\n", d)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		rc = 1
	}
	for _, e := range tot.Errors {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR:", e)
	}
	for _, e := range crash {
		fmt.Fprintln(os.Stderr, "WORKER-FAILED:", e)
	}
	if len(tot.Errors)+len(crash) > 0 && rc == 0 {
		rc = 2
	}
	cov := map[string]any{
		"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
		"exhaustive": !tot.Incomplete && len(crash) == 0 && rc == 0,
		"rule":       spec.Rule,
		"bounds":     tot.Bounds,
		"counters":   tot.Counters,
	}
	if len(tot.Samples) > 8 {
		tot.Samples = tot.Samples[:8]
	}
	if tot.Samples == nil {
		tot.Samples = []any{}
	}
	cov["samples"] = tot.Samples
	level := spec.Level
	if level == "" {
		level = "model_checking"
	}
	if level == "fault_enumeration" || level == "exploration" {
		cov["evaluations"] = tot.Traces
		cov["distinct_nontrivial"] = tot.States
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": append([]string{}, spec.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d known=%d wall=%.1fs %v\n", prop, tier,
		tot.States, tot.Transitions, tot.Traces, cov["exhaustive"], nviol, len(reported)-nviol, time.Since(start).Seconds(), tot.Counters)
	return rc
}
