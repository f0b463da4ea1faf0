//go:build go1.21

// Package vsched is a controlled (cooperative, deterministic) scheduler for Go
// code whose concurrency primitives have been redirected to it by the source
// rewriter in ../rewrite. Exactly one task runs at a time; at every visible
// operation the scheduler decides which task continues. Decisions are recorded
// and can be replayed, which makes exhaustive enumeration of all schedules
// within a deviation bound possible (see explore.go).
//
// When no execution is active, every primitive falls back to the native one.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Epoch is the virtual wall clock at the start of each execution.
var Epoch = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

type task struct {
	id     int
	name   string
	wake   chan struct{}
	en     func() bool // nil: always enabled
	desc   string
	dead   bool
	parked bool
	idle   bool // low priority (Quiesce)
	low    bool // runs only when no other task can
	fam    int  // root task of the family (0: main)
	stack  string
}

type timer struct {
	when   time.Duration
	seq    uint64
	fire   func()
	period time.Duration
	on     bool
}

// Timer is a handle to a virtual timer.
type Timer struct{ t *timer }

// Decision is one recorded scheduling decision.
type Decision struct {
	N      int // number of options
	Chosen int
	Desc   string
}

// Dev is a deviation from the default at decision index Pos.
type Dev struct {
	Pos, Alt int
}

// Config of one execution.
type Config struct {
	Devs       []Dev
	Policy     int  // base scheduling policy
	Record     bool // record decisions (needed for exploration)
	TimerDevs  bool // firing a timer early is an option at each decision
	StmtPoints bool // statement level scheduling points
	MaxSteps   int
	Fair       int // a task that ran for this many steps in a row is scheduled last once (0: never)
	KeepStacks bool
	Trace      bool
}

// Failure found by the scheduler itself.
type Failure struct {
	Kind string // deadlock, panic, fatal, livelock
	Msg  string
}

// Result of one execution.
type Result struct {
	Decisions []Decision
	Fail      *Failure
	Steps     int
	Tasks     int
	Switches  int
	// BadReplay is set if a deviation could not be applied.
	BadReplay bool
	TraceLog  []string
}

type exec struct {
	cfg      Config
	tasks    []*task
	live     []*task
	cur      *task
	dec      []Decision
	ndec     int
	devIdx   int
	now      time.Duration
	timers   []*timer
	tseq     uint64
	steps    int
	switches int
	aborting bool
	fail     *Failure
	finished chan struct{}
	ack      chan struct{}
	id       uint64
	bad      bool
	trace    []string
	chans    map[chanKey]*hchan
	idleFire int
	nostmt   int
	frozen   int
	last     *task
	run      int
}

var cur *exec
var epoch uint64

type abortT struct{}

// Active returns whether a controlled execution is running.
func Active() bool { return cur != nil }

// ExecID returns a number unique to the execution (0 if none).
func ExecID() uint64 {
	if cur == nil {
		return 0
	}
	return cur.id
}

// Run executes main under the controlled scheduler.
func Run(cfg Config, main func()) *Result {
	if cur != nil {
		panic("vsched: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	epoch++
	e := &exec{cfg: cfg, id: epoch, finished: make(chan struct{}), ack: make(chan struct{})}
	e.chans = make(map[chanKey]*hchan)
	cur = e
	stmtOn = cfg.StmtPoints
	t := e.newTask("main")
	e.cur = t
	go e.runTask(t, main, true)
	t.wake <- struct{}{}
	<-e.finished
	// Abort remaining tasks.
	e.aborting = true
	for _, t := range e.tasks {
		if t.dead {
			continue
		}
		t.wake <- struct{}{}
		<-e.ack
	}
	res := &Result{Decisions: e.dec, Fail: e.fail, Steps: e.steps, Tasks: len(e.tasks), Switches: e.switches, BadReplay: e.bad, TraceLog: e.trace}
	if e.fail != nil && e.fail.Kind == "deadlock" && cfg.KeepStacks {
		var sb strings.Builder
		for _, t := range e.tasks {
			if t.stack != "" {
				fmt.Fprintf(&sb, "\n--- task %d (%s) blocked on %s\n%s", t.id, t.name, t.desc, t.stack)
			}
		}
		e.fail.Msg += sb.String()
	}
	if cfg.Record && e.devIdx < len(cfg.Devs) && e.fail == nil {
		res.BadReplay = true
	}
	cur = nil
	stmtOn = false
	return res
}

func (e *exec) newTask(name string) *task {
	t := &task{id: len(e.tasks), name: name, wake: make(chan struct{}, 1)}
	if e.cur != nil && t.id > 0 {
		t.fam = e.cur.fam
		if t.fam == 0 {
			t.fam = t.id
		}
	}
	e.tasks = append(e.tasks, t)
	e.live = append(e.live, t)
	return t
}

func (e *exec) runTask(t *task, fn func(), main bool) {
	<-t.wake
	defer func() {
		r := recover()
		if _, ok := r.(abortT); !ok && r != nil && !e.aborting {
			e.setFail("panic", fmt.Sprintf("task %d (%s): %v\n%s", t.id, t.name, r, debug.Stack()))
		}
		t.dead = true
		for i, o := range e.live {
			if o == t {
				e.live = append(e.live[:i:i], e.live[i+1:]...)
				break
			}
		}
		if e.aborting {
			e.ack <- struct{}{}
			return
		}
		if main || e.fail != nil {
			close(e.finished)
			return
		}
		// Hand over to someone else.
		next := e.pick(nil)
		if next == nil {
			close(e.finished)
			return
		}
		e.cur = next
		e.switches++
		next.wake <- struct{}{}
	}()
	if e.aborting {
		panic(abortT{})
	}
	fn()
}

func (e *exec) setFail(kind, msg string) {
	if e.fail == nil {
		e.fail = &Failure{Kind: kind, Msg: msg}
	}
}

// Go starts a new task.
func Go(fn func()) {
	e := cur
	if e == nil {
		go fn()
		return
	}
	if e.aborting {
		panic(abortT{})
	}
	name := "go"
	if e.cfg.KeepStacks || e.cfg.Trace {
		name = caller(2)
	}
	t := e.newTask(name)
	go e.runTask(t, fn, false)
}

// GoNamed starts a new named task.
func GoNamed(name string, fn func()) {
	e := cur
	if e == nil {
		go fn()
		return
	}
	if e.aborting {
		panic(abortT{})
	}
	t := e.newTask(name)
	go e.runTask(t, fn, false)
}

func caller(skip int) string {
	_, f, l, _ := runtime.Caller(skip)
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, l)
}

// options returns enabled tasks in default order.
func (e *exec) options(me *task, buf []*task) []*task {
	opts := buf[:0]
	n := len(e.live)
	if n == 0 {
		return opts
	}
	enabled := func(t *task) bool { return t.en == nil || t.en() }
	start := 0
	if me != nil {
		for i, t := range e.live {
			if t == me {
				start = i
				break
			}
		}
	}
	switch e.cfg.Policy {
	default: // continue current, then next higher id, wrapping.
		for k := 0; k < n; k++ {
			t := e.live[(start+k)%n]
			if !t.idle && enabled(t) {
				opts = append(opts, t)
			}
		}
	case 1: // continue current, then newest first.
		if me != nil && !me.dead && !me.idle && enabled(me) {
			opts = append(opts, me)
		}
		for k := n - 1; k >= 0; k-- {
			t := e.live[k]
			if t != me && !t.idle && enabled(t) {
				opts = append(opts, t)
			}
		}
	case 4: // continue current, then newest of the same family, then other families.
		if me != nil && !me.dead && !me.idle && enabled(me) {
			opts = append(opts, me)
		}
		fam := 0
		if e.cur != nil {
			fam = e.cur.fam
		}
		for k := n - 1; k >= 0; k-- {
			t := e.live[k]
			if t != me && !t.idle && t.fam == fam && enabled(t) {
				opts = append(opts, t)
			}
		}
		for k := n - 1; k >= 0; k-- {
			t := e.live[k]
			if t != me && !t.idle && t.fam != fam && enabled(t) {
				opts = append(opts, t)
			}
		}
	case 2: // round robin at every point.
		for k := 1; k <= n; k++ {
			t := e.live[(start+k)%n]
			if !t.idle && enabled(t) {
				opts = append(opts, t)
			}
		}
	case 5, 6: // like 1 and 0, but a task a deviation takes the processor from runs only when no other can.
		for low := 0; low < 2; low++ {
			if me != nil && !me.dead && !me.idle && me.low == (low == 1) && enabled(me) {
				opts = append(opts, me)
			}
			for k := n - 1; k >= 0; k-- {
				i := k
				if e.cfg.Policy == 6 {
					i = (start + n - k) % n
				}
				t := e.live[i]
				if t != me && !t.idle && t.low == (low == 1) && enabled(t) {
					opts = append(opts, t)
				}
			}
		}
	case 3: // newest first, always.
		for k := n - 1; k >= 0; k-- {
			t := e.live[k]
			if !t.idle && enabled(t) {
				opts = append(opts, t)
			}
		}
	}
	if len(opts) == 0 {
		for _, t := range e.live {
			if t.idle {
				opts = append(opts, t)
			}
		}
	}
	return opts
}

// pick selects the next task to run. me is the current task (may be nil when it died).
// Returns nil if the execution must end (deadlock or livelock).
func (e *exec) pick(me *task) *task {
	var arr [16]*task
	for {
		e.steps++
		if e.steps > e.cfg.MaxSteps {
			e.setFail("livelock", fmt.Sprintf("no termination within %d scheduling steps%s", e.cfg.MaxSteps, e.blockedList()))
			return nil
		}
		if (e.frozen > 0 || !e.cfg.Record && e.cfg.Policy == 0 && e.cfg.Fair == 0) && me != nil && !me.dead && !me.idle && (me.en == nil || me.en()) {
			return me
		}
		opts := e.options(me, arr[:0])
		nopts := len(opts)
		if e.cfg.Fair > 0 && nopts > 1 && e.run >= e.cfg.Fair && opts[0] == e.last {
			copy(opts, opts[1:])
			opts[nopts-1] = e.last
			e.run = 0
		}
		hasTimer := len(e.timers) > 0
		if nopts == 0 || (nopts == 1 && opts[0].idle && hasTimer && e.idleFire > 0) {
			if nopts == 1 {
				e.idleFire--
			}
			if !hasTimer {
				e.setFail("deadlock", "all tasks are blocked"+e.blockedList())
				return nil
			}
			e.fireEarliest()
			continue
		}
		if hasTimer && e.cfg.TimerDevs && e.frozen == 0 {
			nopts++
		}
		ch := 0
		if nopts > 1 {
			ch = e.decide(nopts, "sched")
		}
		if ch >= len(opts) {
			e.fireEarliest()
			continue
		}
		if ch > 0 && e.cfg.Policy >= 5 {
			opts[0].low = true
		}
		if t := opts[ch]; t == e.last {
			e.run++
		} else {
			e.last, e.run = t, 0
		}
		return opts[ch]
	}
}

func (e *exec) blockedList() string {
	var sb strings.Builder
	for _, t := range e.live {
		d := t.desc
		if d == "" {
			d = "(runnable)"
		}
		fmt.Fprintf(&sb, "; task %d(%s): %s", t.id, t.name, d)
	}
	return sb.String()
}

// decide records a decision with n options and returns the chosen one.
func (e *exec) decide(n int, what string) int {
	if e.frozen > 0 {
		return 0
	}
	ch := 0
	pos := e.ndec
	e.ndec++
	if e.devIdx < len(e.cfg.Devs) && e.cfg.Devs[e.devIdx].Pos == pos {
		ch = e.cfg.Devs[e.devIdx].Alt
		e.devIdx++
		if ch >= n {
			e.bad = true
			ch = 0
		}
	}
	if e.cfg.Record {
		d := Decision{N: n, Chosen: ch}
		if e.cfg.Trace {
			d.Desc = what
		}
		e.dec = append(e.dec, d)
	}
	return ch
}

// Frozen runs fn with the base schedule only: no decision inside is explored.
func Frozen(fn func()) {
	e := cur
	if e == nil {
		fn()
		return
	}
	e.frozen++
	on := stmtOn
	stmtOn = false
	fn()
	stmtOn = on
	e.frozen--
}

// Choose lets harness code make an explored choice with n alternatives.
func Choose(n int) int {
	e := cur
	if e == nil || n <= 1 {
		return 0
	}
	return e.decide(n, "choose")
}

// block parks the current task until en returns true and the scheduler picks it.
func (e *exec) block(en func() bool, desc string) {
	if e.aborting {
		panic(abortT{})
	}
	t := e.cur
	t.en, t.desc = en, desc
	next := e.pick(t)
	if e.cfg.Trace {
		n := -1
		if next != nil {
			n = next.id
		}
		if len(e.trace) < 5000 {
			e.trace = append(e.trace, fmt.Sprintf("%d: task %d(%s) at %s -> %d", e.ndec, t.id, t.name, desc, n))
		}
	}
	if next == t {
		t.en, t.desc = nil, ""
		return
	}
	if next == nil {
		if e.cfg.KeepStacks {
			t.stack = string(debug.Stack())
		}
		close(e.finished)
		<-t.wake
		panic(abortT{})
	}
	e.cur = next
	e.switches++
	next.wake <- struct{}{}
	<-t.wake
	if e.aborting {
		if e.cfg.KeepStacks && t.stack == "" {
			t.stack = string(debug.Stack())
		}
		panic(abortT{})
	}
	t.en, t.desc = nil, ""
}

// Point is a scheduling point.
func Point(desc string) {
	e := cur
	if e == nil {
		return
	}
	e.block(nil, desc)
}

var stmtOn bool

// P is a statement level scheduling point.
func P() {
	if stmtOn {
		pSlow()
	}
}

func pSlow() {
	e := cur
	if e == nil || !e.cfg.StmtPoints || e.aborting || e.nostmt > 0 {
		return
	}
	e.block(nil, "stmt")
}

// NoStmt disables statement level points while fn runs.
func NoStmt(fn func()) {
	e := cur
	if e == nil {
		fn()
		return
	}
	e.nostmt++
	fn()
	e.nostmt--
}

// SetStmt enables or disables statement level points at run time.
func SetStmt(on bool) {
	if e := cur; e != nil {
		e.cfg.StmtPoints = on
		stmtOn = on
	}
}

// Block blocks the calling task until en is true. en must be side effect free.
func Block(desc string, en func() bool) {
	e := cur
	if e == nil {
		panic("vsched.Block outside execution")
	}
	e.block(en, desc)
}

// Aborting returns whether the execution is being torn down.
func Aborting() bool { return cur != nil && cur.aborting }

// Fatal reports an unrecoverable runtime error.
func Fatal(msg string) {
	e := cur
	if e == nil {
		fmt.Fprintln(os.Stderr, "fatal error:", msg)
		os.Exit(2)
	}
	if e.aborting {
		return
	}
	e.setFail("fatal", msg+"\n"+string(debug.Stack()))
	close(e.finished)
	<-e.cur.wake
	panic(abortT{})
}

// Quiesce blocks until no other task can make progress without time passing.
// At most `fires` timer expirations are allowed while waiting.
func Quiesce(fires int) {
	e := cur
	if e == nil {
		return
	}
	t := e.cur
	t.idle = true
	e.idleFire = fires
	e.block(nil, "quiesce")
	t.idle = false
	e.idleFire = 0
}

// Blocked returns descriptions of all other tasks that are still alive.
func Blocked() []string {
	e := cur
	if e == nil {
		return nil
	}
	var res []string
	for _, t := range e.live {
		if t != e.cur {
			res = append(res, fmt.Sprintf("task %d(%s): %s", t.id, t.name, t.desc))
		}
	}
	return res
}

// TaskID returns id of the current task.
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.cur.id
}

// ---------- virtual time ----------

// Now returns virtual time.
func Now() time.Time {
	e := cur
	if e == nil {
		return time.Now()
	}
	return Epoch.Add(e.now)
}

// Advance moves the virtual clock without firing timers that are not yet due.
func Advance(d time.Duration) {
	e := cur
	if e == nil {
		return
	}
	e.now += d
	for {
		var first *timer
		for _, t := range e.timers {
			if t.when <= e.now && (first == nil || t.when < first.when || (t.when == first.when && t.seq < first.seq)) {
				first = t
			}
		}
		if first == nil {
			return
		}
		now := e.now
		e.fireTimer(first)
		e.now = now
	}
}

func (e *exec) fireTimer(t *timer) {
	if t.when > e.now {
		e.now = t.when
	}
	if t.period > 0 {
		t.when = e.now + t.period
		e.tseq++
		t.seq = e.tseq
	} else {
		t.on = false
		for i, o := range e.timers {
			if o == t {
				e.timers = append(e.timers[:i:i], e.timers[i+1:]...)
				break
			}
		}
	}
	t.fire()
}

func (e *exec) fireEarliest() {
	sort.SliceStable(e.timers, func(i, j int) bool {
		if e.timers[i].when != e.timers[j].when {
			return e.timers[i].when < e.timers[j].when
		}
		return e.timers[i].seq < e.timers[j].seq
	})
	e.fireTimer(e.timers[0])
}

// AddTimer registers a virtual timer; fire is called in scheduler context and must not block.
func AddTimer(d, period time.Duration, fire func()) *Timer {
	e := cur
	if d < 0 {
		d = 0
	}
	e.tseq++
	t := &timer{when: e.now + d, seq: e.tseq, fire: fire, period: period, on: true}
	e.timers = append(e.timers, t)
	return &Timer{t}
}

// Stop the timer; returns whether it was active.
func (t *Timer) Stop() bool {
	e := cur
	if t == nil || t.t == nil || !t.t.on || e == nil {
		return false
	}
	t.t.on = false
	for i, o := range e.timers {
		if o == t.t {
			e.timers = append(e.timers[:i:i], e.timers[i+1:]...)
			break
		}
	}
	return true
}

// Sleep in virtual time.
func Sleep(d time.Duration) {
	e := cur
	if e == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		e.block(nil, "sleep0")
		return
	}
	fired := false
	AddTimer(d, 0, func() { fired = true })
	e.block(func() bool { return fired }, "sleep")
}

// Pending returns number of pending timers.
func PendingTimers() int {
	if cur == nil {
		return 0
	}
	return len(cur.timers)
}

