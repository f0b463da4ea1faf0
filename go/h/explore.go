//go:build go1.21

package h

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// Scenario is a closed concurrent program whose schedules are enumerated.
type Scenario struct {
	Name string
	// Body runs as the main task. It returns an error when the property is violated.
	// outcome is a string characterising the end state (for state counting).
	Body func() (outcome string, err error)
	// Policies to use as base schedules (default 0,1).
	Policies []int
	// Bound is the maximum number of deviations from the base schedule.
	Bound      int
	TimerDevs  bool
	StmtPoints bool
	MaxSteps   int
	Fair       int // see vsched.Config
	// Key of a violation, default Name.
	Key func(err error) string
	// From/To restrict deviations to decisions in window [From,To) (0: all), set by the body through Window.
	MaxExecs int
	// Slice limits the time spent on this scenario (0: until the check's deadline).
	Slice time.Duration
	// Extra scenarios go beyond the stated bound: stopping them early does not
	// make the check incomplete.
	Extra bool
}

type execOut struct {
	res     *vsched.Result
	outcome string
	err     error
}

func (c *Ctx) runOnce(sc *Scenario, pol int, devs []vsched.Dev, record, keep bool) execOut {
	c.Begin(func() string { return sc.Name + " " + devString(pol, devs) })
	var o execOut
	o.res = vsched.Run(vsched.Config{Devs: devs, Policy: pol, Record: record, TimerDevs: sc.TimerDevs,
		StmtPoints: sc.StmtPoints, MaxSteps: sc.MaxSteps, Fair: sc.Fair, KeepStacks: keep, Trace: keep}, func() {
		o.outcome, o.err = sc.Body()
	})
	if f := o.res.Fail; f != nil {
		o.err = fmt.Errorf("%s: %s", f.Kind, f.Msg)
	}
	return o
}

func devString(pol int, devs []vsched.Dev) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "policy=%d devs=[", pol)
	for i, d := range devs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%d:%d", d.Pos, d.Alt)
	}
	sb.WriteString("]")
	return sb.String()
}

// Explore enumerates all schedules of the scenario with at most Bound deviations
// from each base policy. First-level deviations are distributed over the workers.
func (c *Ctx) Explore(sc Scenario) {
	if sc.Policies == nil {
		sc.Policies = []int{0, 1}
	}
	if v := os.Getenv("VH_POL"); v != "" {
		// Development: other base schedules.
		sc.Policies = nil
		for _, x := range strings.Split(v, ",") {
			n, _ := strconv.Atoi(x)
			sc.Policies = append(sc.Policies, n)
		}
	}
	start := time.Now()
	execs := 0
	complete := true
	maxDec := 0
	key := func(err error) string {
		if sc.Key != nil {
			return sc.Key(err)
		}
		return sc.Name
	}
	report := func(pol int, devs []vsched.Dev, o execOut) {
		// Must reproduce.
		r := c.runOnce(&sc, pol, devs, true, true)
		if r.err == nil {
			c.Errorf("%s: violation did not reproduce (%s): %v", sc.Name, devString(pol, devs), o.err)
			return
		}
		tr := strings.Join(r.res.TraceLog, "\n")
		if len(tr) > 20000 {
			tr = tr[len(tr)-20000:]
		}
		c.Violate(key(o.err), fmt.Sprintf("scenario %s, schedule %s\n%s", sc.Name, devString(pol, devs), tr),
			"scenario %s, schedule %s: %v", sc.Name, devString(pol, devs), r.err)
	}
	for _, pol := range sc.Policies {
		root := c.runOnce(&sc, pol, nil, true, false)
		execs++
		c.Trace(1)
		c.Trans(root.res.Steps)
		if len(root.res.Decisions) > maxDec {
			maxDec = len(root.res.Decisions)
		}
		if root.err != nil {
			if c.Shard == 0 || true {
				report(pol, nil, root)
			}
			return
		}
		c.State(fmt.Sprintf("%s|%s", sc.Name, root.outcome))
		type node struct {
			devs []vsched.Dev
			n    int // expected number of options at last dev
		}
		var stack []node
		k := 0
		push := func(devs []vsched.Dev, dec []vsched.Decision, top bool) {
			from := 0
			var order []int
			if sc.Slice > 0 {
				order = spread(len(dec) - devFrom(devs))
			}
			if len(devs) > 0 {
				from = devs[len(devs)-1].Pos + 1
			}
			for i := len(dec) - 1 - from; i >= 0; i-- {
				p := from + i
				if sc.Slice > 0 && len(order) > 0 {
					// Spread partial coverage over the whole execution.
					if i >= len(order) {
						continue
					}
					p = from + order[i]
				}
				for a := 1; a < dec[p].N; a++ {
					if top {
						k++
						if (k-1)%c.NShards != c.Shard {
							continue
						}
					}
					nd := make([]vsched.Dev, len(devs)+1)
					copy(nd, devs)
					nd[len(devs)] = vsched.Dev{Pos: p, Alt: a}
					stack = append(stack, node{nd, dec[p].N})
				}
			}
		}
		if sc.Bound > 0 {
			push(nil, root.res.Decisions, true)
		}
		for len(stack) > 0 {
			if execs&15 == 0 && (c.timeUp(!sc.Extra) || sc.Slice > 0 && time.Since(start) > sc.Slice) || sc.MaxExecs > 0 && execs > sc.MaxExecs {
				complete = false
				break
			}
			nd := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			o := c.runOnce(&sc, pol, nd.devs, true, false)
			execs++
			c.Trace(1)
			c.Trans(o.res.Steps)
			if len(o.res.Decisions) > maxDec {
				maxDec = len(o.res.Decisions)
			}
			if o.res.BadReplay {
				c.Errorf("%s: nondeterministic replay %s", sc.Name, devString(pol, nd.devs))
				complete = false
				continue
			}
			if o.err != nil {
				report(pol, nd.devs, o)
				return
			}
			c.State(fmt.Sprintf("%s|%s", sc.Name, o.outcome))
			if len(nd.devs) < sc.Bound {
				push(nd.devs, o.res.Decisions, false)
			}
		}
	}
	kind := fmt.Sprintf("schedules with <=%d deviations", sc.Bound)
	if sc.StmtPoints {
		kind += " at statement level"
	}
	c.Count(kind, execs)
	if !complete {
		c.Count(kind+": scenarios cut off by time (per worker)", 1)
	} else {
		c.Count(kind+": scenarios complete (per worker)", 1)
	}
	if c.WantSample() {
		c.Sample(map[string]any{"scenario": sc.Name, "deviation_bound": sc.Bound, "policies": sc.Policies, "schedules_this_worker": execs,
			"max_decisions": maxDec, "complete": complete, "seconds": time.Since(start).Seconds()})
	}
	if !complete && !sc.Extra {
		c.mu.Lock()
		c.res.Incomplete = true
		c.mu.Unlock()
	}
}

func devFrom(devs []vsched.Dev) int {
	if len(devs) == 0 {
		return 0
	}
	return devs[len(devs)-1].Pos + 1
}

// spread returns a permutation of 0..n-1 that covers the range evenly.
func spread(n int) []int {
	if n <= 0 {
		return nil
	}
	step := n*618/1000 | 1
	for gcd(step, n) != 1 {
		step++
	}
	r := make([]int, n)
	for i := range r {
		r[i] = i * step % n
	}
	return r
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// ExploreAll explores the scenarios, dividing the remaining time among them.
// Time not used by one is available to the following.
func (c *Ctx) ExploreAll(scs []Scenario) {
	for i, sc := range scs {
		if c.Stopped() || c.timeUp(!sc.Extra) {
			return
		}
		sc.Slice = time.Until(c.Deadline) / time.Duration(len(scs)-i)
		c.Explore(sc)
	}
}

// Seq runs fn under the default deterministic schedule (no exploration).
// Returns scheduler failures (deadlock, panic, fatal error, livelock) as error.
func Seq(pol int, fn func() error) error {
	var err error
	res := vsched.Run(vsched.Config{Policy: pol, MaxSteps: 60000000}, func() { err = fn() })
	if res.Fail != nil {
		return fmt.Errorf("%s: %s", res.Fail.Kind, res.Fail.Msg)
	}
	return err
}

// Wait group helper: runs fns as concurrent tasks and waits for all of them.
func Par(fns ...func()) {
	n := len(fns)
	for i, f := range fns {
		f := f
		vsched.GoNamed(fmt.Sprintf("T%d", i+1), func() {
			f()
			n--
		})
	}
	vsched.Block("join", func() bool { return n == 0 })
}

// Sorted keys helper.
func SortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
