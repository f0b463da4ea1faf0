//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// bstate monitors one bucket.
type bstate struct {
	b      rankdb.Bucket
	k      int
	holds  int
	max    int
	failed string
}

func (s *bstate) enter() {
	s.holds++
	if s.holds > s.max {
		s.max = s.holds
	}
	if s.holds > s.k && s.failed == "" {
		s.failed = fmt.Sprintf("%d holders of %d tokens", s.holds, s.k)
	}
}

func (s *bstate) leave() { s.holds-- }

// Behaviours of a task.
var bucketTasks = map[string]func(s *bstate){
	"G": func(s *bstate) { // get, use, release
		t := s.b.Get()
		s.enter()
		vsched.Point("use")
		s.leave()
		t.Release()
	},
	"GG": func(s *bstate) { // twice in a row
		for i := 0; i < 2; i++ {
			t := s.b.Get()
			s.enter()
			vsched.Point("use")
			s.leave()
			t.Release()
		}
	},
	"H": func(s *bstate) { // handed over to another goroutine which releases
		t := s.b.Get()
		s.enter()
		vsched.Go(func() {
			vsched.Point("use")
			s.leave()
			t.Release()
		})
	},
	"D": func(s *bstate) { // direct use of the channel, as documented
		vsched.Recv((<-chan struct{})(s.b))
		s.enter()
		vsched.Point("use")
		s.leave()
		vsched.Send((chan<- struct{})(s.b))(struct{}{})
	},
	"T": func(s *bstate) { // try once, give up if there is none
		if i, _, _ := vsched.Select(true, vsched.RecvCase((<-chan struct{})(s.b))); i == 0 {
			s.enter()
			vsched.Point("use")
			s.leave()
			vsched.Send((chan<- struct{})(s.b))(struct{}{})
		}
	},
	"C": func(s *bstate) { // wait for a token or for a cancellation that comes at some point
		stop := vsched.MakeChan[struct{}](0)
		vsched.Go(func() { vsched.Close(stop) })
		if i, _, _ := vsched.Select(false, vsched.RecvCase((<-chan struct{})(stop)), vsched.RecvCase((<-chan struct{})(s.b))); i == 1 {
			s.enter()
			vsched.Point("use")
			s.leave()
			vsched.Send((chan<- struct{})(s.b))(struct{}{})
		}
	},
}

func c26(c *h.Ctx) {
	var scs []h.Scenario
	names := []string{"G", "GG", "H", "D", "T", "C"}
	maxTasks := 3
	bound := h.Pick(c, 4, 5)
	var rec func(cur []string, from int)
	var combos [][]string
	rec = func(cur []string, from int) {
		if len(cur) > 0 {
			combos = append(combos, append([]string{}, cur...))
		}
		if len(cur) == maxTasks {
			return
		}
		for i := from; i < len(names); i++ {
			rec(append(cur[:len(cur):len(cur)], names[i]), i)
		}
	}
	rec(nil, 0)
	combos = append(combos, []string{"G", "G", "G", "G"}, []string{"G", "G", "D", "T"}, []string{"G", "H", "D", "C"})
	for k := 1; k <= 3; k++ {
		for _, cb := range combos {
			k, cb := k, cb
			b := bound
			if len(cb) == 4 {
				b = bound - 1
			}
			scs = append(scs, h.Scenario{Name: fmt.Sprintf("%d tokens, tasks %s", k, strings.Join(cb, " ")), Bound: b, Policies: []int{0, 1, 5},
				Body: func() (string, error) { return bucketBody(k, cb, 0) }})
		}
		for extra := 0; extra <= 2; extra++ {
			k, extra := k, extra
			var cb []string
			for i := 0; i < extra; i++ {
				cb = append(cb, []string{"G", "D"}[i])
			}
			scs = append(scs, h.Scenario{Name: fmt.Sprintf("%d tokens all held at the same time, tasks %s", k, strings.Join(cb, " ")), Bound: bound - 1, Policies: []int{0, 1, 5},
				Body: func() (string, error) { return bucketBody(k, cb, k) }})
		}
	}
	for _, sc := range scs {
		if c.Expired() {
			break
		}
		c.Explore(sc)
	}
	c.Bound("deviations", bound)
	c.Bound("tasks", "1-4")
	c.Bound("tokens", "1-3")
}

func bucketBody(k int, tasks []string, barrier int) (string, error) {
	s := &bstate{b: rankdb.NewBucket(k), k: k}
	var fns []func()
	for _, t := range tasks {
		f := bucketTasks[t]
		fns = append(fns, func() { f(s) })
	}
	held := 0
	for i := 0; i < barrier; i++ {
		fns = append(fns, func() {
			t := s.b.Get()
			s.enter()
			held++
			vsched.Block("all hold a token", func() bool { return held >= barrier })
			s.leave()
			t.Release()
		})
	}
	h.Par(fns...)
	// Handed over tokens come back eventually.
	vsched.Block("all released", func() bool { return s.holds == 0 })
	if s.failed != "" {
		return "", fmt.Errorf("%s", s.failed)
	}
	// Exactly k tokens must be available now.
	var ts []rankdb.Token
	for i := 0; i < k; i++ {
		ts = append(ts, s.b.Get())
	}
	if i, _, _ := vsched.Select(true, vsched.RecvCase((<-chan struct{})(s.b))); i == 0 {
		return "", fmt.Errorf("more than %d tokens after all were returned", k)
	}
	for _, t := range ts {
		t.Release()
	}
	for i := 0; i < k; i++ {
		vsched.Recv((<-chan struct{})(s.b))
	}
	return fmt.Sprint("max holders ", s.max), nil
}
