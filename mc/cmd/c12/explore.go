package main

import (
	"fmt"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/vsched"
)

// theT is the test that bubbles hang on.
var theT *testing.T

// policy picks among the enabled goroutines: it returns the candidate choices
// in order of preference, each with its cost in preemptions.
type policy func(en []vsched.Enabled, cur uint64, step int) (choices []int, costs []int)

// preemptive explores all schedules: continuing the running goroutine is free,
// as is any choice when it cannot continue; a preemption costs one.
func preemptive(en []vsched.Enabled, cur uint64, step int) (choices, costs []int) {
	running := -1
	for i, e := range en {
		if e.ID == cur && !e.Gate {
			running = i
		}
	}
	if running >= 0 {
		choices, costs = append(choices, running), append(costs, 0)
	}
	for i := range en {
		if i != running {
			c := 0
			if running >= 0 {
				c = 1
			}
			choices, costs = append(choices, i), append(costs, c)
		}
	}
	return
}

// completions runs everything that is not at a gate in creation order, and
// explores the order in which gates open.
func completions(en []vsched.Enabled, cur uint64, step int) (choices, costs []int) {
	for i, e := range en {
		if !e.Gate {
			return []int{i}, []int{0}
		}
	}
	for i := range en {
		choices, costs = append(choices, i), append(costs, 0)
	}
	return
}

const maxsteps = 20000

// fair is how long one goroutine may run while others wait.
const fair = 600

type decision struct{ n, chosen int }

type outcome struct {
	steps     int
	decisions []decision
	deadlock  bool
	long      bool
	diverged  bool
}

// schedule runs body under the scheduler following the prefix of choices. It
// must be called inside a bubble.
func schedule(body func(), done func() bool, pol policy, bound int, prefix []int) (o outcome) {
	vsched.RaceOff()
	defer vsched.RaceOn()
	s := &vsched.Sched{}
	vsched.Start(s)
	defer vsched.Start(nil)
	defer s.Drain()
	vsched.RaceOn()
	go body()
	vsched.RaceOff()
	var buf [256]vsched.Enabled
	cur, same, waited := uint64(0), 0, 0
	for {
		synctest.Wait()
		en := s.Enabled(buf[:0])
		if len(en) == 0 {
			if done() {
				return o
			}
			// Let timers of the code under test fire.
			if waited++; waited > 3 {
				o.deadlock = true
				return o
			}
			time.Sleep(time.Hour)
			continue
		}
		waited = 0
		if o.steps++; o.steps > maxsteps {
			o.long = true
			return o
		}
		choices, costs := pol(en, cur, o.steps)
		if same > fair && len(en) > 1 {
			// Rotate away from a goroutine that waits by spinning.
			choices, costs = nil, nil
			for i, e := range en {
				if e.ID > cur {
					choices, costs = []int{i}, []int{0}
					break
				}
			}
			if choices == nil {
				choices, costs = []int{0}, []int{0}
			}
		}
		k := 0
		for k < len(choices) && costs[k] <= bound {
			k++
		}
		pick := 0
		if d := len(o.decisions); d < len(prefix) {
			pick = prefix[d]
			if pick >= k {
				o.diverged = true
				return o
			}
		}
		o.decisions = append(o.decisions, decision{k, pick})
		bound -= costs[pick]
		id := en[choices[pick]].ID
		if id == cur {
			same++
		} else {
			cur, same = id, 0
		}
		s.Release(id)
	}
}

// bubble runs f in a synctest bubble. Goroutines that f leaves blocked are
// reported as leaked.
func bubble(f func()) (leaked bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && e.Error() != "" && isDeadlock(e) {
				leaked = true
				return
			}
			panic(r)
		}
	}()
	synctest.Test(theT, func(*testing.T) { f() })
	return false
}

func isDeadlock(e error) bool {
	s := e.Error()
	return len(s) >= 8 && s[:8] == "deadlock"
}

const splitAt = 24

func sameDecisions(a, b []decision) bool {
	for i := 0; i < splitAt; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// explore enumerates every schedule. setup returns a fresh instance of the
// system: its body, whether it has ended, and its final judgement.
//
// With parts > 1 only the subtrees below depth splitAt whose index is part
// modulo parts are explored.
func explore(w *mc.W, pol policy, bound, part, parts int, setup func() (body func(), done func() bool, judge func() error)) error {
	runtime.GOMAXPROCS(1)
	var failure error
	leak := bubble(func() {
		var prefix []int
		var last []decision
		subtree := -1
		for {
			body, done, judge := setup()
			o := schedule(body, done, pol, bound, prefix)
			synctest.Wait()
			skip := false
			if parts > 1 {
				if last == nil || len(o.decisions) < splitAt || len(last) < splitAt || !sameDecisions(last, o.decisions) {
					subtree++
					last = append([]decision{}, o.decisions...)
				}
				skip = subtree%parts != part
			}
			w.Alive()
			w.State(1)
			w.Trace(1)
			w.Step(o.steps)
			w.Max("steps-per-schedule", o.steps)
			path := func() string {
				s := ""
				for _, d := range o.decisions {
					s += fmt.Sprint(d.chosen)
				}
				return s
			}
			switch {
			case o.diverged:
				w.Outcome("diverged")
				return
			case o.long:
				// Without a verdict: the code polls.
				w.Outcome("schedule-without-end")
				if done() {
					failure = judge()
				}
				if failure != nil {
					failure = fmt.Errorf("schedule %s: %w", path(), failure)
				}
				return
			case o.deadlock:
				failure = fmt.Errorf("schedule %s: every goroutine waits and Execute has not returned", path())
				return
			}
			if err := judge(); err != nil {
				failure = fmt.Errorf("schedule %s: %w", path(), err)
				return
			}
			// Next schedule in depth first order.
			ds := o.decisions
			if skip && len(ds) > splitAt {
				ds = ds[:splitAt]
			}
			for len(ds) > 0 && ds[len(ds)-1].chosen+1 >= ds[len(ds)-1].n {
				ds = ds[:len(ds)-1]
			}
			if len(ds) == 0 {
				return
			}
			prefix = prefix[:0]
			for _, d := range ds {
				prefix = append(prefix, d.chosen)
			}
			prefix[len(prefix)-1]++
			if w.Stopped() {
				w.Outcome("cut-by-deadline")
				return
			}
		}
	})
	if leak {
		w.Outcome("goroutine-leaked")
	}
	return failure
}
