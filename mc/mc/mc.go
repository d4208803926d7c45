// Package mc is a small bounded-exhaustive model checking driver.
//
// A check is a list of families.  A family completely enumerates a finite set
// of cases (inputs, programs, histories, schedules), split into deterministic
// tasks, and judges each case against a reference model.  Tasks run in worker
// subprocesses, so that a fatal error or a hang of the code under test is
// attributed to a case instead of ending the check.
package mc

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// Tier of a run.
type Tier int

// Tiers.
const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Pick returns q in the quick tier and t in the thorough tier.
func (t Tier) Pick(q, th int) int {
	if t == Thorough {
		return th
	}
	return q
}

// Gen is one task of a family: a deterministic enumeration of cases.
type Gen[T any] struct {
	ID   string
	Each func(yield func(T))
}

// Family of cases.
type Family struct {
	// Large says that the cases are so large that running out of time or memory
	// says nothing: the rest of the task is given up, not reported.
	Large bool

	Name string
	Doc  string

	// Tasks lists the task names for the tier.
	Tasks func(Tier) []string
	run   func(w *W, t Tier, task int)
	check func(w *W, raw json.RawMessage) error
}

// Stats of an exploration.
type Stats struct {
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Samples     []Sample         `json:"samples,omitempty"`
	Max         map[string]int64 `json:"max,omitempty"`
}

// Sample is an actual case with its position in the task.
type Sample struct {
	Task string          `json:"task"`
	N    int64           `json:"n"`
	Case json.RawMessage `json:"case"`
}

// W is the worker context passed to checks.
type W struct {
	Tier  Tier
	Stats Stats
	Task  string

	// Local is storage for checks that lasts for one task.
	Local map[string]interface{}

	// Scratch is per-process storage for checks.
	Scratch map[string]interface{}

	cur       atomic.Value // holder
	ncase     atomic.Int64
	alive     atomic.Int64
	large     atomic.Bool
	stop      atomic.Bool
	viol      func(c json.RawMessage, msg string)
	tracefile *os.File
	until     string // stop after this case (task replay)
	traced    int64
	later     []func() error
	ints      map[string][]*big.Int
}

type holder struct{ v interface{} }

func newW(t Tier) *W {
	w := &W{Tier: t, Scratch: map[string]interface{}{}}
	w.reset("")
	return w
}

func (w *W) reset(task string) {
	w.Task = task
	w.later = nil
	w.ints = map[string][]*big.Int{}
	w.Local = map[string]interface{}{}
	w.Stats = Stats{Outcomes: map[string]int64{}, Max: map[string]int64{}}
}

// Step counts n transitions of the reference model.
func (w *W) Step(n int) { w.Stats.Transitions += int64(n) }

// State counts n further states (one per case is counted automatically).
func (w *W) State(n int) { w.Stats.States += int64(n) }

// Trace counts n complete model runs compared with the implementation.
func (w *W) Trace(n int) { w.Stats.Traces += int64(n) }

// Outcome records an observed class of outcome.
func (w *W) Outcome(s string) { w.Stats.Outcomes[s]++ }

// Max records a maximum.
func (w *W) Max(key string, v int) {
	if int64(v) > w.Stats.Max[key] {
		w.Stats.Max[key] = int64(v)
	}
}

// Alive tells the watchdog that a long case makes progress.
func (w *W) Alive() { w.alive.Add(1) }

// Ints returns integers with the given values: the same objects, in the same
// slice, for every call with this key in a task. A caller may use its variables
// again; what was remembered about them is then out of date.
func (w *W) Ints(key string, values []*big.Int) []*big.Int {
	xs := w.ints[key]
	if xs == nil {
		xs = make([]*big.Int, 0, 256)
	}
	if cap(xs) < len(values) {
		xs = append(make([]*big.Int, 0, 2*len(values)), xs...)
	}
	for len(xs) < len(values) {
		xs = append(xs, new(big.Int))
	}
	for i, v := range values {
		xs[i].Set(v)
	}
	w.ints[key] = xs
	return xs[:len(values):len(values)]
}

// Reuse calls f with the values of the call before, and at once with the given
// ones in the same objects.
func (w *W) Reuse(key string, values []*big.Int, f func(xs []*big.Int)) {
	if old, ok := w.Local["ints:"+key].([]*big.Int); ok {
		f(w.Ints(key, old))
	}
	kept := make([]*big.Int, len(values))
	for i, v := range values {
		kept[i] = new(big.Int).Set(v)
	}
	w.Local["ints:"+key] = kept
	f(w.Ints(key, values))
}

// Later registers what must still hold of the results of this case after the
// next case of the task has been run.
func (w *W) Later(f func() error) { w.later = append(w.later, f) }

// afterwards runs what earlier cases have registered.
func (w *W) afterwards(fs []func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("after this case, the previous case: panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
		}
	}()
	for _, f := range fs {
		if err := f(); err != nil {
			return fmt.Errorf("after this case, the previous case no longer holds: %w", err)
		}
		w.Stats.Transitions++
	}
	return nil
}

// Stopped reports whether the deadline has passed. Long enumerations that do
// not emit cases should poll it.
func (w *W) Stopped() bool { return w.stop.Load() }

var errStop = errors.New("stop enumeration")

// NewFamily builds a family from an enumeration plan and a check function.
func NewFamily[T any](name, doc string, plan func(Tier) []Gen[T], check func(w *W, c T) error) *Family {
	guarded := func(w *W, c T) (err error) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok && e == errStop {
					panic(r)
				}
				err = fmt.Errorf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
			}
		}()
		return check(w, c)
	}
	return &Family{
		Name: name,
		Doc:  doc,
		Tasks: func(t Tier) []string {
			var ids []string
			for _, g := range plan(t) {
				ids = append(ids, g.ID)
			}
			return ids
		},
		run: func(w *W, t Tier, task int) {
			g := plan(t)[task]
			next := int64(1)
			g.Each(func(c T) {
				if w.stop.Load() {
					panic(errStop)
				}
				w.cur.Store(holder{c})
				n := w.ncase.Add(1)
				w.Stats.Cases++
				w.Stats.States++
				if w.tracefile != nil {
					w.trace(c)
				}
				if w.Stats.Cases == next {
					next *= 10
					if raw, err := json.Marshal(c); err == nil && len(raw) < 2000 {
						w.Stats.Samples = append(w.Stats.Samples, Sample{Task: g.ID, N: w.Stats.Cases, Case: raw})
					}
				}
				_ = n
				earlier := w.later
				w.later = nil
				err := guarded(w, c)
				if err == nil {
					err = w.afterwards(earlier)
				}
				if err != nil {
					raw, merr := json.Marshal(c)
					if merr != nil {
						raw, _ = json.Marshal(fmt.Sprintf("%+v", c))
					}
					w.viol(raw, err.Error())
					if w.until != "" && string(raw) == w.until {
						panic(errStop)
					}
				}
			})
		},
		check: func(w *W, raw json.RawMessage) error {
			var c T
			if err := json.Unmarshal(raw, &c); err != nil {
				return fmt.Errorf("bad replay case: %w", err)
			}
			w.cur.Store(holder{c})
			return guarded(w, c)
		},
	}
}

func (w *W) trace(c interface{}) {
	raw, err := json.Marshal(c)
	if err != nil {
		return
	}
	raw = append(raw, '\n')
	_, _ = w.tracefile.WriteAt(raw, 0)
	_ = w.tracefile.Truncate(int64(len(raw)))
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Single is a plan with a single task.
func Single[T any](id string, each func(yield func(T))) []Gen[T] {
	return []Gen[T]{{ID: id, Each: each}}
}

// Shards splits an enumeration into n tasks: each is called with the shard
// number and is expected to enumerate the cases for which Mine(i) holds.
func Shards[T any](id string, n int, each func(shard, n int, yield func(T))) []Gen[T] {
	var gs []Gen[T]
	for s := 0; s < n; s++ {
		s := s
		gs = append(gs, Gen[T]{
			ID:   fmt.Sprintf("%s/%d-of-%d", id, s, n),
			Each: func(yield func(T)) { each(s, n, yield) },
		})
	}
	return gs
}

// Errorf is fmt.Errorf.
func Errorf(format string, args ...interface{}) error { return fmt.Errorf(format, args...) }

// Since is a helper for coarse timing.
func Since(t time.Time) float64 { return time.Since(t).Seconds() }

// Deep explores the families at the bounds of the thorough tier in every tier.
func Deep(fs ...*Family) {
	for _, f := range fs {
		tasks, run := f.Tasks, f.run
		f.Tasks = func(Tier) []string { return tasks(Thorough) }
		f.run = func(w *W, _ Tier, task int) { run(w, Thorough, task) }
		f.Doc += " [bounds of the thorough tier in both]"
	}
}
