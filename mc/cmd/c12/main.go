// Command c12 decides property C12 (parallel execution).
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/dict"
	algexec "github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/verifmc/algs"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
	"github.com/mmcloughlin/addchain/verifmc/vsched"
)

// Case is a configuration of the parallel executor, all schedules of which are
// explored.
type Case struct {
	Kinds string // one letter per algorithm
	Limit int
	Mode  string // preempt or complete
	Bound int    `json:",omitempty"`
	Log   bool   `json:",omitempty"`
	Part  int    `json:",omitempty"`
	Parts int    `json:",omitempty"`
}

// monitor observes the controlled algorithms of one execution.
type monitor struct {
	running, peak int
	entered, left [16]int
	after         bool
	late          bool
}

//go:norace
func (m *monitor) enter(i int) {
	m.running++
	if m.running > m.peak {
		m.peak = m.running
	}
	m.entered[i]++
	if m.after {
		m.late = true
	}
}

//go:norace
func (m *monitor) leave(i int) { m.running--; m.left[i]++ }

//go:norace
func (m *monitor) returned() { m.after = true }

// controlled is an algorithm whose progress the explorer decides.
type controlled struct {
	i    int
	kind byte
	gate bool
	m    *monitor
}

func (c *controlled) String() string {
	vsched.Point()
	return fmt.Sprintf("controlled(%d,%c)", c.i, c.kind)
}

func (c *controlled) FindChain(n *big.Int) (addchain.Chain, error) {
	c.m.enter(c.i)
	if c.gate {
		vsched.Gate()
	} else {
		vsched.Point()
	}
	ch, err := c.result(n)
	c.m.leave(c.i)
	return ch, err
}

func (c *controlled) result(n *big.Int) (addchain.Chain, error) {
	switch c.kind {
	case 'e':
		return nil, fmt.Errorf("failure of %d", c.i)
	case 'b':
		return addchain.Chain(ref.Big([]int64{1, 2, int64(40 + c.i)})), nil
	case 'w':
		x := new(big.Int).Add(n, big.NewInt(int64(c.i+1)))
		return addchain.Chain(ref.BinaryChain(x)), nil
	}
	// A chain that is different for each position.
	xs := ref.Union(ref.BinaryChain(n), ref.BinaryChain(big.NewInt(int64(3+c.i))))
	return addchain.Chain(xs), nil
}

const target = 201

func checkSchedules(w *mc.W, c Case) error {
	k := len(c.Kinds)
	n := big.NewInt(target)
	var solo []algexec.Result
	build := func(m *monitor) []alg.ChainAlgorithm {
		as := make([]alg.ChainAlgorithm, k)
		for i := range as {
			// A repeat is the very same algorithm value once more.
			if c.Kinds[i] == 'r' && i > 0 {
				as[i] = as[i-1]
				continue
			}
			as[i] = &controlled{i: i, kind: c.Kinds[i], gate: c.Bound < 3 || c.Mode == "complete", m: m}
		}
		return as
	}
	for _, a := range build(&monitor{}) {
		solo = append(solo, algexec.Execute(n, a))
	}
	pol := preemptive
	if c.Mode == "complete" {
		pol = completions
	}
	return explore(w, pol, c.Bound, c.Part, c.Parts, func() (func(), func() bool, func() error) {
		m := &monitor{}
		as := build(m)
		x := new(big.Int).Set(n)
		var rs []algexec.Result
		var atReturn error
		done := false
		body := func() {
			p := algexec.NewParallel()
			p.SetConcurrency(c.Limit)
			if c.Log {
				p.SetLogger(log.New(nowhere{}, "", 0))
			}
			rs = p.Execute(x, as)
			m.returned()
			atReturn = judge(c, m, as, x, n, rs, solo)
			finish(&done)
		}
		return body, func() bool { return read(&done) }, func() error {
			if atReturn != nil {
				return fmt.Errorf("when Execute returned: %w", atReturn)
			}
			if m.late {
				return errors.New("an algorithm started after Execute returned")
			}
			if err := judge(c, m, as, x, n, rs, solo); err != nil {
				return fmt.Errorf("after Execute returned: %w", err)
			}
			return nil
		}
	})
}

// Run is one call of Execute of a history.
type Run struct {
	Kinds string
	Limit int // 0 leaves the limit as it is
	N     int64
}

// History is a sequence of calls of Execute on one executor, or two at once,
// all schedules of which are explored.
type History struct {
	Runs  []Run
	Both  bool `json:",omitempty"` // at the same time
	Mode  string
	Bound int `json:",omitempty"`
}

// call is the state of one run of a history.
type call struct {
	c    Case
	m    *monitor
	as   []alg.ChainAlgorithm
	n, x *big.Int
	rs   []algexec.Result
	err  error
	done bool
}

func algorithms(kinds string, gate bool, m *monitor) []alg.ChainAlgorithm {
	as := make([]alg.ChainAlgorithm, len(kinds))
	for i := range as {
		if kinds[i] == 'r' && i > 0 {
			as[i] = as[i-1]
			continue
		}
		as[i] = &controlled{i: i, kind: kinds[i], gate: gate, m: m}
	}
	return as
}

func checkHistory(w *mc.W, c History) error {
	var solos [][]algexec.Result
	for _, r := range c.Runs {
		var solo []algexec.Result
		for _, a := range algorithms(r.Kinds, true, &monitor{}) {
			solo = append(solo, algexec.Execute(big.NewInt(r.N), a))
		}
		solos = append(solos, solo)
	}
	pol := preemptive
	if c.Mode == "complete" {
		pol = completions
	}
	return explore(w, pol, c.Bound, 0, 1, func() (func(), func() bool, func() error) {
		calls := make([]*call, len(c.Runs))
		limit := 1
		for i, r := range c.Runs {
			if r.Limit > 0 {
				limit = r.Limit
			}
			m := &monitor{}
			calls[i] = &call{c: Case{Kinds: r.Kinds, Limit: limit}, m: m, as: algorithms(r.Kinds, true, m), n: big.NewInt(r.N), x: big.NewInt(r.N)}
		}
		body := func() {
			p := algexec.NewParallel()
			for i, r := range c.Runs {
				k := calls[i]
				if r.Limit > 0 {
					p.SetConcurrency(r.Limit)
				}
				one := func() {
					k.rs = p.Execute(k.x, k.as)
					k.m.returned()
					k.err = judge(k.c, k.m, k.as, k.x, k.n, k.rs, solos[i])
					finish(&k.done)
				}
				if c.Both && i == 0 {
					go one()
				} else {
					one()
				}
			}
		}
		ended := func() bool {
			for _, k := range calls {
				if !read(&k.done) {
					return false
				}
			}
			return true
		}
		return body, ended, func() error {
			for i, k := range calls {
				if k.err != nil {
					return fmt.Errorf("when call %d returned: %w", i, k.err)
				}
				if k.m.late {
					return fmt.Errorf("an algorithm of call %d started after it returned", i)
				}
				if err := judge(k.c, k.m, k.as, k.x, k.n, k.rs, solos[i]); err != nil {
					return fmt.Errorf("call %d, after all calls: %w", i, err)
				}
			}
			return nil
		}
	})
}

//go:norace
func finish(b *bool) { *b = true }

//go:norace
func read(b *bool) bool { return *b }

// nowhere is a writer that log does not recognise as io.Discard, so that log
// lines are formatted.
type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

//go:norace
func judge(c Case, m *monitor, as []alg.ChainAlgorithm, x, n *big.Int, rs, solo []algexec.Result) error {
	want := map[int]int{}
	for i, a := range as {
		_ = i
		want[a.(*controlled).i]++
	}
	for i, k := range want {
		if m.left[i] != k || m.entered[i] != k {
			return fmt.Errorf("algorithm %d started %d and finished %d times, want %d", i, m.entered[i], m.left[i], k)
		}
	}
	if m.running != 0 {
		return fmt.Errorf("%d algorithms running", m.running)
	}
	if m.peak > c.Limit {
		return fmt.Errorf("%d algorithms ran at once, limit %d", m.peak, c.Limit)
	}
	if x.Cmp(n) != 0 {
		return fmt.Errorf("target is %v", x)
	}
	if len(rs) != len(as) {
		return fmt.Errorf("%d results for %d algorithms", len(rs), len(as))
	}
	for i := range rs {
		if rs[i].Algorithm != as[i] {
			return fmt.Errorf("result %d is not of algorithm %d", i, i)
		}
		if err := equal(rs[i], solo[i]); err != nil {
			return fmt.Errorf("result %d: %w", i, err)
		}
	}
	return nil
}

// equal compares a result with that of the algorithm alone.
func equal(r, s algexec.Result) error {
	if r.Target == nil || r.Target.Cmp(s.Target) != 0 {
		return fmt.Errorf("target %v, alone %v", r.Target, s.Target)
	}
	if (r.Err == nil) != (s.Err == nil) || r.Err != nil && r.Err.Error() != s.Err.Error() {
		return fmt.Errorf("error %v, alone %v", r.Err, s.Err)
	}
	if (r.Chain == nil) != (s.Chain == nil) || !ref.Equal(r.Chain, s.Chain) {
		return fmt.Errorf("chain %v, alone %v", r.Chain, s.Chain)
	}
	if len(r.Program) != len(s.Program) {
		return fmt.Errorf("program %v, alone %v", r.Program, s.Program)
	}
	for i := range r.Program {
		if r.Program[i] != s.Program[i] {
			return fmt.Errorf("program %v, alone %v", r.Program, s.Program)
		}
	}
	return nil
}

// Pair interrupts one algorithm of the ensemble at every step by a complete
// run of another, on the same target object.
type Pair struct {
	A, B int
	N    string
	Set  string `json:",omitempty"`
}

func members(w *mc.W, set string) []algs.Chain {
	if set == "others" {
		v, ok := w.Scratch[set]
		if !ok {
			v = others()
			w.Scratch[set] = v
		}
		return v.([]algs.Chain)
	}
	if v, ok := w.Scratch["members"]; ok {
		return v.([]algs.Chain)
	}
	v := append(algs.Ensemble(), algs.Direct(algs.Filter(algs.Seqs(2), algs.Log, algs.Log))...)
	w.Scratch["members"] = v
	return v
}

// others are the configurations outside the ensemble: every strategy and
// composition single, in runs and in dictionaries of each sort, optimised and
// not.
func others() []algs.Chain {
	ss := algs.Filter(algs.Seqs(2), algs.Log, algs.Exponential)
	ds := []algs.Decomposer{
		{Name: "fixed", D: dict.FixedWindow{K: 2}},
		{Name: "sliding", D: dict.SlidingWindow{K: 3}},
		{Name: "runs", D: dict.RunLength{T: 2}},
		{Name: "hybrid", D: dict.Hybrid{K: 2, T: 3}},
	}
	return algs.WithOpt(append(append(algs.Direct(ss), algs.Runs(ss)...), algs.Dict(ds, ss)...))
}

func list(set string) []algs.Chain {
	if set == "others" {
		return others()
	}
	return algs.Ensemble()
}

func checkPair(w *mc.W, c Pair) error {
	runtime.GOMAXPROCS(1)
	as := members(w, c.Set)
	a, b := as[c.A%len(as)], as[c.B%len(as)]
	n := ref.Int(c.N)
	vsched.CountSteps(0)
	soloA := algexec.Execute(new(big.Int).Set(n), a.Alg)
	total := vsched.EndSteps()
	soloB := algexec.Execute(new(big.Int).Set(n), b.Alg)
	if soloA.Err != nil || soloB.Err != nil {
		return fmt.Errorf("alone: %v, %v", soloA.Err, soloB.Err)
	}
	keepA, keepB := clone(soloA), clone(soloB)
	if total == 0 {
		w.Outcome("not-instrumented")
	}
	w.Max("steps-of-an-algorithm", total)
	var failure error
	leak := bubble(func() {
		for stop := 1; stop <= total+1; stop++ {
			x := new(big.Int).Set(n)
			var ra, rb algexec.Result
			var doneA, doneB bool
			var idA uint64
			pol := func(en []vsched.Enabled, cur uint64, step int) ([]int, []int) {
				// B first whenever it exists and can run.
				for i, e := range en {
					if e.ID != idA {
						return []int{i}, []int{0}
					}
				}
				return []int{0}, []int{0}
			}
			o := schedule(func() {
				vsched.Gate()
				idA = vsched.Self()
				go func() {
					vsched.Gate()
					rb = algexec.Execute(x, b.Alg)
					finish(&doneB)
				}()
				vsched.CountSteps(stop)
				ra = algexec.Execute(x, a.Alg)
				vsched.EndSteps()
				finish(&doneA)
			}, func() bool { return read(&doneA) && read(&doneB) }, holdB(pol, &idA), 0, nil)
			w.Alive()
			w.State(1)
			w.Trace(1)
			w.Step(stop)
			err := func() error {
				if o.deadlock {
					return errors.New("both wait forever")
				}
				if o.long {
					w.Outcome("schedule-without-end")
					return nil
				}
				if x.Cmp(n) != 0 {
					return fmt.Errorf("target changed to %v", x)
				}
				if err := equal(ra, soloA); err != nil {
					return fmt.Errorf("the interrupted %s: %w", a.Alg, err)
				}
				if err := equal(rb, soloB); err != nil {
					return fmt.Errorf("the interrupting %s: %w", b.Alg, err)
				}
				return nil
			}()
			if err == nil && (equal(soloA, keepA) != nil || equal(soloB, keepB) != nil) {
				err = errors.New("an earlier result changed")
			}
			if err != nil {
				failure = fmt.Errorf("interrupted at step %d: %w", stop, err)
				return
			}
			if w.Stopped() {
				w.Outcome("cut-by-deadline")
				return
			}
		}
	})
	if leak && failure == nil {
		w.Outcome("goroutine-leaked")
	}
	return failure
}

// holdB keeps the second goroutine back until the first has reached its step
// (or has ended).
func holdB(then policy, idA *uint64) policy {
	started := false
	return func(en []vsched.Enabled, cur uint64, step int) ([]int, []int) {
		if !started {
			// A parks first at its own gate, then at its step with B at its gate.
			if step == 1 {
				return []int{0}, []int{0}
			}
			started = true
		}
		return then(en, cur, step)
	}
}

func clone(r algexec.Result) algexec.Result {
	r.Chain = addchain.Chain(ref.Clone(r.Chain))
	r.Program = append(addchain.Program{}, r.Program...)
	return r
}

// Free runs the parallel executor with the ensemble without control.
type Free struct {
	N     string
	Limit int
	Procs int
	Log   bool
	Set   string `json:",omitempty"`
}

func checkFree(w *mc.W, c Free) error {
	runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(1)
	n := ref.Int(c.N)
	as := list(c.Set)
	list := make([]alg.ChainAlgorithm, len(as))
	for i := range as {
		list[i] = as[i].Alg
	}
	p := algexec.NewParallel()
	if c.Limit > 0 {
		p.SetConcurrency(c.Limit)
	}
	if c.Log {
		p.SetLogger(log.New(nowhere{}, "", 0))
	} else {
		p.SetLogger(log.New(io.Discard, "", 0))
	}
	x := new(big.Int).Set(n)
	rs := p.Execute(x, list)
	if x.Cmp(n) != 0 {
		return fmt.Errorf("target changed to %v", x)
	}
	if len(rs) != len(list) {
		return fmt.Errorf("%d results", len(rs))
	}
	for i, a := range list {
		s := algexec.Execute(new(big.Int).Set(n), a)
		if err := equal(rs[i], s); err != nil {
			return fmt.Errorf("result %d (%s): %w", i, a, err)
		}
		if fmt.Sprint(rs[i].Algorithm) != fmt.Sprint(a) {
			return fmt.Errorf("result %d is of %s, want %s", i, rs[i].Algorithm, a)
		}
		w.Step(1)
	}
	w.Trace(1)
	return nil
}

// raced runs a case in the race detector build.
func raced[T any](kind string) func(w *mc.W, c T) error {
	return func(w *mc.W, c T) error {
		bin := os.Getenv("VERIF_BUILD") + "/race"
		if _, err := os.Stat(bin); err != nil {
			w.Outcome("race-detector-unavailable")
			return nil
		}
		b, err := json.Marshal(c)
		if err != nil {
			return err
		}
		cmd := exec.Command(bin, "-racecase", kind, string(b))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=5")
		var stdout, stderr strings.Builder
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err = cmd.Start(); err != nil {
			return err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		for waiting := true; waiting; {
			select {
			case err = <-done:
				waiting = false
			case <-time.After(time.Second):
				// An exploration of schedules ends or finds deadlocks itself.
				if kind != "schedules" {
					continue
				}
				w.Alive()
				if w.Stopped() {
					_ = cmd.Process.Kill()
					<-done
					w.Outcome("cut-by-deadline")
					return nil
				}
			}
		}
		if err == nil {
			var st mc.Stats
			if json.Unmarshal([]byte(stdout.String()), &st) == nil {
				w.State(int(st.States))
				w.Trace(int(st.Traces))
				w.Step(int(st.Transitions))
				for k, v := range st.Outcomes {
					for ; v > 0; v-- {
						w.Outcome(k)
					}
				}
			}
			w.Outcome("no-race")
			return nil
		}
		s := stderr.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return fmt.Errorf("%v: %s", err, s)
	}
}

func raceMain(kind, arg string) {
	w := &mc.W{Scratch: map[string]interface{}{}}
	w.Stats.Outcomes, w.Stats.Max = map[string]int64{}, map[string]int64{}
	var err error
	switch kind {
	case "schedules":
		var c Case
		_ = json.Unmarshal([]byte(arg), &c)
		err = checkSchedules(w, c)
	case "free":
		var c Free
		_ = json.Unmarshal([]byte(arg), &c)
		err = checkFree(w, c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.Marshal(w.Stats)
	_, _ = os.Stdout.Write(b)
	os.Exit(0)
}

func main() {
	args := os.Args
	os.Args = args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
		theT = t
		os.Args = args
		if len(args) == 4 && args[1] == "-racecase" {
			raceMain(args[2], args[3])
		}
		run()
	}}}, nil, nil)
}

// kinds yields the kind strings of length k over the alphabet, up to max
// distinct rotations.
func kinds(k int, alphabet string, yield func(string)) {
	enum.Seqs(len(alphabet), k, k, 0, 1, func(s []int) {
		b := make([]byte, k)
		for i := range s {
			b[i] = alphabet[s[i]]
		}
		if k > 0 && b[0] == 'r' {
			return
		}
		yield(string(b))
	})
}

func cases[T any](id string, tasks int, each func(emit func(T))) []mc.Gen[T] {
	return mc.Shards(id, tasks, func(shard, n int, yield func(T)) {
		cnt := 0
		each(func(c T) {
			if cnt%n == shard {
				yield(c)
			}
			cnt++
		})
	})
}

func run() {
	preempt := mc.NewFamily("interleavings", "k controlled algorithms x limit 1..k+2 x logger on/off, every interleaving of the statements of the executor and the algorithms with at most P preemptions: k=1 P<=3 (5), k=2 P<=2 (3), k=3 P<=1 (2), k=4 P=0 (1); algorithms succeed, fail, return invalid and wrong chains, and repeat",
		func(t mc.Tier) []mc.Gen[Case] {
			return cases("il", 128, func(emit func(Case)) {
				add := func(kinds string, bound, parts int, limits []int, logs ...bool) {
					for _, l := range limits {
						for _, lg := range logs {
							for p := 0; p < parts; p++ {
								emit(Case{Kinds: kinds, Limit: l, Mode: "preempt", Bound: bound, Log: lg, Part: p, Parts: parts})
							}
						}
					}
				}
				if t == mc.Thorough {
					add("oooo", 1, 64, []int{2, 3, 4}, false)
					add("ooo", 2, 32, []int{1, 2, 3, 4}, false)
				}
				add("oooo", 0, 4, []int{1, 2, 3, 6}, false)
				add("ooo", 1, 8, []int{1, 2, 3, 4}, false)
				add("oer", t.Pick(0, 1), 1, []int{1, 2, 3, 5}, true)
				add("oo", t.Pick(2, 3), 4, []int{1, 2, 3, 4}, false, true)
				kinds(2, "oewbr", func(s string) { add(s, t.Pick(1, 2), 1, []int{1, 2, 4}, false) })
				kinds(1, "oewb", func(s string) { add(s, t.Pick(3, 5), 1, []int{1, 2, 3}, false, true) })
				add("", 2, 1, []int{1, 2, 3}, false)
			})
		}, checkSchedules)
	complete := mc.NewFamily("completion-orders", "up to 6 (7) controlled algorithms x limit 1..k+2, every completion order the limit allows; mixed results",
		func(t mc.Tier) []mc.Gen[Case] {
			return cases("co", 64, func(emit func(Case)) {
				mixed := "oeowobr"
				for k := t.Pick(6, 7); k >= 1; k-- {
					for l := k + 2; l >= 1; l-- {
						emit(Case{Kinds: strings.Repeat("o", k), Limit: l, Mode: "complete", Log: l%2 == 0})
						if k <= t.Pick(5, 7) {
							emit(Case{Kinds: mixed[7-k:], Limit: l, Mode: "complete", Log: l%2 == 1})
						}
					}
					emit(Case{Kinds: strings.Repeat("o", k), Limit: 1000000007, Mode: "complete"})
				}
			})
		}, checkSchedules)
	histories := mc.NewFamily("histories", "every history of 2 (3) calls of Execute on one executor over 5 (7) lists of algorithms, limits 1, 2, 3, 5 set or left, and a target different for each, every completion order; two calls at once on one executor",
		func(t mc.Tier) []mc.Gen[History] {
			return cases("hist", 64, func(emit func(History)) {
				lists := []string{"ooo", "o", "eb", "", "oooo", "wror", "ooooo"}[:t.Pick(5, 7)]
				limits := []int{1, 2, 3, 5, 0}
				ns := []int64{201, 77, 201, 1}
				enum.Seqs(len(lists)*len(limits), 2, 2, 0, 1, func(s []int) {
					h := History{Mode: "complete"}
					for i, v := range s {
						h.Runs = append(h.Runs, Run{lists[v%len(lists)], limits[v/len(lists)], ns[i]})
					}
					if h.Runs[0].Limit != 0 {
						emit(h)
					}
				})
				three := []string{"ooo", "eb", "oo", "orw"}[:t.Pick(3, 4)]
				enum.Seqs(len(three)*3, 3, 3, 0, 1, func(s []int) {
					h := History{Mode: "complete"}
					for i, v := range s {
						h.Runs = append(h.Runs, Run{three[v%len(three)], []int{3, 1, 2}[v/len(three)], ns[(i+v)%4]})
					}
					emit(h)
				})
				for _, a := range lists[:3] {
					for _, b := range []string{"ooo", "eb", "o", "r"}[:3] {
						for l := 1; l <= 4; l++ {
							emit(History{Runs: []Run{{a, l, 201}, {b, 0, 77}}, Both: true, Mode: "complete"})
							if len(a)+len(b) <= t.Pick(3, 4) {
								emit(History{Runs: []Run{{a, l, 201}, {b, 0, 77}}, Both: true, Mode: "preempt", Bound: t.Pick(0, 1)})
							}
						}
					}
				}
			})
		}, checkHistory)
	pairs := mc.NewFamily("algorithm-pairs", "every ordered pair of 26 (48) algorithms sharing the target, and each with itself: one interrupted at each of its statements by a complete run of the other",
		func(t mc.Tier) []mc.Gen[Pair] {
			return cases("pairs", 128, func(emit func(Pair)) {
				// One decomposer of each sort with each of the shared sequence
				// algorithms, the runs algorithms, and single algorithms.
				var ids []int
				for i := 0; i < 5; i++ {
					ids = append(ids, i, 195+i, 5*11+i)
				}
				for i := 0; i < 11; i++ {
					ids = append(ids, 200+i)
				}
				if t == mc.Thorough {
					for i := 0; i < 5; i++ {
						ids = append(ids, 30+i, 60+i, 100+i, 150+i)
					}
				}
				ns := []string{"23", "187"}
				if t == mc.Thorough {
					ns = []string{"7", "187", "991", "0xf7f"}
				}
				for _, n := range ns {
					for i, a := range ids {
						for j, b := range ids {
							if t == mc.Quick && n != ns[0] && (i >= 6 || j >= 6) {
								continue
							}
							emit(Pair{A: a, B: b, N: n})
						}
					}
				}
			})
		}, checkPair)
	selfpairs := mc.NewFamily("configuration-pairs", "every configuration outside the ensemble (every strategy and composition of up to 2 heuristics, single, in runs, and in 4 dictionaries, optimised and not) interrupted at each of its statements by a complete run of itself and of the one before it, on the target 11 (and 19)",
		func(t mc.Tier) []mc.Gen[Pair] {
			return cases("selfpairs", 64, func(emit func(Pair)) {
				m := len(others())
				for _, n := range []string{"11", "19"}[:t.Pick(1, 2)] {
					for i := 0; i < m; i++ {
						emit(Pair{A: i, B: i, N: n, Set: "others"})
						if i > 0 {
							emit(Pair{A: i, B: i - 1, N: n, Set: "others"})
						}
					}
				}
			})
		}, checkPair)
	races := mc.NewFamily("race-schedules", "the schedules of 2 algorithms with at most 1 (2) preemptions and of 3 (4) with none, under the race detector, whose happens-before relation excludes the explorer",
		func(t mc.Tier) []mc.Gen[Case] {
			return cases("races", 16, func(emit func(Case)) {
				for l := 1; l <= 4; l++ {
					for _, lg := range []bool{false, true} {
						emit(Case{Kinds: "oo", Limit: l, Mode: "preempt", Bound: t.Pick(1, 2), Log: lg})
						emit(Case{Kinds: "oer", Limit: l, Mode: "preempt", Bound: 0, Log: lg})
						emit(Case{Kinds: "oooo"[:t.Pick(3, 4)], Limit: l, Mode: "complete", Log: lg})
					}
				}
			})
		}, raced[Case]("schedules"))
	free := mc.NewFamily("race-ensemble", "the ensemble run freely under the race detector and compared with each algorithm alone: 4 (16) targets x limits 1, 2, 3, 8, 64, 200, 1000 x GOMAXPROCS 1, 2, 8; every configuration outside the ensemble together, on the target 19 (also 1 and 27) x limits 3, 8, 1000",
		func(t mc.Tier) []mc.Gen[Free] {
			return cases("free", 64, func(emit func(Free)) {
				for _, n := range []string{"19", "1", "27"}[:t.Pick(1, 3)] {
					for _, l := range []int{1000, 8, 3} {
						emit(Free{N: n, Limit: l, Procs: 8, Set: "others"})
					}
				}
				ns := []string{"1", "47", "0xffee", "0x7fffffffffffffed", "2", "7", "3", "1000", "0xabcdef0123456789", "0xffffffffffff", "65537", "0x10000000000000000000000001", "0xfffffffffffffffffffffffffffffff1", "0x5555555555555555", "12", "0xfedcba9876543210fedcba98"}
				for _, n := range ns[:t.Pick(4, 16)] {
					for _, l := range []int{200, 1000, 64, 8, 3, 2, 1} {
						for _, p := range []int{8, 2, 1} {
							if t == mc.Quick && (l+p)%3 == 0 {
								continue
							}
							emit(Free{N: n, Limit: l, Procs: p, Log: l%2 == 0})
						}
					}
				}
			})
		}, raced[Free]("free"))
	mc.Main(&mc.Check{
		Property:  "C12",
		Technique: "stateless exploration of all interleavings of the real executor within a preemption bound, and race detection on them",
		Families:  []*mc.Family{preempt, complete, histories, pairs, selfpairs, races, free},
		Assumptions: []string{
			"interleavings are at the granularity of source statements; finer data races are left to the race detector on the same schedules",
			"the race detector's happens-before analysis is correct",
		},
	})
}
