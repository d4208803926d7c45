// Command c14 decides property C14 (the search command's report).
package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
	"github.com/mmcloughlin/addchain/verifmc/vsched/cmdsched"
)

// Case is a target under one cost setting, searched with every listed
// concurrency setting ("" is the default), each Reps times.
type Case struct {
	Expr        string
	N           string
	Add, Double string   // "" leaves the flag out
	Ps          []string // concurrency settings
	Reps        int
	Verbose     string // concurrency setting of the verbose run
}

func weight(s string) float64 {
	if s == "" {
		return 1
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func cost(c Case, doubles, adds int) float64 {
	return weight(c.Double)*float64(doubles) + weight(c.Add)*float64(adds)
}

// near allows for another order of rounding.
func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

var (
	reStep  = regexp.MustCompile(`^\[ *(\d+)\] +(\d+)\+ *(\d+)\t([0-9a-f]+)$`)
	reTotal = regexp.MustCompile(`^total: (\d+)\tdoubles: \t(\d+) adds: (\d+)$`)
	reCost  = regexp.MustCompile(`(?m)^addchain: cost: (\S+)$`)
	reEach  = regexp.MustCompile(`(?m)^addchain: cost: (\S+)\tdoubles: \t(\d+) adds: (\d+)$`)
	reDec   = regexp.MustCompile(`(?m)^addchain: dec: (\S+)$`)
	reHex   = regexp.MustCompile(`(?m)^addchain: hex: (\S+)$`)
)

// evaluated reads the output of the eval command: the chain it lists must be
// the one its operations compute.
func evaluated(out string) (chain []*big.Int, doubles, adds int, err error) {
	chain = []*big.Int{big.NewInt(1)}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for k, l := range lines {
		if k == len(lines)-1 {
			m := reTotal.FindStringSubmatch(l)
			if m == nil {
				return nil, 0, 0, fmt.Errorf("eval: last line %q", l)
			}
			t, _ := strconv.Atoi(m[1])
			d, _ := strconv.Atoi(m[2])
			a, _ := strconv.Atoi(m[3])
			if d != doubles || a != adds || t != d+a {
				return nil, 0, 0, fmt.Errorf("eval: %q does not count the listing (%d doubles, %d adds)", l, doubles, adds)
			}
			return chain, doubles, adds, nil
		}
		m := reStep.FindStringSubmatch(l)
		if m == nil {
			return nil, 0, 0, fmt.Errorf("eval: line %q", l)
		}
		p, _ := strconv.Atoi(m[1])
		i, _ := strconv.Atoi(m[2])
		j, _ := strconv.Atoi(m[3])
		v, _ := new(big.Int).SetString(m[4], 16)
		if p != k+1 || i > k || j > k {
			return nil, 0, 0, fmt.Errorf("eval: line %q is not operation %d of a chain", l, k+1)
		}
		if i == j {
			doubles++
		} else {
			adds++
		}
		s := new(big.Int).Add(chain[i], chain[j])
		if v == nil || s.Cmp(v) != 0 {
			return nil, 0, 0, fmt.Errorf("eval: line %q, want value %x", l, s)
		}
		chain = append(chain, s)
	}
	return nil, 0, 0, fmt.Errorf("eval: no output")
}

func accept(env []string, stdin string, args ...string) (*cli.Result, error) {
	r, err := cli.Run(cli.Limits{Timeout: 300e9, Env: env}, stdin, args...)
	if err != nil {
		return nil, err
	}
	if err := r.Crashed(); err != nil {
		return nil, fmt.Errorf("addchain %q: %v", args, err)
	}
	if r.Code != 0 {
		return nil, fmt.Errorf("addchain %q: exit status %d: %.300s\ninput:\n%.600s", args, r.Code, r.Stderr, stdin)
	}
	return r, nil
}

func (c Case) args(p string, verbose bool) []string {
	a := []string{"search"}
	if verbose {
		a = append(a, "-v")
	}
	if p != "" {
		a = append(a, "-p", p)
	}
	if c.Add != "" {
		a = append(a, "-add", c.Add)
	}
	if c.Double != "" {
		a = append(a, "-double", c.Double)
	}
	return append(a, c.Expr)
}

func check(w *mc.W, c Case) error {
	w.State(1)
	n := ref.Int(c.N)
	var script, report string
	runs := 0
	for rep := 0; rep < c.Reps; rep++ {
		for i, p := range c.Ps {
			var env []string
			if g := []string{"", "1", "2", "5"}[(rep+i)%4]; g != "" {
				env = []string{"GOMAXPROCS=" + g}
			}
			r, err := accept(env, "", c.args(p, false)...)
			if err != nil {
				return err
			}
			w.Trace(1)
			if runs == 0 {
				script, report = r.Stdout, r.Stderr
			} else if r.Stdout != script || r.Stderr != report {
				return fmt.Errorf("run %d (-p %q) differs from the first:\n%s%s\nthe first was:\n%s%s", runs, p, r.Stderr, r.Stdout, report, script)
			}
			runs++
		}
	}

	// The verbose run is another run of the same search.
	v, err := accept(nil, "", c.args(c.Verbose, true)...)
	if err != nil {
		return err
	}
	w.Trace(1)
	if v.Stdout != script {
		return fmt.Errorf("the verbose run printed another script:\n%s\nnot\n%s", v.Stdout, script)
	}

	if m := reDec.FindStringSubmatch(report); m != nil && m[1] != n.String() {
		return fmt.Errorf("reports target %s, want %s", m[1], n)
	}
	if m := reHex.FindStringSubmatch(report); m != nil && m[1] != n.Text(16) {
		return fmt.Errorf("reports target %s, want %x", m[1], n)
	}

	// eval of the script: from a file and from standard input.
	e, err := accept(nil, script, "eval")
	if err != nil {
		return err
	}
	chain, doubles, adds, err := evaluated(e.Stdout)
	if err != nil {
		return fmt.Errorf("%v\nscript:\n%s", err, script)
	}
	if chain[len(chain)-1].Cmp(n) != 0 {
		return fmt.Errorf("the script evaluates to a chain ending in %v, want %v:\n%s", chain[len(chain)-1], n, script)
	}
	w.Step(len(chain))
	w.Max("operations", len(chain)-1)
	file, err := os.CreateTemp("", "c14")
	if err != nil {
		return err
	}
	defer os.Remove(file.Name())
	if _, err := file.WriteString(script); err != nil {
		return err
	}
	file.Close()
	e2, err := accept(nil, "", "eval", file.Name())
	if err != nil {
		return err
	}
	if e2.Stdout != e.Stdout {
		return fmt.Errorf("eval of the file differs from eval of standard input")
	}

	// The independent reader agrees.
	sc, ok := ref.ParseScript(script)
	if !ok {
		return fmt.Errorf("the script is outside the grammar:\n%s", script)
	}
	m, err := ref.EvalScript(sc)
	if err != nil {
		return fmt.Errorf("the script has no meaning: %v\n%s", err, script)
	}
	if len(m.Ops) != doubles+adds || m.Chain[m.Result].Cmp(n) != 0 {
		return fmt.Errorf("the script has %d operations and returns %v; eval listed %d, ending in %v", len(m.Ops), m.Chain[m.Result], doubles+adds, n)
	}

	// The reported cost is that of the script.
	want := cost(c, doubles, adds)
	for _, rep := range []string{report, v.Stderr} {
		ms := reCost.FindAllStringSubmatch(rep, -1)
		if len(ms) != 1 {
			return fmt.Errorf("%d reported costs in\n%s", len(ms), rep)
		}
		got, err := strconv.ParseFloat(ms[0][1], 64)
		if err != nil || !near(got, want) {
			return fmt.Errorf("reported cost %s, the script costs %v (%d doubles, %d adds):\n%s", ms[0][1], want, doubles, adds, script)
		}
	}

	// It is the minimum over the results the command itself lists, and over the
	// results of the library.
	each := reEach.FindAllStringSubmatch(v.Stderr, -1)
	if len(each) == 0 {
		w.Outcome("no listing of results")
	}
	for _, x := range each {
		d, _ := strconv.Atoi(x[2])
		a, _ := strconv.Atoi(x[3])
		k := cost(c, d, a)
		got, err := strconv.ParseFloat(x[1], 64)
		if err != nil || !near(got, k) {
			return fmt.Errorf("listed cost %s for %d doubles, %d adds, want %v", x[1], d, a, k)
		}
		if k < want && !near(k, want) {
			return fmt.Errorf("reported cost %v, a result of cost %v was computed (%d doubles, %d adds)", want, k, d, a)
		}
	}
	as := ensemble.Ensemble()
	if len(each) != 0 && len(each) != len(as) {
		return fmt.Errorf("%d results listed, the ensemble has %d algorithms", len(each), len(as))
	}
	ex := exec.NewParallel()
	ex.SetConcurrency(2)
	min := math.Inf(1)
	for _, r := range ex.Execute(new(big.Int).Set(n), as) {
		if r.Err != nil {
			return fmt.Errorf("%s: %v", r.Algorithm, r.Err)
		}
		d, a := 0, 0
		for _, op := range r.Program {
			if op.I == op.J {
				d++
			} else {
				a++
			}
		}
		min = math.Min(min, cost(c, d, a))
	}
	if !near(min, want) {
		return fmt.Errorf("reported cost %v, the minimum over the ensemble is %v", want, min)
	}

	// The other commands accept the script, and each other's output.
	for _, a := range [][]string{{"fmt"}, {"fmt", "-b"}} {
		f, err := accept(nil, script, a...)
		if err != nil {
			return err
		}
		fs, ok := ref.ParseScript(f.Stdout)
		if !ok {
			return fmt.Errorf("%v printed a text outside the grammar:\n%s", a, f.Stdout)
		}
		fm, err := ref.EvalScript(fs)
		if err != nil {
			return fmt.Errorf("%v printed a script without meaning: %v\n%s", a, err, f.Stdout)
		}
		if fm.Chain[fm.Result].Cmp(n) != 0 || len(fm.Ops) != len(m.Ops) {
			return fmt.Errorf("%v printed a script of %d operations for %v, want %d for %v:\n%s", a, len(fm.Ops), fm.Chain[fm.Result], len(m.Ops), n, f.Stdout)
		}
		w.Trace(1)
	}
	if doubles+adds > 0 {
		if _, err := accept(nil, script, "gen"); err != nil {
			return err
		}
		w.Trace(1)
		for _, t := range gen.BuiltinTemplateNames() {
			if _, err := accept(nil, "", "gen", "-type", t, file.Name()); err != nil {
				return err
			}
			w.Trace(1)
		}
		out := filepath.Join(os.TempDir(), filepath.Base(file.Name())+".out")
		defer os.Remove(out)
		g, err := accept(nil, "", "gen", "-type", "listing", "-out", out, file.Name())
		if err != nil {
			return err
		}
		if b, err := os.ReadFile(out); err != nil || len(b) == 0 || g.Stdout != "" {
			return fmt.Errorf("gen -out wrote %d bytes (%v) and printed %q", len(b), err, g.Stdout)
		}
		w.Outcome("with operations")
	} else {
		w.Outcome("without operations")
	}
	return nil
}

var allPs = []string{"1", "2", "3", "16", "64", "", "500"}

// costs are {add, double} settings; values whose totals overflow are left out.
var costs = [][2]string{{"", ""}, {"2", ""}, {"", "2"}, {"1", "0.5"}, {"0.1", "0.3"}, {"1000", "1"}, {"1", "1000"}, {"1e-9", "1"}, {"1", "1e-9"}, {"1e300", "1e300"}, {"1e-300", "1e-300"}, {"3.7", "2.9"}, {"0x1p-3", "1"}, {"1e15", "1"}, {"5", "5"}, {"1.0000001", "1"}}

func exprs(n int64) []string {
	r := []string{fmt.Sprint(n), fmt.Sprintf("0x%x", n)}
	k := int64(big.NewInt(n).BitLen())
	r = append(r, fmt.Sprintf("2^%d - %d", k, 1<<k-n), fmt.Sprintf("2*%d+%d", n/2, n%2), fmt.Sprintf("%d/1", n))
	return r
}

func small(t mc.Tier) []mc.Gen[Case] {
	top := int64(t.Pick(200, 2600))
	gs := mc.Shards("every target from 1", 32, func(s, n int, y func(Case)) {
		for x := int64(1 + s); x <= top; x += int64(n) {
			y(Case{Expr: fmt.Sprint(x), N: fmt.Sprint(x), Ps: allPs, Reps: 1, Verbose: "4"})
		}
	})
	gs = append(gs, mc.Shards("small targets x costs", 32, func(s, n int, y func(Case)) {
		i := 0
		for x := int64(1); x <= int64(t.Pick(32, 300)); x++ {
			for _, c := range costs[1:] {
				i++
				if enum.Mine(i, s, n) {
					y(Case{Expr: fmt.Sprint(x), N: fmt.Sprint(x), Add: c[0], Double: c[1], Ps: []string{"1", "3", "64"}, Reps: 1, Verbose: "2"})
				}
			}
		}
	})...)
	gs = append(gs, mc.Shards("small targets x expression forms", 16, func(s, n int, y func(Case)) {
		i := 0
		for x := int64(1); x <= int64(t.Pick(32, 300)); x++ {
			for _, e := range exprs(x)[1:] {
				i++
				if enum.Mine(i, s, n) {
					y(Case{Expr: e, N: fmt.Sprint(x), Add: "3", Double: "2", Ps: []string{"2", "16", "1024"}, Reps: 1, Verbose: "64"})
				}
			}
		}
	})...)
	gs = append(gs, mc.Shards("repeated runs", 8, func(s, n int, y func(Case)) {
		for i, x := range []int64{1, 2, 3, 7, 15, 23, 29, 31, 47, 71, 127, 191, 239, 379, 1087, 65535, 65537, 1000003} {
			if enum.Mine(i, s, n) {
				y(Case{Expr: fmt.Sprint(x), N: fmt.Sprint(x), Ps: allPs, Reps: t.Pick(8, 60), Verbose: "3"})
			}
		}
	})...)
	return gs
}

func structured(t mc.Tier) []mc.Gen[Case] {
	type target struct {
		e string
		n *big.Int
	}
	var ts []target
	add := func(e string) {
		n, err := ref.Calc(e, 4000)
		if err != nil {
			panic(err)
		}
		ts = append(ts, target{e, n})
	}
	// Powers of two and neighbours, two-run and repeated patterns.
	for _, k := range []int{8, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96} {
		if k > t.Pick(65, 100) {
			continue
		}
		for _, d := range []string{"", " - 1", " + 1", " - 3", " + 5", fmt.Sprintf(" - 2^%d - 1", k/2), fmt.Sprintf(" + 2^%d - 2^3", k/2)} {
			add(fmt.Sprintf("2^%d%s", k, d))
		}
	}
	for _, e := range []string{"0xdeadbeef", "0xaaaaaaaa", "0x5555555555555555", "0xf0f0f0f0f0f0", "0x123456789abcdef", "3^20", "7^13+2^9", "2^89-1", "2^107-1", "1000000007*998244353"} {
		add(e)
	}
	mid := len(ts)
	for _, e := range []string{"2^127 - 1", "2^127 - 3", "2^130 - 5 - 2", "2^128 - 2^97 - 1", "2^141-9", "2^160 - 2^31 - 3"} {
		add(e)
	}
	if t.Pick(0, 1) == 1 {
		for _, e := range []string{
			"2^191-19-2", "2^192 - 2^64 - 1 - 2", "2^196 - 15", "2^221-3-2", "2^224 - 2^96 - 1", "2^251-9-2", "2^255 - 19 - 2", "(2^255-19-5)/8",
			"2^256 - 2^224 + 2^192 + 2^96 - 1 - 2", "2^256 - 2^32 - 977 - 2", "2^256 - 2^224 + 2^192 - 89188191075325690597107910205041859247 - 2",
			"0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001 - 2", "2^266-3-2", "2^285-9-2", "2^336-3-2",
			"2^384 - 2^128 - 2^96 + 2^32 - 1 - 2", "2^414-17-2", "2^448 - 2^224 - 1 - 2", "2^480 - 2^240 - 1 - 2", "2^511-187-2", "2^521 - 1 - 2", "2^600 - 1", "2^600 + 1",
			"0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab - 2", "3^250", "2^383-187-2"} {
			e = strings.ReplaceAll(strings.ReplaceAll(e, "(2^255-19-5)/8", "2^252 - 3"), "89188191075325690597107910205041859247", "188719626707717088230977575434186556393")
			add(e)
		}
	} else {
		add("2^255 - 19 - 2")
	}
	return mc.Shards("structured targets", 32, func(s, n int, y func(Case)) {
		for i, x := range ts {
			if !enum.Mine(i, s, n) {
				continue
			}
			c := costs[i%len(costs)]
			ps := allPs
			if i >= mid {
				ps = []string{"1", "16", "1000"}
				if t.Pick(0, 1) == 1 {
					ps = allPs[:5]
				}
			} else if i%4 != 0 && t.Pick(0, 1) == 0 {
				ps = []string{"1", "64", "100000"}
			}
			y(Case{Expr: x.e, N: x.n.String(), Ps: ps, Reps: 1, Verbose: "3"})
			if c[0] != "" || c[1] != "" {
				y(Case{Expr: x.e, N: x.n.String(), Add: c[0], Double: c[1], Ps: []string{"2"}, Reps: 1, Verbose: "64"})
			}
		}
	})
}

// Sched is a set of schedules of one search: the base schedule alone, or every
// schedule that departs from it at one decision (those of one part).
type Sched struct {
	N           int64
	Add, Double string `json:",omitempty"`
	P           int
	Base        string
	Part, Parts int
}

func checkSched(w *mc.W, c Sched) error {
	bin := filepath.Join(os.Getenv("VERIF_BUILD"), "sched")
	if _, err := os.Stat(bin); err != nil {
		w.Outcome("not instrumented")
		return nil
	}
	k := Case{Expr: fmt.Sprint(c.N), Add: c.Add, Double: c.Double}
	plain, err := accept(nil, "", k.args("1", false)...)
	if err != nil {
		return err
	}
	log, err := os.CreateTemp("", "c14")
	if err != nil {
		return err
	}
	log.Close()
	defer os.Remove(log.Name())
	run := func(spec string, logged bool) error {
		env := []string{"GOMAXPROCS=1", "VERIF_SCHED=" + spec}
		if logged {
			env = append(env, "VERIF_SCHED_LOG="+log.Name())
		}
		r, err := cli.RunBin(bin, cli.Limits{Timeout: 60e9, Env: env}, "", k.args(fmt.Sprint(c.P), false)...)
		if err != nil {
			return err
		}
		w.State(1)
		w.Trace(1)
		switch {
		case r.Timeout || r.Code == cmdsched.ExitLong || strings.Contains(r.Stderr, "outside bubble"):
			w.Outcome("schedule without verdict")
			return nil
		case r.Code == cmdsched.ExitDeadlock:
			return fmt.Errorf("schedule %s: every goroutine waits", spec)
		}
		if err := r.Crashed(); err != nil {
			return fmt.Errorf("schedule %s: %v", spec, err)
		}
		if r.Code != 0 || r.Stdout != plain.Stdout || r.Stderr != plain.Stderr {
			return fmt.Errorf("schedule %s: exit status %d, output\n%s%s\nnot\n%s%s", spec, r.Code, r.Stderr, r.Stdout, plain.Stderr, plain.Stdout)
		}
		w.Outcome("same output")
		return nil
	}
	if err := run(c.Base, true); err != nil {
		return err
	}
	if c.Parts == 0 {
		return nil
	}
	decisions, err := os.ReadFile(log.Name())
	if err != nil {
		return err
	}
	w.Max("decisions", len(decisions))
	for i, n := range decisions {
		w.Step(1)
		if i%c.Parts != c.Part {
			continue
		}
		for j := 1; j < int(n); j++ {
			if err := run(fmt.Sprintf("%s,%d:%d", c.Base, i, j), false); err != nil {
				return err
			}
			if w.Stopped() {
				return nil
			}
		}
	}
	return nil
}

func scheds(t mc.Tier) []mc.Gen[Sched] {
	gs := mc.Shards("base schedules", 16, func(s, n int, y func(Sched)) {
		i := 0
		for _, x := range []int64{1, 2, 3, 7, 23, 71, 1087} {
			for _, p := range psched(t) {
				for _, b := range []string{"oldest", "newest", "eager", "robin"} {
					i++
					if enum.Mine(i, s, n) {
						y(Sched{N: x, P: p, Base: b})
					}
				}
			}
		}
	})
	dev := func(x int64, p int, base string) {
		const parts = 64
		gs = append(gs, mc.Shards(fmt.Sprintf("one departure: target %d, -p %d, %s", x, p, base), parts, func(s, n int, y func(Sched)) {
			y(Sched{N: x, P: p, Base: base, Part: s, Parts: n})
		})...)
	}
	dev(23, 2, "oldest")
	if t.Pick(0, 1) == 1 {
		dev(23, 1, "eager")
		dev(47, 2, "eager")
		dev(23, 3, "robin")
		dev(1087, 3, "newest")
		dev(23, 3, "oldest")
	}
	return gs
}

func main() {
	mc.Main(&mc.Check{
		Property:    "C14",
		Technique:   "bounded exhaustive enumeration of command lines on the real binary; outputs fed back to the tool and judged by independent readers, minimum recomputed from the library",
		HangSeconds: 400,
		MaxHeapMB:   2500,
		Families: []*mc.Family{
			mc.NewFamily("small", "small targets", small, check),
			mc.NewFamily("schedules", "schedules of the real search command: four base schedules, and every schedule that departs from one at a single decision", scheds, checkSched),
			mc.NewFamily("structured", "cryptographic shapes", structured, check),
		},
		Assumptions: []string{"cost settings whose weighted totals overflow float64 are outside the bounds", "costs are compared up to relative 1e-9"},
	})
}

func psched(t mc.Tier) []int {
	if t.Pick(0, 1) == 0 {
		return []int{1, 2, 3, 16, 200, 300}
	}
	return []int{1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 32, 63, 64, 128, 199, 200, 201, 300, 1000}
}
