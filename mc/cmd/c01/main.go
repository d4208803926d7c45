// Command c01 decides property C01 (chain search algorithms).
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/verifmc/algs"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Case is a target with part of a set of configurations.
type Case struct {
	N     string
	Set   string
	Part  int
	Parts int
}

// sets of configurations.
var sets = map[string]func() []algs.Chain{
	"ensemble": algs.Ensemble,
	// Small inputs: every configuration.
	"small-grid": func() []algs.Chain {
		ss := algs.Filter(algs.Seqs(3), algs.Log, algs.Linear)
		return algs.WithOpt(algs.Dict(algs.Decomposers(5, 6), pick(ss, 0, 2, 4, 5, 6, 7, 12)))
	},
	"small-seqs": func() []algs.Chain {
		ss := algs.Filter(algs.Seqs(3), algs.Log, algs.Linear)
		return algs.WithOpt(append(algs.Dict(few(), ss), direct(ss)...))
	},
	"small-direct": func() []algs.Chain { return algs.WithOpt(direct(algs.Filter(algs.Seqs(3), algs.Linear, algs.Linear))) },
	"exponential-direct": func() []algs.Chain {
		return algs.WithOpt(direct(algs.Filter(algs.Seqs(0), algs.Exponential, algs.Exponential)))
	},
	"exponential-grid": func() []algs.Chain {
		return algs.Dict(algs.Decomposers(4, 4), algs.Filter(algs.Seqs(0), algs.Exponential, algs.Exponential))
	},
	// Large inputs.
	"large-direct": func() []algs.Chain { return algs.WithOpt(direct(algs.Filter(algs.Seqs(3), algs.Log, algs.Log))) },
	"large-decomposers": func() []algs.Chain {
		return algs.WithOpt(algs.Dict(algs.Decomposers(10, 10), pick(algs.Filter(algs.Seqs(2), algs.Log, algs.Log), 1, 4)))
	},
	"very-large":     func() []algs.Chain { return veryLarge(1) },
	"very-large-opt": func() []algs.Chain { return algs.WithOpt(veryLarge(2)) },
	"wide-windows": func() []algs.Chain {
		var ds []algs.Decomposer
		for _, k := range []uint{65, 96, 128} {
			ds = append(ds,
				algs.Decomposer{Name: fmt.Sprintf("sliding%d", k), D: dict.SlidingWindow{K: k}},
				algs.Decomposer{Name: fmt.Sprintf("fixed%d", k), D: dict.FixedWindow{K: k}},
				algs.Decomposer{Name: fmt.Sprintf("hybrid%d", k), D: dict.Hybrid{K: k}})
		}
		return algs.Dict(ds, pick(algs.Filter(algs.Seqs(1), algs.Log, algs.Log), 0, 3))
	},
	"large-seqs": func() []algs.Chain {
		ss := algs.Filter(algs.Seqs(3), algs.Log, algs.Log)
		ds := algs.Decomposers(1, 1)[:5]
		ds = append(ds, algs.Decomposers(4, 0)...)[:12]
		return algs.WithOpt(append(algs.Dict(ds, ss), direct(ss)...))
	},
}

func veryLarge(max int) []algs.Chain {
	ss := algs.Filter(algs.Seqs(max), algs.Log, algs.Log)
	ds := []algs.Decomposer{
		{Name: "sliding4", D: dict.SlidingWindow{K: 4}},
		{Name: "runs0", D: dict.RunLength{T: 0}},
		{Name: "whole", D: dict.FixedWindow{K: 4096}},
	}
	return append(algs.Dict(ds, ss), direct(ss)...)
}

func few() []algs.Decomposer {
	var r []algs.Decomposer
	for i, d := range algs.Decomposers(3, 3) {
		if i%5 == 0 {
			r = append(r, d)
		}
	}
	return r
}

func direct(ss []algs.Seq) []algs.Chain { return append(algs.Runs(ss), algs.Direct(ss)...) }

func pick(ss []algs.Seq, is ...int) []algs.Seq {
	var r []algs.Seq
	for _, i := range is {
		r = append(r, ss[i%len(ss)])
	}
	return r
}

// load returns two separately built instances of the set.
func load(w *mc.W, set string) [2][]algs.Chain {
	if v, ok := w.Scratch[set]; ok {
		return v.([2][]algs.Chain)
	}
	v := [2][]algs.Chain{sets[set](), sets[set]()}
	w.Scratch[set] = v
	return v
}

// execute runs a once on a private copy of n, the storage of which extends
// beyond the value.
func execute(n *big.Int, a alg.ChainAlgorithm) (exec.Result, error) {
	const canary = 0xA5A5A5A5
	bits := n.Bits()
	store := append(append([]big.Word{}, bits...), canary, canary)
	x := new(big.Int).SetBits(store[:len(bits)])
	r := exec.Execute(x, a)
	if x.Cmp(n) != 0 {
		return r, fmt.Errorf("target changed to %v", x)
	}
	for i := range store {
		if i < len(bits) && store[i] != bits[i] || i >= len(bits) && store[i] != canary {
			return r, fmt.Errorf("storage of the target was written")
		}
	}
	if r.Err != nil {
		return r, fmt.Errorf("error: %v", r.Err)
	}
	if r.Target == nil || r.Target.Cmp(n) != 0 {
		return r, fmt.Errorf("result target is %v", r.Target)
	}
	return r, nil
}

func validate(n *big.Int, r exec.Result) error {
	if err := ref.ValidChain(r.Chain); err != nil {
		return fmt.Errorf("chain %v: %v", r.Chain, err)
	}
	if r.Chain[len(r.Chain)-1].Cmp(n) != 0 {
		return fmt.Errorf("chain %v does not end at the target", r.Chain)
	}
	if len(r.Program) != len(r.Chain)-1 {
		return fmt.Errorf("%d operations for %d elements", len(r.Program), len(r.Chain))
	}
	ops := make([]ref.Op, len(r.Program))
	for i, op := range r.Program {
		ops[i] = ref.Op{op.I, op.J}
	}
	c, err := ref.Eval(ops)
	if err != nil {
		return err
	}
	if !ref.Equal(c, r.Chain) {
		return fmt.Errorf("operations give %v, chain is %v", c, r.Chain)
	}
	return nil
}

func same(a, b exec.Result) error {
	if !ref.Equal(a.Chain, b.Chain) {
		return fmt.Errorf("chain %v then %v for the same input", a.Chain, b.Chain)
	}
	if len(a.Program) != len(b.Program) {
		return fmt.Errorf("different programs for the same input")
	}
	for i := range a.Program {
		if a.Program[i] != b.Program[i] {
			return fmt.Errorf("different programs for the same input")
		}
	}
	return nil
}

func check(w *mc.W, c Case) error {
	n := ref.Int(c.N)
	s := load(w, c.Set)
	part, parts := c.Part, c.Parts
	if parts == 0 {
		parts = 1
	}
	w.Max("target-bits", n.BitLen())
	var last exec.Result
	var lastkept addchain.Chain
	for i := range s[0] {
		if i%parts != part {
			continue
		}
		fail := func(err error) error {
			return fmt.Errorf("%s = %s: %v", s[0][i].Name, s[0][i].Alg, err)
		}
		r, err := execute(n, s[0][i].Alg)
		if err != nil {
			return fail(err)
		}
		if err := validate(n, r); err != nil {
			return fail(err)
		}
		kept := ref.Clone(r.Chain)
		r2, err := execute(n, s[1][i].Alg)
		if err != nil {
			return fail(err)
		}
		if err := same(r, r2); err != nil {
			return fail(err)
		}
		if n.BitLen() <= 32 {
			// In a variable that held the targets before this one.
			var r3 exec.Result
			w.Reuse(fmt.Sprint("n", i), []*big.Int{n}, func(xs []*big.Int) { r3 = exec.Execute(xs[0], s[1][i].Alg) })
			if err := same(r, r3); err != nil {
				return fail(fmt.Errorf("in a variable that has been used before: %w", err))
			}
		}
		if !ref.Equal(kept, r.Chain) {
			return fail(fmt.Errorf("an earlier result changed from %v to %v", kept, r.Chain))
		}
		if !ref.Equal(lastkept, last.Chain) {
			return fail(fmt.Errorf("the result of the previous algorithm changed from %v to %v", lastkept, last.Chain))
		}
		last, lastkept = r, kept
		w.State(1)
		w.Trace(1)
		w.Step(len(r.Chain) - 1)
		w.Max("chain-length", len(r.Chain))
	}
	w.Later(func() error {
		if !ref.Equal(lastkept, last.Chain) {
			return fmt.Errorf("the result for %s changed from %v to %v", c.N, lastkept, last.Chain)
		}
		if last.Target.Cmp(n) != 0 {
			return fmt.Errorf("the target of the result for %s is now %v", c.N, last.Target)
		}
		return nil
	})
	w.Outcome(c.Set)
	return nil
}

// History runs targets in order on the same instances.
type History struct {
	Set string
	Ns  []string
}

func checkHistory(w *mc.W, c History) error {
	as := load(w, c.Set)[0]
	for _, a := range as {
		seen := map[string]addchain.Chain{}
		var kept []exec.Result
		var values []addchain.Chain
		for _, s := range c.Ns {
			n := ref.Int(s)
			r, err := execute(n, a.Alg)
			if err == nil {
				err = validate(n, r)
			}
			if err != nil {
				return fmt.Errorf("%s on %s: %v", a.Name, s, err)
			}
			if p, ok := seen[s]; ok && !ref.Equal(p, r.Chain) {
				return fmt.Errorf("%s on %s: %v, then %v", a.Name, s, p, r.Chain)
			}
			seen[s] = addchain.Chain(ref.Clone(r.Chain))
			kept = append(kept, r)
			values = append(values, seen[s])
			w.Step(1)
		}
		for i, r := range kept {
			if !ref.Equal(r.Chain, values[i]) {
				return fmt.Errorf("%s on %s: the result changed from %v to %v", a.Name, c.Ns[i], values[i], r.Chain)
			}
		}
		// The results are the caller's.
		for _, r := range kept {
			ref.Scribble(r.Chain)
		}
		for _, s := range c.Ns[:1] {
			r, err := execute(ref.Int(s), a.Alg)
			if err == nil {
				err = validate(ref.Int(s), r)
			}
			if err != nil {
				return fmt.Errorf("%s on %s after earlier results were overwritten: %v", a.Name, s, err)
			}
			if !ref.Equal(seen[s], r.Chain) {
				return fmt.Errorf("%s on %s after earlier results were overwritten: %v, then %v", a.Name, s, seen[s], r.Chain)
			}
		}
		w.Trace(1)
	}
	return nil
}

// all yields 1..max with the set.
func all(max int, set string) []mc.Gen[Case] {
	return mc.Shards(set, 64, func(shard, n int, yield func(Case)) {
		for i := 1; i <= max; i++ {
			if enum.Mine(i, shard, n) {
				yield(Case{N: fmt.Sprint(i), Set: set, Parts: 1})
			}
		}
	})
}

// lengths used for runs: around every threshold of the ensemble.
var lengths = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}

// patterns lists run patterns, distinct.
func patterns(ls []int, parts, lo, hi int) []*big.Int {
	var r []*big.Int
	seen := map[string]bool{}
	enum.RunPatterns(ls, parts, hi, 0, 1, func(p enum.Runs) {
		x := p.Int()
		if x.BitLen() < lo || seen[x.String()] {
			return
		}
		seen[x.String()] = true
		r = append(r, x)
	})
	return r
}

// spread yields cases for the targets, in parts pieces each.
func spread(id string, xs []*big.Int, set string, parts int) []mc.Gen[Case] {
	return mc.Shards(id, 64, func(shard, n int, yield func(Case)) {
		cnt := 0
		for _, x := range xs {
			for p := 0; p < parts; p++ {
				if cnt++; enum.Mine(cnt, shard, n) {
					yield(Case{N: fmt.Sprintf("%#x", x), Set: set, Part: p, Parts: parts})
				}
			}
		}
	})
}

func periodic(p int, ls ...int) []*big.Int {
	var r []*big.Int
	enum.PeriodicBits(p, ls, 0, 1, func(x *big.Int) { r = append(r, new(big.Int).Set(x)) })
	return r
}

// solinas lists 2^e +- sums of two signed powers.
func solinas(es []uint, offs []uint, ds []int64) []*big.Int {
	var r []*big.Int
	for _, e := range es {
		for _, d := range ds {
			r = append(r, ref.Pow2(e, d))
			for _, o := range offs {
				for _, sg := range []int64{1, -1} {
					x := new(big.Int).Lsh(big.NewInt(sg), e/2+o)
					r = append(r, x.Add(x, ref.Pow2(e, d)))
				}
			}
		}
	}
	return r
}

func cat(xs ...[]*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func main() {
	small := mc.NewFamily("ensemble-small", "every n up to 1200 (16000) x the 200 members of the ensemble",
		func(t mc.Tier) []mc.Gen[Case] { return all(t.Pick(1200, 16000), "ensemble") }, check)
	grid := mc.NewFamily("decomposer-grid", "every n up to 200 (400) x FixedWindow/SlidingWindow K 1..5, RunLength T 0..6, Hybrid K 1..5 x T 0..6, 14 extreme settings of each, x 7 sequence algorithms, with and without opt",
		func(t mc.Tier) []mc.Gen[Case] { return all(t.Pick(200, 400), "small-grid") }, check)
	seqs := mc.NewFamily("sequence-grid", "every n up to 128 (400) x all continued fraction strategies but total and every total composition of up to 3 heuristics (also nested, empty) x dictionaries, runs and single, with and without opt",
		func(t mc.Tier) []mc.Gen[Case] { return all(t.Pick(128, 400), "small-seqs") }, check)
	exponential := mc.NewFamily("total-strategy", "the total strategy: every n up to 32 (50) single and in runs, with and without opt; every n up to 24 (40) in every dictionary with K, T up to 4 and extreme settings",
		func(t mc.Tier) []mc.Gen[Case] {
			return append(all(t.Pick(32, 50), "exponential-direct"), all(t.Pick(24, 40), "exponential-grid")...)
		}, check)
	single := mc.NewFamily("direct", "every n up to 250 (600) for the other sequence algorithms for small inputs used as a chain algorithm; every n up to 2000 (20000) for the logarithmic ones; binary",
		func(t mc.Tier) []mc.Gen[Case] {
			return append(all(t.Pick(250, 600), "small-direct"), all(t.Pick(2000, 20000), "large-direct")...)
		}, check)
	words := mc.NewFamily("word-sized", "2..64 bit run patterns of up to 3 (4) runs and periodic patterns (period up to 4 (6)) x ensemble",
		func(t mc.Tier) []mc.Gen[Case] {
			ls := []int{1, 2, 4, 5, 8, 9, 16, 17, 31, 32, 33}
			xs := patterns(ls, 3, 13, t.Pick(36, 64))
			if t == mc.Thorough {
				xs = append(xs, patterns([]int{1, 2, 3, 4, 5, 8, 9, 16, 17}, 4, 15, 64)...)
			}
			return spread("word", cat(xs, periodic(t.Pick(4, 6), 63, 64, 65)), "ensemble", 1)
		}, check)
	thresholds := mc.NewFamily("large-decomposers", "run patterns of 2 (3) runs with lengths around 1..10 up to 24 (40) bits, and around the word size, x every decomposer with K and T up to 10 and extremes x 2 sequence algorithms, with and without opt",
		func(t mc.Tier) []mc.Gen[Case] {
			xs := patterns([]int{1, 2, 3, 4, 5, 6, 9, 10, 11, 12}, t.Pick(2, 3), 12, t.Pick(24, 40))
			xs = append(xs, patterns([]int{62, 63, 64, 65, 66}, t.Pick(1, 2), 12, 140)...)
			return spread("dec", xs, "large-decomposers", 1)
		}, check)
	large := mc.NewFamily("large", "ensemble: run patterns of up to 2 (3) runs up to 130 (260) bits, Solinas-like sums, 2^e+d, periodic patterns, up to 256 bits; a few (many) targets of 384..1024 bits",
		func(t mc.Tier) []mc.Gen[Case] {
			var g []mc.Gen[Case]
			xs := patterns([]int{1, 15, 16, 17, 32, 33, 64, 65, 128, 129}[:t.Pick(8, 10)], 2, 64, t.Pick(100, 260))
			g = append(g, spread("runs", xs, "ensemble", 2)...)
			if t == mc.Thorough {
				g = append(g, spread("runs3", patterns([]int{1, 4, 9, 16, 17, 33, 65}, 3, 64, 140), "ensemble", 2)...)
				g = append(g, spread("solinas2", solinas([]uint{96, 127, 192, 224, 255, 256}, []uint{0, 7}, []int64{-3, -19, 1, 5}), "ensemble", 4)...)
				g = append(g, spread("periodic2", periodic(3, 127, 160, 192, 256), "ensemble", 4)...)
				g = append(g, spread("huge2", solinas([]uint{384, 448, 512, 521}, []uint{1}, []int64{-21, -1}), "ensemble", 25)...)
				g = append(g, spread("huge3", solinas([]uint{1023}, nil, []int64{0, -1, -3, -105}), "ensemble", 50)...)
				g = append(g, spread("huge4", periodic(2, 600, 1024), "ensemble", 50)...)
			} else {
				g = append(g, spread("solinas", solinas([]uint{127, 160, 255}, nil, []int64{-19, 1}), "ensemble", 8)...)
				g = append(g, spread("periodic", periodic(2, 128, 192), "ensemble", 8)...)
				g = append(g, spread("huge", solinas([]uint{521}, nil, []int64{-3}), "ensemble", 40)...)
			}
			return g
		}, check)
	largeSeq := mc.NewFamily("large-sequences", "the logarithmic sequence algorithms inside dictionaries and runs, and single, on run patterns of up to 2 (3) runs and periodic patterns up to 200 (520) bits",
		func(t mc.Tier) []mc.Gen[Case] {
			xs := patterns([]int{1, 8, 17, 32, 33, 63, 64, 65}, 2, 30, 100)
			g := spread("seq", cat(xs, periodic(2, 65, 130)), "large-seqs", 1)
			ys := cat(periodic(3, 127, 200), solinas([]uint{128, 200}, []uint{3}, []int64{-1, 5}))
			g = append(g, spread("single", ys, "large-direct", 2)...)
			if t == mc.Thorough {
				g = append(g, spread("seq2", cat(patterns([]int{1, 3, 17, 32, 65}, 3, 64, 130), periodic(4, 100, 192, 256)), "large-seqs", 4)...)
				g = append(g, spread("single2", cat(periodic(4, 255, 384, 520), solinas([]uint{256, 384, 521}, []uint{3, 64}, []int64{-1, 5})), "large-direct", 4)...)
			}
			return g
		}, check)
	beyond := mc.NewFamily("very-large", "the logarithmic sequence algorithms single, in runs and in three dictionaries, and binary, on 2^e+d, 3*2^e, Solinas-like sums and alternating bits around 1023..1026 and 2050 (and 4098) bits",
		func(t mc.Tier) []mc.Gen[Case] {
			if t == mc.Quick {
				xs := cat(solinas([]uint{1023, 1025, 2050}, nil, []int64{-1, 0, 1}), periodic(2, 1026))
				return spread("beyond", xs, "very-large", 40)
			}
			xs := cat(solinas([]uint{1022, 1023, 1024, 1025, 1500, 2047, 2048, 2050, 4098}, []uint{3}, []int64{-1, 0, 1}), periodic(3, 1025, 1090))
			return spread("beyond", xs, "very-large-opt", 40)
		}, check)
	beyond.Large = true
	wide := mc.NewFamily("wide-windows", "two adjacent windows of 65, 96 and 128 bits (ends only, all ones, alternating) that differ in one bit, at the word boundaries (anywhere), with and without a third equal to the first, x windows of these sizes x 2 sequence algorithms",
		func(t mc.Tier) []mc.Gen[Case] {
			var xs []*big.Int
			for _, w := range []int{65, 96, 128} {
				for pat := 0; pat < 3; pat++ {
					x := new(big.Int)
					for i := 0; i < w; i++ {
						if pat == 1 || pat == 2 && i%2 == 0 || i == 0 || i == w-1 {
							x.SetBit(x, i, 1)
						}
					}
					for p := 1; p < w-1; p++ {
						if t == mc.Quick && p != 1 && p != w/2 && p != w-2 && (p < 62 || p > 65) {
							continue
						}
						y := new(big.Int).SetBit(x, p, 1-x.Bit(p))
						n := new(big.Int).Lsh(x, uint(w))
						n.Or(n, y)
						xs = append(xs, n, new(big.Int).Or(new(big.Int).Lsh(n, uint(w)), x))
					}
				}
			}
			return spread("wide", xs, "wide-windows", 1)
		}, check)
	history := mc.NewFamily("histories", "every target pair n, m up to 12 (32) in the history n m n on the same instances of the ensemble, and every pair of 6 (12) word-sized targets",
		func(t mc.Tier) []mc.Gen[History] {
			return mc.Shards("hist", 64, func(shard, n int, yield func(History)) {
				cnt := 0
				max := t.Pick(12, 32)
				big := []string{"0xffff", "0xfffffffb", "0x10001", "0xabcdef", "0x7ffff1", "0x55555555", "0xffffffffffffffff", "0x8000000000000001", "0xf0f0f0f0f0f0", "0xdeadbeef", "0x1fffffffffffffffff", "0x123456789abcdef"}[:t.Pick(6, 12)]
				pair := func(a, b string) {
					if cnt++; enum.Mine(cnt, shard, n) {
						yield(History{"ensemble", []string{a, b, a}})
					}
				}
				for a := 1; a <= max; a++ {
					for b := 1; b <= max; b++ {
						pair(fmt.Sprint(a), fmt.Sprint(b))
					}
				}
				for _, a := range big {
					for _, b := range big {
						pair(a, b)
					}
				}
			})
		}, checkHistory)
	mc.Main(&mc.Check{
		Property:  "C01",
		Technique: "bounded exhaustive enumeration of targets x algorithm configurations against the definition of an addition chain",
		Families:  []*mc.Family{small, grid, seqs, exponential, single, words, thresholds, large, largeSeq, beyond, wide, history},
		Assumptions: []string{
			"math/big is correct",
			"the total, dyadic and fermat strategies and heuristic compositions that do not start with halving are only run on small targets, as documented",
		},
	})
}
