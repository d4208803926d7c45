// Command c02 decides property C02 (chain validation and operation listing).
package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Seq is a sequence of decimal integers.
type Seq = ref.Ints

var strs = ref.Strs

var pow2 = ref.Pow2

var longChain = ref.LongChain

// Small is a sequence of machine integers.
type Small []int64

func checkSmall(w *mc.W, s Small) error { return check(w, ref.Big(s), true) }
func checkBig(w *mc.W, s Seq) error     { return check(w, s.Big(), true) }
func checkLong(w *mc.W, s Seq) error    { return check(w, s.Big(), false) }

func iff(name string, got bool, want bool, why error) error {
	if got != want {
		return fmt.Errorf("%s: accepted=%v, definition says %v (%v)", name, got, want, why)
	}
	return nil
}

func check(w *mc.W, xs []*big.Int, variants bool) error {
	c := addchain.Chain(ref.Clone(xs))
	valid := ref.ValidChain(xs)
	ok := valid == nil
	w.Trace(1)
	if ok {
		w.Outcome("valid")
	} else {
		w.Outcome("invalid")
	}
	if err := iff("Validate", c.Validate() == nil, ok, valid); err != nil {
		return err
	}
	if got, want := c.IsAscending(), ref.Ascending(xs); got != want {
		return fmt.Errorf("IsAscending=%v want %v", got, want)
	}

	// Operation listing, for every position of any sequence.
	for k := 0; k < len(xs); k++ {
		want := ref.Pairs(xs, k)
		got := c.Ops(k)
		w.Step(len(want) + 1)
		if len(got) != len(want) {
			return fmt.Errorf("Ops(%d)=%v want %v", k, got, want)
		}
		g := append([]addchain.Op{}, got...)
		sort.Slice(g, func(i, j int) bool { return g[i].I < g[j].I || g[i].I == g[j].I && g[i].J < g[j].J })
		for i := range g {
			if g[i].I != want[i][0] || g[i].J != want[i][1] {
				return fmt.Errorf("Ops(%d)=%v want %v", k, got, want)
			}
		}
		if k > 0 {
			op, err := c.Op(k)
			if (err == nil) != (len(want) > 0) {
				return fmt.Errorf("Op(%d)=%v,%v want one of %v", k, op, err, want)
			}
			if err == nil {
				found := false
				for _, p := range want {
					found = found || p[0] == op.I && p[1] == op.J
				}
				if !found {
					return fmt.Errorf("Op(%d)=%v not one of %v", k, op, want)
				}
			}
		}
	}

	// The sequence is the caller's: what is said of it follows its contents.
	if n := len(xs); variants && n > 1 {
		for _, d := range []int64{1, -1} {
			c[n-1].Add(c[n-1], big.NewInt(d))
			ys := append(append([]*big.Int{}, xs[:n-1]...), new(big.Int).Set(c[n-1]))
			if got := ref.ValidChain(ys); (c.Validate() == nil) != (got == nil) {
				return fmt.Errorf("Validate gives %v after the last element was changed to %v", c.Validate(), c[n-1])
			}
			if c.IsAscending() != ref.Ascending(ys) {
				return fmt.Errorf("IsAscending gives %v after the last element was changed to %v", c.IsAscending(), c[n-1])
			}
			want := ref.Pairs(ys, n-1)
			if got := c.Ops(n - 1); len(got) != len(want) {
				return fmt.Errorf("Ops(%d)=%v after the last element was changed to %v, want %v", n-1, got, c[n-1], want)
			} else if len(got) > 0 {
				got[0] = addchain.Op{I: -7, J: -7}
			}
		}
	}
	if variants && len(xs) <= 6 {
		if err := rearranged(w, c, xs); err != nil {
			return err
		}
	}

	// Program.
	p, err := c.Program()
	if err := iff("Program", err == nil, ok, valid); err != nil {
		return err
	}
	if ok {
		ops := make([]ref.Op, len(p))
		for i, op := range p {
			ops[i] = ref.Op{op.I, op.J}
		}
		e, err := ref.Eval(ops)
		if err != nil {
			return fmt.Errorf("program %v: %v", p, err)
		}
		if !ref.Equal(e, xs) {
			return fmt.Errorf("program %v evaluates to %v", p, e)
		}
		if got := p.Evaluate(); !ref.Equal(got, xs) {
			return fmt.Errorf("Program.Evaluate()=%v", got)
		}
		if c.End().Cmp(xs[len(xs)-1]) != 0 {
			return fmt.Errorf("End()=%v", c.End())
		}
	}

	// Produces: every element of the sequence and neighbours of the last.
	targets := ref.Clone(xs)
	if len(xs) > 0 {
		last := xs[len(xs)-1]
		m := new(big.Int).Lsh(big.NewInt(1), 64)
		targets = append(targets, new(big.Int).Add(last, big.NewInt(1)), new(big.Int).Sub(last, big.NewInt(1)),
			new(big.Int).Neg(last), new(big.Int).Add(last, m), new(big.Int).Set(last))
	} else {
		targets = append(targets, big.NewInt(0), big.NewInt(1))
	}
	if !variants && len(targets) > 12 {
		targets = targets[len(targets)-12:]
	}
	for _, t := range targets {
		want := ok && xs[len(xs)-1].Cmp(t) == 0
		tt := new(big.Int).Set(t)
		if err := iff(fmt.Sprintf("Produces(%v)", t), c.Produces(tt) == nil, want, valid); err != nil {
			return err
		}
		if tt.Cmp(t) != 0 {
			return fmt.Errorf("Produces modified its target %v", t)
		}
		// Superset with this target alone, before and after all elements.
		in := ref.Contains(t, xs)
		for v := 0; v < 3; v++ {
			var ts []*big.Int
			switch v {
			case 0:
				ts = []*big.Int{t}
			case 1:
				ts = append(ref.Clone(xs), t)
			case 2:
				ts = append([]*big.Int{t, t}, ref.Clone(xs)...)
			}
			before := ref.Clone(ts)
			if err := iff(fmt.Sprintf("Superset(%v)", ts), c.Superset(ts) == nil, ok && in, valid); err != nil {
				return err
			}
			if !ref.Equal(before, ts) {
				return fmt.Errorf("Superset modified its targets")
			}
			if !variants {
				break
			}
		}
	}
	if err := iff("Superset(nil)", c.Superset(nil) == nil, ok, valid); err != nil {
		return err
	}
	if !ref.Equal(c, xs) {
		return fmt.Errorf("chain modified to %v", c)
	}
	if n := len(xs); variants && n > 1 {
		ops := c.Ops(n - 1)
		kops := append([]addchain.Op{}, ops...)
		kp := append(addchain.Program{}, p...)
		w.Later(func() error {
			if !slices.Equal(ops, kops) {
				return fmt.Errorf("the operations listed for %v changed from %v to %v", xs, kops, ops)
			}
			if !slices.Equal(p, kp) {
				return fmt.Errorf("the program for %v changed from %v to %v", xs, kp, p)
			}
			return iff("Validate later", c.Validate() == nil, ok, valid)
		})
	}
	return nil
}

// rearranged judges the chain after every exchange of two elements, and every
// change of one to that of another, made in the same slice; and in between.
func rearranged(w *mc.W, c addchain.Chain, xs []*big.Int) error {
	ys := ref.Clone(xs)
	judge := func(what string, i, j int) error {
		for n := len(c); n >= len(c)-1 && n > 0; n-- {
			c, ys := c[:n], ys[:n]
			valid := ref.ValidChain(ys)
			if c.IsAscending() != ref.Ascending(ys) {
				return fmt.Errorf("%s %d, %d: %v: IsAscending gives %v", what, i, j, c, c.IsAscending())
			}
			if got, want := c.Ops(n-1), ref.Pairs(ys, n-1); len(got) != len(want) {
				return fmt.Errorf("%s %d, %d: %v: Ops(%d)=%v, want %v", what, i, j, c, n-1, got, want)
			}
			if err := iff(fmt.Sprintf("%s %d, %d: %v: Validate", what, i, j, c), c.Validate() == nil, valid == nil, valid); err != nil {
				return err
			}
		}
		w.Trace(1)
		return nil
	}
	for i := range c {
		for j := 0; j < i; j++ {
			c[i], c[j] = c[j], c[i]
			ys[i], ys[j] = ys[j], ys[i]
			if err := judge("exchanged", i, j); err != nil {
				return err
			}
			c[i], c[j] = c[j], c[i]
			ys[i], ys[j] = ys[j], ys[i]
			if j != i-1 {
				continue
			}
			if err := judge("exchanged back", i, j); err != nil {
				return err
			}
			// The integer itself.
			c[i].Set(xs[j])
			ys[i] = new(big.Int).Set(xs[j])
			if err := judge("copied", i, j); err != nil {
				return err
			}
			c[i].Set(xs[i])
			ys[i] = new(big.Int).Set(xs[i])
		}
	}
	return nil
}

// checkScale judges the chain of a shape, in order, sorted, and each followed by
// a repeat of an earlier element, which is a sum of two earlier elements too.
func checkScale(w *mc.W, s enum.Shape) error {
	ops := make([]ref.Op, len(s.Ops))
	for i, o := range s.Ops {
		ops[i] = ref.Op(o)
	}
	chain, err := ref.Eval(ops)
	if err != nil {
		return err
	}
	if len(chain) > 1100 {
		return nil
	}
	for form, c := range [][]*big.Int{chain, ref.Union(chain)} {
		// Unless it is ascending, the library lists operations in cubic time.
		if form == 0 && len(c) > 300 && !ref.Ascending(c) {
			continue
		}
		if err := judgeLong(w, c); err != nil {
			return fmt.Errorf("form %d: %w", form, err)
		}
		n := len(c)
		if n > 300 {
			// A repeat makes it non-ascending: only validation is quick then.
			for _, at := range []int{0, 1, n / 2, n - 256, n - 257, n - 2, n - 1} {
				if at < 0 || at >= n {
					continue
				}
				m := append(addchain.Chain(ref.Clone(c)), new(big.Int).Set(c[at]))
				if m.Validate() == nil {
					return fmt.Errorf("form %d: accepted with element %d repeated at the end", form, at)
				}
				w.Trace(1)
			}
			continue
		}
		for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
			if at < 0 || at >= n {
				continue
			}
			if err := judgeLong(w, append(ref.Clone(c), new(big.Int).Set(c[at]))); err != nil {
				return fmt.Errorf("form %d, element %d repeated at the end: %w", form, at, err)
			}
		}
		// The last element off by one, and by a word.
		for _, d := range []*big.Int{big.NewInt(1), pow2(64, 0), pow2(128, 0)} {
			m := ref.Clone(c)
			m[n-1].Add(m[n-1], d)
			if err := judgeLong(w, m); err != nil {
				return fmt.Errorf("form %d, last element plus %v: %w", form, d, err)
			}
		}
	}
	return nil
}

// judgeLong compares validation with the definition, and the operation listing
// at the ends, in the middle, and around every power of two.
func judgeLong(w *mc.W, xs []*big.Int) error {
	c := addchain.Chain(ref.Clone(xs))
	valid := ref.ValidChain(xs)
	w.Trace(1)
	if valid == nil {
		w.Outcome("valid")
	} else {
		w.Outcome("invalid")
	}
	if err := iff("Validate", c.Validate() == nil, valid == nil, valid); err != nil {
		return err
	}
	if got, want := c.IsAscending(), ref.Ascending(xs); got != want {
		return fmt.Errorf("IsAscending=%v want %v", got, want)
	}
	last := xs[len(xs)-1]
	if err := iff("Produces", c.Produces(new(big.Int).Set(last)) == nil, valid == nil, valid); err != nil {
		return err
	}
	targets := ref.Clone(xs)
	for i, j := 0, len(targets)-1; i < j; i, j = i+1, j-1 {
		targets[i], targets[j] = targets[j], targets[i]
	}
	if err := iff("Superset(all)", c.Superset(targets) == nil, valid == nil, valid); err != nil {
		return err
	}
	absent := new(big.Int).Add(ref.Max(xs), big.NewInt(1))
	if err := iff("Superset(all and another)", c.Superset(append(targets, absent)) == nil, false, nil); err != nil {
		return err
	}
	ks := map[int]bool{1: true, len(xs) / 2: true, len(xs) - 1: true, len(xs) - 2: true}
	for p := 1; p < len(xs); p *= 2 {
		ks[p], ks[p-1], ks[p+1] = true, true, true
	}
	for k := range ks {
		if k < 1 || k >= len(xs) {
			continue
		}
		want := ref.Pairs(xs, k)
		got := append([]addchain.Op{}, c.Ops(k)...)
		w.Step(len(want) + 1)
		sort.Slice(got, func(i, j int) bool { return got[i].I < got[j].I || got[i].I == got[j].I && got[i].J < got[j].J })
		if len(got) != len(want) {
			return fmt.Errorf("Ops(%d)=%v want %v", k, got, want)
		}
		for i := range got {
			if got[i].I != want[i][0] || got[i].J != want[i][1] {
				return fmt.Errorf("Ops(%d)=%v want %v", k, got, want)
			}
		}
	}
	if valid == nil {
		p, err := c.Program()
		if err != nil {
			return fmt.Errorf("Program: %w", err)
		}
		ops := make([]ref.Op, len(p))
		for i, op := range p {
			ops[i] = ref.Op{op.I, op.J}
		}
		e, err := ref.Eval(ops)
		if err != nil || !ref.Equal(e, xs) || !ref.Equal(p.Evaluate(), xs) {
			return fmt.Errorf("program evaluates to another chain")
		}
	}
	if !ref.Equal(c, xs) {
		return fmt.Errorf("chain modified")
	}
	return nil
}

func main() {
	alphabet := []int64{1, 2, 3, 4, 5, 0, -1, 6}
	smallseq := mc.NewFamily("small-sequences", "every sequence of length 0..6 (7) over {1,2,3,4,5,0,-1,6}, each also with every two elements exchanged and neighbours copied in place",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("seq", 32, func(shard, n int, yield func(Small)) {
				enum.Seqs(len(alphabet), 0, t.Pick(6, 7), shard, n, func(ix []int) {
					s := make(Small, len(ix))
					for i, a := range ix {
						s[i] = alphabet[a]
					}
					yield(s)
				})
			})
		}, checkSmall)

	chains := mc.NewFamily("ordered-chains", "every duplicate-free addition chain in every element order, up to 8 (9) elements",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("chains", 32, func(shard, n int, yield func(Small)) {
				enum.Chains(t.Pick(8, 9), shard, n, func(c []int64) { yield(append(Small{}, c...)) })
			})
		}, checkSmall)

	mutants := mc.NewFamily("chain-mutants", "every ordered chain of up to 6 (7) elements with one element changed by ±1, ±2, negated, zeroed, or replaced by another, two elements swapped, or one removed",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("mutants", 32, func(shard, n int, yield func(Small)) {
				enum.Chains(t.Pick(6, 7), shard, n, func(c []int64) {
					for i := range c {
						for _, v := range []int64{c[i] + 1, c[i] - 1, c[i] + 2, -c[i], 0, 2 * c[i]} {
							m := append(Small{}, c...)
							m[i] = v
							yield(m)
						}
						for j := 0; j < i; j++ {
							m := append(Small{}, c...)
							m[i], m[j] = m[j], m[i]
							yield(m)
							m = append(Small{}, c...)
							m[i] = m[j]
							yield(m)
						}
						yield(append(append(Small{}, c[:i]...), c[i+1:]...))
					}
				})
			})
		}, checkSmall)

	bigs := []*big.Int{big.NewInt(1), big.NewInt(2), pow2(63, 0), pow2(64, 0), pow2(64, 1), pow2(65, 0), pow2(64, 2), pow2(63, -1), pow2(128, 0), pow2(128, 1), pow2(32, 0), new(big.Int).Neg(pow2(64, -1))}
	bigseq := mc.NewFamily("word-boundary-sequences", "every sequence of length 1..4 (5) over twelve values around 2^32, 2^63, 2^64, 2^65, 2^128, optionally after the prefix 1,2,..,2^63",
		func(t mc.Tier) []mc.Gen[Seq] {
			return mc.Shards("bigseq", 32, func(shard, n int, yield func(Seq)) {
				var prefix []*big.Int
				for e := uint(0); e <= 63; e++ {
					prefix = append(prefix, pow2(e, 0))
				}
				enum.Seqs(len(bigs), 1, t.Pick(4, 5), shard, n, func(ix []int) {
					var s []*big.Int
					for _, a := range ix {
						s = append(s, bigs[a])
					}
					yield(strs(s))
				})
				enum.Seqs(len(bigs), 1, t.Pick(2, 3), shard, n, func(ix []int) {
					s := append([]*big.Int{}, prefix...)
					for _, a := range ix {
						s = append(s, bigs[a])
					}
					yield(strs(s))
				})
			})
		}, checkBig)

	long := mc.NewFamily("long-chains", "chains from every step word of period 1..3 (4) over {double, +1, fibonacci, +middle, previous pair}, lengths 17,33,64,65,66,97 (129,130), in order and with every pair of neighbours at four places swapped, one element duplicated, one perturbed",
		func(t mc.Tier) []mc.Gen[Seq] {
			return mc.Shards("long", 64, func(shard, n int, yield func(Seq)) {
				lens := []int{17, 33, 64, 65, 66}
				if t == mc.Thorough {
					lens = append(lens, 97, 129, 130)
				}
				i := 0
				enum.Words(5, t.Pick(3, 4), func(word []int) {
					for _, l := range lens {
						i++
						if !enum.Mine(i, shard, n) {
							continue
						}
						c := longChain(word, l)
						yield(strs(c))
						for _, at := range []int{2, l / 2, l - 2, l - 1} {
							m := ref.Clone(c)
							m[at], m[at-1] = m[at-1], m[at]
							yield(strs(m))
						}
						m := ref.Clone(c)
						m[l-1] = m[l/2]
						yield(strs(m))
						m = ref.Clone(c)
						m[l-1] = new(big.Int).Add(m[l-1], big.NewInt(1))
						yield(strs(m))
						m = ref.Clone(c)
						m[l/2] = new(big.Int).Add(m[l/2], pow2(64, 0))
						yield(strs(m))
					}
				})
			})
		}, checkLong)

	scale := glue.ScaleTo(8, 258, 40, 514, checkScale)

	mc.Main(&mc.Check{
		Property:  "C02",
		Technique: "bounded exhaustive enumeration of sequences against the literal definition",
		Families:  []*mc.Family{smallseq, chains, mutants, bigseq, long, scale},
		Assumptions: []string{
			"math/big is correct",
			"sequences outside the enumerated alphabets and lengths are not covered",
		},
	})
}
