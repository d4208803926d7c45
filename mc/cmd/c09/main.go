// Command c09 decides property C09 (dictionary decompositions).
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Case is an integer with lists of window sizes and run limits.
type Case struct {
	X  string // hexadecimal
	Ks []uint
	Ts []uint
}

type method struct {
	name string
	d    dict.Decomposer
	ok   func(d *big.Int) bool // shape of a term
}

func allOnes(d *big.Int) bool {
	for i := 0; i < d.BitLen(); i++ {
		if d.Bit(i) == 0 {
			return false
		}
	}
	return d.Sign() > 0
}

func check(w *mc.W, c Case) error {
	x := ref.Int(c.X)
	for _, k := range c.Ks {
		k := k
		if err := judge(w, x, method{fmt.Sprintf("FixedWindow{%d}", k), dict.FixedWindow{K: k}, func(d *big.Int) bool {
			return uint(d.BitLen()) <= k
		}}); err != nil {
			return err
		}
		if err := judge(w, x, method{fmt.Sprintf("SlidingWindow{%d}", k), dict.SlidingWindow{K: k}, func(d *big.Int) bool {
			return uint(d.BitLen()) <= k && d.Bit(0) == 1
		}}); err != nil {
			return err
		}
		for _, t := range c.Ts {
			t := t
			if err := judge(w, x, method{fmt.Sprintf("Hybrid{%d,%d}", k, t), dict.Hybrid{K: k, T: t}, func(d *big.Int) bool {
				if d.Bit(0) == 0 {
					return false
				}
				n := uint(d.BitLen())
				return n <= k || allOnes(d) && (t == 0 || n <= t)
			}}); err != nil {
				return err
			}
		}
	}
	for _, t := range c.Ts {
		t := t
		if err := judge(w, x, method{fmt.Sprintf("RunLength{%d}", t), dict.RunLength{T: t}, func(d *big.Int) bool {
			return allOnes(d) && (t == 0 || uint(d.BitLen()) <= t)
		}}); err != nil {
			return err
		}
	}
	return nil
}

func judge(w *mc.W, x *big.Int, m method) error {
	arg := new(big.Int).Set(x)
	sum := m.d.Decompose(arg)
	w.Trace(1)
	w.Step(len(sum))
	bad := func(format string, args ...interface{}) error {
		return fmt.Errorf("%s.Decompose(%#x) = %v: %s", m.name, x, sum, fmt.Sprintf(format, args...))
	}
	if arg.Cmp(x) != 0 {
		return bad("argument modified to %#x", arg)
	}
	total := new(big.Int)
	end := -1 // first bit not covered so far
	var keep []*big.Int
	for i, t := range sum {
		if t.D == nil || t.D.Sign() <= 0 {
			return bad("term %d is not positive", i)
		}
		if i > 0 && t.E <= sum[i-1].E {
			return bad("exponents do not increase at %d", i)
		}
		if end >= 0 && int(t.E) < end {
			return bad("bit ranges overlap at %d", i)
		}
		end = int(t.E) + t.D.BitLen()
		if !m.ok(t.D) {
			return bad("term %d (%b) has the wrong shape", i, t.D)
		}
		v := new(big.Int).Lsh(t.D, t.E)
		if t.Int().Cmp(v) != 0 {
			return bad("Term.Int() of term %d = %v", i, t.Int())
		}
		total.Add(total, v)
		keep = append(keep, new(big.Int).Set(t.D))
	}
	if total.Cmp(x) != 0 {
		return bad("sums to %#x", total)
	}
	if got := sum.Int(); got.Cmp(x) != 0 {
		return bad("Sum.Int() = %#x", got)
	} else {
		ref.Scribble([]*big.Int{got})
	}
	// Dictionary: sorted distinct d.
	var want []*big.Int
	for _, d := range keep {
		if !ref.Contains(d, want) {
			want = append(want, d)
		}
	}
	ref.SortInts(want)
	got := sum.Dictionary()
	if !ref.Equal(got, want) {
		return bad("Dictionary() = %v, want %v", got, want)
	}
	for i, t := range sum {
		if t.D.Cmp(keep[i]) != 0 || i > 0 && t.E <= sum[i-1].E {
			return bad("terms changed by reading them")
		}
	}
	// The terms are the caller's: overwriting them has no effect on later
	// decompositions.
	es := make([]uint, len(sum))
	for i, t := range sum {
		es[i] = t.E
		ref.Scribble([]*big.Int{t.D})
		sum[i].E += 77
	}
	ref.Scribble(got)
	again := m.d.Decompose(new(big.Int).Set(x))
	if len(again) != len(keep) {
		return bad("decomposing again gives %v", again)
	}
	for i, t := range again {
		if t.E != es[i] || t.D.Cmp(keep[i]) != 0 {
			return bad("decomposing again gives %v", again)
		}
	}
	// In a variable that held other integers before.
	var again2 dict.Sum
	w.Reuse("x", []*big.Int{x}, func(xs []*big.Int) { again2 = m.d.Decompose(xs[0]) })
	if len(again2) != len(keep) {
		return bad("decomposing it in a variable that has been used before gives %v", again2)
	}
	for i, t := range again2 {
		if t.E != es[i] || t.D.Cmp(keep[i]) != 0 {
			return bad("decomposing it in a variable that has been used before gives %v", again2)
		}
	}
	if len(again) <= 16 {
		w.Later(func() error {
			for i, t := range again {
				if t.E != es[i] || t.D.Cmp(keep[i]) != 0 {
					return bad("the result is now %v", again)
				}
			}
			return nil
		})
	}
	switch len(sum) {
	case 1:
		w.Outcome("one-term")
	default:
		w.Outcome("several-terms")
	}
	return nil
}

func upto(lo, hi uint) []uint {
	var r []uint
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

func main() {
	huge := []uint{1 << 20, 1<<31 - 1, 1 << 32, 1<<62 + 1, math.MaxInt64, 1 << 63, math.MaxUint64}
	small := mc.NewFamily("small-integers", "every x below 2^13 (2^16) with every K in 1..bits+1 and every T in 0..bits+1, and K, T at machine word extremes",
		func(t mc.Tier) []mc.Gen[Case] {
			return mc.Shards("small", 64, func(shard, n int, yield func(Case)) {
				for x := 1; x < 1<<t.Pick(13, 16); x++ {
					if x%n != shard {
						continue
					}
					b := new(big.Int).SetInt64(int64(x))
					l := uint(b.BitLen())
					yield(Case{fmt.Sprintf("0x%x", x), append(upto(1, l+1), huge...), append(upto(0, l+1), huge...)})
				}
			})
		}, check)

	bound := []uint{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257}
	runs := mc.NewFamily("run-patterns", "every pattern of up to 3 (4) runs of ones and zeros with lengths from {1,2,3,4,7,8,9,16,17,31,32,33,63,64,65,127,128,129} (a subset for 4), K and T from the values around those lengths",
		func(t mc.Tier) []mc.Gen[Case] {
			return mc.Shards("runs", 64, func(shard, n int, yield func(Case)) {
				ls := []int{1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}
				enum.RunPatterns(ls, 3, 300, shard, n, func(r enum.Runs) {
					if t == mc.Quick && len(r) == 3 {
						// Cut the parameter grid for the largest group.
						yield(Case{fmt.Sprintf("0x%x", r.Int()), []uint{1, 2, 4, 8, 17, 32, 63, 64, 65, 128}, []uint{0, 1, 3, 8, 16, 31, 64, 65, 127, 129}})
						return
					}
					yield(Case{fmt.Sprintf("0x%x", r.Int()), bound, append([]uint{0}, bound...)})
				})
				deep := []int{1, 2, 3, 5, 8, 16, 33, 64}
				lo := []uint{1, 2, 3, 4, 5, 8, 9, 16, 33, 64, 65}
				enum.RunPatterns(deep, t.Pick(5, 6), 260, shard, n, func(r enum.Runs) {
					if len(r) >= 4 {
						yield(Case{fmt.Sprintf("0x%x", r.Int()), lo[:t.Pick(6, 11)], append([]uint{0}, lo[:t.Pick(6, 11)]...)})
					}
				})
			})
		}, check)

	periodic := mc.NewFamily("periodic-bits", "every bit word of period 1..6 (8) repeated to 62..66, 127..129, 256, 521 bits, with and without a forced last one; K and T from boundary values",
		func(t mc.Tier) []mc.Gen[Case] {
			return mc.Shards("periodic", 64, func(shard, n int, yield func(Case)) {
				enum.PeriodicBits(t.Pick(6, 8), []int{62, 63, 64, 65, 66, 127, 128, 129, 256, 521}, shard, n, func(x *big.Int) {
					yield(Case{fmt.Sprintf("0x%x", x), []uint{1, 2, 3, 4, 5, 6, 8, 16, 33, 64, 65, 128, 129, 600}, []uint{0, 1, 2, 3, 5, 16, 33, 64, 65, 128, 600}})
				})
			})
		}, check)

	distant := mc.NewFamily("distant-bits", "every choice of 1..2 (3) blocks (1, 3, 5, 2^7-1) at distinct positions from {0, 63, 64, 255, 256, 257, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071 (4095, 4097, 131072, 200000)}; a run of n ones, with and without a gap, for n around 4096, 32768 and 65536; K and T small and around the same numbers",
		func(t mc.Tier) []mc.Gen[Case] {
			return mc.Shards("distant", 64, func(shard, n int, yield func(Case)) {
				at := []uint{0, 63, 64, 255, 256, 257, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071}
				if t == mc.Thorough {
					at = append(at, 4095, 4097, 131072, 200000)
				}
				sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
				blocks := []int64{1, 3, 5, 127}
				cnt := 0
				var rec func(from, left int, x *big.Int)
				rec = func(from, left int, x *big.Int) {
					if x.Sign() > 0 {
						cnt++
						if cnt%n == shard {
							ks := []uint{70, 700}
							if x.BitLen() < 66000 && cnt%16 == 1 {
								ks = []uint{5, 70} // a short fixed window takes long
							}
							yield(Case{fmt.Sprintf("0x%x", x), ks, []uint{0, 1, 2}})
						}
					}
					if left == 0 {
						return
					}
					for i := from; i < len(at); i++ {
						for _, b := range blocks {
							if left < t.Pick(1, 2) && b > 3 {
								continue // the blocks vary in the first two places
							}
							y := new(big.Int).Lsh(big.NewInt(b), at[i])
							if y.Or(y, x).BitLen() > x.BitLen() {
								rec(i+1, left-1, y)
							}
						}
					}
				}
				rec(0, t.Pick(2, 3), new(big.Int))
				for _, m := range []uint{4096, 32768, 65536} {
					for d := -1; d <= 1; d++ {
						for _, gap := range []uint{0, 1, 64} {
							cnt++
							if cnt%n != shard {
								continue
							}
							l := uint(int(m) + d)
							x := ref.Pow2(l, -1)
							if gap > 0 {
								x.Lsh(x, gap+1)
								x.Add(x, big.NewInt(1))
							}
							yield(Case{fmt.Sprintf("0x%x", x), []uint{65, m - 1, m, m + 1}, []uint{0, 1, m - 1, m, m + 1}})
						}
					}
				}
			})
		}, check)

	distant.Large = true
	mc.Main(&mc.Check{
		Property:    "C09",
		Technique:   "bounded exhaustive enumeration of integers and parameters against the bit-level definition",
		Families:    []*mc.Family{small, runs, periodic, distant},
		Assumptions: []string{"math/big is correct"},
	})
}
