// Command c11 decides property C11 (chains of run lengths).
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Small is a chain of run lengths.
type Small []int64

func checkSmall(w *mc.W, s Small) error {
	xs := ref.Big(s)
	if ref.ValidChain(xs) != nil {
		return nil
	}
	lc := addchain.Chain(ref.Clone(xs))
	got, err := dict.RunsChain(lc)
	w.Trace(1)
	w.Step(len(s))
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	if err := ref.ValidChain(got); err != nil {
		return fmt.Errorf("result is not an addition chain: %v (%v)", err, got)
	}
	have := map[string]bool{}
	for _, x := range got {
		have[x.String()] = true
	}
	for _, l := range s {
		r := ref.Pow2(uint(l), -1)
		if !have[r.String()] {
			return fmt.Errorf("run of length %d is missing from the result", l)
		}
		w.Max("length", int(l))
	}
	if !ref.Equal(lc, xs) {
		w.Outcome("lengths-rewritten")
	}
	if len(got) <= 64 {
		// The result is the caller's: overwriting it has no effect on later
		// calls.
		kept := ref.Clone(got)
		ref.Scribble(got)
		again, err := dict.RunsChain(addchain.Chain(ref.Clone(xs)))
		if err != nil || !ref.Equal(again, kept) {
			return fmt.Errorf("%v, then %v (%v)", kept, again, err)
		}
		// In variables that held other lengths before.
		var got3 addchain.Chain
		w.Reuse("lengths", xs, func(xs []*big.Int) { got3, err = dict.RunsChain(addchain.Chain(xs)) })
		if err != nil || !ref.Equal(got3, kept) {
			return fmt.Errorf("%v, and %v (%v) in variables that have been used before", kept, got3, err)
		}
		w.Later(func() error {
			if !ref.Equal(again, kept) {
				return fmt.Errorf("the result for %v changed from %v to %v", s, kept, again)
			}
			return nil
		})
	}
	w.Outcome("chain")
	return nil
}

// checkLong is checkSmall for results too long for the general validity check:
// each element is first sought as the double of an earlier one, or as an
// earlier one plus a run that has been asked for.
func checkLong(w *mc.W, s Small) error {
	xs := ref.Big(s)
	if ref.ValidChain(xs) != nil {
		return nil
	}
	got, err := dict.RunsChain(addchain.Chain(ref.Clone(xs)))
	w.Trace(1)
	w.Step(len(got))
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	at := map[uint64][]int{}
	hash := func(x *big.Int) uint64 {
		h := uint64(14695981039346656037)
		for _, b := range x.Bits() {
			h = (h ^ uint64(b)) * 1099511628211
			h ^= h >> 29
		}
		return h
	}
	has := func(x *big.Int) bool {
		for _, i := range at[hash(x)] {
			if got[i].Cmp(x) == 0 {
				return true
			}
		}
		return false
	}
	var runs []*big.Int
	for _, l := range s {
		runs = append(runs, ref.Pow2(uint(l), -1))
	}
	for k, x := range got {
		if k == 0 {
			if x.Cmp(big.NewInt(1)) != 0 {
				return fmt.Errorf("the result starts with %v", x)
			}
		} else if x.Sign() <= 0 {
			return fmt.Errorf("element %d is not positive", k)
		} else {
			ok := x.Bit(0) == 0 && has(new(big.Int).Rsh(x, 1))
			for _, r := range runs {
				if ok {
					break
				}
				ok = r.Cmp(x) < 0 && has(r) && has(new(big.Int).Sub(x, r))
			}
			for i := 0; !ok && i < k; i++ {
				ok = has(new(big.Int).Sub(x, got[i]))
			}
			if !ok {
				return fmt.Errorf("element %d, of %d bits, is not a sum of two earlier elements", k, x.BitLen())
			}
			if has(x) {
				return fmt.Errorf("element %d, of %d bits, is repeated", k, x.BitLen())
			}
		}
		h := hash(x)
		at[h] = append(at[h], k)
	}
	for i, r := range runs {
		if !has(r) {
			return fmt.Errorf("run of length %d is missing from the result", s[i])
		}
		w.Max("length", int(s[i]))
	}
	w.Outcome("chain")
	return nil
}

func checkOversized(w *mc.W, s ref.Ints) error {
	xs := s.Big()
	if ref.ValidChain(xs) != nil {
		return nil
	}
	over := false
	for _, x := range xs {
		over = over || x.BitLen() > 64
	}
	if !over {
		return nil // would need more memory than there is
	}
	w.Trace(1)
	w.Step(len(s))
	got, err := dict.RunsChain(addchain.Chain(ref.Clone(xs)))
	if err == nil {
		return fmt.Errorf("a chain with a length above the machine word was accepted, %d elements returned", len(got))
	}
	w.Outcome("refused")
	return nil
}

func ints(xs []*big.Int) Small {
	s := make(Small, len(xs))
	for i, x := range xs {
		s[i] = x.Int64()
	}
	return s
}

func main() {
	chains := mc.NewFamily("ordered-chains", "every ordered duplicate-free chain of run lengths, up to 8 (9) elements",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("chains", 64, func(shard, n int, yield func(Small)) {
				enum.Chains(t.Pick(8, 9), shard, n, func(c []int64) { yield(append(Small{}, c...)) })
			})
		}, checkSmall)

	short := mc.NewFamily("ordered-chains-9", "every ordered duplicate-free chain of 9 (10) run lengths with all lengths at most 24 (32)",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("chains", 64, func(shard, n int, yield func(Small)) {
				lim := int64(t.Pick(24, 32))
				enum.Chains(t.Pick(9, 10), shard, n, func(c []int64) {
					if len(c) < t.Pick(9, 10) {
						return
					}
					for _, x := range c {
						if x > lim {
							return
						}
					}
					yield(append(Small{}, c...))
				})
			})
		}, checkSmall)

	pairs := mc.NewFamily("sum-pairs", "for all a <= b up to 66 (130): the binary chains of a and b and then a+b, 2a+b, in ascending order and with b's chain first",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("pairs", 64, func(shard, n int, yield func(Small)) {
				lim := int64(t.Pick(66, 130))
				i := 0
				for a := int64(1); a <= lim; a++ {
					for b := a; b <= lim; b++ {
						i++
						if !enum.Mine(i, shard, n) {
							continue
						}
						ca, cb := ints(ref.BinaryChain(big.NewInt(a))), ints(ref.BinaryChain(big.NewInt(b)))
						for v := 0; v < 2; v++ {
							var c Small
							add := func(xs ...int64) {
								for _, x := range xs {
									dup := false
									for _, y := range c {
										dup = dup || x == y
									}
									if !dup {
										c = append(c, x)
									}
								}
							}
							if v == 0 {
								add(ints(ref.Union(ref.Big(ca), ref.Big(cb)))...)
							} else {
								add(cb...)
								add(ca...)
							}
							add(a + b)
							add(2*a + b)
							yield(c)
						}
					}
				}
			})
		}, checkSmall)

	long := mc.NewFamily("long-lengths", "chains from every step word of period 1..3 over five steps, ended when a length passes 130, 520 (1040), in chain order and with the last two lengths swapped",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("long", 64, func(shard, n int, yield func(Small)) {
				i := 0
				for _, lim := range []int64{130, int64(t.Pick(520, 1040))} {
					enum.Words(5, 3, func(wd []int) {
						i++
						if !enum.Mine(i, shard, n) {
							return
						}
						c := ints(ref.LongChainUntil(wd, func(c []*big.Int) bool { return c[len(c)-1].Int64() > lim }))
						yield(c)
						m := append(Small{}, c...)
						l := len(m)
						m[l-1], m[l-2] = m[l-2], m[l-1]
						yield(m)
					})
				}
			})
		}, checkSmall)

	far := func(from, to func(t mc.Tier) int, mixed bool) func(t mc.Tier) []mc.Gen[Small] {
		return func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("very-long", 32, func(shard, n int, yield func(Small)) {
				i := 0
				for k := from(t); k <= to(t); k++ {
					for d := int64(-1); d <= 1; d++ {
						for order := 0; order < 2; order++ {
							for last := 0; last < 3; last++ {
								if !mixed && t == mc.Quick && (order == 1 || d == -1) {
									continue
								}
								i++
								if !enum.Mine(i, shard, n) {
									continue
								}
								target := int64(1)<<uint(k) + d
								c := ints(ref.BinaryChain(big.NewInt(target)))
								var e Small
								add := func(xs ...int64) {
									for _, x := range xs {
										dup := false
										for _, y := range e {
											dup = dup || x == y
										}
										if !dup {
											e = append(e, x)
										}
									}
								}
								p := int64(1)
								for ; order == 1 && p <= target; p *= 2 {
									add(p)
								}
								add(c...)
								switch last {
								case 1:
									add(target + 1)
								case 2:
									add(target+2, target+1)
								}
								yield(e)
							}
						}
					}
				}
			})
		}
	}
	fixed := func(q, th int) func(mc.Tier) int { return func(t mc.Tier) int { return t.Pick(q, th) } }
	verylong := mc.NewFamily("very-long-lengths", "the binary chains of every length 2^k + d, d in -1..1, k = 7..13, in ascending order and with the powers of two first, as they are and followed by one or two larger lengths",
		far(fixed(7, 7), fixed(13, 13), true), checkSmall)
	longest := mc.NewFamily("longest-lengths", "the same for k = 13..16 (the ascending order and d in 0, 1 (all))",
		far(fixed(13, 13), fixed(16, 16), false), checkLong)

	oversized := mc.NewFamily("oversized", "chains from every step word of period 1..3 (4) that grow beyond 2^64, with every length of up to two further elements, in chain order and with the oversized length moved earlier",
		func(t mc.Tier) []mc.Gen[ref.Ints] {
			return mc.Shards("oversized", 8, func(shard, n int, yield func(ref.Ints)) {
				i := 0
				m := ref.Pow2(64, 0)
				enum.Words(5, t.Pick(3, 4), func(wd []int) {
					pure := true
					for _, x := range wd {
						pure = pure && x == 1
					}
					if pure {
						return // counting up to 2^64 takes for ever
					}
					i++
					if !enum.Mine(i, shard, n) {
						return
					}
					for extra := 0; extra < 3; extra++ {
						c := ref.LongChainUntil(wd, func(c []*big.Int) bool {
							k := len(c) - 1 - extra
							return k >= 0 && c[k].Cmp(m) >= 0 || len(c) > 400
						})
						yield(ref.Strs(c))
						// A small element after the oversized one.
						small := new(big.Int).Add(c[1], c[2])
						for ref.Contains(small, c) {
							small.Add(small, c[0])
						}
						if small.BitLen() < 20 {
							yield(ref.Strs(append(ref.Clone(c), small)))
						}
					}
				})
			})
		}, checkOversized)

	longest.Large = true
	mc.Deep(chains, pairs, long, verylong, longest, oversized)
	mc.Main(&mc.Check{
		Property:    "C11",
		Technique:   "bounded exhaustive enumeration of ordered length chains against the definition",
		Families:    []*mc.Family{chains, short, pairs, long, verylong, longest, oversized},
		MaxHeapMB:   2500,
		Assumptions: []string{"math/big is correct", "lengths between 2^17 and 2^64 are not exercised: the result does not fit in memory"},
	})
}
