// Command c10 decides property C10 (chain optimisation).
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/opt"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Small is a chain of machine integers.
type Small []int64

type stub struct{ c addchain.Chain }

func (s stub) FindChain(*big.Int) (addchain.Chain, error) { return s.c, nil }
func (s stub) String() string                             { return "stub" }

func check(w *mc.W, xs []*big.Int) error {
	if err := ref.ValidChain(xs); err != nil {
		return nil // not a valid chain: nothing is claimed
	}
	judge := func(what string, c, got addchain.Chain, err error) error {
		w.Trace(1)
		w.Step(len(xs))
		if err != nil {
			return fmt.Errorf("%s: error %v", what, err)
		}
		if !ref.Equal(c, xs) {
			return fmt.Errorf("%s: input chain modified to %v", what, c)
		}
		if err := ref.ValidChain(got); err != nil {
			return fmt.Errorf("%s: result %v is not an addition chain: %v", what, got, err)
		}
		if !ref.Subsequence(got, xs) {
			return fmt.Errorf("%s: result %v is not a subsequence", what, got)
		}
		if got[0].Cmp(xs[0]) != 0 || got[len(got)-1].Cmp(xs[len(xs)-1]) != 0 {
			return fmt.Errorf("%s: result %v changes an end point", what, got)
		}
		if len(got) > len(xs) {
			return fmt.Errorf("%s: longer", what)
		}
		return nil
	}
	c := addchain.Chain(ref.Clone(xs))
	got, err := opt.Optimize(c)
	if err := judge("Optimize", c, got, err); err != nil {
		return err
	}
	switch d := len(xs) - len(got); {
	case d == 0:
		w.Outcome("unchanged")
	case d < 4:
		w.Outcome(fmt.Sprintf("removed-%d", d))
	default:
		w.Outcome("removed-many")
	}
	a := opt.Algorithm{Algorithm: stub{c}}
	got2, err := a.FindChain(new(big.Int).Set(xs[len(xs)-1]))
	if err := judge("Algorithm.FindChain", c, got2, err); err != nil {
		return err
	}
	if !ref.Equal(got, got2) {
		return fmt.Errorf("Optimize gives %v then %v", got, got2)
	}
	// In variables that held other chains before.
	var got3 addchain.Chain
	w.Reuse("chain", xs, func(xs []*big.Int) { got3, err = opt.Optimize(addchain.Chain(xs)) })
	if err != nil || !ref.Equal(got, got3) {
		return fmt.Errorf("Optimize gives %v, and %v (%v) in variables that have been used before", got, got3, err)
	}
	// The results are the caller's. Their elements may be the input's own
	// elements, which this case leaves alone.
	kept := ref.Clone(got)
	w.Later(func() error {
		if len(kept) <= 64 && !ref.Equal(got, kept) {
			return fmt.Errorf("the result for %v changed from %v to %v", xs, kept, got)
		}
		return nil
	})
	return nil
}

func checkSmall(w *mc.W, s Small) error   { return check(w, ref.Big(s)) }
func checkInts(w *mc.W, s ref.Ints) error { return check(w, s.Big()) }

func main() {
	chains := mc.NewFamily("ordered-chains", "every duplicate-free addition chain in every element order, up to 9 (10) elements",
		func(t mc.Tier) []mc.Gen[Small] {
			return mc.Shards("chains", 64, func(shard, n int, yield func(Small)) {
				enum.Chains(t.Pick(9, 10), shard, n, func(c []int64) { yield(append(Small{}, c...)) })
			})
		}, checkSmall)

	dense := mc.NewFamily("ascending-unions", "for every n below 1024 (4096): unions of every subset of {left-to-right binary, right-to-left binary, binary chains of n/2, n/3, n-1, n-2 (with n appended), all of 1..bitlen}",
		func(t mc.Tier) []mc.Gen[ref.Ints] {
			return mc.Shards("unions", 32, func(shard, n int, yield func(ref.Ints)) {
				for v := int64(1); v < int64(t.Pick(1024, 4096)); v++ {
					if !enum.Mine(int(v), shard, n) {
						continue
					}
					x := big.NewInt(v)
					parts := [][]*big.Int{ref.BinaryChain(x), ref.BinaryRightChain(x)}
					for _, d := range []int64{v / 2, v / 3, v - 1, v - 2, v/2 + 1} {
						// d and v-d both present make v a sum.
						if d >= 1 && v-d >= 1 {
							parts = append(parts, ref.Union(ref.BinaryChain(big.NewInt(d)), ref.BinaryChain(big.NewInt(v-d)), []*big.Int{x}))
						}
					}
					for m := 1; m < 1<<len(parts); m++ {
						var sel [][]*big.Int
						for i := range parts {
							if m>>i&1 == 1 {
								sel = append(sel, parts[i])
							}
						}
						yield(ref.Strs(ref.Union(sel...)))
					}
				}
			})
		}, checkInts)

	long := mc.NewFamily("long-unions", "unions of chains from every pair of step words of period 1..2 (3) at lengths 20, 40, 66, 100 (130), and each single word in chain order up to 130 elements",
		func(t mc.Tier) []mc.Gen[ref.Ints] {
			return mc.Shards("long", 64, func(shard, n int, yield func(ref.Ints)) {
				var words [][]int
				enum.Words(5, t.Pick(2, 3), func(wd []int) { words = append(words, wd) })
				i := 0
				lens := []int{20, 40, 66}
				if t == mc.Thorough {
					lens = []int{20, 40, 66, 100}
				}
				for _, l := range lens {
					for a := range words {
						for b := 0; b <= a; b++ {
							i++
							if !enum.Mine(i, shard, n) {
								continue
							}
							yield(ref.Strs(ref.Union(ref.LongChain(words[a], l), ref.LongChain(words[b], l))))
						}
					}
				}
				enum.Words(5, 3, func(wd []int) {
					for _, l := range []int{30, 64, 65, 66, t.Pick(70, 130)} {
						i++
						if !enum.Mine(i, shard, n) {
							continue
						}
						yield(ref.Strs(ref.LongChain(wd, l)))
					}
				})
			})
		}, checkInts)

	boundary := mc.NewFamily("word-boundary", "1,2,..,2^62 followed by every choice of up to 4 sums out of the most recent six elements and 1, crossing 2^63, 2^64 and 2^65",
		func(t mc.Tier) []mc.Gen[ref.Ints] {
			return mc.Shards("boundary", 32, func(shard, n int, yield func(ref.Ints)) {
				var c []*big.Int
				for e := uint(0); e <= 62; e++ {
					c = append(c, ref.Pow2(e, 0))
				}
				base := len(c)
				depth := t.Pick(4, 4)
				cnt := 0
				var rec func()
				rec = func() {
					if len(c) > base {
						if cnt%n == shard {
							yield(ref.Strs(c))
						}
						cnt++
					}
					if len(c) == base+depth {
						return
					}
					recent := append([]*big.Int{c[0], c[1]}, c[len(c)-4:]...)
					var sums []*big.Int
					for i := range recent {
						for j := i; j < len(recent); j++ {
							s := new(big.Int).Add(recent[i], recent[j])
							if !ref.Contains(s, c) && !ref.Contains(s, sums) {
								sums = append(sums, s)
							}
						}
					}
					for _, s := range sums {
						c = append(c, s)
						rec()
						c = c[:len(c)-1]
					}
				}
				rec()
			})
		}, checkInts)

	scale := glue.ScaleTo(12, 258, 66, 514, func(w *mc.W, s enum.Shape) error {
		ops := make([]ref.Op, len(s.Ops))
		for i, o := range s.Ops {
			ops[i] = ref.Op(o)
		}
		chain, err := ref.Eval(ops)
		if err != nil {
			return err
		}
		// Unless it is ascending, the library lists operations in cubic time.
		if len(chain) <= 260 || ref.Ascending(chain) {
			if err := check(w, chain); err != nil {
				return err
			}
		}
		return check(w, ref.Union(chain))
	})

	mc.Main(&mc.Check{
		Property:    "C10",
		Technique:   "bounded exhaustive enumeration of ordered chains against the definition",
		Families:    []*mc.Family{chains, dense, long, scale, boundary, distantFamily()},
		Assumptions: []string{"math/big is correct"},
	})
}
