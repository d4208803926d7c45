package glue

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// ProgramFamilies are the spaces of chain programs used by the checks of script
// building; large adds programs of up to 2^16 operations.
func ProgramFamilies(large bool, check func(w *mc.W, ops enum.Ops) error) []*mc.Family {
	plan := func(id string, shards int, each func(t mc.Tier, shard, n int, yield func(enum.Ops))) func(mc.Tier) []mc.Gen[enum.Ops] {
		return func(t mc.Tier) []mc.Gen[enum.Ops] {
			return mc.Shards(id, shards, func(shard, n int, yield func(enum.Ops)) {
				each(t, shard, n, func(o enum.Ops) { yield(enum.CloneOps(o)) })
			})
		}
	}
	ordered := mc.NewFamily("ordered-programs", "every program of up to 6 operations with distinct values and both operand orders",
		plan("ordered", 64, func(t mc.Tier, shard, n int, yield func(enum.Ops)) {
			enum.Programs(6, true, shard, n, func(o [][2]int) { yield(o) })
		}), check)
	programs := mc.NewFamily("programs", "every program of up to 7 operations with distinct values, up to operand order (and every program of 8 in which every value but the last is read)",
		plan("programs", 128, func(t mc.Tier, shard, n int, yield func(enum.Ops)) {
			enum.Programs(t.Pick(7, 8), false, shard, n, func(o [][2]int) {
				if len(o) < 8 || allread(o) {
					yield(o)
				}
			})
		}), check)
	words := mc.NewFamily("step-words", "every word of 1..4 (5) of 12 macro steps (doublings and runs of them, additions of the last, previous, middle and first element, run doubling, re-reading an intermediate of a run) and every word of 5..6 (7) over 6 of them",
		plan("words", 128, func(t mc.Tier, shard, n int, yield func(enum.Ops)) {
			var all []int
			for i := 0; i < enum.Steps; i++ {
				all = append(all, i)
			}
			enum.StepWords(all, 1, t.Pick(4, 5), shard, n, yield)
			enum.StepWords([]int{0, 1, 3, 4, 7, 8}, t.Pick(5, 6), t.Pick(6, 7), shard, n, yield)
		}), check)
	long := mc.NewFamily("long-programs", "every word of 1..2 (3) macro steps repeated to 12, 40 and 120 operations",
		plan("long", 64, func(t mc.Tier, shard, n int, yield func(enum.Ops)) {
			var all []int
			for i := 0; i < enum.Steps; i++ {
				all = append(all, i)
			}
			enum.LongPrograms(all, t.Pick(2, 3), []int{12, 40, 120}, shard, n, yield)
		}), check)
	algs := []alg.ChainAlgorithm{
		binary.RightToLeft{},
		dict.NewAlgorithm(dict.SlidingWindow{K: 4}, contfrac.NewAlgorithm(contfrac.DichotomicStrategy{})),
		dict.NewAlgorithm(dict.Hybrid{K: 3, T: 0}, heuristic.NewAlgorithm(heuristic.UseFirst(heuristic.Halving{}, heuristic.DeltaLargest{}))),
		opt.Algorithm{Algorithm: dict.NewAlgorithm(dict.RunLength{T: 0}, contfrac.NewAlgorithm(contfrac.BinaryStrategy{}))},
	}
	found := mc.NewFamily("found-chains", "chains for every target 1..600 (4000), every target with bits of period 1..4 (5) at 24, 64, 129 and 256 bits, and 2^k-d: binary (first and last operand choice) and four algorithms of the library",
		plan("found", 64, func(t mc.Tier, shard, n int, yield func(enum.Ops)) {
			emit := func(x *big.Int) {
				yield(enum.ChainOps(ref.BinaryChain(x), false))
				yield(enum.ChainOps(ref.BinaryChain(x), true))
				for _, a := range algs {
					c, err := a.FindChain(new(big.Int).Set(x))
					if err != nil || ref.ValidChain(c) != nil {
						continue // judged by C01
					}
					yield(enum.ChainOps(c, false))
					yield(enum.ChainOps(c, true))
				}
			}
			for x := 1; x <= t.Pick(600, 4000); x++ {
				if x%n == shard {
					emit(big.NewInt(int64(x)))
				}
			}
			enum.PeriodicBits(t.Pick(4, 5), []int{24, 64, 129, 256}, shard, n, emit)
			for k := uint(7); k <= 20; k++ {
				for d := int64(1); d <= 3; d++ {
					if int(k*3+uint(d))%n == shard {
						emit(ref.Pow2(k, -d))
					}
				}
			}
		}), check)
	fs := []*mc.Family{found, words, long, Scale(func(w *mc.W, s enum.Shape) error { return check(w, s.Ops) }), Far(500, 4200, 1<<13+2, func(w *mc.W, s enum.Shape) error { return check(w, s.Ops) }), programs, ordered}
	if large {
		fs = append(fs, FarLarge(4201, 1<<16+2, 1<<17+2, func(w *mc.W, s enum.Shape) error { return check(w, s.Ops) }))
	}
	return fs
}

// Far is the family of long programs over small values.
func Far(min, max, Max int, check func(w *mc.W, s enum.Shape) error) *mc.Family {
	return mc.NewFamily("far", fmt.Sprintf("11 shapes with small values (an element of a run, a late run, the first element or a hub read again after m operations, m values alive at once in three orders, every element read again after m/2) at m around the powers of two and ten from %d to %d (%d)", min, max, Max),
		func(t mc.Tier) []mc.Gen[enum.Shape] {
			return mc.Shards("far", 64, func(shard, n int, yield func(enum.Shape)) {
				enum.Far(min, t.Pick(max, Max), shard, n, yield)
			})
		}, check)
}

// FarLarge is Far at sizes at which a slow implementation may not finish.
func FarLarge(min, max, Max int, check func(w *mc.W, s enum.Shape) error) *mc.Family {
	f := Far(min, max, Max, check)
	f.Name, f.Large = "far-large", true
	return f
}

// Scale is the family of parametric programs.
func Scale(check func(w *mc.W, s enum.Shape) error) *mc.Family {
	return ScaleTo(24, 1026, 140, 2050, check)
}

// ScaleTo is the family of parametric programs with other sizes.
func ScaleTo(dense, max, Dense, Max int, check func(w *mc.W, s enum.Shape) error) *mc.Family {
	return mc.NewFamily("scale", fmt.Sprintf("60 parametric shapes (a hub read m times, m doublings, re-read intermediates, forks, runs of ones with gaps, values alive m steps, m values alive at once in one to three waves, echoes) in both operand orders at every size m up to %d (%d) and every 2^k+d, -1<=d<=2, and 10^k+d up to %d (%d)", dense, Dense, max, Max),
		func(t mc.Tier) []mc.Gen[enum.Shape] {
			return mc.Shards("scale", 128, func(shard, n int, yield func(enum.Shape)) {
				enum.Shapes(t.Pick(dense, Dense), t.Pick(max, Max), shard, n, yield)
			})
		}, check)
}

func allread(o [][2]int) bool {
	read := make([]bool, len(o)+1)
	for _, op := range o {
		read[op[0]], read[op[1]] = true, true
	}
	for _, r := range read[:len(o)] {
		if !r {
			return false
		}
	}
	return true
}
