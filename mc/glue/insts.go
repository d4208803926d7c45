package glue

import (
	"fmt"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Depths are the bounds of the spaces for the two tiers.
type Depths struct {
	Live                 bool
	Insts, Ordered, Adds [2]int
	ThoroughShifts       []int
	Large                [2]int // largest programs
}

// InstFamilies are the spaces of instruction programs used by the checks of
// temporary allocation.
func InstFamilies(d Depths, check func(w *mc.W, p []ref.Inst) error) []*mc.Family {
	plan := func(id string, shards int, each func(t mc.Tier, shard, n int, yield func([]ref.Inst))) func(mc.Tier) []mc.Gen[[]ref.Inst] {
		return func(t mc.Tier) []mc.Gen[[]ref.Inst] {
			return mc.Shards(id, shards, func(shard, n int, yield func([]ref.Inst)) {
				each(t, shard, n, func(p []ref.Inst) { yield(append([]ref.Inst{}, p...)) })
			})
		}
	}
	small := mc.NewFamily("instructions", fmt.Sprintf("every program of up to %d (%d) instructions over additions (equal operands included), doublings and shifts by 2 (%v)", d.Insts[0], d.Insts[1], d.ThoroughShifts),
		plan("insts", 128, func(t mc.Tier, shard, n int, yield func([]ref.Inst)) {
			sh := []int{2}
			if t == mc.Thorough {
				sh = d.ThoroughShifts
			}
			enum.Insts(enum.InstSpace{Max: d.Insts[t], Shifts: sh, AllRead: d.Live}, shard, n, yield)
		}), check)
	ordered := mc.NewFamily("ordered-instructions", fmt.Sprintf("every program of up to %d (%d) instructions over additions in both operand orders, doublings and shifts by 1, 2 and 3", d.Ordered[0], d.Ordered[1]),
		plan("ordered", 64, func(t mc.Tier, shard, n int, yield func([]ref.Inst)) {
			enum.Insts(enum.InstSpace{Max: d.Ordered[t], Ordered: true, Shifts: []int{1, 2, 3}, AllRead: d.Live}, shard, n, yield)
		}), check)
	adds := mc.NewFamily("additions", fmt.Sprintf("every program of exactly %d (%d) instructions over additions only in which every value but the last is read", d.Adds[0], d.Adds[1]),
		plan("adds", 128, func(t mc.Tier, shard, n int, yield func([]ref.Inst)) {
			enum.Insts(enum.InstSpace{Max: d.Adds[t], AddOnly: true, AllRead: true, Longest: true}, shard, n, yield)
		}), check)
	long := mc.NewFamily("long-programs", "every word of 1..2 (3) of 12 macro steps repeated to 12, 40 and 120 operations, compiled to instructions",
		plan("long", 64, func(t mc.Tier, shard, n int, yield func([]ref.Inst)) {
			var all []int
			for i := 0; i < enum.Steps; i++ {
				all = append(all, i)
			}
			enum.LongPrograms(all, t.Pick(2, 3), []int{12, 40, 120}, shard, n, func(ops enum.Ops) {
				p, err := acc.Decompile(Program(ops))
				if err != nil {
					return // judged by C04
				}
				insts, err := Insts(p)
				if err != nil {
					return
				}
				if _, err := ref.Expand(insts); err != nil {
					return
				}
				yield(insts)
			})
		}), check)
	pressure := mc.NewFamily("pressure", "1..40 (100) values created by every word of 1..2 of 4 ways and consumed in 4 orders, with and without reuse in the middle",
		plan("pressure", 64, func(t mc.Tier, shard, n int, yield func([]ref.Inst)) {
			cnt := 0
			for c := 1; c <= t.Pick(40, 100); c++ {
				enum.Words(4, 2, func(word []int) {
					for order := 0; order < 4; order++ {
						for _, middle := range []bool{false, true} {
							if cnt%n == shard {
								if p := enum.Pressure(c, word, order, middle); len(p) > 0 {
									yield(p)
								}
							}
							cnt++
						}
					}
				})
			}
		}), check)
	shape := func(w *mc.W, s enum.Shape) error {
		ops := make([]ref.Op, len(s.Ops))
		for i, o := range s.Ops {
			ops[i] = ref.Op(o)
		}
		if err := check(w, ref.Fold(ops)); err != nil {
			return err
		}
		return check(w, ref.Plain(ops))
	}
	return []*mc.Family{pressure, long, Scale(shape), Far(500, 4200, 1<<13+2, shape), FarLarge(4201, d.Large[0], d.Large[1], shape), ordered, small, adds}
}
