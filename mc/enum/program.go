package enum

import (
	"math/big"

	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Ops is a program: pairs of positions.
type Ops [][2]int

// CloneOps copies operations.
func CloneOps(ops [][2]int) Ops { return append(Ops{}, ops...) }

// Builder extends a program while keeping its values distinct.
type Builder struct {
	Ops  Ops
	Vals []*big.Int
	has  map[string]bool
}

// NewBuilder starts with the element 1.
func NewBuilder() *Builder {
	return &Builder{Vals: []*big.Int{big.NewInt(1)}, has: map[string]bool{"\x01": true}}
}

// Add appends i+j unless the value is there already.
func (b *Builder) Add(i, j int) bool {
	s := new(big.Int).Add(b.Vals[i], b.Vals[j])
	k := string(s.Bytes())
	if b.has[k] {
		return false
	}
	b.has[k] = true
	b.Vals = append(b.Vals, s)
	b.Ops = append(b.Ops, [2]int{i, j})
	return true
}

// Steps is the number of macro steps.
const Steps = 12

// Step performs a macro step and reports whether it added anything.
func (b *Builder) Step(kind int) bool {
	k := len(b.Ops)
	dbl := func(i, n int) bool {
		any := false
		for ; n > 0; n-- {
			if !b.Add(i, i) {
				break
			}
			any = true
			i = len(b.Ops)
		}
		return any
	}
	switch kind {
	case 0:
		return dbl(k, 1)
	case 1:
		return dbl(k, 3)
	case 2:
		return b.Add(k, 0)
	case 3:
		return k > 0 && b.Add(k-1, k)
	case 4:
		return b.Add(k/2, k)
	case 5:
		return k > 1 && b.Add(k-1, k-2)
	case 6:
		return k > 0 && dbl(k-1, 2)
	case 7:
		return b.Add(0, k)
	case 8: // shift the last value by its width and add it: x_n -> x_2n for runs
		w := b.Vals[k].BitLen()
		return dbl(k, w) && b.Add(len(b.Ops), k)
	case 9:
		return dbl(0, 2)
	case 10: // read an intermediate of a run of doublings again
		return dbl(k, 4) && b.Add(len(b.Ops), len(b.Ops)-2)
	default:
		return k > 2 && dbl(k/2, 5)
	}
}

// StepWords yields the program of every word of macro steps with length in
// [lo,hi]; words in which a step adds nothing are skipped.
func StepWords(steps []int, lo, hi, shard, n int, yield func(Ops)) {
	Seqs(len(steps), lo, hi, shard, n, func(s []int) {
		b := NewBuilder()
		for _, i := range s {
			if !b.Step(steps[i]) {
				return
			}
		}
		yield(b.Ops)
	})
}

// LongPrograms yields, for every word of steps up to length p, the word
// repeated until the program has at least each of the lengths.
func LongPrograms(steps []int, p int, lengths []int, shard, n int, yield func(Ops)) {
	cnt := 0
	Seqs(len(steps), 1, p, 0, 1, func(s []int) {
		for _, l := range lengths {
			cnt++
			if cnt%n != shard {
				continue
			}
			b := NewBuilder()
			stuck := 0
			for i := 0; len(b.Ops) < l; i++ {
				if b.Vals[len(b.Ops)].BitLen() > 4000 || stuck > len(s) {
					break
				}
				if b.Step(steps[s[i%len(s)]]) {
					stuck = 0
				} else {
					stuck++
				}
			}
			if len(b.Ops) > 0 {
				yield(b.Ops)
			}
		}
	})
}

// ChainOps derives operations for a chain; the first pair in index order, or
// the last one.
func ChainOps(c []*big.Int, last bool) Ops {
	ops := Ops{}
	for k := 1; k < len(c); k++ {
		ps := ref.Pairs(c, k)
		p := ps[0]
		if last {
			p = ps[len(ps)-1]
			p[0], p[1] = p[1], p[0]
		}
		ops = append(ops, [2]int(p))
	}
	return ops
}
