// Command c08 decides property C08 (addition sequence algorithms).
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/verifmc/algs"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Case is a list of targets for the configurations up to a cost.
type Case struct {
	Targets ref.Ints
	Cost    int
	Share   bool `json:",omitempty"` // repeated values are the same object
}

func configs(w *mc.W, cost int) []algs.Seq {
	depth := 3
	if cost == algs.Log {
		depth = 2
	}
	key := fmt.Sprint("seqs", depth)
	if v, ok := w.Scratch[key]; ok {
		return v.([]algs.Seq)
	}
	v := algs.Seqs(depth)
	w.Scratch[key] = v
	return v
}

func check(w *mc.W, c Case) error {
	want := c.Targets.Big()
	w.Max("targets", len(want))
	w.Max("target-bits", ref.Max(want).BitLen())
	var last, lastkept []*big.Int
	for _, s := range configs(w, c.Cost) {
		if s.Cost > c.Cost {
			continue
		}
		owned := ref.Clone(want)
		if c.Share {
			m := map[string]*big.Int{}
			for i, x := range owned {
				if y, ok := m[x.String()]; ok {
					owned[i] = y
				}
				m[x.String()] = owned[i]
			}
		}
		arg := append([]*big.Int{}, owned...)
		got, err := s.Alg.FindSequence(arg)
		w.Trace(1)
		w.State(1)
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("%s: %s", s.Name, fmt.Sprintf(format, args...))
		}
		for i := range owned {
			if owned[i].Cmp(want[i]) != 0 {
				return fail("target %d changed from %v to %v", i, want[i], owned[i])
			}
		}
		if err := permutation(arg, want); err != nil {
			return fail("targets after the call: %v", err)
		}
		if err != nil {
			if s.Total {
				return fail("error %v", err)
			}
			w.Outcome("partial-failure")
			continue
		}
		if err := ref.ValidChain(got); err != nil {
			return fail("%v is not an addition chain: %v", got, err)
		}
		for _, x := range want {
			if !ref.Contains(x, got) {
				return fail("%v does not contain %v", got, x)
			}
		}
		if !c.Share && len(want) <= 8 {
			// In variables that held the targets before these.
			var again []*big.Int
			var err error
			w.Reuse("targets "+s.Name, want, func(xs []*big.Int) { again, err = s.Alg.FindSequence(xs) })
			if err != nil || !ref.Equal(again, got) {
				return fail("%v, and %v (%v) in variables that have been used before", got, again, err)
			}
		}
		if !ref.Equal(last, lastkept) {
			return fail("the result of another algorithm changed from %v to %v", lastkept, last)
		}
		last, lastkept = got, ref.Clone(got)
		w.Step(len(got) - 1)
		w.Max("chain-length", len(got))
		w.Outcome("chain")
	}
	w.Later(func() error {
		if !ref.Equal(last, lastkept) {
			return fmt.Errorf("the chain for %v changed from %v to %v", c.Targets, lastkept, last)
		}
		return nil
	})
	return nil
}

// History is two lists of targets given to the same instances.
type History struct {
	A, B ref.Ints
	Cost int
}

func checkHistory(w *mc.W, h History) error {
	for _, s := range configs(w, h.Cost) {
		if s.Cost > h.Cost {
			continue
		}
		find := func(what string, ts ref.Ints) ([]*big.Int, error) {
			want := ts.Big()
			got, err := s.Alg.FindSequence(ref.Clone(want))
			w.Trace(1)
			if err != nil {
				if s.Total {
					return nil, fmt.Errorf("%s: %v (%s): error %v", s.Name, ts, what, err)
				}
				return nil, nil
			}
			w.Step(len(got))
			err = ref.ValidChain(got)
			for _, x := range want {
				if err == nil && !ref.Contains(x, got) {
					err = fmt.Errorf("does not contain %v", x)
				}
			}
			if err != nil {
				return nil, fmt.Errorf("%s: %v (%s): %v: %v", s.Name, ts, what, got, err)
			}
			return got, nil
		}
		a, err := find("first", h.A)
		if err != nil {
			return err
		}
		kept := ref.Clone(a)
		b, err := find("second", h.B)
		if err != nil {
			return err
		}
		if !ref.Equal(a, kept) {
			return fmt.Errorf("%s: the chain for %v changed from %v to %v", s.Name, h.A, kept, a)
		}
		ref.Scribble(a)
		ref.Scribble(b)
		if _, err := find("after earlier results were overwritten", h.A); err != nil {
			return err
		}
		if _, err := find("after earlier results were overwritten", h.B); err != nil {
			return err
		}
	}
	w.Outcome("history")
	return nil
}

// permutation reports whether the slice still holds the values.
func permutation(got, want []*big.Int) error {
	count := map[string]int{}
	for _, x := range want {
		count[x.String()]++
	}
	for _, x := range got {
		if x == nil {
			return fmt.Errorf("nil target")
		}
		count[x.String()]--
	}
	for k, n := range count {
		if n != 0 {
			return fmt.Errorf("%v, want an ordering of %v (%s differs)", got, want, k)
		}
	}
	return nil
}

func ints(xs []int, off int) ref.Ints {
	r := make(ref.Ints, len(xs))
	for i, x := range xs {
		r[i] = fmt.Sprint(x + off)
	}
	return r
}

func repeats(xs []int) bool {
	m := map[int]bool{}
	for _, x := range xs {
		if m[x] {
			return true
		}
		m[x] = true
	}
	return false
}

func gen(id string, tasks int, each func(emit func(Case))) []mc.Gen[Case] {
	return mc.Shards(id, tasks, func(shard, n int, yield func(Case)) {
		cnt := 0
		each(func(c Case) {
			if cnt++; enum.Mine(cnt, shard, n) {
				yield(c)
			}
		})
	})
}

// orders yields the list ascending, descending and rotated by one.
func orders(xs []*big.Int, emit func([]*big.Int)) {
	emit(xs)
	if len(xs) < 2 {
		return
	}
	r := make([]*big.Int, len(xs))
	for i := range xs {
		r[len(xs)-1-i] = xs[i]
	}
	emit(r)
	if len(xs) > 2 {
		emit(append(append([]*big.Int{}, xs[1:]...), xs[0]))
	}
}

// recurrence builds targets x_{i+1} = q x_i + r, which drives the continued
// fraction recursion through chosen quotients and remainders.
func recurrence(word []int, start *big.Int, n int, maxbits int) []*big.Int {
	xs := []*big.Int{start}
	for i := 0; len(xs) < n; i++ {
		k := len(xs) - 1
		x := new(big.Int).Set(xs[k])
		prev := big.NewInt(1)
		if k > 0 {
			prev = xs[k-1]
		}
		switch word[i%len(word)] {
		case 0:
			x.Add(x, big.NewInt(1))
		case 1:
			x.Add(x, prev)
		case 2:
			x.Lsh(x, 1)
		case 3:
			x.Lsh(x, 1).Add(x, prev)
		case 4:
			x.Mul(x, big.NewInt(3)).Add(x, big.NewInt(1))
		case 5:
			x.Lsh(x, 17).Add(x, prev)
		case 6:
			x.Lsh(x, 31).Sub(x, big.NewInt(1))
		case 7:
			x.Mul(x, x).Sub(x, prev)
			if x.Cmp(xs[k]) <= 0 {
				x.Add(xs[k], big.NewInt(2))
			}
		case 8:
			// A repeat.
		case 9:
			x.Lsh(x, 1).Sub(x, big.NewInt(1))
		}
		if x.BitLen() > maxbits {
			break
		}
		xs = append(xs, x)
	}
	return xs
}

func main() {
	lists := mc.NewFamily("lists", "every ordered list of up to 3 targets in 1..10 (14), 4 in 1..7 (8), 5 in 1..4 (5), 6 in 1..3, 7..8 in 1..2 (3), 1 in 1..40; repeats both as equal and as identical objects; every configuration",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("lists", 64, func(emit func(Case)) {
				for l, m := range []int{0, 40, t.Pick(10, 14), t.Pick(10, 14), t.Pick(7, 8), t.Pick(4, 5), t.Pick(3, 3), t.Pick(2, 3), t.Pick(2, 3)} {
					if l == 0 {
						continue
					}
					enum.Seqs(m, l, l, 0, 1, func(s []int) {
						emit(Case{Targets: ints(s, 1), Cost: algs.Exponential})
						if repeats(s) {
							emit(Case{Targets: ints(s, 1), Cost: algs.Exponential, Share: true})
						}
					})
				}
			})
		}, check)
	sets := mc.NewFamily("sets", "every non-empty subset of 1..13 (16), ascending and descending; every configuration",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("sets", 64, func(emit func(Case)) {
				m := t.Pick(13, 16)
				for v := 1; v < 1<<m; v++ {
					var s []int
					for i := 0; i < m; i++ {
						if v>>i&1 == 1 {
							s = append(s, i)
						}
					}
					emit(Case{Targets: ints(s, 1), Cost: algs.Exponential})
					for i := range s[:len(s)/2] {
						s[i], s[len(s)-1-i] = s[len(s)-1-i], s[i]
					}
					emit(Case{Targets: ints(s, 1), Cost: algs.Exponential})
				}
			})
		}, check)
	medium := mc.NewFamily("medium", "every pair of targets up to 80 (240), every triple a<=b<=c up to 18 (36) with a multiplied offset, in two orders; configurations for inputs of up to four digits",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("medium", 64, func(emit func(Case)) {
				p := t.Pick(80, 240)
				for a := 1; a <= p; a++ {
					for b := 1; b <= a; b++ {
						emit(Case{Targets: ints([]int{a, b}, 0), Cost: algs.Linear})
					}
				}
				p = t.Pick(18, 36)
				for a := 1; a <= p; a++ {
					for b := a; b <= p; b++ {
						for c := b; c <= p; c++ {
							emit(Case{Targets: ints([]int{c, 7*a + 1, 3 * b}, 0), Cost: algs.Linear})
							emit(Case{Targets: ints([]int{11 * b, a, 29*c + 5}, 0), Cost: algs.Linear})
						}
					}
				}
			})
		}, check)
	mask := mc.NewFamily("dense-sets", "for every n up to 160 (600): the multiples, the halvings, the remainders n mod i, the interval [n, n+7], all odd numbers below 16 and n, each with n; three orders; configurations for inputs of up to four digits",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("dense", 64, func(emit func(Case)) {
				for v := 1; v <= t.Pick(160, 600); v++ {
					n := big.NewInt(int64(v))
					var fams [4][]*big.Int
					for i := int64(1); i <= 7; i++ {
						fams[0] = append(fams[0], big.NewInt(int64(v)*i))
						if h := int64(v) >> i; h > 0 {
							fams[1] = append(fams[1], big.NewInt(h))
						}
						fams[2] = append(fams[2], big.NewInt(int64(v)%(i+2)+1))
						fams[3] = append(fams[3], big.NewInt(2*i+1))
					}
					fams[1] = append(fams[1], n)
					fams[2] = append(fams[2], n)
					fams[3] = append(fams[3], n)
					var iv []*big.Int
					for i := int64(0); i < 8; i++ {
						iv = append(iv, big.NewInt(int64(v)+i))
					}
					for _, f := range append(fams[:], iv) {
						orders(f, func(xs []*big.Int) { emit(Case{Targets: ref.Strs(xs), Cost: algs.Linear}) })
					}
				}
			})
		}, check)
	recur := mc.NewFamily("recurrences", "lists x -> next(x) for every word of up to 2 steps, and 3 steps with the largest in the middle (4 steps), over 10 recurrences (quotient 1, remainder 0, exact multiples, repeats, far and near) from 7 starts, 8 targets, up to 256 bits, three orders; logarithmic configurations",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("recur", 64, func(emit func(Case)) {
				starts := []string{"1", "2", "3", "5", "12", "0xffffffff", "0x10000000000000001"}
				enum.Words(10, t.Pick(3, 4), func(wd []int) {
					if t == mc.Quick && len(wd) == 3 && (wd[0] > wd[1] || wd[2] > wd[1]) {
						return
					}
					for si, s := range starts {
						if len(wd) > 2 && si%3 != wd[0]%3 {
							continue
						}
						xs := recurrence(wd, ref.Int(s), 8, 256)
						orders(xs, func(ys []*big.Int) { emit(Case{Targets: ref.Strs(ys), Cost: algs.Log}) })
					}
				})
			})
		}, check)
	pool := mc.NewFamily("pool", "every list of up to 3 of 16 (34) values 1, 2, 3, powers of two and neighbours, all-ones, squares, products, up to 256 bits, in every order up to size 2 and in sorted and one other order for size 3; logarithmic configurations",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("pool", 64, func(emit func(Case)) {
				var p []*big.Int
				for _, s := range []string{"1", "2", "3", "4", "6", "7"} {
					p = append(p, ref.Int(s))
				}
				es := []uint{8, 64, 200}
				if t == mc.Thorough {
					es = []uint{8, 31, 32, 62, 63, 64, 127, 128, 255}
				}
				for _, e := range es {
					p = append(p, ref.Pow2(e, 0), ref.Pow2(e, -1), ref.Pow2(e, 1))
				}
				p = append(p, new(big.Int).Div(ref.Pow2(255, 0), big.NewInt(7)))
				for i := range p {
					emit(Case{Targets: ref.Strs([]*big.Int{p[i]}), Cost: algs.Log})
					for j := range p {
						emit(Case{Targets: ref.Strs([]*big.Int{p[i], p[j]}), Cost: algs.Log})
						if j > i {
							continue
						}
						for k := 0; k <= j; k++ {
							emit(Case{Targets: ref.Strs([]*big.Int{p[k], p[j], p[i]}), Cost: algs.Log})
							if (i+j+k)%3 == 0 {
								emit(Case{Targets: ref.Strs([]*big.Int{p[j], p[i], p[k]}), Cost: algs.Log})
							}
						}
					}
				}
			})
		}, check)
	distances := mc.NewFamily("distances", "a target (also with 1, 2 or a neighbour, and in front of its half) that takes 2^k+d rounds to reach: values and exponents 2^k+d, k = 5..11, |d| <= 1; configurations for inputs of up to four digits on the values, logarithmic ones on powers of two and neighbours",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("dist", 64, func(emit func(Case)) {
				for k := uint(11); k >= 5; k-- {
					for d := int64(-1); d <= 1; d++ {
						x := ref.Pow2(k, d)
						with := func(x *big.Int, cost int) {
							h := new(big.Int).Rsh(x, 1)
							y := new(big.Int).Add(x, big.NewInt(1))
							for _, l := range [][]*big.Int{{x}, {big.NewInt(2), x}, {x, h}, {y, x}} {
								emit(Case{Targets: ref.Strs(l), Cost: cost})
							}
						}
						with(x, algs.Linear)
						e := uint(x.Uint64())
						for f := int64(-1); f <= 1; f++ {
							emit(Case{Targets: ref.Strs([]*big.Int{ref.Pow2(e, f)}), Cost: algs.Log})
						}
						if k < 10 {
							with(ref.Pow2(e, 0), algs.Log)
							with(ref.Pow2(e, -1), algs.Log)
						}
					}
				}
			})
		}, check)
	many := mc.NewFamily("many-targets", "2^k+d targets, k = 3..9 (11), |d| <= 1, in arithmetic progressions of step 1, 2, 7, geometric ones, and all ones, in three orders",
		func(t mc.Tier) []mc.Gen[Case] {
			return gen("many", 64, func(emit func(Case)) {
				for k := t.Pick(9, 11); k >= 3; k-- {
					for d := -1; d <= 1; d++ {
						m := 1<<k + d
						var ls [5][]*big.Int
						for i := 1; i <= m; i++ {
							ls[0] = append(ls[0], big.NewInt(int64(i)))
							ls[1] = append(ls[1], big.NewInt(int64(2*i+1)))
							ls[2] = append(ls[2], big.NewInt(int64(7*i)))
							ls[3] = append(ls[3], ref.Pow2(uint(i), 0))
							ls[4] = append(ls[4], ref.Pow2(uint(i), -1))
						}
						for i, l := range ls {
							orders(l, func(xs []*big.Int) {
								if i < 3 {
									emit(Case{Targets: ref.Strs(xs), Cost: algs.Linear})
								} else if k < t.Pick(8, 10) {
									emit(Case{Targets: ref.Strs(xs), Cost: algs.Log})
								}
							})
						}
					}
				}
			})
		}, check)
	history := mc.NewFamily("histories", "every ordered pair of 14 small lists for the configurations for inputs of up to four digits, and of 8 lists up to 140 bits for the logarithmic ones, given to the same instances; results are kept, then overwritten, and both lists given again",
		func(t mc.Tier) []mc.Gen[History] {
			return mc.Shards("history", 64, func(shard, n int, yield func(History)) {
				cnt := 0
				pairs := func(cost int, ls []ref.Ints) {
					for _, a := range ls {
						for _, b := range ls {
							if cnt++; enum.Mine(cnt, shard, n) {
								yield(History{a, b, cost})
							}
						}
					}
				}
				pairs(algs.Linear, []ref.Ints{{"1"}, {"2"}, {"3"}, {"4"}, {"1", "2"}, {"1", "3"}, {"2", "3"}, {"3", "3"}, {"5"}, {"7", "14"}, {"6", "9"}, {"3", "16"}, {"15", "77"}, {"100", "37", "3"}})
				pairs(algs.Log, []ref.Ints{{"3"}, {"8"}, {"0xffffffffffffffff"}, {"0x10000000000000000"}, {"0x10000000000000001", "3"}, {"0x30000000000000000", "0xff"}, {"0x1ffffffffffffffffffffffff"}, {"0xc0000000000000000000000000000000000", "5"}})
			})
		}, checkHistory)
	distances.Large, many.Large = true, true
	mc.Main(&mc.Check{
		Property:  "C08",
		Technique: "bounded exhaustive enumeration of target lists x configurations against the definition of an addition sequence",
		Families:  []*mc.Family{history, lists, sets, medium, mask, recur, pool, distances, many},
		Assumptions: []string{
			"math/big is correct",
			"the order of the caller's slice may change, as its integers do not",
			"the total strategy is run on targets up to 40; dyadic, fermat and compositions that do not start with halving on targets of up to four digits",
		},
	})
}
