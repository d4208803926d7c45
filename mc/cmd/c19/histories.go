package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// op is one call of a helper with fixed arguments: it returns a reading of the
// result, and what a caller that owns the result may do with it.
type op struct {
	name string
	want string
	call func() (read func() string, scribble func())
}

func ops() []op {
	var r []op
	add := func(name string, want interface{}, call func() (func() string, func())) {
		r = append(r, op{name, fmt.Sprint(want), call})
	}
	integer := func(name string, want *big.Int, f func() *big.Int) {
		add(name, want, func() (func() string, func()) {
			x := f()
			return func() string { return x.String() }, func() { x.Lsh(x.Add(x, big.NewInt(77)), 5) }
		})
	}
	pow := func(e uint, d int64) *big.Int { return ref.Pow2(e, d) }
	integer("Zero", big.NewInt(0), bigint.Zero)
	integer("One", big.NewInt(1), bigint.One)
	for _, e := range []uint{0, 5, 63, 64, 130} {
		e := e
		integer(fmt.Sprintf("Pow2(%d)", e), pow(e, 0), func() *big.Int { return bigint.Pow2(e) })
		integer(fmt.Sprintf("Ones(%d)", e), pow(e, -1), func() *big.Int { return bigint.Ones(e) })
		integer(fmt.Sprintf("Mask(%d,%d)", e/2, e), new(big.Int).Sub(pow(e, 0), pow(e/2, 0)), func() *big.Int { return bigint.Mask(e/2, e) })
	}
	for _, x := range []*big.Int{big.NewInt(0), big.NewInt(45), pow(64, -2), pow(70, 9)} {
		x := x
		integer(fmt.Sprintf("Clone(%v)", x), x, func() *big.Int { return bigint.Clone(x) })
		integer(fmt.Sprintf("Extract(%v,1,67)", x), new(big.Int).Mod(new(big.Int).Rsh(x, 1), pow(66, 0)), func() *big.Int { return bigint.Extract(x, 1, 67) })
		h, b := fmt.Sprintf("%x", x), fmt.Sprintf("%b", x)
		integer("Hex "+h, x, func() *big.Int { v, _ := bigint.Hex(h); return v })
		integer("MustBinary "+b, x, func() *big.Int { return bigint.MustBinary(b) })
		var bits []int
		var limbs []uint64
		var pows []*big.Int
		for i := 0; i < x.BitLen(); i++ {
			if x.Bit(i) == 1 {
				bits = append(bits, i)
			}
			pows = append(pows, pow(uint(i), 0))
		}
		for y := new(big.Int).Set(x); y.Sign() > 0; y = new(big.Int).Rsh(y, 64) {
			limbs = append(limbs, new(big.Int).And(y, pow(64, -1)).Uint64())
		}
		add(fmt.Sprintf("BitsSet(%v)", x), bits, func() (func() string, func()) {
			s := bigint.BitsSet(x)
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i] = -9
				}
				_ = append(s, -9)
			}
		})
		add(fmt.Sprintf("Uint64s(%v)", x), limbs, func() (func() string, func()) {
			s := bigint.Uint64s(x)
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i] = 999
				}
				_ = append(s, 999)
			}
		})
		add(fmt.Sprintf("BytesLittleEndian(%v)", x), reverse(x.Bytes()), func() (func() string, func()) {
			s := bigint.BytesLittleEndian(x)
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i] = 99
				}
				_ = append(s, 99)
			}
		})
		add(fmt.Sprintf("Pow2UpTo(%v)", x), pows, func() (func() string, func()) {
			s := bigint.Pow2UpTo(x)
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i].SetInt64(-5)
					s[i] = nil
				}
				_ = append(s, x)
			}
		})
	}
	// Lists own their backing array, not their elements.
	lists := [][]*big.Int{{}, ref.Big([]int64{3}), ref.Big([]int64{1, 4, 4, 9}), ref.Big([]int64{2, 4, 6, 8, 10})}
	mark := big.NewInt(-13)
	list := func(name string, want []*big.Int, f func() []*big.Int) {
		add(name, want, func() (func() string, func()) {
			s := f()
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i] = mark
				}
				_ = append(s, mark)
			}
		})
	}
	for _, xs := range lists {
		xs := xs
		list(fmt.Sprintf("Clone(%v)", xs), xs, func() []*big.Int { return bigints.Clone(xs) })
		list(fmt.Sprintf("Unique(%v)", xs), ref.Union(xs), func() []*big.Int { return bigints.Unique(xs) })
		list(fmt.Sprintf("Sort(%v)", xs), xs, func() []*big.Int {
			s := make([]*big.Int, 0, len(xs))
			for i := range xs {
				s = append(s, xs[len(xs)-1-i])
			}
			bigints.Sort(s)
			return s
		})
		for _, ys := range lists {
			ys := ys
			list(fmt.Sprintf("Concat(%v,%v)", xs, ys), append(ref.Clone(xs), ys...), func() []*big.Int { return bigints.Concat(xs, ys) })
			us, vs := ref.Union(xs), ref.Union(ys)
			list(fmt.Sprintf("MergeUnique(%v,%v)", us, vs), ref.Union(us, vs), func() []*big.Int { return bigints.MergeUnique(us, vs) })
		}
		us := ref.Union(xs)
		for _, x := range []int64{0, 4, 5, 20} {
			x := big.NewInt(x)
			list(fmt.Sprintf("InsertSortedUnique(%v,%v)", us, x), ref.Union(us, []*big.Int{x}), func() []*big.Int { return bigints.InsertSortedUnique(us, x) })
		}
	}
	for _, xs := range [][]int64{{}, {5}, {1, -2, 1 << 62}} {
		xs := xs
		add(fmt.Sprintf("Int64s(%v)", xs), ref.Big(xs), func() (func() string, func()) {
			s := bigints.Int64s(xs...)
			return func() string { return fmt.Sprint(s) }, func() {
				for i := range s {
					s[i].SetInt64(-5)
					s[i] = mark
				}
			}
		})
	}
	// Vectors are immutable.
	vector := func(name string, want []int64, f func() bigvector.Vector) {
		add(name, want, func() (func() string, func()) {
			v := f()
			return func() string {
				s := []*big.Int{}
				for i := 0; i < v.Len(); i++ {
					s = append(s, v.Idx(i))
				}
				return fmt.Sprint(s)
			}, func() {}
		})
	}
	for n := 1; n <= 3; n++ {
		n := n
		z, b, s, l := make([]int64, n), make([]int64, n), make([]int64, n), make([]int64, n)
		b[n-1], s[n-1], l[n-1] = 1, 1, 16
		s[0]++
		vector(fmt.Sprintf("New(%d)", n), z, func() bigvector.Vector { return bigvector.New(n) })
		vector(fmt.Sprintf("NewBasis(%d,%d)", n, n-1), b, func() bigvector.Vector { return bigvector.NewBasis(n, n-1) })
		vector(fmt.Sprintf("Add in %d", n), s, func() bigvector.Vector { return bigvector.Add(bigvector.NewBasis(n, n-1), bigvector.NewBasis(n, 0)) })
		vector(fmt.Sprintf("Lsh in %d", n), l, func() bigvector.Vector { return bigvector.Lsh(bigvector.NewBasis(n, n-1), 4) })
	}
	return r
}

// History is a sequence of helper calls, after each of which but the last the
// caller may scribble over the result.
type History struct {
	Ops      []int
	Scribble int // bits
}

func checkHistory(w *mc.W, h History) error {
	tb, ok := w.Scratch["ops"].([]op)
	if !ok {
		tb = ops()
		w.Scratch["ops"] = tb
	}
	w.Trace(1)
	w.Step(len(h.Ops))
	reads := make([]func() string, len(h.Ops))
	for k, i := range h.Ops {
		o := tb[i%len(tb)]
		read, scribble := o.call()
		if got := read(); got != o.want {
			return fmt.Errorf("call %d: %s = %s, want %s (history %s)", k, o.name, got, o.want, names(tb, h))
		}
		reads[k] = read
		if h.Scribble>>k&1 == 1 {
			reads[k] = nil
			scribble()
		}
	}
	for k, i := range h.Ops {
		if o := tb[i%len(tb)]; reads[k] != nil && reads[k]() != o.want {
			return fmt.Errorf("the result of call %d, %s = %s, has changed to %s (history %s)", k, o.name, o.want, reads[k](), names(tb, h))
		}
	}
	return nil
}

func names(tb []op, h History) string {
	s := ""
	for k, i := range h.Ops {
		s += tb[i%len(tb)].name
		if h.Scribble>>k&1 == 1 {
			s += " (result overwritten by its owner)"
		}
		s += "; "
	}
	return s
}

func historyFamily() *mc.Family {
	return mc.NewFamily("histories", "every history of 2 calls, and every third (every) one of 3, out of 115 calls of helpers with fixed arguments, each result but the last kept or overwritten by its owner; every result is right, and stays right",
		func(t mc.Tier) []mc.Gen[History] {
			return mc.Shards("hist", 64, func(shard, n int, yield func(History)) {
				m := len(ops())
				for a := 0; a < m; a++ {
					if a%n != shard {
						continue
					}
					for b := 0; b < m; b++ {
						for s := 0; s < 2; s++ {
							yield(History{[]int{a, b}, s})
						}
						// The first call again after the second.
						yield(History{[]int{a, b, a}, 1})
						yield(History{[]int{a, b, a}, 2})
						if t == mc.Thorough || (a+b)%3 == 0 {
							for c := 0; c < m; c++ {
								for s := 0; s < 4; s++ {
									yield(History{[]int{a, b, c}, s})
								}
							}
						}
					}
				}
			})
		}, checkHistory)
}
