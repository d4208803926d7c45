// Package enum holds the exhaustive enumerators shared by the checks.
package enum

import (
	"math/big"
	"math/bits"
)

// Seqs yields every sequence over alphabet indices 0..a-1 with length in
// [lo,hi], restricted to the shard. The slice is reused.
func Seqs(a, lo, hi, shard, n int, yield func([]int)) {
	cnt := 0
	for l := lo; l <= hi; l++ {
		s := make([]int, l)
		for {
			if cnt%n == shard {
				yield(s)
			}
			cnt++
			i := l - 1
			for i >= 0 {
				s[i]++
				if s[i] < a {
					break
				}
				s[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// Words yields every primitive-or-not word of length 1..p over a symbols.
func Words(a, p int, yield func([]int)) {
	Seqs(a, 1, p, 0, 1, func(s []int) {
		yield(append([]int{}, s...))
	})
}

// Chains yields every duplicate-free addition chain (elements in any order,
// each later one the sum of two earlier ones) with 1..max elements. Sharding is
// by the subtree below the prefix of length 5. The slice is reused.
func Chains(max, shard, n int, yield func([]int64)) {
	c := make([]int64, 1, max)
	c[0] = 1
	cnt := 0
	var rec func()
	rec = func() {
		if len(c) < 5 {
			if shard == 0 {
				yield(c)
			}
		} else if len(c) == 5 {
			cnt++
			if cnt%n != shard {
				return
			}
			yield(c)
		} else {
			yield(c)
		}
		if len(c) == max {
			return
		}
		var sums []int64
		for i := range c {
			for j := i; j < len(c); j++ {
				s := c[i] + c[j]
				if !in(s, c) && !in(s, sums) {
					sums = append(sums, s)
				}
			}
		}
		for _, s := range sums {
			c = append(c, s)
			rec()
			c = c[:len(c)-1]
		}
	}
	rec()
}

func in(x int64, xs []int64) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Programs yields every program (pairs, both operand orders when both is set)
// of length 0..max whose values are distinct. The slice is reused.
func Programs(max int, both bool, shard, n int, yield func(ops [][2]int)) {
	c := make([]int64, 1, max+1)
	c[0] = 1
	ops := make([][2]int, 0, max)
	cnt := 0
	const split = 3
	var rec func()
	rec = func() {
		if len(ops) < split {
			if shard == 0 {
				yield(ops)
			}
		} else if len(ops) == split {
			cnt++
			if cnt%n != shard {
				return
			}
			yield(ops)
		} else {
			yield(ops)
		}
		if len(ops) == max {
			return
		}
		for i := range c {
			lo := i
			if both {
				lo = 0
			}
			for j := lo; j < len(c); j++ {
				s := c[i] + c[j]
				if in(s, c) {
					continue
				}
				c = append(c, s)
				ops = append(ops, [2]int{i, j})
				rec()
				ops = ops[:len(ops)-1]
				c = c[:len(c)-1]
			}
		}
	}
	rec()
}

// Runs is a bit pattern given by alternating run lengths, starting with ones
// at the top.
type Runs []int

// Int is the integer with that pattern.
func (r Runs) Int() *big.Int {
	x := new(big.Int)
	one := true
	for _, l := range r {
		x.Lsh(x, uint(l))
		if one {
			m := new(big.Int).Lsh(big.NewInt(1), uint(l))
			m.Sub(m, big.NewInt(1))
			x.Or(x, m)
		}
		one = !one
	}
	return x
}

// Bits is the total length.
func (r Runs) Bits() int {
	n := 0
	for _, l := range r {
		n += l
	}
	return n
}

// RunPatterns yields every pattern of 1..parts runs with lengths from ls and
// total length at most maxbits. The slice is reused.
func RunPatterns(ls []int, parts, maxbits, shard, n int, yield func(Runs)) {
	cnt := 0
	var cur Runs
	total := 0
	var rec func()
	rec = func() {
		if len(cur) > 0 {
			if cnt%n == shard {
				yield(cur)
			}
			cnt++
		}
		if len(cur) == parts {
			return
		}
		for _, l := range ls {
			if total+l > maxbits {
				continue
			}
			cur = append(cur, l)
			total += l
			rec()
			total -= l
			cur = cur[:len(cur)-1]
		}
	}
	rec()
}

// PeriodicBits yields every integer whose bits (from the top) repeat a word of
// length 1..p starting with a one bit, cut at each of the lengths, optionally
// with the last bit forced to one. Duplicates are removed per length.
func PeriodicBits(p int, lengths []int, shard, n int, yield func(*big.Int)) {
	cnt := 0
	for _, l := range lengths {
		seen := map[string]bool{}
		for w := 1; w <= p; w++ {
			for v := 1 << (w - 1); v < 1<<w; v++ {
				for force := 0; force < 2; force++ {
					x := new(big.Int)
					for i := 0; i < l; i++ {
						b := uint(v>>(w-1-i%w)) & 1
						if i == l-1 && force == 1 {
							b = 1
						}
						x.Lsh(x, 1)
						x.SetBit(x, 0, b)
					}
					k := string(x.Bytes())
					if seen[k] {
						continue
					}
					seen[k] = true
					if cnt%n == shard {
						yield(x)
					}
					cnt++
				}
			}
		}
	}
}

// Mine distributes index i over n shards with a mixing hash, so that
// neighbouring heavy cases spread.
func Mine(i, shard, n int) bool {
	h := uint64(i)*0x9E3779B97F4A7C15 + 0x1234567
	h ^= h >> 29
	hi, _ := bits.Mul64(h*0xBF58476D1CE4E5B9, uint64(n))
	return int(hi) == shard
}
