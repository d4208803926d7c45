// Package ref holds the reference models: literal, unoptimised statements of
// the properties. It imports nothing from the code under test.
package ref

import (
	"fmt"
	"math/big"
)

// Op adds two positions.
type Op [2]int

// Big converts small values.
func Big(xs []int64) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i, x := range xs {
		r[i] = big.NewInt(x)
	}
	return r
}

// Clone is a deep copy.
func Clone(xs []*big.Int) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i, x := range xs {
		r[i] = new(big.Int).Set(x)
	}
	return r
}

// Equal reports whether the two lists hold the same integers.
func Equal(xs, ys []*big.Int) bool {
	if len(xs) != len(ys) {
		return false
	}
	for i := range xs {
		if xs[i].Cmp(ys[i]) != 0 {
			return false
		}
	}
	return true
}

// SelfConsistent checks that the representation of every integer is
// normalised, which catches corruption of shared storage.
func SelfConsistent(xs []*big.Int) error {
	for i, x := range xs {
		if x == nil {
			return fmt.Errorf("nil integer at %d", i)
		}
		b := x.Bits()
		if len(b) > 0 && b[len(b)-1] == 0 {
			return fmt.Errorf("integer at %d is not normalised", i)
		}
	}
	return nil
}

// Pairs lists every i <= j < k with xs[i]+xs[j] == xs[k].
func Pairs(xs []*big.Int, k int) []Op {
	var ops []Op
	var s big.Int
	if k > 64 {
		at := map[string][]int{}
		for j := 0; j < k; j++ {
			at[key(xs[j])] = append(at[key(xs[j])], j)
		}
		for i := 0; i < k; i++ {
			for _, j := range at[key(s.Sub(xs[k], xs[i]))] {
				if j >= i {
					ops = append(ops, Op{i, j})
				}
			}
		}
		return ops
	}
	for i := 0; i < k; i++ {
		for j := i; j < k; j++ {
			if s.Add(xs[i], xs[j]); s.Cmp(xs[k]) == 0 {
				ops = append(ops, Op{i, j})
			}
		}
	}
	return ops
}

// HasPair reports whether xs[k] is the sum of two earlier elements.
func HasPair(xs []*big.Int, k int) bool {
	var d big.Int
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		seen[key(xs[i])] = true
	}
	for i := 0; i < k; i++ {
		d.Sub(xs[k], xs[i])
		if seen[key(&d)] {
			return true
		}
	}
	return false
}

func key(x *big.Int) string {
	s := string(x.Bytes())
	if x.Sign() < 0 {
		return "-" + s
	}
	return "+" + s
}

// ValidChain is the definition of an addition chain, in any element order.
func ValidChain(xs []*big.Int) error {
	if len(xs) == 0 {
		return fmt.Errorf("empty")
	}
	if err := SelfConsistent(xs); err != nil {
		return err
	}
	if xs[0].Cmp(big.NewInt(1)) != 0 {
		return fmt.Errorf("does not start with 1")
	}
	seen := map[string]int{}
	for i, x := range xs {
		if x.Sign() == 0 {
			return fmt.Errorf("zero at %d", i)
		}
		if j, ok := seen[key(x)]; ok {
			return fmt.Errorf("repeat at %d and %d", j, i)
		}
		seen[key(x)] = i
	}
	var d big.Int
	for k := 1; k < len(xs); k++ {
		ok := false
		// Doublings are found directly.
		if xs[k].Bit(0) == 0 {
			if j, found := seen[key(d.Rsh(xs[k], 1))]; found && j < k {
				ok = true
			}
		}
		for i := 0; i < k && !ok; i++ {
			d.Sub(xs[k], xs[i])
			if j, found := seen[key(&d)]; found && j < k {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("element %d is not the sum of two earlier ones", k)
		}
	}
	return nil
}

// Ascending is the definition of an ascending chain.
func Ascending(xs []*big.Int) bool {
	if len(xs) == 0 || xs[0].Cmp(big.NewInt(1)) != 0 {
		return false
	}
	for i := 1; i < len(xs); i++ {
		if xs[i].Cmp(xs[i-1]) <= 0 {
			return false
		}
	}
	return true
}

// Eval evaluates operations from 1.
func Eval(ops []Op) ([]*big.Int, error) {
	c := []*big.Int{big.NewInt(1)}
	for k, op := range ops {
		if op[0] < 0 || op[1] < 0 || op[0] > k || op[1] > k {
			return nil, fmt.Errorf("operation %d reads %v", k, op)
		}
		c = append(c, new(big.Int).Add(c[op[0]], c[op[1]]))
	}
	return c, nil
}

// Contains reports membership.
func Contains(x *big.Int, xs []*big.Int) bool {
	for _, y := range xs {
		if x.Cmp(y) == 0 {
			return true
		}
	}
	return false
}

// Subsequence reports whether xs is a subsequence of ys.
func Subsequence(xs, ys []*big.Int) bool {
	j := 0
	for _, x := range xs {
		for j < len(ys) && ys[j].Cmp(x) != 0 {
			j++
		}
		if j == len(ys) {
			return false
		}
		j++
	}
	return true
}
