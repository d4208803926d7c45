package ref

import "math/big"

// Ints is a list of integers as decimal strings, so that cases print and
// replay exactly.
type Ints []string

// Strs converts integers.
func Strs(xs []*big.Int) Ints {
	s := make(Ints, len(xs))
	for i, x := range xs {
		s[i] = x.String()
	}
	return s
}

// Big parses the integers.
func (s Ints) Big() []*big.Int {
	r := make([]*big.Int, len(s))
	for i, d := range s {
		r[i] = Int(d)
	}
	return r
}

// Int parses a decimal or 0x integer.
func Int(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad integer " + s)
	}
	return x
}

// Pow2 is 2^e + d.
func Pow2(e uint, d int64) *big.Int {
	x := new(big.Int).Lsh(big.NewInt(1), e)
	return x.Add(x, big.NewInt(d))
}

// Max element.
func Max(xs []*big.Int) *big.Int {
	m := xs[0]
	for _, x := range xs {
		if x.Cmp(m) > 0 {
			m = x
		}
	}
	return m
}

// LongChain builds a chain of n elements by repeating a word of steps over
// {0: double, 1: add one, 2: fibonacci, 3: add the middle element, 4: sum of
// the two previous but one}; a step that would repeat a value doubles instead.
func LongChain(word []int, n int) []*big.Int {
	return LongChainUntil(word, func(c []*big.Int) bool { return len(c) >= n })
}

// LongChainUntil is LongChain with a general end condition.
func LongChainUntil(word []int, done func([]*big.Int) bool) []*big.Int {
	c := []*big.Int{big.NewInt(1)}
	has := map[string]bool{"1": true}
	for i := 0; !done(c); i++ {
		k := len(c) - 1
		a, b := k, k
		switch word[i%len(word)] {
		case 1:
			b = 0
		case 2:
			b = max(0, k-1)
		case 3:
			b = k / 2
		case 4:
			a, b = max(0, k-1), max(0, k-2)
		}
		s := new(big.Int).Add(c[a], c[b])
		if has[s.String()] {
			s.Add(c[k], c[k])
			if has[s.String()] {
				s = new(big.Int).Lsh(Max(c), 1)
			}
		}
		has[s.String()] = true
		c = append(c, s)
	}
	return c
}

// Union merges chains into one ascending chain.
func Union(cs ...[]*big.Int) []*big.Int {
	m := map[string]*big.Int{}
	for _, c := range cs {
		for _, x := range c {
			m[x.String()] = x
		}
	}
	var r []*big.Int
	for _, x := range m {
		r = append(r, x)
	}
	SortInts(r)
	return r
}

// SortInts is a plain insertion sort.
func SortInts(xs []*big.Int) {
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j].Cmp(xs[j-1]) < 0; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

// BinaryChain is the left-to-right binary chain for n.
func BinaryChain(n *big.Int) []*big.Int {
	c := []*big.Int{big.NewInt(1)}
	cur := big.NewInt(1)
	for i := n.BitLen() - 2; i >= 0; i-- {
		cur = new(big.Int).Lsh(cur, 1)
		c = append(c, cur)
		if n.Bit(i) == 1 {
			cur = new(big.Int).Add(cur, c[0])
			c = append(c, cur)
		}
	}
	return c
}

// BinaryRightChain is the right-to-left binary chain for n, ascending.
func BinaryRightChain(n *big.Int) []*big.Int {
	var c []*big.Int
	for i := 0; i < n.BitLen(); i++ {
		c = append(c, Pow2(uint(i), 0))
	}
	acc := new(big.Int)
	for i := 0; i < n.BitLen(); i++ {
		if n.Bit(i) == 1 {
			acc = new(big.Int).Add(acc, Pow2(uint(i), 0))
			c = append(c, acc)
		}
	}
	return Union(c)
}

// Scribble overwrites the integers, and their storage, as a caller who owns
// them may.
func Scribble(xs []*big.Int) {
	for i, x := range xs {
		if x == nil {
			continue
		}
		for j, b := 0, x.Bits(); j < len(b); j++ {
			b[j] ^= 0x5a5a
		}
		x.SetInt64(int64(-100 - i))
	}
}
