package ref

import (
	"errors"
	"math/big"
	"strings"
)

// Errors of the expression model.
var (
	ErrMalformed   = errors.New("malformed expression")
	ErrDivZero     = errors.New("division by zero")
	ErrTooLarge    = errors.New("an intermediate value is beyond the bound")
	ErrUnspecified = errors.New("literal outside the specification")
)

// Calc evaluates an expression: ^ binds tightest and to the right, then * and /
// to the left, then + and - to the left; Euclidean division; a negative exponent
// gives 1. Values of more than maxbits bits are refused.
func Calc(s string, maxbits int) (*big.Int, error) {
	c := &calculator{s: s, maxbits: maxbits}
	if err := c.lex(); err != nil {
		return nil, err
	}
	v, err := c.sum()
	if err != nil {
		return nil, err
	}
	if c.pos != len(c.toks) {
		return nil, ErrMalformed
	}
	return v, nil
}

type calctok struct {
	op byte
	v  *big.Int
}

type calculator struct {
	s       string
	maxbits int
	toks    []calctok
	pos     int
}

// lex splits the text: operands and operators alternate, so that a minus in
// operand position belongs to a literal.
func (c *calculator) lex() error {
	s := c.s
	unspecified := false
	operand := true
	for i := 0; i < len(s); {
		if s[i] == ' ' {
			i++
			continue
		}
		if !operand {
			if !strings.ContainsRune("+-*/^", rune(s[i])) {
				return ErrMalformed
			}
			c.toks = append(c.toks, calctok{op: s[i]})
			i++
			operand = true
			continue
		}
		neg := false
		if s[i] == '-' {
			neg = true
			i++
		}
		base := int64(10)
		in := digit
		switch {
		case strings.HasPrefix(s[i:], "0x"):
			base, in, i = 16, func(b byte) bool { return digit(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F' }, i+2
		case strings.HasPrefix(s[i:], "0b"):
			base, in, i = 2, func(b byte) bool { return b == '0' || b == '1' }, i+2
		}
		j := i
		for j < len(s) && in(s[j]) {
			j++
		}
		if j == i {
			return ErrMalformed
		}
		d := s[i:j]
		if base == 10 && len(d) > 1 && d[0] == '0' {
			unspecified = true // superfluous leading zero
		}
		if base == 16 && strings.ToLower(d) != d {
			unspecified = true // upper case
		}
		v := new(big.Int)
		for k := 0; k < len(d); k++ {
			x := int64(d[k] - '0')
			if !digit(d[k]) {
				x = int64(d[k]|0x20-'a') + 10
			}
			v.Mul(v, big.NewInt(base))
			v.Add(v, big.NewInt(x))
		}
		if neg {
			v.Neg(v)
		}
		c.toks = append(c.toks, calctok{v: v})
		i = j
		operand = false
	}
	if operand {
		return ErrMalformed
	}
	if unspecified {
		return ErrUnspecified
	}
	return nil
}

func (c *calculator) next(ops string) byte {
	if c.pos < len(c.toks) && c.toks[c.pos].v == nil && strings.IndexByte(ops, c.toks[c.pos].op) >= 0 {
		c.pos++
		return c.toks[c.pos-1].op
	}
	return 0
}

func (c *calculator) sum() (*big.Int, error) {
	x, err := c.product()
	if err != nil {
		return nil, err
	}
	for {
		op := c.next("+-")
		if op == 0 {
			return x, nil
		}
		y, err := c.product()
		if err != nil {
			return nil, err
		}
		if op == '+' {
			x = new(big.Int).Add(x, y)
		} else {
			x = new(big.Int).Sub(x, y)
		}
	}
}

func (c *calculator) product() (*big.Int, error) {
	x, err := c.power()
	if err != nil {
		return nil, err
	}
	for {
		op := c.next("*/")
		if op == 0 {
			return x, nil
		}
		y, err := c.power()
		if err != nil {
			return nil, err
		}
		if op == '*' {
			if x.BitLen()+y.BitLen() > c.maxbits {
				return nil, ErrTooLarge
			}
			x = new(big.Int).Mul(x, y)
			continue
		}
		if y.Sign() == 0 {
			return nil, ErrDivZero
		}
		x = euclid(x, y)
	}
}

// euclid is the q with x = q*y + r and 0 <= r < |y|, built on the truncated
// division of the magnitudes.
func euclid(x, y *big.Int) *big.Int {
	ax, ay := new(big.Int).Abs(x), new(big.Int).Abs(y)
	q, r := new(big.Int).QuoRem(ax, ay, new(big.Int))
	if x.Sign() < 0 {
		if r.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		q.Neg(q)
	}
	if y.Sign() < 0 {
		q.Neg(q)
	}
	return q
}

func (c *calculator) power() (*big.Int, error) {
	if c.pos >= len(c.toks) || c.toks[c.pos].v == nil {
		return nil, ErrMalformed
	}
	x := c.toks[c.pos].v
	c.pos++
	if c.next("^") == 0 {
		return x, nil
	}
	y, err := c.power()
	if err != nil {
		return nil, err
	}
	if y.Sign() <= 0 {
		return big.NewInt(1), nil
	}
	if x.BitLen() <= 1 { // -1, 0, 1
		if x.Sign() < 0 && y.Bit(0) == 0 {
			return big.NewInt(1), nil
		}
		return new(big.Int).Set(x), nil
	}
	if !y.IsInt64() || y.Int64() > int64(c.maxbits) || int(y.Int64())*x.BitLen() > c.maxbits {
		return nil, ErrTooLarge
	}
	z := big.NewInt(1)
	for i := int64(0); i < y.Int64(); i++ {
		z.Mul(z, x)
	}
	return z, nil
}
