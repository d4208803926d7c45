// Command c19 decides property C19 (multi-precision helpers).
package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// bitsOf is the naive model of a non-negative integer: a set of bits.
func bitsOf(x *big.Int) []bool {
	var b []bool
	for _, by := range reverse(x.Bytes()) {
		for i := 0; i < 8; i++ {
			b = append(b, by>>i&1 == 1)
		}
	}
	return b
}

func fromBits(b []bool) *big.Int {
	by := make([]byte, (len(b)+7)/8)
	for i, v := range b {
		if v {
			by[len(by)-1-i/8] |= 1 << (i % 8)
		}
	}
	return new(big.Int).SetBytes(by)
}

func reverse(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func eq(what string, got, want *big.Int) error {
	if got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("%s = %v, want %v", what, got, want)
	}
	return ref.SelfConsistent([]*big.Int{got})
}

// Range of bits.
type Range struct{ L, H uint }

func checkMask(w *mc.W, r Range) error {
	w.Trace(1)
	w.Step(1)
	b := make([]bool, r.H)
	for i := r.L; i < r.H; i++ {
		b[i] = true
	}
	want := fromBits(b)
	for rep := 0; rep < 2; rep++ {
		m := bigint.Mask(r.L, r.H)
		if err := eq(fmt.Sprintf("Mask(%d,%d)", r.L, r.H), m, want); err != nil {
			return err
		}
		m.SetInt64(-77) // the caller owns the result
	}
	return nil
}

// checkN covers the helpers indexed by a bit count.
func checkN(w *mc.W, n uint) error {
	w.Trace(1)
	w.Step(1)
	for rep := 0; rep < 2; rep++ {
		b := make([]bool, n+1)
		b[n] = true
		p := bigint.Pow2(n)
		if err := eq(fmt.Sprintf("Pow2(%d)", n), p, fromBits(b)); err != nil {
			return err
		}
		p.SetInt64(-77)
		o := bigint.Ones(n)
		for i := range b {
			b[i] = i < int(n)
		}
		if err := eq(fmt.Sprintf("Ones(%d)", n), o, fromBits(b)); err != nil {
			return err
		}
		o.SetInt64(-77)
		z, one := bigint.Zero(), bigint.One()
		if z.Sign() != 0 || one.Cmp(big.NewInt(1)) != 0 {
			return fmt.Errorf("Zero()=%v One()=%v", z, one)
		}
		z.SetInt64(5)
		one.SetInt64(6)
	}
	return nil
}

// checkInt covers every unary helper on x.
func checkInt(w *mc.W, s string) error {
	x := ref.Int(s)
	w.Trace(1)
	arg := new(big.Int).Set(x)
	same := func(what string) error {
		if arg.Cmp(x) != 0 {
			return fmt.Errorf("%s modified its argument %v to %v", what, x, arg)
		}
		return nil
	}
	abs := bitsOf(new(big.Int).Abs(x))
	w.Step(len(abs))
	var set []int
	for i, b := range abs {
		if b {
			set = append(set, i)
		}
	}
	if got, want := bigint.IsPow2(arg), x.Sign() > 0 && len(set) == 1; got != want {
		return fmt.Errorf("IsPow2(%v)=%v", x, got)
	}
	if err := same("IsPow2"); err != nil {
		return err
	}
	if bigint.IsZero(arg) != (len(set) == 0) || bigint.IsNonZero(arg) != (len(set) > 0) {
		return fmt.Errorf("IsZero/IsNonZero(%v)", x)
	}
	c := bigint.Clone(arg)
	if err := eq("Clone", c, x); err != nil {
		return err
	}
	c.Add(c, big.NewInt(1))
	c.Lsh(c, 3)
	if err := same("writing to a clone"); err != nil {
		return err
	}
	if !bigint.Equal(arg, new(big.Int).Set(x)) || bigint.Equal(arg, new(big.Int).Neg(new(big.Int).Add(x, big.NewInt(1)))) {
		return fmt.Errorf("Equal(%v)", x)
	}
	for _, v := range []int64{0, 1, -1, 2, x.Int64(), x.Int64() + 1, -x.Int64()} {
		if got, want := bigint.EqualInt64(arg, v), x.Cmp(big.NewInt(v)) == 0; got != want {
			return fmt.Errorf("EqualInt64(%v,%d)=%v", x, v, got)
		}
	}
	if x.BitLen() <= 4200 {
		ps := bigint.Pow2UpTo(arg)
		want := 0
		if x.Sign() > 0 {
			want = x.BitLen()
		}
		if len(ps) != want {
			return fmt.Errorf("Pow2UpTo(%v) has %d elements, want %d", x, len(ps), want)
		}
		for i, p := range ps {
			if p.Cmp(ref.Pow2(uint(i), 0)) != 0 {
				return fmt.Errorf("Pow2UpTo(%v)[%d]=%v", x, i, p)
			}
		}
		for _, p := range ps { // distinct storage
			p.SetInt64(9)
		}
		if err := same("Pow2UpTo"); err != nil {
			return err
		}
	}
	le := bigint.BytesLittleEndian(arg)
	if want := reverse(x.Bytes()); string(le) != string(want) {
		return fmt.Errorf("BytesLittleEndian(%v)=%x want %x", x, le, want)
	}
	for i := range le {
		le[i] = 0xa5
	}
	if err := same("BytesLittleEndian"); err != nil {
		return err
	}
	if x.Sign() < 0 {
		return nil
	}
	if got := bigint.BitsSet(arg); fmt.Sprint(got) != fmt.Sprint(append([]int{}, set...)) {
		return fmt.Errorf("BitsSet(%v)=%v want %v", x, got, set)
	}
	limbs := bigint.Uint64s(arg)
	if err := same("Uint64s"); err != nil {
		return err
	}
	nl := (x.BitLen() + 63) / 64
	if len(limbs) != nl {
		return fmt.Errorf("Uint64s(%v) has %d limbs, want %d", x, len(limbs), nl)
	}
	for i, l := range limbs {
		for b := 0; b < 64; b++ {
			k := 64*i + b
			if want := k < len(abs) && abs[k]; (l>>b&1 == 1) != want {
				return fmt.Errorf("Uint64s(%v)[%d]=%#x: bit %d", x, i, l, b)
			}
		}
	}
	return nil
}

// Ext is an extraction.
type Ext struct {
	X    string
	L, H uint
}

func checkExtract(w *mc.W, e Ext) error {
	x := ref.Int(e.X)
	arg := new(big.Int).Set(x)
	w.Trace(1)
	w.Step(1)
	// The bits of a negative x, in the sense of floor(x / 2^i) mod 2, are the
	// complemented bits of -x - 1.
	neg := x.Sign() < 0
	b := bitsOf(x)
	if neg {
		b = bitsOf(new(big.Int).Sub(new(big.Int).Neg(x), big.NewInt(1)))
	}
	var out []bool
	for i := e.L; i < e.H; i++ {
		out = append(out, (int(i) < len(b) && b[i]) != neg)
	}
	got := bigint.Extract(arg, e.L, e.H)
	if err := eq(fmt.Sprintf("Extract(%#x,%d,%d)", x, e.L, e.H), got, fromBits(out)); err != nil {
		return err
	}
	got.Sub(got, big.NewInt(1000))
	if arg.Cmp(x) != 0 {
		return fmt.Errorf("Extract modified %#x", x)
	}
	return nil
}

// Two integers.
type Two struct{ X, Y string }

func checkTwo(w *mc.W, t Two) error {
	x, y := ref.Int(t.X), ref.Int(t.Y)
	ax, ay := new(big.Int).Set(x), new(big.Int).Set(y)
	w.Trace(1)
	w.Step(1)
	lo, hi := bigint.MinMax(ax, ay)
	wl, wh := x, y
	if y.Cmp(x) < 0 {
		wl, wh = y, x
	}
	if lo.Cmp(wl) != 0 || hi.Cmp(wh) != 0 {
		return fmt.Errorf("MinMax(%v,%v)=%v,%v", x, y, lo, hi)
	}
	if got := bigint.Equal(ax, ay); got != (x.Cmp(y) == 0) {
		return fmt.Errorf("Equal(%v,%v)=%v", x, y, got)
	}
	if ax.Cmp(x) != 0 || ay.Cmp(y) != 0 {
		return fmt.Errorf("MinMax modified its arguments")
	}
	return nil
}

func checkText(w *mc.W, s string) error {
	w.Trace(1)
	w.Step(1)
	for _, base := range []int{2, 16} {
		name, f, must := "Hex", bigint.Hex, bigint.MustHex
		if base == 2 {
			name, f, must = "Binary", bigint.Binary, bigint.MustBinary
		}
		digits := strings.ReplaceAll(s, "_", "")
		v, good := new(big.Int), digits != ""
		for _, c := range []byte(digits) {
			d := 99
			switch {
			case '0' <= c && c <= '9':
				d = int(c - '0')
			case 'a' <= c && c <= 'f':
				d = int(c-'a') + 10
			case 'A' <= c && c <= 'F':
				d = int(c-'A') + 10
			}
			if d >= base {
				good = false
				break
			}
			v.Mul(v, big.NewInt(int64(base))).Add(v, big.NewInt(int64(d)))
		}
		// Digits, separated by single underscores: must be accepted.
		clean := good && !strings.HasPrefix(s, "_") && !strings.HasSuffix(s, "_") && !strings.Contains(s, "__")
		signed := strings.HasPrefix(digits, "-") || strings.HasPrefix(digits, "+") || strings.HasPrefix(digits, "0x") || strings.HasPrefix(digits, "0b")
		x, ok := f(s)
		switch {
		case clean && !ok:
			return fmt.Errorf("%s(%q) refused", name, s)
		case ok && good && x.Cmp(v) != 0:
			return fmt.Errorf("%s(%q)=%v want %v", name, s, x, v)
		case ok && !good && !signed:
			return fmt.Errorf("%s(%q)=%v accepted", name, s, x)
		}
		if clean {
			if got := must(s); got.Cmp(v) != 0 {
				return fmt.Errorf("Must%s(%q)=%v want %v", name, s, got, v)
			}
			w.Outcome(name + "-value")
		} else {
			w.Outcome(name + "-other")
		}
	}
	return nil
}

// Lists for the list helpers.
type Lists struct {
	Xs, Ys ref.Ints
	N      string
}

// spare copies xs into a slice with spare capacity filled with markers.
func spare(xs []*big.Int) ([]*big.Int, func() bool) {
	mark := big.NewInt(-424242)
	full := make([]*big.Int, len(xs)+4)
	for i := range full {
		full[i] = mark
	}
	copy(full, xs)
	keep := append([]*big.Int{}, full...)
	vals := ref.Clone(full)
	return full[:len(xs)], func() bool {
		for i := range full {
			if full[i] != keep[i] || full[i].Cmp(vals[i]) != 0 {
				return false
			}
		}
		return true
	}
}

func checkLists(w *mc.W, l Lists) error {
	w.Trace(1)
	xs, ys := l.Xs.Big(), l.Ys.Big()
	w.Step(len(xs) + len(ys))
	n := ref.Int(l.N)
	ax, okx := spare(xs)
	ay, oky := spare(ys)
	an := new(big.Int).Set(n)
	intact := func(what string) error {
		if !okx() || !oky() || an.Cmp(n) != 0 {
			return fmt.Errorf("%s modified its arguments (%v, %v, %v)", what, ax, ay, an)
		}
		return nil
	}
	// Index, Contains.
	want := -1
	for i, x := range xs {
		if x.Cmp(n) == 0 {
			want = i
			break
		}
	}
	if got := bigints.Index(an, ax); got != want {
		return fmt.Errorf("Index(%v,%v)=%d want %d", n, xs, got, want)
	}
	if got := bigints.Contains(an, ax); got != (want >= 0) {
		return fmt.Errorf("Contains(%v,%v)=%v", n, xs, got)
	}
	if err := intact("Index/Contains"); err != nil {
		return err
	}
	// Clone, Concat.
	cl := bigints.Clone(ax)
	if !ref.Equal(cl, xs) {
		return fmt.Errorf("Clone(%v)=%v", xs, cl)
	}
	for i := range cl {
		cl[i] = an
	}
	_ = append(cl, an)
	if err := intact("Clone"); err != nil {
		return err
	}
	cc := bigints.Concat(ax, ay)
	cat := append(ref.Clone(xs), ref.Clone(ys)...)
	if !ref.Equal(cc, cat) {
		return fmt.Errorf("Concat(%v,%v)=%v", xs, ys, cc)
	}
	for i := range cc {
		cc[i] = an
	}
	if err := intact("Concat"); err != nil {
		return err
	}
	// Unique.
	var uq []*big.Int
	for i, x := range xs {
		if i == 0 || x.Cmp(xs[i-1]) != 0 {
			uq = append(uq, x)
		}
	}
	u := bigints.Unique(ax)
	if !ref.Equal(u, uq) {
		return fmt.Errorf("Unique(%v)=%v want %v", xs, u, uq)
	}
	if err := intact("Unique"); err != nil {
		return err
	}
	// Sort: in place, same values.
	st := ref.Clone(xs)
	ref.SortInts(st)
	ss := append([]*big.Int{}, ax...)
	bigints.Sort(ss)
	if !ref.Equal(ss, st) {
		return fmt.Errorf("Sort(%v)=%v", xs, ss)
	}
	if err := intact("Sort"); err != nil {
		return err
	}
	// Membership in the sorted list.
	if got := bigints.ContainsSorted(an, ss); got != (want >= 0) {
		return fmt.Errorf("ContainsSorted(%v,%v)=%v", n, ss, got)
	}
	// Sorted distinct lists: insertion and merge.
	du, dv := dedup(xs), dedup(ys)
	aq, okq := spare(du)
	av, okv := spare(dv)
	ins := bigints.InsertSortedUnique(aq, an)
	if want := ref.Union(du, []*big.Int{n}); !ref.Equal(ins, want) {
		return fmt.Errorf("InsertSortedUnique(%v,%v)=%v want %v", du, n, ins, want)
	}
	if !okq() {
		return fmt.Errorf("InsertSortedUnique modified its argument %v", du)
	}
	mg := bigints.MergeUnique(aq, av)
	if want := ref.Union(du, dv); !ref.Equal(mg, want) {
		return fmt.Errorf("MergeUnique(%v,%v)=%v want %v", du, dv, mg, want)
	}
	if !okq() || !okv() {
		return fmt.Errorf("MergeUnique modified its arguments")
	}
	// The result is the caller's.
	for i := range mg {
		mg[i] = nil
	}
	if !okq() || !okv() {
		return fmt.Errorf("the result of MergeUnique shares its backing array with an argument")
	}
	return intact("list helpers")
}

func dedup(xs []*big.Int) []*big.Int { return ref.Union(xs) }

// checkInt64s is the conversion from machine integers.
func checkInt64s(w *mc.W, xs []int64) error {
	w.Trace(1)
	w.Step(1)
	got := bigints.Int64s(xs...)
	if !ref.Equal(got, ref.Big(xs)) {
		return fmt.Errorf("Int64s(%v)=%v", xs, got)
	}
	return nil
}

// Vec is a straight-line vector computation in dimension N: vector j is basis
// vector / zero vector for j < len(Base), and then the results of Steps.
type Vec struct {
	N     int
	Base  []int // -1 is the zero vector
	Steps [][3]int
}

func checkVec(w *mc.W, v Vec) error {
	w.Trace(1)
	w.Step(len(v.Steps))
	var vs []bigvector.Vector
	var ms [][]*big.Int
	for _, b := range v.Base {
		m := make([]*big.Int, v.N)
		for i := range m {
			m[i] = new(big.Int)
			if i == b {
				m[i].SetInt64(1)
			}
		}
		ms = append(ms, m)
		if b < 0 {
			vs = append(vs, bigvector.New(v.N))
		} else {
			vs = append(vs, bigvector.NewBasis(v.N, b))
		}
	}
	for _, s := range v.Steps {
		m := make([]*big.Int, v.N)
		if s[0] == 0 {
			vs = append(vs, bigvector.Add(vs[s[1]], vs[s[2]]))
			for i := range m {
				m[i] = new(big.Int).Add(ms[s[1]][i], ms[s[2]][i])
			}
		} else {
			vs = append(vs, bigvector.Lsh(vs[s[1]], uint(s[2])))
			for i := range m {
				m[i] = new(big.Int).Mul(ms[s[1]][i], ref.Pow2(uint(s[2]), 0))
			}
		}
		ms = append(ms, m)
	}
	// All vectors, earlier ones included, hold what the model says.
	for j, u := range vs {
		if u.Len() != v.N {
			return fmt.Errorf("vector %d has length %d", j, u.Len())
		}
		for i := 0; i < v.N; i++ {
			if u.Idx(i).Cmp(ms[j][i]) != 0 {
				return fmt.Errorf("vector %d element %d = %v, want %v", j, i, u.Idx(i), ms[j][i])
			}
		}
	}
	return nil
}

// powers is 2^k-1, 2^k and 2^k+1 for every 2^k from lo to hi.
func powers(lo, hi uint) []uint {
	var s []uint
	for p := lo; p <= hi; p *= 2 {
		s = append(s, p-1, p, p+1)
	}
	return s
}

func hexString(x *big.Int) string {
	if x.Sign() < 0 {
		return fmt.Sprintf("-0x%x", new(big.Int).Neg(x))
	}
	return fmt.Sprintf("0x%x", x)
}

func main() {
	masks := mc.NewFamily("masks", "every 0 <= l <= h <= 520 (1100), and l, h around multiples of 64 up to 4097, and around powers of two up to 2^17", func(t mc.Tier) []mc.Gen[Range] {
		return mc.Shards("masks", 8, func(shard, n int, yield func(Range)) {
			lim := uint(t.Pick(520, 1100))
			for l := uint(0); l <= lim; l++ {
				for h := l; h <= lim; h++ {
					if int(h)%n == shard {
						yield(Range{l, h})
					}
				}
			}
			var bs []uint
			for m := uint(0); m <= 4096; m += 64 {
				bs = append(bs, m, m+1)
				if m > 0 {
					bs = append(bs, m-1)
				}
			}
			for _, l := range bs {
				for _, h := range bs {
					if l <= h && h > lim && int(h)%n == shard {
						yield(Range{l, h})
					}
				}
			}
			for _, h := range powers(8192, 1<<17) {
				for _, l := range append(powers(1, 1<<17), 0, 3, 100, 1000, 10000, 50000, 70000) {
					if l <= h && int(h)%n == shard {
						yield(Range{l, h})
					}
				}
			}
		})
	}, checkMask)

	counts := mc.NewFamily("bit-counts", "Pow2(n), Ones(n) for every n up to 2100 and around powers of two up to 2^17", func(t mc.Tier) []mc.Gen[uint] {
		return mc.Single("n", func(yield func(uint)) {
			for n := uint(0); n <= 2100; n++ {
				yield(n)
			}
			for _, n := range append(powers(4096, 1<<17), 3000, 10000, 70000, 100000) {
				yield(n)
			}
		})
	}, checkN)

	ls := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129}
	ints := mc.NewFamily("integers", "every |x| below 2^16 (2^20), every 2^e+d with e up to 1100 or around a power of two up to 2^17 and |d| <= 2, every two ones and every run of ones between two such places, every pattern of up to 4 (5) runs with boundary lengths; both signs", func(t mc.Tier) []mc.Gen[string] {
		return mc.Shards("ints", 32, func(shard, n int, yield func(string)) {
			for x := -1 << t.Pick(16, 20); x < 1<<t.Pick(16, 20); x++ {
				if enum.Mine(x+1<<20, shard, n) {
					yield(fmt.Sprint(x))
				}
			}
			at := append(powers(2048, 1<<t.Pick(16, 17)), 70000)
			for _, e := range at {
				for _, l := range append(at, 0, 1, 64, 1000) {
					if l < e && enum.Mine(int(e+l), shard, n) {
						x := ref.Pow2(e, 0)
						yield(hexString(new(big.Int).Add(x, ref.Pow2(l, 0))))
						yield(hexString(new(big.Int).Sub(x, ref.Pow2(l, 0))))
						yield(hexString(new(big.Int).Neg(x.Add(x, ref.Pow2(l, 0)))))
					}
				}
			}
			es := append([]uint{}, at...)
			for e := uint(20); e <= 1100; e++ {
				es = append(es, e)
			}
			for _, e := range es {
				for d := int64(-2); d <= 2; d++ {
					if enum.Mine(int(e), shard, n) {
						x := ref.Pow2(e, d)
						yield(hexString(x))
						yield(hexString(new(big.Int).Neg(x)))
					}
				}
			}
			enum.RunPatterns(ls, t.Pick(4, 5), 400, shard, n, func(r enum.Runs) {
				if r.Bits() > 20 {
					yield(r.Int().String())
				}
			})
		})
	}, checkInt)

	extract := mc.NewFamily("extract", "every |x| below 2^10 (2^11), of both signs, with all 0 <= l <= h <= 12; patterns of up to 3 runs with boundary lengths, and periodic words of 6 (7) bits to 65..200 bits, with all l <= h around multiples of 8 and 64; two ones and runs of ones around 2^12 and 2^16, with all l <= h around those", func(t mc.Tier) []mc.Gen[Ext] {
		return mc.Shards("extract", 32, func(shard, n int, yield func(Ext)) {
			for x := 0; x < 1<<t.Pick(10, 11); x++ {
				if !enum.Mine(x, shard, n) {
					continue
				}
				for l := uint(0); l <= 12; l++ {
					for h := l; h <= 12; h++ {
						yield(Ext{fmt.Sprint(x), l, h})
						yield(Ext{fmt.Sprint(-x), l, h})
					}
				}
			}
			far := []uint{0, 1, 64, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072}
			for i, e := range far {
				for j, f := range far[:i] {
					if !enum.Mine(i*11+j, shard, n) {
						continue
					}
					for _, x := range []*big.Int{new(big.Int).Add(ref.Pow2(e, 0), ref.Pow2(f, 0)), new(big.Int).Sub(ref.Pow2(e, 0), ref.Pow2(f, 0))} {
						for a, l := range far {
							for _, h := range far[a:] {
								yield(Ext{hexString(x), l, h})
								yield(Ext{hexString(new(big.Int).Neg(x)), l, h})
							}
						}
					}
				}
			}
			at := []uint{0, 1, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300}
			all := func(x *big.Int) {
				s, neg := x.String(), new(big.Int).Neg(x).String()
				for _, l := range at {
					for _, h := range at {
						if l <= h {
							yield(Ext{s, l, h})
							yield(Ext{neg, l, h})
						}
					}
				}
			}
			enum.RunPatterns([]int{1, 2, 31, 33, 63, 64, 65, 128}, 3, 260, shard, n, func(r enum.Runs) { all(r.Int()) })
			enum.PeriodicBits(t.Pick(6, 7), []int{63, 64, 65, 128, 129, 200}, shard, n, all)
		})
	}, checkExtract)

	two := mc.NewFamily("pairs", "all pairs over 46 integers (both signs, word boundaries)", func(t mc.Tier) []mc.Gen[Two] {
		return mc.Single("two", func(yield func(Two)) {
			var xs []*big.Int
			for _, e := range []uint{0, 1, 31, 32, 63, 64, 128} {
				for d := int64(-1); d <= 1; d++ {
					xs = append(xs, ref.Pow2(e, d), new(big.Int).Neg(ref.Pow2(e, d)))
				}
			}
			for _, x := range xs {
				for _, y := range xs {
					yield(Two{x.String(), y.String()})
				}
			}
		})
	}, checkTwo)

	text := mc.NewFamily("texts", "every string of length 0..6 (7) over {0,1,2,9,a,f,A,F,g,_,-,x}, and digit strings of every length up to 140 and around powers of two up to 8192 (65536) with separators every 1, 4, 8, 16 digits", func(t mc.Tier) []mc.Gen[string] {
		return mc.Shards("text", 16, func(shard, n int, yield func(string)) {
			al := "01_fA9F2ag-x"
			enum.Seqs(len(al), 0, t.Pick(6, 7), shard, n, func(ix []int) {
				b := make([]byte, len(ix))
				for i, a := range ix {
					b[i] = al[a]
				}
				yield(string(b))
			})
			var lens []int
			for l := 1; l <= 140; l++ {
				lens = append(lens, l)
			}
			for _, l := range powers(256, 1<<t.Pick(13, 16)) {
				lens = append(lens, int(l))
			}
			for _, l := range lens {
				if !enum.Mine(l, shard, n) {
					continue
				}
				for _, alpha := range []string{"10", "0123456789abcdef", "fedcBA9876543210", "1"} {
					for _, sep := range []int{1, 4, 8, 16} {
						var b []byte
						for i := 0; i < l; i++ {
							if i > 0 && i%sep == 0 {
								b = append(b, '_')
							}
							b = append(b, alpha[i%len(alpha)])
						}
						yield(string(b))
					}
				}
			}
		})
	}, checkText)

	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), ref.Pow2(64, 0), ref.Pow2(64, 1), big.NewInt(-1)}
	lists := mc.NewFamily("lists", "every pair of lists of lengths up to 4 x 3 (4 x 4) over {0,1,2,3,2^64,2^64+1,-1} (a shorter second alphabet), every list of length 5 (6) alone, with every probe value", func(t mc.Tier) []mc.Gen[Lists] {
		return mc.Shards("lists", 64, func(shard, n int, yield func(Lists)) {
			mk := func(ix []int) ref.Ints {
				s := make(ref.Ints, len(ix))
				for i, a := range ix {
					s[i] = vals[a].String()
				}
				return s
			}
			var seconds []ref.Ints
			enum.Seqs(5, 0, t.Pick(3, 4), 0, 1, func(ix []int) { seconds = append(seconds, mk(ix)) })
			enum.Seqs(len(vals), 0, t.Pick(4, 4), shard, n, func(ix []int) {
				xs := mk(ix)
				for i, ys := range seconds {
					yield(Lists{xs, ys, vals[i%len(vals)].String()})
				}
				for _, v := range vals {
					yield(Lists{xs, ref.Ints{"1", "2"}, v.String()})
				}
			})
			enum.Seqs(len(vals), 5, t.Pick(5, 6), shard, n, func(ix []int) {
				for k := 0; k < len(vals); k += t.Pick(3, 2) {
					yield(Lists{mk(ix), ref.Ints{"0", "2", "5"}, vals[k].String()})
				}
			})
		})
	}, checkLists)

	longlists := mc.NewFamily("long-lists", "lists from every word of period 1..3 over {ascending step, descending step, repeat, jump to the other end, word-boundary}, lengths 11..14, 20, 33, 65 (130), 129 and 257 (1025) for two words, against each other shifted, with every member and neighbour as probe", func(t mc.Tier) []mc.Gen[Lists] {
		return mc.Shards("longlists", 32, func(shard, n int, yield func(Lists)) {
			cnt := 0
			enum.Words(5, 3, func(wd []int) {
				lens := []int{11, 12, 13, 14, 20, 33, t.Pick(65, 130)}
				if len(wd) <= 2 {
					lens = append(lens, 129, t.Pick(257, 1025))
				}
				for _, l := range lens {
					cnt++
					if !enum.Mine(cnt, shard, n) {
						continue
					}
					cur := ref.Pow2(64, -20)
					var xs []*big.Int
					for i := 0; i < l; i++ {
						switch wd[i%len(wd)] {
						case 0:
							cur = new(big.Int).Add(cur, big.NewInt(7))
						case 1:
							cur = new(big.Int).Sub(cur, big.NewInt(5))
						case 3:
							cur = new(big.Int).Sub(ref.Pow2(65, -40), cur)
						case 4:
							cur = new(big.Int).Add(cur, ref.Pow2(63, 0))
						}
						xs = append(xs, cur)
					}
					var ys []*big.Int
					for i, x := range xs {
						if i%2 == 0 {
							ys = append(ys, new(big.Int).Add(x, big.NewInt(int64(i%3))))
						}
					}
					for i, x := range xs {
						if i%max(4, l/16) == 0 || i == l-1 {
							yield(Lists{ref.Strs(xs), ref.Strs(ys), x.String()})
							yield(Lists{ref.Strs(xs), ref.Strs(ys), new(big.Int).Add(x, big.NewInt(1)).String()})
						}
					}
				}
			})
		})
	}, checkLists)

	i64 := mc.NewFamily("int64s", "every list of length 0..3 over machine integer boundaries", func(t mc.Tier) []mc.Gen[[]int64] {
		return mc.Single("i64", func(yield func([]int64)) {
			al := []int64{0, 1, -1, 1<<31 - 1, 1 << 32, 1<<63 - 1, -1 << 63}
			enum.Seqs(len(al), 0, 3, 0, 1, func(ix []int) {
				xs := []int64{}
				for _, a := range ix {
					xs = append(xs, al[a])
				}
				yield(xs)
			})
		})
	}, checkInt64s)

	vecs := mc.NewFamily("vectors", "every straight-line computation of 1..3 (4) additions and shifts (by 0, 1, 63, 64, 65) over basis vectors and the zero vector of dimension 1..3", func(t mc.Tier) []mc.Gen[Vec] {
		return mc.Shards("vecs", 32, func(shard, n int, yield func(Vec)) {
			cnt := 0
			for dim := 1; dim <= 3; dim++ {
				base := []int{-1}
				for i := 0; i < dim; i++ {
					base = append(base, i)
				}
				depth := t.Pick(3, 3)
				if dim < 3 {
					depth = t.Pick(3, 4)
				}
				var rec func(steps [][3]int)
				rec = func(steps [][3]int) {
					if len(steps) > 0 {
						if cnt%n == shard {
							yield(Vec{dim, base, append([][3]int{}, steps...)})
						}
						cnt++
					}
					if len(steps) == depth {
						return
					}
					k := len(base) + len(steps)
					for i := 0; i < k; i++ {
						for j := i; j < k; j++ {
							rec(append(steps[:len(steps):len(steps)], [3]int{0, i, j}))
						}
						for _, s := range []int{0, 1, 63, 64, 65} {
							rec(append(steps[:len(steps):len(steps)], [3]int{1, i, s}))
						}
					}
				}
				rec(nil)
			}
			// Larger dimensions: every basis vector, added up.
			var dims []int
			for dim := 1; dim <= 130; dim++ {
				dims = append(dims, dim)
			}
			dims = append(dims, 255, 256, 257, 258, t.Pick(300, 1025))
			for _, dim := range dims {
				if dim%n != shard {
					continue
				}
				v := Vec{N: dim, Base: []int{-1}}
				for i := 0; i < dim; i++ {
					v.Base = append(v.Base, i)
					v.Steps = append(v.Steps, [3]int{0, 0, i + 1})
				}
				yield(v)
			}
		})
	}, checkVec)

	mc.Deep(masks, counts, ints, extract, two, lists, longlists, i64, vecs)
	mc.Main(&mc.Check{
		Property:  "C19",
		Technique: "bounded exhaustive enumeration of arguments against bit-by-bit definitions",
		Families:  []*mc.Family{masks, counts, ints, extract, two, text, lists, longlists, i64, vecs, historyFamily()},
		Assumptions: []string{
			"math/big is correct",
			"negative arguments to BitsSet, Extract and Uint64s, and inverted ranges, are outside the property",
			"texts with a sign or base prefix may be accepted or refused",
		},
	})
}
