// Command c13 decides property C13 (target expressions).
package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

const maxbits = 8192

func check(w *mc.W, expr string) error { return checkUpTo(w, expr, maxbits) }

func checkUpTo(w *mc.W, expr string, bits int) error {
	want, err := ref.Calc(expr, bits)
	if err == ref.ErrTooLarge {
		w.Outcome("pruned-too-large")
		return nil
	}
	got, gerr := calc.Eval(expr)
	w.Trace(1)
	w.Step(len(expr))
	switch err {
	case nil:
		if gerr != nil {
			return fmt.Errorf("error %v, want %v", gerr, want)
		}
		if got.Cmp(want) != 0 {
			return fmt.Errorf("= %v, want %v", got, want)
		}
		if err := ref.SelfConsistent([]*big.Int{got}); err != nil {
			return err
		}
		w.Outcome("value")
	case ref.ErrUnspecified:
		w.Outcome("unspecified")
	case ref.ErrDivZero:
		if gerr == nil {
			return fmt.Errorf("= %v for a division by zero", got)
		}
		w.Outcome("division-by-zero")
	default:
		if gerr == nil {
			return fmt.Errorf("= %v, want an error", got)
		}
		w.Outcome("malformed")
	}
	return nil
}

// History is two expressions, evaluated in turn.
type History struct{ A, B string }

func checkHistory(w *mc.W, h History) error {
	var kept, want []*big.Int
	for i, e := range []string{h.A, h.B, h.A, h.B, h.A + "+" + h.B} {
		v, err := ref.Calc(e, maxbits)
		if err != nil {
			return nil // judged by the other families
		}
		got, err := calc.Eval(e)
		w.Trace(1)
		w.Step(len(e))
		if err != nil {
			return fmt.Errorf("evaluation %d: %q: %v", i, e, err)
		}
		if got.Cmp(v) != 0 {
			return fmt.Errorf("evaluation %d: %q = %v, want %v (results of the first two are overwritten)", i, e, got, v)
		}
		kept, want = append(kept, got), append(want, v)
		if i == 1 {
			for k := range kept {
				if kept[k].Cmp(want[k]) != 0 {
					return fmt.Errorf("result %d changed from %v to %v", k, want[k], kept[k])
				}
			}
			ref.Scribble(kept)
		}
	}
	w.Outcome("history")
	return nil
}

// checkCLI compares what the search command reports.
func checkCLI(w *mc.W, expr string) error {
	want, err := ref.Calc(expr, 200)
	if err == ref.ErrTooLarge || err == ref.ErrUnspecified {
		return nil
	}
	r, rerr := cli.Run(cli.Limits{}, "", "search", "-v", "--", expr)
	if rerr != nil {
		return rerr
	}
	w.Trace(1)
	if cerr := r.Crashed(); cerr != nil {
		return cerr
	}
	if err != nil {
		if r.Code == 0 || r.Stdout != "" {
			return fmt.Errorf("search accepts it: %s", r.Stdout)
		}
		for _, l := range strings.Split(r.Stderr, "\n") {
			if strings.Contains(l, "dec: ") {
				return fmt.Errorf("search reports a value: %s", l)
			}
		}
		w.Outcome("error")
		return nil
	}
	dec, hex := false, false
	for _, l := range strings.Split(r.Stderr, "\n") {
		if _, v, ok := strings.Cut(l, " dec: "); ok {
			dec = true
			if v != want.String() {
				return fmt.Errorf("reports decimal %q, want %v", v, want)
			}
		}
		if _, v, ok := strings.Cut(l, " hex: "); ok {
			hex = true
			if strings.TrimPrefix(v, "0x") != fmt.Sprintf("%x", want) && v != fmt.Sprintf("%#x", want) {
				return fmt.Errorf("reports hexadecimal %q, want %x", v, want)
			}
		}
	}
	if !dec || !hex {
		return fmt.Errorf("value not reported:\n%.300s", r.Stderr)
	}
	w.Outcome("reported")
	return nil
}

var ops = []string{"+", "-", "*", "/", "^"}

// exprs yields every expression with exactly k operators over the literals.
func exprs(lits []string, k, shard, n int, yield func(string)) {
	if len(lits) == 0 {
		return
	}
	enum.Seqs(len(lits), k+1, k+1, shard, n, func(ls []int) {
		enum.Seqs(len(ops), k, k, 0, 1, func(os []int) {
			var b strings.Builder
			for i, l := range ls {
				if i > 0 {
					b.WriteString(ops[os[i-1]])
				}
				b.WriteString(lits[l])
			}
			yield(b.String())
		})
	})
}

func main() {
	all := []string{"0", "1", "2", "3", "7", "10", "-1", "-2", "-3", "-7", "0x1f", "-0xa", "0b101", "-0b11", "64", "-0"}
	operators := mc.NewFamily("operators", "every expression of 0..2 operators over 16 literals, 3 over {0,1,2,3,-1,-2,5}, 4 over 6 (10) literals, 5 over 3 (4), 7 over {2,3}",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("ops", 128, func(shard, n int, yield func(string)) {
				for k := 0; k <= 2; k++ {
					exprs(all, k, shard, n, yield)
				}
				exprs([]string{"0", "1", "2", "3", "-1", "-2", "5"}, 3, shard, n, yield)
				exprs([]string{"2", "3", "-1", "0", "7", "-4"}, 4, shard, n, yield)
				exprs([]string{"2", "3", "-2"}, 5, shard, n, yield)
				exprs([]string{"2", "3", "-2"}[:2], 7, shard, n, yield)
				exprs([]string{"2", "3", "-2", "5"}[:t.Pick(0, 4)], 5, shard, n, yield)
				exprs([]string{"2", "3", "-1", "0", "7", "-4", "1", "10", "0x1f", "-7"}[:t.Pick(0, 10)], 4, shard, n, yield)
			})
		}, check)
	spaced := mc.NewFamily("spaces", "every placement of 0, 1 or 3 spaces at every gap of expressions of up to 3 operators over five shapes of literals",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("spaces", 64, func(shard, n int, yield func(string)) {
				sp := []string{"", " ", "   "}
				lits := []string{"2", "-3", "0x1a", "-0b10", "12"}
				cnt := 0
				for k := 0; k <= 3; k++ {
					ls := lits
					if k == 3 {
						ls = lits[:2]
					}
					enum.Seqs(len(ls), k+1, k+1, 0, 1, func(li []int) {
						enum.Seqs(len(ops), k, k, 0, 1, func(oi []int) {
							if cnt++; cnt%n != shard {
								return
							}
							enum.Seqs(len(sp), 2*k+2, 2*k+2, 0, 1, func(g []int) {
								var b strings.Builder
								for i := range li {
									if i > 0 {
										b.WriteString(sp[g[2*i-1]] + ops[oi[i-1]] + sp[g[2*i]])
									} else {
										b.WriteString(sp[g[0]])
									}
									b.WriteString(ls[li[i]])
								}
								b.WriteString(sp[g[2*k+1]])
								yield(b.String())
							})
						})
					})
				}
			})
		}, check)
	literals := mc.NewFamily("literals", "every string of up to 6 (7) characters over {0,1,2,9,a,f,A,x,b,-,_,space}, alone and inside a sum and a power",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("lits", 64, func(shard, n int, yield func(string)) {
				al := "0129afAxb-_ "
				enum.Seqs(len(al), 0, t.Pick(6, 7), shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = al[s[i]]
					}
					yield(string(b))
					yield("3*" + string(b) + "+1")
					if len(s) <= 4 {
						yield("2^" + string(b))
						yield(string(b) + "/7")
					}
				})
			})
		}, check)
	strs := mc.NewFamily("strings", "every string of up to 7 (8) characters over {1,0,-,+,*,/,^,space,x}; every byte string of length 1 and 2; every byte inserted in or replacing a byte of samples",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("strs", 64, func(shard, n int, yield func(string)) {
				al := "10-+*/^ x"
				enum.Seqs(len(al), 0, t.Pick(7, 8), shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = al[s[i]]
					}
					yield(string(b))
				})
				enum.Seqs(256, 1, 2, shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = byte(s[i])
					}
					yield(string(b))
				})
				for i, e := range []string{"1+2", "0x1f*2^3", "-0b101 - 12/5", "2^255 - 19 - 2", "3*-4^2", "7"} {
					if i%n != shard {
						continue
					}
					for p := 0; p <= len(e); p++ {
						for c := 0; c < 256; c++ {
							yield(e[:p] + string([]byte{byte(c)}) + e[p:])
							if p < len(e) {
								yield(e[:p] + string([]byte{byte(c)}) + e[p+1:])
							}
						}
						for q := p; q <= len(e); q++ {
							yield(e[:p] + e[q:])
							yield(e[:q] + e[p:])
						}
					}
				}
			})
		}, check)
	large := mc.NewFamily("large-values", "every operation between 2^e+d (e around 8, 16, 31..33, 62..66, 127..129, 255..257, d in -1..1) of both signs in every base; powers of small bases up to 2^600, and of every one of these integers and 2^512, 2^1000, up to the fifth; division by all pairs near word boundaries",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("large", 64, func(shard, n int, yield func(string)) {
				var xs []*big.Int
				es := []uint{8, 16, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257}
				for _, e := range es {
					for d := int64(-1); d <= 1; d++ {
						x := ref.Pow2(e, d)
						xs = append(xs, x, new(big.Int).Neg(x))
					}
				}
				xs = append(xs, big.NewInt(0), big.NewInt(1), big.NewInt(-1), big.NewInt(3), big.NewInt(-10))
				cnt := 0
				for _, x := range xs {
					for _, y := range xs {
						if cnt++; cnt%n != shard {
							continue
						}
						for _, op := range ops[:4] {
							yield(x.String() + op + y.String())
							yield(fmt.Sprintf("%#x %s %#x", x, op, y))
							yield(fmt.Sprintf("%#b%s%v*2^3", x, op, y))
							yield(fmt.Sprintf("5 - %v %s %#b", x, op, y))
						}
					}
				}
				for b := -12; b <= 12; b++ {
					for p := -3; p <= 600; p++ {
						if cnt++; cnt%n == shard {
							yield(fmt.Sprintf("%d^%d", b, p))
							yield(fmt.Sprintf("%d^%d - %d", b, p, p))
							yield(fmt.Sprintf("1+%d^%d/%d", b, p, 7))
							yield(fmt.Sprintf("0x%x^0b%b*-3", b*b, p*p))
						}
					}
				}
				xs = append(xs, ref.Pow2(512, 0), ref.Pow2(1000, 0), new(big.Int).Neg(ref.Pow2(512, 0)), new(big.Int).Neg(ref.Pow2(1000, 0)))
				for _, x := range xs {
					for p := -2; p <= 5; p++ {
						if cnt++; cnt%n == shard {
							yield(fmt.Sprintf("%v^%d", x, p))
							yield(fmt.Sprintf("%#x^%#b - %d", x, p, p))
							yield(fmt.Sprintf("7*%v^%#x", x, p))
							yield(fmt.Sprintf("%#b^%d/%v", x, p, x))
						}
					}
				}
			})
		}, check)
	long := mc.NewFamily("long-expressions", "every word of 1..4 (5) of the five operators over literal words of length 1..2, repeated to 9, 20 and 61 operands, words of 1..2 also to 140, 300 and 1030 over literals of absolute value at most 2",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("long", 64, func(shard, n int, yield func(string)) {
				lits := []string{"2", "1", "-3", "13"}
				cnt := 0
				enum.Words(len(ops), t.Pick(4, 5), func(ow []int) {
					enum.Words(len(lits), 2, func(lw []int) {
						lens := []int{9, 20, 61}
						if len(ow) <= 2 {
							lens = append(lens, 140, 300, 1030)
						}
						for _, l := range lens {
							lits := lits
							if l > 61 {
								lits = []string{"1", "-1", "2", "-2"}
							}
							if cnt++; cnt%n != shard {
								continue
							}
							var b strings.Builder
							for i := 0; i < l; i++ {
								if i > 0 {
									b.WriteString(ops[ow[i%len(ow)]])
								}
								b.WriteString(lits[lw[i%len(lw)]])
							}
							yield(b.String())
						}
					})
				})
			})
		}, check)
	sizes := mc.NewFamily("sizes", "literals of n digits (decimal, hexadecimal, binary, leading zeros, minus), n blanks before, in and after, n operands of one operator, n pending powers before and after another operator, each for n = 10^k+d, k = 1..3, and 2^k+d, k = 4..14 (16), |d| <= 1",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("sizes", 64, func(shard, n int, yield func(string)) {
				var ls []int
				for p := 10; p <= 1000; p *= 10 {
					ls = append(ls, p-1, p, p+1)
				}
				for k := 4; k <= t.Pick(14, 16); k++ {
					ls = append(ls, 1<<k-1, 1<<k, 1<<k+1)
				}
				cnt := 0
				r := strings.Repeat
				for i := len(ls) - 1; i >= 0; i-- {
					l := ls[i]
					for _, e := range []string{
						r("9", l), "-" + r("7", l), "-1" + r("0", l-1) + "/3", "0x" + r("f", l/4), "-0x9" + r("0", l/4) + "+1", "0b" + r("10", l/2), "0b1" + r("0", l-1) + "-0b" + r("1", l-1), "-0b1" + r("0", l-1),
						"0x" + r("0", l) + "f", "0b" + r("0", l) + "101", "-0x" + r("0", l) + "e+2",
						r("9", l) + "/" + r("9", l-1), "-" + r("9", l) + "/" + r("3", l-1), r("1", l) + "-" + r("1", l), "3*" + r("4", l/2) + "*-" + r("5", l/2),
						r(" ", l) + "7", "7" + r(" ", l), "7" + r(" ", l) + "-2", "7-" + r(" ", l) + "2", r(" ", l), "7" + r(" ", l) + "2", "7 " + r("- 2 ", l), "7+" + r(" ", l),
						"1" + r("+1", l), "1" + r("-2", l), "1" + r("--2", l), "5" + r("*1", l), "5" + r("*-1", l), "5" + r("/1", l), "-5" + r("/-1", l), "5" + r("^1", l), "2" + r("^1", l-1) + "+3", "1-2" + r("^1", l),
						"3*2" + r("^1", l), "7-2" + r("^1", l) + "*3", "-2" + r("^1", l) + "-3*5", "2" + r("^1", l) + "^3", "-1" + r("^-1", l), "-1" + r("^3", l) + "*4-1", "2^1" + r("^0", l), "0" + r("^1", l),
						"1" + r("+1*1", l), "1" + r("*2/2", l), "1" + r("-3*2^1", l), "2" + r("^1*1", l), "1" + r("+1", l) + "+", "1" + r("+1", l) + "/0", "1/0" + r("+1", l), "1" + r("^1", l) + "/0", "1" + r("+1", l) + "x",
					} {
						if cnt++; cnt%n == shard {
							yield(e)
						}
					}
				}
			})
		}, func(w *mc.W, e string) error { return checkUpTo(w, e, 1<<18) })
	command := mc.NewFamily("search-command", "the value the built search command reports for every expression of 0..1 operators over 10 literals, 2 over {2,3,-1} (3), and malformed ones",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("cli", 32, func(shard, n int, yield func(string)) {
				for k := 0; k <= 1; k++ {
					exprs([]string{"0", "1", "2", "3", "10", "-1", "-7", "0x1f", "0b101", "-0xa"}[:10], k, shard, n, yield)
				}
				exprs([]string{"2", "3", "-1"}[:t.Pick(2, 3)], 2, shard, n, yield)
				if shard == 0 {
					for _, e := range []string{"", " ", "1+", "+1", "1 1", "0x", "0b2", "x", "2**3", "(1)", "2^64 - 1", "2 ^ 127 - 1", "1/0", "3/(2)", "5-\t2", "5\n"} {
						yield(e)
					}
				}
			})
		}, checkCLI)
	history := mc.NewFamily("histories", "every ordered pair of the literals 0..20, 255..257, 2^k+d for k = 31, 32, 63, 64 and |d| <= 1, in decimal, hexadecimal and binary, with and without minus, and of each with +0, *1, ^1 and /1: both evaluated, the results kept, then overwritten, both evaluated again, and their sum",
		func(t mc.Tier) []mc.Gen[History] {
			return mc.Shards("history", 64, func(shard, n int, yield func(History)) {
				var es []string
				lit := func(x *big.Int) {
					for _, l := range []string{x.String(), fmt.Sprintf("%#x", x), fmt.Sprintf("%#b", x)} {
						es = append(es, l)
						if x.Sign() > 0 && t == mc.Thorough {
							es = append(es, "-"+l)
						}
					}
				}
				for i := int64(0); i <= 20; i++ {
					lit(big.NewInt(i))
				}
				for i := int64(255); i <= 257; i++ {
					lit(big.NewInt(i))
				}
				for _, k := range []uint{31, 32, 63, 64} {
					for d := int64(-1); d <= 1; d++ {
						lit(ref.Pow2(k, d))
					}
				}
				for i, e := range es {
					if i%4 == 0 {
						es = append(es, e+"+0", e+"*1", e+"^1", e+"/1")
					}
				}
				cnt := 0
				for _, a := range es {
					for _, b := range es {
						if cnt++; enum.Mine(cnt, shard, n) {
							yield(History{a, b})
						}
					}
				}
			})
		}, checkHistory)
	mc.Deep(history, spaced, strs, large, long, sizes, command)
	mc.Main(&mc.Check{
		Property:    "C13",
		Technique:   "bounded exhaustive enumeration of expressions and strings against a recursive evaluator",
		Families:    []*mc.Family{history, operators, spaced, literals, strs, large, long, sizes, command},
		Assumptions: []string{"math/big arithmetic is correct", fmt.Sprintf("expressions with an intermediate value beyond %d bits are skipped", maxbits)},
	})
}
