// Command c03 decides property C03 (loading a script).
package main

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

const maxshift = 20000

// hugeShift reports whether loading would unroll a shift beyond any reasonable
// bound; only parsing is judged for those texts.
func hugeShift(n *ref.Node) bool {
	if n == nil {
		return false
	}
	return n.K == '<' && n.U > maxshift || hugeShift(n.X) || hugeShift(n.Y)
}

func check(w *mc.W, src string) error { return checkVia(w, src, parse.String, acc.LoadString) }

func checkVia(w *mc.W, src string, parse func(string) (*ast.Chain, error), load func(string) (*ir.Program, error)) error {
	want, ok := ref.ParseScript(src)
	got, err := parse(src)
	w.Trace(1)
	w.Step(len(src))
	if !ok {
		if err == nil {
			return fmt.Errorf("parse accepts text outside the grammar as %s", glue.Script(got))
		}
		w.Outcome("not-in-grammar")
		if _, err := load(src); err == nil {
			return fmt.Errorf("load accepts text outside the grammar")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("parse rejects a text of the grammar (%s): %w", want, err)
	}
	if g := glue.Script(got).String(); g != want.String() {
		return fmt.Errorf("parsed to %s, the grammar assigns %s", g, want)
	}
	for _, st := range want {
		if hugeShift(st.E) {
			w.Outcome("parse-only")
			return nil
		}
	}
	m, evalerr := ref.EvalScript(want)
	p, err := load(src)
	if evalerr != nil {
		if err == nil {
			return fmt.Errorf("load accepts a script with: %v", evalerr)
		}
		w.Outcome("rejected-meaning")
		return nil
	}
	if err != nil {
		if m.ZeroShift || m.Future {
			w.Outcome("rejected-unspecified")
			return nil
		}
		return fmt.Errorf("load rejects a valid script: %w", err)
	}
	if !ref.Equal(p.Chain, m.Chain) {
		return fmt.Errorf("chain %v, want %v", p.Chain, m.Chain)
	}
	if !ref.SameOps(glue.Ops(p.Program), m.Ops) {
		return fmt.Errorf("operations %v, want %v", p.Program, m.Ops)
	}
	insts := p.String()
	w.Later(func() error {
		if !ref.Equal(p.Chain, m.Chain) || !ref.SameOps(glue.Ops(p.Program), m.Ops) {
			return fmt.Errorf("chain of the loaded program is %v, want %v", p.Chain, m.Chain)
		}
		if p.String() != insts {
			return fmt.Errorf("instructions of the loaded program are\n%s\nwere\n%s", p, insts)
		}
		if g := glue.Script(got).String(); g != want.String() {
			return fmt.Errorf("the parsed tree is now %s, the grammar assigns %s", g, want)
		}
		return nil
	})
	w.Outcome("accepted")
	return nil
}

// tokens is an alphabet of the lexical atoms.
var tokens = []string{"1", "2", "3", "0", "*", "+", "<<", "(", ")", "[", "]", "=", "a", "b", "return", "add", "shl", "dbl", " ", "\n"}

func tokenPlan(alphabet []string, lo int, q, th int) func(t mc.Tier) []mc.Gen[string] {
	return func(t mc.Tier) []mc.Gen[string] {
		return mc.Shards("tokens", 64, func(shard, n int, yield func(string)) {
			enum.Seqs(len(alphabet), lo, t.Pick(q, th), shard, n, func(s []int) {
				var b strings.Builder
				for _, i := range s {
					b.WriteString(alphabet[i])
				}
				yield(b.String())
			})
		})
	}
}

func main() {
	toks := mc.NewFamily("token-sequences", "every sequence of up to 4 (5) of 20 lexical atoms",
		tokenPlan(tokens, 0, 4, 5), check)
	prefixed := mc.NewFamily("script-contexts", "every sequence of up to 4 (5) of 11 atoms as the last line of five scripts that define names",
		func(t mc.Tier) []mc.Gen[string] {
			ctx := []string{"a = 1 + 1\nreturn ", "a = 2*1\nb = a + 1\n", "a=1<<3\nreturn ", "a = 1+1\na", "return = 2*1\nret"}
			sub := []string{"1", "a", "b", "+", "<<", "2*", "(", ")", "[2]", " ", "\n"}
			return mc.Shards("ctx", 64, func(shard, n int, yield func(string)) {
				enum.Seqs(len(sub), 0, t.Pick(4, 5), shard, n, func(s []int) {
					var b strings.Builder
					for _, i := range s {
						b.WriteString(sub[i])
					}
					for _, c := range ctx {
						yield(c + b.String())
					}
				})
			})
		}, check)
	chars := mc.NewFamily("byte-strings", "every byte string of length 0..2 (all 256 values), every string of length 3..5 (6) over 12 characters, and every single byte inserted in or replacing a byte of sample scripts",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("bytes", 32, func(shard, n int, yield func(string)) {
				enum.Seqs(256, 0, 2, shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = byte(s[i])
					}
					yield(string(b))
				})
				al := "12*+<()[] x0"
				enum.Seqs(len(al), 3, t.Pick(5, 6), shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = al[s[i]]
					}
					yield(string(b))
				})
				for i, src := range samples {
					if i%n != shard {
						continue
					}
					for p := 0; p <= len(src); p++ {
						for c := 0; c < 256; c++ {
							yield(src[:p] + string([]byte{byte(c)}) + src[p:])
							if p < len(src) {
								yield(src[:p] + string([]byte{byte(c)}) + src[p+1:])
							}
						}
						if p < len(src) {
							yield(src[:p] + src[p+1:])
						}
						for q := p; q < len(src); q++ {
							yield(src[:p] + src[q:])            // delete a range
							yield(src[:q] + src[p:q] + src[q:]) // repeat a range
						}
					}
				}
			})
		}, check)

	scripts := mc.NewFamily("scripts", "scripts in canonical spelling over add, shift by 0..3, double and operands 1, [1], [2], [3], [9], defined, undefined and redefined names: every script of one statement with up to 3 operators, two with 2 and three with 1 (2); and all those the semantics accept up to 4 (5) operators in one statement, 4 in two, 2 (3) in three",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("scripts", 64, func(shard, n int, yield func(string)) {
				all := func(s ref.Script) { yield(s.Text()) }
				valid := func(s ref.Script) {
					if _, err := ref.EvalScript(s); err == nil {
						yield(s.Text())
					}
				}
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1, 2, 3, 9}, []string{"a"}), Shifts: []uint64{0, 1, 2, 3},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: 3, Operands: enum.Operands([]uint64{0, 1, 2}, nil), Shifts: []uint64{2},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(4, 5), Operands: enum.Operands([]uint64{0, 1, 2, 3}, nil), Shifts: []uint64{1, 2},
				}, shard, n, valid)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: 2, Operands: enum.Operands([]uint64{0, 1, 2}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{2},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(3, 4), Operands: enum.Operands([]uint64{0, 1, 2}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{0, 2},
				}, shard, n, valid)
				enum.Scripts(enum.ScriptSpace{
					Statements: 3, Ops: t.Pick(1, 2), Operands: enum.Operands([]uint64{0, 1, 3}, []string{"a", "b"}), Names: []string{"a", "b"}, Shifts: []uint64{0, 2},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 3, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1, 3}, []string{"a", "b"}), Names: []string{"a", "b"}, Shifts: []uint64{2},
				}, shard, n, valid)
			})
		}, check)

	spelled := mc.NewFamily("spellings", "every spelling of scripts: each operator symbol or word, each literal base, each optional parenthesis, whitespace from {none, space, tab, CR, two} at every gap of statements with up to 2 operators",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("spell", 64, func(shard, n int, yield func(string)) {
				cnt := 0
				spell(t, func(s string) {
					if cnt%n == shard {
						yield(s)
					}
					cnt++
				})
			})
		}, check)

	lits := mc.NewFamily("literals", "every literal of up to 4 (5) characters over {0,1,7,8,9,a,F,x,b,_} as index and shift amount, and machine word boundaries in every base",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("lits", 16, func(shard, n int, yield func(string)) {
				al := "01789aFxb_"
				emit := func(l string) {
					yield("1 << " + l)
					yield("a = 1 << " + l + "\n a + 1")
					yield("a = 1 << 300\n[" + l + "] + 1")
					yield("2*[" + l + "]")
					yield("[" + l + "]")
				}
				enum.Seqs(len(al), 1, t.Pick(4, 5), shard, n, func(s []int) {
					b := make([]byte, len(s))
					for i := range s {
						b[i] = al[s[i]]
					}
					emit(string(b))
				})
				if shard == 0 {
					for e := uint(8); e <= 66; e++ {
						for d := int64(-2); d <= 2; d++ {
							x := ref.Pow2(e, d)
							emit(x.String())
							emit(fmt.Sprintf("0x%x", x))
							emit(fmt.Sprintf("0x%X", x))
							emit(fmt.Sprintf("0%o", x))
							emit("0x000" + fmt.Sprintf("%x", x))
						}
					}
				}
			})
		}, check)

	idents := mc.NewFamily("identifiers", "every identifier-like word built of up to 3 (4) parts from {return, add, shl, dbl, a, _, 1, A, 9} defined and used in every position",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("ids", 32, func(shard, n int, yield func(string)) {
				parts := []string{"return", "add", "shl", "dbl", "a", "_", "1", "Z", "9"}
				enum.Seqs(len(parts), 1, t.Pick(3, 4), shard, n, func(s []int) {
					var b strings.Builder
					for _, i := range s {
						b.WriteString(parts[i])
					}
					id := b.String()
					for _, f := range []string{
						"%s = 1 + 1\nreturn %s + 1", "%s=1 + 1\n%s", "%s=1+1\n%s+1\n", "%s=1+1\n2*%s", "%s=1+1\ndbl%s", "%s=1+1\ndbl %s",
						"%s=1+1\n%s<<2", "%s=1+1\n%sshl 2", "%s=1+1\n1add%s", "%s=1+1\n(%s)", "%s=1+1\nreturn%s", "%s=1+1\nreturn(%s)+%s", "%s=1+1\n%s add 1", "%s=1+1\n%sadd 1",
						"%s=1+1\n(%s shl 1) add dbl %s", "x = 1+1\n%s = x + 1\ny = %s + x\n",
					} {
						yield(strings.ReplaceAll(f, "%s", id))
					}
				})
			})
		}, check)

	long := mc.NewFamily("long-scripts", "periodic scripts of 50 (400) statements over every word of 4 statement forms of length 1..3, deep left and right nesting, long sums, shift amounts around powers of two up to 2^14",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("long", 16, func(shard, n int, yield func(string)) {
				cnt := 0
				mine := func(s string) {
					if cnt%n == shard {
						yield(s)
					}
					cnt++
				}
				forms := []string{"%s + 1", "2*%s", "%s << 3", "(%s << 2) + %s + [1]"}
				enum.Words(4, 3, func(word []int) {
					for _, length := range []int{10, t.Pick(50, 400)} {
						var b strings.Builder
						prev := "1"
						for i := 0; i < length; i++ {
							name := fmt.Sprintf("v%d", i)
							b.WriteString(name + " = " + strings.ReplaceAll(forms[word[i%len(word)]], "%s", prev) + "\n")
							prev = name
						}
						mine(b.String() + "return " + prev)
						mine(b.String() + prev + " + v0\n")
						mine(b.String() + prev + " + v" + fmt.Sprint(length))
						mine(b.String() + "v3 = " + prev + "\nv3")
					}
				})
				for k := 1; k <= 60; k++ {
					mine(strings.Repeat("(", k) + "1" + strings.Repeat("+1)", k))
					mine(strings.Repeat("(1+", k) + "1" + strings.Repeat(")", k))
					mine(strings.Repeat("2*(", k) + "1" + strings.Repeat(")", k))
					mine(strings.Repeat("(", k) + "1" + strings.Repeat("<<2)", k))
					mine(strings.Repeat("(", k) + "1" + strings.Repeat(")", k-1))
					mine("1" + strings.Repeat("+[1]", k))
					mine("1+1" + strings.Repeat(" + 2*[1]", k))
				}
				for e := uint(1); e <= 14; e++ {
					for d := int64(-1); d <= 1; d++ {
						x := ref.Pow2(e, d)
						mine(fmt.Sprintf("a = 1 << %s\n[%s] + a", x, x))
						mine(fmt.Sprintf("a = 1 << %s\n[%s] + a", x, ref.Pow2(e, d+1)))
						mine(fmt.Sprintf("a = 1 << %s\n[%s] + 1", x, ref.Pow2(e, d-1)))
					}
				}
			})
		}, check)

	mc.Main(&mc.Check{
		Property:    "C03",
		Technique:   "bounded exhaustive enumeration of texts against a transcription of the published grammar and an evaluator",
		Families:    []*mc.Family{scripts, toks, prefixed, chars, spelled, lits, idents, long, commands(), deliveries(), sizes(), versions()},
		Assumptions: []string{"math/big is correct", "the grammar model transcribes acc.peg faithfully", "shift amounts beyond 20000 are judged for parsing only"},
	})
}

var samples = []string{
	"1",
	"return 1\n",
	"a = 2*1\nreturn a + 1\n",
	"a = 1 << 3\nb = [2] + a\nreturn (a + b) << 2",
	"_10 = dbl 1\nreturn _10 shl 2 add _10\n",
	"x=(1+1)+2*(1+[1])\nx",
}

// spell enumerates alternative spellings of small scripts.
func spell(t mc.Tier, yield func(string)) {
	gaps := []string{"", " ", "\t", "\r", "  "}
	if t == mc.Quick {
		gaps = []string{"", " \t"}
	}
	operands := []string{"1", "[ 0x1 ]", "[01]", "a", "( a )", "(1+a)"}
	plus := []string{"+", "add"}
	shl := []string{"<<", "shl"}
	amounts := []string{"2", "0x2", "02"}
	dbl := []string{"2*", "2 *", "dbl"}
	pre := []string{"", "return ", "return", " return\t"}
	post := []string{"", "\n", " \n", "\n "}
	def := []string{"a=1+1\n", " a = dbl 1 \n", "a=2*1 \r\n"}
	for _, d := range def {
		for _, a := range pre {
			for _, z := range post {
				for _, x := range operands {
					yield(d + a + x + z)
				}
			}
		}
	}
	d := def[0]
	for _, g1 := range gaps {
		for _, g2 := range gaps {
			for _, x := range operands {
				for _, a := range pre {
					for _, o := range dbl {
						yield(d + a + o + g1 + x + g2)
						for _, y := range operands {
							for _, p := range plus {
								yield(d + a + o + g1 + x + g2 + p + g1 + y)
								yield(d + a + y + g1 + p + g2 + o + g1 + x)
							}
						}
					}
					for _, o := range shl {
						for _, s := range amounts {
							yield(d + a + x + g1 + o + g2 + s)
							for _, y := range operands {
								for _, p := range plus {
									yield(d + a + x + g1 + o + g2 + s + g1 + p + g2 + y)
									yield(d + a + y + g1 + p + g2 + x + g2 + o + g1 + s)
								}
							}
							yield(d + a + x + g1 + o + g2 + s + g1 + o + g2 + s)
							for _, o2 := range dbl {
								yield(d + a + o2 + g1 + x + g2 + o + g1 + s)
							}
						}
					}
					for _, y := range operands {
						for _, p := range plus {
							yield(d + a + x + g1 + p + g2 + y)
							for _, z := range operands {
								for _, q := range plus {
									yield(d + a + x + g1 + p + g2 + y + g2 + q + g1 + z)
								}
							}
						}
					}
				}
			}
		}
	}
}
