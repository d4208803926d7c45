// Command c07 decides property C07 (printing and parsing a tree is the
// identity).
package main

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

func small(n *ref.Node) bool {
	return n == nil || !(n.K == '<' && n.U > 10000) && small(n.X) && small(n.Y)
}

// check judges a tree.
func check(w *mc.W, s ref.Script) error {
	tree := glue.AST(s)
	text, err := printer.String(tree)
	if err != nil {
		return fmt.Errorf("print: %w", err)
	}
	if got := glue.Script(tree).String(); got != s.String() {
		return fmt.Errorf("printing changed the tree to %s", got)
	}
	// In a tree that held other statements before.
	used, _ := w.Local["tree"].(*ast.Chain)
	if used == nil {
		used = &ast.Chain{}
		w.Local["tree"] = used
	}
	if _, err := printer.String(used); err != nil {
		return fmt.Errorf("print again: %w", err)
	}
	used.Statements = append(used.Statements[:0], glue.AST(s).Statements...)
	if again, err := printer.String(used); err != nil || again != text {
		return fmt.Errorf("in a tree that has been printed with other statements it prints as (%v)\n%s\nnot\n%s", err, again, text)
	}
	w.Trace(1)
	w.Step(len(text))
	w.Later(func() error {
		if got := glue.Script(tree).String(); got != s.String() {
			return fmt.Errorf("the tree changed to %s", got)
		}
		again, err := printer.String(tree)
		if err != nil {
			return fmt.Errorf("print later: %w", err)
		}
		if again != text {
			return fmt.Errorf("printing is not stable:\n%q\n%q", text, again)
		}
		return nil
	})
	return printed(w, s, text)
}

func printed(w *mc.W, s ref.Script, text string) error {
	back, err := parse.String(text)
	if err != nil {
		return fmt.Errorf("tree %s prints as text that does not parse: %w\n%s", s, err, text)
	}
	if got := glue.Script(back).String(); got != s.String() {
		return fmt.Errorf("tree %s reads back as %s\n%s", s, got, text)
	}
	again, err := printer.String(back)
	if err != nil {
		return fmt.Errorf("print again: %w", err)
	}
	if again != text {
		return fmt.Errorf("printing is not idempotent:\n%q\n%q", text, again)
	}
	w.Later(func() error {
		if got := glue.Script(back).String(); got != s.String() {
			return fmt.Errorf("the tree %s read back is now %s\n%s", s, got, text)
		}
		return nil
	})
	// The chain is the one the tree denotes.
	for _, st := range s {
		if !small(st.E) {
			w.Outcome("tree-only")
			return nil
		}
	}
	m, err := ref.EvalScript(s)
	p, lerr := acc.LoadString(text)
	switch {
	case err != nil:
		if lerr == nil {
			return fmt.Errorf("the tree has no meaning (%v), the text loads\n%s", err, text)
		}
		w.Outcome("no-meaning")
	case lerr != nil:
		if !m.ZeroShift && !m.Future {
			return fmt.Errorf("text does not load: %w\n%s", lerr, text)
		}
		w.Outcome("rejected-unspecified")
	default:
		if !ref.Equal(p.Chain, m.Chain) || !ref.SameOps(glue.Ops(p.Program), m.Ops) {
			return fmt.Errorf("text loads to chain %v, the tree denotes %v\n%s", p.Chain, m.Chain, text)
		}
		w.Outcome("loads")
	}
	return nil
}

// checkText judges a source text.
func checkText(w *mc.W, src string) error {
	tree, err := parse.String(src)
	w.Trace(1)
	if err != nil {
		w.Outcome("not-in-grammar")
		return nil
	}
	s := glue.Script(tree)
	text, err := printer.String(tree)
	if err != nil {
		return fmt.Errorf("print: %w", err)
	}
	if err := printed(w, s, text); err != nil {
		return err
	}
	// Formatting does not change what a script evaluates to.
	for _, st := range s {
		if !small(st.E) {
			return nil
		}
	}
	p, err1 := acc.LoadString(src)
	q, err2 := acc.LoadString(text)
	if (err1 == nil) != (err2 == nil) {
		return fmt.Errorf("source loads: %v; formatted loads: %v\n%s", err1, err2, text)
	}
	if err1 == nil && (!ref.Equal(p.Chain, q.Chain) || !ref.SameOps(glue.Ops(p.Program), glue.Ops(q.Program))) {
		return fmt.Errorf("source evaluates to %v, formatted to %v\n%s", p.Chain, q.Chain, text)
	}
	return nil
}

// checkCLI judges `addchain fmt` on a text.
func checkCLI(w *mc.W, src string) error {
	run := func(in string, args ...string) (*cli.Result, error) {
		r, err := cli.Run(cli.Limits{}, in, args...)
		if err != nil {
			return nil, err
		}
		w.Trace(1)
		return r, r.Crashed()
	}
	f1, err := run(src, "fmt")
	if err != nil {
		return fmt.Errorf("fmt: %w", err)
	}
	s, ok := ref.ParseScript(src)
	if (f1.Code == 0) != ok {
		return fmt.Errorf("fmt exits with %d, in the grammar: %v\n%s", f1.Code, ok, f1.Stderr)
	}
	if !ok {
		w.Outcome("rejected")
		return nil
	}
	t, ok := ref.ParseScript(f1.Stdout)
	if !ok || t.String() != s.String() {
		return fmt.Errorf("fmt changes the tree %s to %s\n%s", s, t, f1.Stdout)
	}
	f2, err := run(f1.Stdout, "fmt")
	if err != nil {
		return fmt.Errorf("fmt of its own output: %w", err)
	}
	if f2.Code != 0 || f2.Stdout != f1.Stdout {
		return fmt.Errorf("fmt is not idempotent:\n%q\n%q\n%s", f1.Stdout, f2.Stdout, f2.Stderr)
	}
	e1, err := run(src, "eval")
	if err != nil {
		return fmt.Errorf("eval: %w", err)
	}
	e2, err := run(f1.Stdout, "eval")
	if err != nil {
		return fmt.Errorf("eval of formatted: %w", err)
	}
	if e1.Code != e2.Code || e1.Stdout != e2.Stdout {
		return fmt.Errorf("eval before formatting:\n%s\nafter:\n%s", e1.Stdout, e2.Stdout)
	}
	w.Outcome("formatted")
	return nil
}

// dblPrefixed reports identifiers that the grammar reads as a doubling in most
// positions ("dblx" is the doubling of x). No text denotes such a name there;
// see the family dbl-identifiers and the known findings.
func dblPrefixed(s string) bool {
	return strings.HasPrefix(s, "dbl") && len(s) > 3 && (s[3] == '1' || s[3] < '0' || s[3] > '9')
}

func one(e *ref.Node) ref.Script { return ref.Script{{Name: "", E: e}} }

func clone(s ref.Script) ref.Script { return append(ref.Script{}, s...) }

func main() {
	trees := mc.NewFamily("trees", "every expression with up to 5 operators over 1, [1], a, shift by 2 and double; with exactly 5 (6 and 7) over 1, a; with exactly 7 (8) over 1",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("trees", 128, func(shard, n int, yield func(ref.Script)) {
				cnt := 0
				emit := func(e *ref.Node) {
					if cnt%n == shard {
						yield(one(e))
					}
					cnt++
				}
				for k := 0; k <= 5; k++ {
					enum.Exprs(k, enum.Operands([]uint64{0, 1}, []string{"a"}), []uint64{2}, false, emit)
				}
				for k := t.Pick(5, 6); k <= t.Pick(5, 7); k++ {
					enum.Exprs(k, enum.Operands([]uint64{0}, []string{"a"}), []uint64{2}, false, emit)
				}
				enum.Exprs(t.Pick(7, 8), enum.Operands([]uint64{0}, nil), []uint64{2}, false, emit)
			})
		}, check)
	scripts := mc.NewFamily("scripts", "every script of two statements with up to 3 (4) operators over 1, [2], a and three with up to 2 (3) over 1, a, bb",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("scripts", 64, func(shard, n int, yield func(ref.Script)) {
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(3, 4), Operands: enum.Operands([]uint64{0, 2}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{3},
				}, shard, n, func(s ref.Script) { yield(clone(s)) })
				enum.Scripts(enum.ScriptSpace{
					Statements: 3, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0}, []string{"a", "bb"}), Names: []string{"a", "bb"}, Shifts: []uint64{3},
				}, shard, n, func(s ref.Script) { yield(clone(s)) })
			})
		}, check)

	pool := func(parts int) []string {
		var ids []string
		ps := []string{"return", "add", "shl", "dbl", "a", "_", "Z", "0", "1", "x"}
		enum.Words(len(ps), parts, func(word []int) {
			var b strings.Builder
			for _, i := range word {
				b.WriteString(ps[i])
			}
			if ref.LegalIdentifier(b.String()) {
				ids = append(ids, b.String())
			}
		})
		return ids
	}
	idents := mc.NewFamily("identifiers", "every legal identifier of up to 2 (3) parts from {return, add, shl, dbl, a, _, Z, 0, 1, x} as a name and in every expression of up to 2 operators together with 1; names that begin with dbl, as in dblx, only below a shift or double",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("ids", 64, func(shard, n int, yield func(ref.Script)) {
				for i, id := range pool(t.Pick(2, 3)) {
					if i%n != shard {
						continue
					}
					depth := 2
					if len(id) > 6 && t == mc.Thorough {
						depth = 1
					}
					for k := 0; k <= depth; k++ {
						enum.Exprs(k, enum.Operands([]uint64{0}, []string{id}), []uint64{2}, false, func(e *ref.Node) {
							if dblPrefixed(id) && exposed(e, false) {
								return
							}
							yield(one(e))
							yield(ref.Script{{Name: id, E: ref.Double(ref.Idx(0))}, {Name: "", E: e}})
							yield(ref.Script{{Name: "q", E: ref.Double(ref.Idx(0))}, {Name: id, E: ref.Name("q")}, {Name: "zz", E: e}, {Name: "", E: ref.Add(ref.Name("zz"), ref.Idx(0))}})
						})
					}
				}
			})
		}, check)
	dbl := mc.NewFamily("dbl-identifiers", "names that begin with dbl as operands of additions, whole expressions and parenthesised expressions",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Single("dbl", func(yield func(ref.Script)) {
				x := ref.Name("dblx")
				yield(one(x))
				yield(one(ref.Add(x, ref.Idx(0))))
				yield(one(ref.Add(ref.Idx(0), x)))
			})
		}, check)

	values := mc.NewFamily("values", "indexes and shift amounts 0..300 and 2^e+d for e up to 64, in nine trees",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("values", 16, func(shard, n int, yield func(ref.Script)) {
				var vals []uint64
				for v := uint64(0); v <= 300; v++ {
					vals = append(vals, v)
				}
				for e := uint(9); e <= 64; e++ {
					for d := int64(-2); d <= 2; d++ {
						if x := ref.Pow2(e, d); x.IsUint64() {
							vals = append(vals, x.Uint64())
						}
					}
				}
				for i, v := range vals {
					if i%n != shard {
						continue
					}
					yield(one(ref.Idx(v)))
					yield(one(ref.Double(ref.Idx(v))))
					yield(one(ref.Add(ref.Idx(v), ref.Idx(v))))
					yield(one(ref.Add(ref.Idx(0), ref.Idx(v))))
					yield(one(ref.ShiftBy(ref.Idx(v), 3)))
					yield(one(ref.ShiftBy(ref.Idx(0), v)))
					yield(one(ref.ShiftBy(ref.ShiftBy(ref.Name("b"), v), v)))
					yield(one(ref.Add(ref.ShiftBy(ref.Idx(0), v), ref.Double(ref.ShiftBy(ref.Idx(v), v)))))
					yield(ref.Script{{Name: "a", E: ref.ShiftBy(ref.Idx(0), v)}, {Name: "", E: ref.Add(ref.Name("a"), ref.Idx(v))}})
				}
			})
		}, check)
	deep := mc.NewFamily("deep-trees", "towers of 1..60 (200) operators for every word of 1..3 of {add on the left, add on the right, shift, double}; scripts of up to 100 (400) statements with names of 1..40 characters",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("deep", 64, func(shard, n int, yield func(ref.Script)) {
				cnt := 0
				enum.Words(4, 3, func(word []int) {
					for h := 1; h <= t.Pick(60, 200); h += 1 + h/8 {
						if cnt++; cnt%n != shard {
							continue
						}
						e := ref.Idx(0)
						for i := 0; i < h; i++ {
							switch word[i%len(word)] {
							case 0:
								e = ref.Add(e, ref.Idx(0))
							case 1:
								e = ref.Add(ref.Idx(0), e)
							case 2:
								e = ref.ShiftBy(e, 1)
							default:
								e = ref.Double(e)
							}
						}
						yield(one(e))
					}
				})
				for _, l := range []int{1, 2, 9, 30, t.Pick(100, 400)} {
					for width := 1; width <= 40; width++ {
						if cnt++; cnt%n != shard {
							continue
						}
						var s ref.Script
						prev := ref.Idx(0)
						for i := 0; i < l; i++ {
							name := fmt.Sprintf("%s%d", strings.Repeat("n", 1+(i*7)%width), i)
							e := ref.Add(prev, ref.Idx(0))
							switch i % 3 {
							case 1:
								e = ref.Double(prev)
							case 2:
								e = ref.Add(ref.Idx(0), ref.ShiftBy(ref.Add(prev, prev), 2))
							}
							s = append(s, ref.Stmt{Name: name, E: e})
							prev = ref.Name(name)
						}
						yield(append(s, ref.Stmt{Name: "", E: prev}))
						yield(append(clone(s), ref.Stmt{Name: "", E: ref.ShiftBy(prev, 3)}))
					}
				}
			})
		}, check)

	towers := mc.NewFamily("towers", "towers of 2^k+d operators, k = 6..10 (11), |d| <= 1, of every word of 1..2 of {add on the left, add on the right, shift, double, add to itself shifted}, and shifts and sums of towers",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("towers", 64, func(shard, n int, yield func(ref.Script)) {
				cnt := 0
				for k := t.Pick(10, 11); k >= 6; k-- {
					for d := -1; d <= 1; d++ {
						enum.Words(5, 2, func(word []int) {
							if cnt++; cnt%n != shard {
								return
							}
							e := ref.Name("a")
							for i := 0; i < 1<<k+d; i++ {
								switch word[i%len(word)] {
								case 0:
									e = ref.Add(e, ref.Idx(1))
								case 1:
									e = ref.Add(ref.Idx(2), e)
								case 2:
									e = ref.ShiftBy(e, 1)
								case 3:
									e = ref.Double(e)
								default:
									e = ref.Add(ref.ShiftBy(ref.Name("a"), 2), e)
								}
							}
							a := ref.Stmt{Name: "a", E: ref.ShiftBy(ref.Idx(0), 2)}
							yield(ref.Script{a, {Name: "", E: e}})
							yield(ref.Script{a, {Name: "b", E: ref.Add(e, ref.Name("a"))}, {Name: "", E: ref.Double(ref.Name("b"))}})
						})
					}
				}
			})
		}, check)

	sizes := mc.NewFamily("sizes", "names of 10^k+d characters, k = 1..4, and 2^k+d, k = 5..14 (17), |d| <= 1, one at a time, and three that differ in the last, first and no other character, in five scripts; numbers of statements 2^k+d, k = 7..11 (13)",
		func(t mc.Tier) []mc.Gen[ref.Script] {
			return mc.Shards("sizes", 32, func(shard, n int, yield func(ref.Script)) {
				cnt := 0
				mine := func(s ref.Script) {
					if cnt++; cnt%n == shard {
						yield(s)
					}
				}
				def := func(name string, e *ref.Node) ref.Stmt { return ref.Stmt{Name: name, E: e} }
				var ls []int
				for p := 10; p <= 10000; p *= 10 {
					ls = append(ls, p-1, p, p+1)
				}
				for k := 5; k <= t.Pick(14, 17); k++ {
					ls = append(ls, 1<<k-1, 1<<k, 1<<k+1)
				}
				for _, l := range ls {
					x := strings.Repeat("n", l-1)
					a, b, c := x+"a", x+"b", "m"+x
					one := ref.Idx(0)
					mine(ref.Script{def(a, ref.Double(one)), def("", ref.Name(a))})
					mine(ref.Script{def(a, ref.Double(one)), def("", ref.Add(ref.Name(a), one))})
					mine(ref.Script{def(a, ref.Double(one)), def("", ref.ShiftBy(ref.Name(a), 3))})
					mine(ref.Script{def(a, ref.Double(one)), def(b, ref.Add(ref.Name(a), one)), def("", ref.Add(ref.Name(b), ref.Double(ref.Name(a))))})
					mine(ref.Script{def(a, ref.Double(one)), def(b, ref.Add(ref.Name(a), one)), def(c, ref.ShiftBy(ref.Name(b), 2)), def("", ref.Add(ref.Add(ref.Name(c), ref.Name(b)), ref.Name(a)))})
				}
				for k := 7; k <= t.Pick(11, 13); k++ {
					for d := -1; d <= 1; d++ {
						var s ref.Script
						for i := 0; i < 1<<k+d-1; i++ {
							e := ref.Add(ref.Idx(uint64(i)), ref.Idx(0))
							if i > 0 && i%3 == 0 {
								e = ref.Add(ref.Name(fmt.Sprintf("v%d", i-1)), ref.Name("v0"))
							}
							s = append(s, def(fmt.Sprintf("v%d", i), e))
						}
						mine(append(s, def("", ref.Double(ref.Name(s[len(s)-1].Name)))))
					}
				}
			})
		}, check)

	atoms := []string{"1", "2*", "+", "<<", "3", "(", ")", "[1]", "a", "return", "add", "shl", "dbl", " ", "\n", "a="}
	texts := mc.NewFamily("texts", "every sequence of up to 4 (5) of 16 atoms, alone and after a definition of a",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("texts", 64, func(shard, n int, yield func(string)) {
				enum.Seqs(len(atoms), 1, t.Pick(4, 5), shard, n, func(s []int) {
					var b strings.Builder
					for _, i := range s {
						b.WriteString(atoms[i])
					}
					if _, ok := ref.ParseScript(b.String()); ok {
						yield(b.String())
					}
					if _, ok := ref.ParseScript("a = 1+1\n" + b.String()); ok {
						yield("a = 1+1\n" + b.String())
					}
				})
			})
		}, checkText)
	command := mc.NewFamily("fmt-command", "the built tool: fmt, fmt again, eval before and after, on every valid script of one statement with up to 2 (3) operators, two with up to 1 (2), one atom more or less, and long scripts",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("cli", 32, func(shard, n int, yield func(string)) {
				valid := func(s ref.Script) {
					if _, err := ref.EvalScript(s); err == nil {
						yield(s.Text())
					}
				}
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1}, nil), Shifts: []uint64{2},
				}, shard, n, valid)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(1, 2), Operands: enum.Operands([]uint64{0, 1}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{2},
				}, shard, n, valid)
				src := "a = 2*1\nb = (a + 1) << 3\nreturn 2*(a + (b + [2]))\n"
				for i := 0; i <= len(src); i++ {
					if i%n == shard {
						if i < len(src) {
							yield(src[:i] + src[i+1:])
						}
						yield(src[:i] + "(" + src[i:])
						yield(src[:i])
					}
				}
			})
		}, checkCLI)

	mc.Main(&mc.Check{
		Property:    "C07",
		Technique:   "bounded exhaustive enumeration of syntax trees and texts; print and parse compared with the identity",
		Families:    []*mc.Family{trees, scripts, idents, dbl, values, deep, towers, sizes, texts, command},
		Assumptions: []string{"shift amounts beyond 10000 are judged for the tree only", "identifiers that begin with dbl are outside the spaces where the grammar reads them as doublings, except for the listed findings"},
	})
}

// exposed reports whether a name occurs other than directly below a shift or
// double.
func exposed(n *ref.Node, below bool) bool {
	if n == nil {
		return false
	}
	if n.K == 'n' {
		return !below
	}
	b := n.K == '<' || n.K == '2'
	return exposed(n.X, b) || exposed(n.Y, b)
}
