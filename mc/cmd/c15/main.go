// Command c15 decides property C15 (every input ends in a result or a
// diagnostic).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Bounds on what is translated: single shift amounts and all of a script.
const (
	maxshift = 10000
	maxtotal = 30000
)

func shifts(n *ref.Node) (single, total uint64) {
	if n == nil {
		return
	}
	for _, c := range []*ref.Node{n.X, n.Y} {
		s, t := shifts(c)
		single, total = max(single, s), total+t
	}
	if n.K == '<' {
		single = max(single, n.U)
		total += min(n.U, 1<<40)
	}
	return
}

var cfg = gen.Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}

var errBoth = errors.New("neither a value nor an error")

// checkScript drives every library entry point that takes source text.
// Panics are violations (recovered by the framework), as are hangs.
func checkScript(w *mc.W, src []byte) error {
	w.State(1)
	w.Trace(1)
	s, err := parse.String(string(src))
	w.Step(1)
	if err != nil {
		if err.Error() == "" {
			return errors.New("parse: error without a message")
		}
		if len(src) < 100 && (len(src) == 0 || src[len(src)/2]%8 == 0) {
			if _, err := acc.LoadString(string(src)); err == nil {
				return errors.New("LoadString accepts what parse rejects")
			}
		}
		w.Outcome("parse error")
		return nil
	}
	if s == nil {
		return fmt.Errorf("parse: %w", errBoth)
	}

	// Formatting never depends on the meaning.
	b, err := printer.Bytes(s)
	if err == nil && len(b) == 0 && len(s.Statements) > 0 {
		return fmt.Errorf("format: %w", errBoth)
	}
	w.Step(1)

	total := uint64(0)
	for _, st := range s.Statements {
		one, t := shifts(glue.Expr(st.Expr))
		if total += t; one > maxshift || total > maxtotal {
			w.Outcome("beyond the shift bound")
			return nil
		}
	}
	return checkTree(w, s)
}

// checkTree drives everything behind the parser.
func checkTree(w *mc.W, s *ast.Chain) error {
	failed := 0
	must := func(what string, ok bool, err error) error {
		w.Step(1)
		switch {
		case err != nil:
			failed++
			if err.Error() == "" {
				return fmt.Errorf("%s: error without a message", what)
			}
		case !ok:
			return fmt.Errorf("%s: %w", what, errBoth)
		}
		return nil
	}
	p, err := acc.Translate(s)
	if err := must("translate", p != nil, err); err != nil {
		return err
	}
	if err == nil {
		// Evaluation.
		everr := pass.Eval(p)
		if err := must("eval", p.Chain != nil, everr); err != nil {
			return err
		}
		// Rebuilding, with and without evaluation before.
		for _, evaluated := range []bool{false, true} {
			q, err := acc.Translate(s)
			if err != nil {
				return fmt.Errorf("second translation: %v", err)
			}
			if evaluated && pass.Eval(q) != nil {
				continue
			}
			c, err := acc.Build(q)
			if err := must("build", c != nil, err); err != nil {
				return err
			}
			if err == nil {
				if _, err := printer.Bytes(c); err != nil {
					failed++
				}
			}
			var buf bytes.Buffer
			err = acc.Write(&buf, q)
			if err := must("write", buf.Len() > 0, err); err != nil {
				return err
			}
			_, err = acc.String(q)
			if err := must("string", true, err); err != nil {
				return err
			}
		}
		// Every pass, alone.
		for name, ps := range map[string]pass.Interface{
			"validate": pass.Validate, "compile": pass.Func(pass.Compile), "indexes": pass.Func(pass.Indexes), "reads": pass.Func(pass.ReadCounts),
			"canonicalize": pass.Func(pass.CanonicalizeOperands), "clear": pass.Func(pass.ClearNames), "values": pass.NameBinaryValues(8, "b%b"), "runs": pass.NameBinaryRuns("r%d"), "alloc": cfg.Allocator,
		} {
			q, err := acc.Translate(s)
			if err != nil {
				return err
			}
			err = ps.Execute(q)
			if err := must(name, true, err); err != nil {
				return err
			}
			_ = q.String()
			_ = q.Clone()
			for _, in := range q.Instructions {
				_ = in.String()
			}
		}
		// Interpreting the allocated program.
		if q, err := acc.Translate(s); err == nil && cfg.Allocator.Execute(q) == nil {
			in := eval.NewInterpreter()
			if in.Initialize("x", ref.Int("1")) == nil {
				err := in.Execute(q)
				if err := must("interpret", true, err); err != nil {
					return err
				}
			}
		}
		if q, err := acc.Translate(s); err == nil && len(q.Instructions) > 0 {
			_ = q.Output()
		}
	}
	// Generating.
	d, err := gen.PrepareData(cfg, s)
	if err := must("prepare", d != nil, err); err != nil {
		return err
	}
	if err == nil {
		for _, t := range gen.BuiltinTemplateNames() {
			text, err := gen.BuiltinTemplate(t)
			if err != nil {
				return err
			}
			var buf bytes.Buffer
			err = gen.Generate(&buf, text, d)
			if err := must("generate "+t, buf.Len() > 0, err); err != nil {
				return err
			}
		}
	}
	if failed == 0 {
		w.Outcome("accepted everywhere")
	} else {
		w.Outcome("some stage reports an error")
	}
	return nil
}

var zeros = regexp.MustCompile(`(^|[^0-9a-fx])0[0-9]`)

// tooLarge reports whether the expression, or the part of it before a mistake,
// has values beyond the size bound.
func tooLarge(src string) bool {
	_, err := ref.Calc(src, 1<<16)
	if err == nil || err == ref.ErrTooLarge {
		return err != nil
	}
	if strings.Count(src, "^") > 0 && len(src) < 100 {
		// The model gives literals with superfluous zeros no value.
		if strings.Count(src, "^") > 1 && zeros.MatchString(src) {
			return true
		}
		for i := range src {
			if _, err := ref.Calc(src[:i], 1<<16); err == ref.ErrTooLarge {
				return true
			}
		}
	}
	return false
}

// checkCalc evaluates an expression.
func checkCalc(w *mc.W, src []byte) error {
	w.State(1)
	w.Trace(1)
	w.Step(len(src))
	if tooLarge(string(src)) {
		w.Outcome("beyond the size bound")
		return nil
	}
	n, err := calc.Eval(string(src))
	switch {
	case err != nil && err.Error() == "":
		return errors.New("error without a message")
	case err == nil && n == nil:
		return errBoth
	case err != nil:
		w.Outcome("error")
	default:
		w.Outcome("value")
	}
	return nil
}

func join(alpha []string, ix []int) []byte {
	var b []byte
	for _, i := range ix {
		b = append(b, alpha[i]...)
	}
	return b
}

func seqs(id string, sh int, alpha []string, lo, hi int, wrap func([]byte) [][]byte) []mc.Gen[[]byte] {
	return mc.Shards(id, sh, func(s, n int, y func([]byte)) {
		enum.Seqs(len(alpha), lo, hi, s, n, func(ix []int) {
			b := join(alpha, ix)
			if wrap == nil {
				y(b)
				return
			}
			for _, x := range wrap(b) {
				y(x)
			}
		})
	})
}

var all256 = func() []string {
	r := make([]string, 256)
	for i := range r {
		r[i] = string([]byte{byte(i)})
	}
	return r
}()

var atoms = []string{"1", "2", "0", "[0]", "[1]", "[2]", "[", "]", "(", ")", "a", "b", "=", "+", "<<", "2*", "*", "dbl ", "shl ", "add ", "return ", " ", "\n", "\r", "9999", "18446744073709551616"}

func tokenPlan(t mc.Tier) []mc.Gen[[]byte] {
	gs := seqs("every sequence of up to N atoms over 26", 64, atoms, 0, t.Pick(3, 4), nil)
	few := []string{"1", "[1]", "(", ")", "a", "=", "+", "<<", "2*", "2", "\n", "return "}
	gs = append(gs, seqs("every longer sequence over 12 atoms", 64, few, 4, t.Pick(4, 6), nil)...)
	// After definitions, so that names and indexes resolve.
	ctx := []string{"a = 1 + 1\n", "a = 1 << 2\nb = [1] + a\n", "a = [3]\n", "a = 1\nb = 1\n", "x = 2*1\nt0 = x + 1\nz = t0 << 5\na = z\nb = x\n", "a = (1 << 3) << 2\nb = 2*(a + 1)\n", "a = 1 << 0\n"}
	sub := []string{"1", "a", "b", "[2]", "[9]", "+", "<< 3", "<< 0", "2*", "(", ")", "\n", "c=", "a="}
	gs = append(gs, seqs("every sequence of up to N atoms over 14 after seven sets of definitions", 64, sub, 0, t.Pick(3, 4), func(b []byte) [][]byte {
		var r [][]byte
		for _, c := range ctx {
			r = append(r, append([]byte(c), b...))
		}
		return r
	})...)
	return gs
}

func bytePlan(t mc.Tier) []mc.Gen[[]byte] {
	gs := seqs("every byte string", 64, all256, 0, t.Pick(2, 3), nil)
	chars := []string{"1", "2", "*", "+", "<", "(", ")", "[", "]", " ", "x", "0", "=", "\n", "\xff", "é"}
	gs = append(gs, seqs("every string over 16 characters", 64, chars, 3, t.Pick(4, 5), nil)...)
	gs = append(gs, mc.Shards("every single byte edit of sample scripts", 32, func(s, n int, y func([]byte)) {
		for i, src := range samples {
			if i%n != s {
				continue
			}
			edits(src, y)
		}
	})...)
	if t.Pick(0, 1) == 1 {
		gs = append(gs, mc.Shards("every pair of byte edits of short samples", 64, func(s, n int, y func([]byte)) {
			k := 0
			for _, src := range samples[:4] {
				bytealpha = "1[]()=+< \nax*\xff"
				edits(src, func(b []byte) {
					if k++; enum.Mine(k, s, n) {
						edits(string(b), y)
					}
				})
				bytealpha = ""
			}
		})...)
	}
	return gs
}

var bytealpha = ""

// edits yields every insertion, replacement, deletion and truncation of a byte.
func edits(src string, y func([]byte)) {
	alpha := bytealpha
	if alpha == "" {
		alpha = strings.Join(all256, "")
	}
	for p := 0; p <= len(src); p++ {
		y([]byte(src[:p]))
		y([]byte(src[p:]))
		for c := 0; c < len(alpha); c++ {
			y([]byte(src[:p] + alpha[c:c+1] + src[p:]))
			if p < len(src) {
				y([]byte(src[:p] + alpha[c:c+1] + src[p+1:]))
			}
		}
		if p < len(src) {
			y([]byte(src[:p] + src[p+1:]))
		}
	}
}

var samples = []string{
	"1", "return 1\n", "a = 1\nb = 1\nreturn a + b", "a = 1 << 0\nreturn a",
	"a = 2*1\nreturn a + 1\n",
	"a = 1 << 3\nb = [2] + a\nreturn (a + b) << 2",
	"_10 = dbl 1\nreturn _10 shl 2 add _10\n",
	"x=(1+1)+2*(1+[1])\nx",
	"_10 = 2*1\n_11 = 1 + _10\n_1100 = _11 << 2\n_1111 = _11 + _1100\nreturn ((_1111 << 4 + _1111) << 2 + _11) << 3",
	"a = [0] + [0]\nb = [1] + [0]\nreturn [2] + [1]",
}

func scriptPlan(t mc.Tier) []mc.Gen[ref.Script] {
	var gs []mc.Gen[ref.Script]
	add := func(id string, sp enum.ScriptSpace) {
		gs = append(gs, mc.Shards(id, 64, func(s, n int, y func(ref.Script)) {
			enum.Scripts(sp, s, n, func(x ref.Script) { y(append(ref.Script{}, x...)) })
		})...)
	}
	one := enum.Operands([]uint64{0, 1, 2, 3, 7, 1 << 40}, []string{"a"})
	add("one statement", enum.ScriptSpace{Statements: 1, Ops: t.Pick(3, 4), Operands: one, Shifts: []uint64{0, 1, 2, 65}})
	two := enum.Operands([]uint64{0, 1, 2}, []string{"a", "x"})
	add("two statements", enum.ScriptSpace{Statements: 2, Ops: t.Pick(2, 3), Operands: two, Names: []string{"a", "x", "z", "t0"}, Shifts: []uint64{0, 1, 3}})
	add("three statements", enum.ScriptSpace{Statements: 3, Ops: t.Pick(1, 2), Operands: enum.Operands([]uint64{0, 1, 2}, []string{"a", "b"}), Names: []string{"a", "b", "i1", "t0"}, Shifts: []uint64{0, 2}})
	add("four statements without operators or one", enum.ScriptSpace{Statements: 4, Ops: 1, Operands: enum.Operands([]uint64{0, 1, 2}, []string{"a", "b"}), Names: []string{"a", "b", "c"}, Shifts: []uint64{0, 2}})
	return gs
}

// bigPlan lists texts that are large in one dimension.
func bigPlan(t mc.Tier) []mc.Gen[[]byte] {
	var texts [][]byte
	add := func(s string) { texts = append(texts, []byte(s)) }
	rep := strings.Repeat
	sizes := []int{10, 100, 1000, 10001, 50000, 1000000}
	if t.Pick(0, 1) == 1 {
		sizes = append(sizes, 2000, 5000, 9999, 10000, 20000, 100000, 200000)
	} else {
		sizes = append(sizes, 3000)
	}
	for _, k := range sizes {
		add("return " + rep("(", k) + "1" + rep(")", k))
		add(rep("(", k))
		add(rep(")", k))
		add(rep("[", k))
		add("return " + rep("(", k) + "1")
		add("return " + rep("1", k))
		add("return [" + rep("9", k) + "]")
		add("return 1 << " + rep("9", k))
		add("return 1 << 0x" + rep("f", k))
		add(rep("a", k))
		add(rep("a", k) + "=1+1\nreturn " + rep("a", k) + "+1")
		add(rep("\n", k) + "1")
		add(rep(" ", k) + "1")
		add("1" + rep(" ", k))
		add("1" + rep("\n", k))
		add(rep("\x00", k))
		add(rep("\xff", k))
		add(rep("=", k))
		add(rep("2*", k) + "1")
		add("return " + rep("(1+", k) + "1" + rep(")", k))
		add("return " + rep("2*(", k) + "1" + rep(")", k))
		add("return " + rep("((", k) + "1)" + rep(")", k))
	}
	for _, k := range []int{10, 100, t.Pick(500, 1000), t.Pick(1500, 10000)} {
		add("return 1" + rep("+1", k))
		add("return 1" + rep("<<1", k))
		add("return 1" + rep(" << 0", k))
		add("return " + rep("(", k) + "1" + rep(" << 1)", k))
		add("return " + rep("(", k) + "1" + rep(" + 1)", k))
		add("return " + rep("(", k) + "1" + rep(" + 1) << 1", k))
		var b strings.Builder
		for i := 0; i < k; i++ {
			if i == 0 {
				b.WriteString("a0 = 1\n")
			} else {
				fmt.Fprintf(&b, "a%d = a%d + [%d]\n", i, i-1, i/2)
			}
		}
		add(b.String() + "return [1]")
		add(b.String())
		add(rep("a = 1\n", k) + "return a")
	}
	for _, s := range []int{1, 2, 62, 63, 64, 65, 127, 1000, 9999, 10000} {
		add(fmt.Sprintf("return 1 << %d", s))
		add(fmt.Sprintf("a = 1 << %d\nb = a + [%d]\nreturn b << 3 + [1]", s, s/2))
		add(fmt.Sprintf("return 1 << %d + [%d]", s, s-1))
	}
	for _, s := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000", "0777", "08", "0x", "00", "007", "4294967295", "4294967296", "2147483648"} {
		add("return [" + s + "]")
		add("return 1 + [" + s + "]")
		add("a = [" + s + "]\nreturn a + 1")
		add("a = [" + s + "]\nreturn 1 + 1")
		add("return [" + s + "] << 1")
		add("return 2*[" + s + "]")
		add("return 1 << " + s)
	}
	return mc.Shards("large texts", 64, func(s, n int, y func([]byte)) {
		for i, x := range texts {
			if i%n == s {
				y(x)
			}
		}
	})
}

func calcPlan(t mc.Tier) []mc.Gen[[]byte] {
	toks := []string{"0", "1", "2", "9", "-", "+", "*", "/", "^", " ", "(", ")", "0x", "f", "0b", "a", ".", "\t"}
	gs := seqs("every sequence of tokens over 18", 64, toks, 0, t.Pick(5, 6), nil)
	gs = append(gs, seqs("every byte string", 64, all256, 0, t.Pick(2, 3), nil)...)
	ops := []string{"0", "1", "-1", "3", "-2", "+", "-", "*", "/", "^"}
	gs = append(gs, seqs("every longer sequence over 10 tokens", 64, ops, 6, t.Pick(6, 7), nil)...)
	var texts []string
	rep := strings.Repeat
	for _, k := range []int{10, 100, 1000, 20000} {
		texts = append(texts, rep("1+", k)+"1", rep("1-", k), rep("-", k), rep("-", k)+"1", rep("1/0+", k)+"1", rep("0^", k)+"0", rep("1^", k)+"1", rep("1/", k)+"1", rep("9", k), "0x"+rep("f", k), "0b"+rep("1", k), rep(" ", k), rep("(", k), rep("1*", k)+"0", "1-"+rep("1*", k)+"2", "1"+rep(" ", k)+"1", rep("1 ", k), rep("0", k)+"1", rep("\xff", k))
	}
	for _, z := range []string{"0", "-0", "1-1", "0x0", "0b0", "2-2", "0*5", "0/3", "1/2", "-1/2", "0^1", "-1+1"} {
		for _, o := range []string{"1/%s", "1/%s/%s", "%s/%s", "%s^%s", "2^%s", "%s^-1", "5-1/%s", "1/%s^2", "1/%s*2", "2^1/%s", "%s", "-%s", "1/-%s"} {
			texts = append(texts, strings.ReplaceAll(o, "%s", z))
		}
	}
	gs = append(gs, mc.Shards("long and degenerate expressions", 16, func(s, n int, y func([]byte)) {
		for i, x := range texts {
			if i%n == s {
				y([]byte(x))
			}
		}
	})...)
	return gs
}

// checkIR drives building, evaluating and allocating on programs which no
// script denotes.
func checkIR(w *mc.W, insts []ref.Inst) error {
	w.State(1)
	w.Trace(1)
	fresh := func() *ir.Program { return glue.IR(insts) }
	for name, f := range map[string]func(p *ir.Program) error{
		"build":   func(p *ir.Program) error { _, err := acc.Build(p); return err },
		"string":  func(p *ir.Program) error { _, err := acc.String(p); return err },
		"eval":    pass.Eval,
		"alloc":   cfg.Allocator.Execute,
		"valid":   pass.Validate.Execute,
		"reads":   pass.ReadCounts,
		"indexes": pass.Indexes,
	} {
		w.Step(1)
		if err := f(fresh()); err != nil && err.Error() == "" {
			return fmt.Errorf("%s: error without a message", name)
		}
	}
	return nil
}

func irPlan(t mc.Tier) []mc.Gen[[]ref.Inst] {
	return mc.Shards("instruction sequences over arbitrary operands", 32, func(s, n int, y func([]ref.Inst)) {
		// operation kinds with operands in 0..4 and outputs in 0..4
		var one []ref.Inst
		for out := 0; out <= 4; out++ {
			for x := 0; x <= 3; x++ {
				for z := 0; z <= 3; z++ {
					one = append(one, ref.Inst{K: '+', Out: out, X: x, Y: z})
				}
				one = append(one, ref.Inst{K: '2', Out: out, X: x, Y: x, S: 1})
				for _, sh := range []int{0, 1, 2} {
					one = append(one, ref.Inst{K: '<', Out: out, X: x, Y: x, S: sh})
				}
			}
		}
		enum.Seqs(len(one), 0, 2, s, n, func(ix []int) {
			var p []ref.Inst
			for _, i := range ix {
				p = append(p, one[i])
			}
			y(p)
		})
		if t.Pick(0, 1) == 1 {
			enum.Seqs(len(one), 3, 3, s, n, func(ix []int) {
				y([]ref.Inst{one[ix[0]], one[ix[1]], one[ix[2]]})
			})
		}
	})
}

func main() {
	large := mc.NewFamily("large-commands", "eval, gen and fmt on shifts by 4095..28000 (32769)", largePlan, checkCommand)
	large.Large = true
	mc.Main(&mc.Check{
		Property:    "C15",
		Technique:   "bounded exhaustive enumeration of texts on every library entry point and of command lines on the real binary, monitored for panics, fatal errors, hangs and exit status",
		HangSeconds: 40,
		MaxHeapMB:   2500,
		Families: []*mc.Family{
			mc.NewFamily("tokens", "script token sequences", tokenPlan, checkScript),
			mc.NewFamily("bytes", "script byte strings and edits", bytePlan, checkScript),
			mc.NewFamily("scripts", "syntax trees with arbitrary references", scriptPlan, func(w *mc.W, s ref.Script) error {
				w.State(1)
				w.Trace(1)
				return checkTree(w, glue.AST(s))
			}),
			mc.NewFamily("large", "texts large in one dimension", bigPlan, checkScript),
			mc.NewFamily("expressions", "target expressions", calcPlan, checkCalc),
			mc.NewFamily("programs", "instruction sequences", irPlan, checkIR),
			mc.NewFamily("search-commands", "search command lines", searchPlan, checkCommand),
			mc.NewFamily("script-commands", "eval, fmt, gen and other command lines", commandPlan, checkCommand),
			large,
		},
		Assumptions: []string{"single shift amounts up to 10000 and 30000 in all; targets of the search command up to about 70 bits, expressions with values up to 2^16 bits", "memory exhaustion by astronomically large values (2^99999999999) is outside the bounds"},
	})
}
