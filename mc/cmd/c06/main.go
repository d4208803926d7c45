// Command c06 decides property C06 (generated output computes the script's
// chain or is refused).
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

var allocs = []pass.Allocator{
	{Input: "x", Output: "z", Format: "t%d"},
	{Input: "z", Output: "in", Format: "v%d"},
}

func check(w *mc.W, src string) error {
	s, inGrammar := ref.ParseScript(src)
	if !inGrammar {
		return fmt.Errorf("harness: text is outside the grammar")
	}
	m, meaning := ref.EvalScript(s)
	// All outputs are from the same tree.
	tree, err := parse.String(src)
	if err != nil {
		return fmt.Errorf("parse: %w", err) // judged by C03; the spaces are in the grammar
	}
	for ai, a := range allocs {
		d, err := gen.PrepareData(gen.Config{Allocator: a}, tree)
		w.Trace(1)
		if err != nil {
			w.Outcome("refused")
			return nil
		}
		out := map[string]string{}
		for _, name := range []string{"listing", "chain", "ops", "script"} {
			tmpl, err := gen.BuiltinTemplate(name)
			if err != nil {
				return fmt.Errorf("template %s: %w", name, err)
			}
			var buf bytes.Buffer
			if err := gen.Generate(&buf, tmpl, d); err != nil {
				return fmt.Errorf("generate %s: %w", name, err)
			}
			out[name] = buf.String()
			if ai > 0 {
				break // only the listing depends on the names
			}
		}
		if meaning != nil {
			return fmt.Errorf("accepted a script with: %v\nlisting:\n%s", meaning, out["listing"])
		}
		if err := listing(w, out["listing"], a, m); err != nil {
			return fmt.Errorf("listing: %w\n%s", err, out["listing"])
		}
		if ai == 0 {
			// The data of two configurations, then of two scripts, live side
			// by side.
			a := a
			w.Later(func() error {
				tmpl, err := gen.BuiltinTemplate("listing")
				if err != nil {
					return err
				}
				var buf bytes.Buffer
				if err := gen.Generate(&buf, tmpl, d); err != nil {
					return fmt.Errorf("generate later: %w", err)
				}
				if buf.String() != out["listing"] {
					if err := listing(w, buf.String(), a, m); err != nil {
						return fmt.Errorf("listing later: %w\n%s\nwas\n%s", err, buf.String(), out["listing"])
					}
				}
				return nil
			})
		}
		if ai > 0 {
			continue
		}
		if err := chain(out["chain"], m); err != nil {
			return fmt.Errorf("chain: %w\n%s", err, out["chain"])
		}
		if err := opslist(out["ops"], m); err != nil {
			return fmt.Errorf("ops: %w\n%s", err, out["ops"])
		}
		if err := script(out["script"], m); err != nil {
			return fmt.Errorf("script: %w\n%s", err, out["script"])
		}
	}
	if m.Dangling {
		w.Outcome("accepted-dangling")
	} else {
		w.Outcome("accepted")
	}
	return nil
}

// listing runs the text literally.
func listing(w *mc.W, text string, a pass.Allocator, m *ref.Meaning) error {
	want := m.Chain[len(m.Chain)-1]
	if !strings.HasSuffix(text, "\n") {
		return fmt.Errorf("does not end with a newline")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	fields := strings.Fields(lines[0])
	if len(fields) == 0 || fields[0] != "tmp" {
		return fmt.Errorf("no declaration of temporaries")
	}
	may := map[string]bool{a.Input: true, a.Output: true}
	for _, t := range fields[1:] {
		if may[t] {
			return fmt.Errorf("%q is declared again", t)
		}
		may[t] = true
	}
	for _, alias := range []bool{false, true} {
		reg := ref.NewMachine(a.Input, a.Output, alias)
		for k, line := range lines[1:] {
			f := strings.Fields(line)
			bad := func(n int) error {
				if len(f) != n {
					return fmt.Errorf("line %d: %q has %d fields", k+2, line, len(f))
				}
				return nil
			}
			if len(f) == 0 {
				return fmt.Errorf("line %d is empty", k+2)
			}
			var err error
			var regs []string
			switch f[0] {
			case "add":
				if err = bad(4); err == nil {
					regs = f[1:]
					err = reg.Add(f[1], f[2], f[3])
				}
			case "double":
				if err = bad(3); err == nil {
					regs = f[1:]
					err = reg.Add(f[1], f[2], f[2])
				}
			case "shift":
				if err = bad(4); err == nil {
					regs = f[1:3]
					var n int
					if n, err = strconv.Atoi(f[3]); err == nil {
						if n < 0 {
							return fmt.Errorf("line %d: shift by %d", k+2, n)
						}
						err = reg.Shift(f[1], f[2], n)
					}
				}
			default:
				return fmt.Errorf("line %d: unknown directive %q", k+2, f[0])
			}
			if err != nil {
				return fmt.Errorf("aliased=%v line %d: %w", alias, k+2, err)
			}
			for _, r := range regs {
				if !may[r] {
					return fmt.Errorf("line %d: %q is not declared", k+2, r)
				}
			}
			w.Step(1)
		}
		z, err := reg.Load(a.Output)
		if err != nil {
			return fmt.Errorf("aliased=%v: %w", alias, err)
		}
		if z.Cmp(want) != 0 {
			return fmt.Errorf("aliased=%v: computes %v, want %v", alias, z, want)
		}
	}
	return nil
}

func table(text string) []string {
	if text == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
}

func hexint(s string) (*big.Int, error) {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok || !strings.HasPrefix(s, "0x") {
		return nil, fmt.Errorf("bad value %q", s)
	}
	return x, nil
}

func chain(text string, m *ref.Meaning) error {
	lines := table(text)
	if len(lines) != len(m.Chain) {
		return fmt.Errorf("%d lines, the chain has %d elements", len(lines), len(m.Chain))
	}
	for k, line := range lines {
		f := strings.Fields(line)
		if len(f) != 2 || f[0] != fmt.Sprintf("%d:", k+1) {
			return fmt.Errorf("line %d: %q", k+1, line)
		}
		x, err := hexint(f[1])
		if err != nil {
			return err
		}
		if x.Cmp(m.Chain[k]) != 0 {
			return fmt.Errorf("line %d: %v, want %v", k+1, x, m.Chain[k])
		}
	}
	return nil
}

func opslist(text string, m *ref.Meaning) error {
	lines := table(text)
	if len(lines) != len(m.Ops) {
		return fmt.Errorf("%d lines, the chain has %d operations", len(lines), len(m.Ops))
	}
	for k, line := range lines {
		line = strings.NewReplacer("[", " ", "]", " ", "+", " ").Replace(line)
		f := strings.Fields(line)
		if len(f) != 4 {
			return fmt.Errorf("line %d: %q", k+1, line)
		}
		var v [3]int
		for i := range v {
			var err error
			if v[i], err = strconv.Atoi(f[i]); err != nil {
				return err
			}
		}
		x, err := hexint(f[3])
		if err != nil {
			return err
		}
		if v[0] != k || !ref.SameOps([]ref.Op{{v[1], v[2]}}, []ref.Op{m.Ops[k]}) || x.Cmp(m.Chain[k+1]) != 0 {
			return fmt.Errorf("line %d: %q, want %v = %v", k+1, line, m.Ops[k], m.Chain[k+1])
		}
	}
	return nil
}

func script(text string, m *ref.Meaning) error {
	l, err := acc.LoadString(text)
	if err != nil {
		return fmt.Errorf("does not load: %w", err)
	}
	if !ref.Equal(l.Chain, m.Chain) || !ref.SameOps(glue.Ops(l.Program), m.Ops) {
		return fmt.Errorf("loads to chain %v, want %v", l.Chain, m.Chain)
	}
	s, ok := ref.ParseScript(text)
	if !ok {
		return fmt.Errorf("outside the grammar")
	}
	m2, err := ref.EvalScript(s)
	if err != nil {
		return err
	}
	if !ref.Equal(m2.Chain, m.Chain) {
		return fmt.Errorf("reads as chain %v, want %v", m2.Chain, m.Chain)
	}
	return nil
}

// write prints an instruction program as a script. Style 0 names every value, 1
// refers to all by index, 2 names even and indexes odd instructions, 3 names
// and adds redundant copies of names.
func write(p []ref.Inst, style int) string {
	var b strings.Builder
	name := map[int]string{0: "1"}
	for k, i := range p {
		var e string
		switch i.K {
		case '+':
			e = name[i.X] + " + " + name[i.Y]
		case '2':
			e = "2*" + name[i.X]
		default:
			e = fmt.Sprintf("%s << %d", name[i.X], i.S)
		}
		if k == len(p)-1 {
			fmt.Fprintf(&b, "return %s\n", e)
			break
		}
		n := fmt.Sprintf("v%d", k)
		fmt.Fprintf(&b, "%s = %s\n", n, e)
		name[i.Out] = n
		if style == 1 || style == 2 && k%2 == 1 {
			name[i.Out] = fmt.Sprintf("[%d]", i.Out)
		}
		if style == 3 && k == 0 {
			fmt.Fprintf(&b, "w%d = %s\n", k, n)
			name[i.Out] = fmt.Sprintf("w%d", k)
		}
	}
	return b.String()
}

func main() {
	scripts := mc.NewFamily("scripts", "every valid script of one statement with up to 4 (5) operators over operands 1, [1], [2], [3] and shifts by 1, 2; two with up to 4 (5) over 1, [1], [2], [3], a; three with up to 3 (4) over 1, [1], [3], a, b and shifts by 0, 2; intermediates of shifts included",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("scripts", 128, func(shard, n int, yield func(string)) {
				valid := func(s ref.Script) {
					if _, err := ref.EvalScript(s); err == nil {
						yield(s.Text())
					}
				}
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(4, 5), Operands: enum.Operands([]uint64{0, 1, 2, 3}, nil), Shifts: []uint64{1, 2},
				}, shard, n, valid)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(3, 4), Operands: enum.Operands([]uint64{0, 1, 2, 3}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{2},
				}, shard, n, valid)
				enum.Scripts(enum.ScriptSpace{
					Statements: 3, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1, 3}, []string{"a", "b"}), Names: []string{"a", "b"}, Shifts: []uint64{0, 2},
				}, shard, n, valid)
			})
		}, check)
	invalid := mc.NewFamily("meaningless-scripts", "every script, valid or not, of one statement with up to 2 (3) operators over 1, [1], [2], [9], a and shifts by 0, 1, 3, and of two with up to 1 (2)",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("bad", 32, func(shard, n int, yield func(string)) {
				all := func(s ref.Script) { yield(s.Text()) }
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1, 2, 9}, []string{"a"}), Shifts: []uint64{0, 1, 3},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(1, 2), Operands: enum.Operands([]uint64{0, 1, 2, 9}, []string{"a", "b"}), Names: []string{"a"}, Shifts: []uint64{0, 3},
				}, shard, n, all)
			})
		}, check)
	insts := mc.NewFamily("instruction-scripts", "every program of up to 4 (5) instructions over additions, doublings and shifts by 2, one statement each, referring by name, by index, mixed, and through copied names",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("insts", 128, func(shard, n int, yield func(string)) {
				enum.Insts(enum.InstSpace{Max: t.Pick(4, 5), Shifts: []int{2}}, shard, n, func(p []ref.Inst) {
					for style := 0; style < 4; style++ {
						yield(write(p, style))
					}
				})
			})
		}, check)
	adds := mc.NewFamily("addition-scripts", "every program of exactly 7 (8) additions in which every value but the last is read, by name",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("adds", 128, func(shard, n int, yield func(string)) {
				enum.Insts(enum.InstSpace{Max: t.Pick(7, 8), AddOnly: true, AllRead: true, Longest: true}, shard, n, func(p []ref.Inst) {
					yield(write(p, 0))
				})
			})
		}, check)
	long := mc.NewFamily("long-scripts", "scripts of the programs that build up 1..20 (60) live values by words of 1..2 of 4 ways and consume them in 4 orders; all words of 1..2 macro steps to 12, 40 and 120 operations; shifts around powers of two up to 2^13",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("long", 64, func(shard, n int, yield func(string)) {
				cnt := 0
				for c := 1; c <= t.Pick(20, 60); c++ {
					enum.Words(4, 2, func(word []int) {
						for order := 0; order < 4; order++ {
							if cnt%n == shard {
								if p := enum.Pressure(c, word, order, c%2 == 0); len(p) > 0 {
									yield(write(p, c%3))
								}
							}
							cnt++
						}
					})
				}
				var all []int
				for i := 0; i < enum.Steps; i++ {
					all = append(all, i)
				}
				enum.LongPrograms(all, 2, []int{12, 40, 120}, shard, n, func(ops enum.Ops) {
					p, err := acc.Decompile(glue.Program(ops))
					if err != nil {
						return
					}
					insts, err := glue.Insts(p)
					if err != nil {
						return
					}
					if _, err := ref.Expand(insts); err != nil {
						return
					}
					yield(write(insts, 0))
					if text, err := acc.String(p); err == nil {
						if _, ok := ref.ParseScript(text); ok {
							yield(text)
						}
					}
				})
				for e := uint(1); e <= 13; e++ {
					for d := int64(-1); d <= 1; d++ {
						if cnt%n == shard {
							x := ref.Pow2(e, d)
							yield(fmt.Sprintf("a = 1 << %s\nreturn a + 1", x))
							yield(fmt.Sprintf("a = 1 << %s\nreturn [%s] + 1", x, x))
							yield(fmt.Sprintf("a = 1 << %s\nreturn [%s] + a", x, ref.Pow2(e, d-1)))
						}
						cnt++
					}
				}
			})
		}, check)
	shape := func(w *mc.W, s enum.Shape, long int) error {
		if long > 0 && (len(s.Ops) > long || len(s.Ops) > 400 && strings.HasSuffix(s.Name, "-swapped")) {
			return nil
		}
		ops := make([]ref.Op, len(s.Ops))
		for i, o := range s.Ops {
			ops[i] = ref.Op(o)
		}
		for style, p := range [][]ref.Inst{ref.Fold(ops), ref.Plain(ops), ref.Fold(ops)} {
			if len(ops) > 100 && style != s.M%3 {
				continue
			}
			if err := check(w, write(p, style)); err != nil {
				return fmt.Errorf("style %d: %w", style, err)
			}
		}
		p, err := acc.Decompile(glue.Program(s.Ops))
		if err != nil {
			return nil // judged by C04
		}
		if text, err := acc.String(p); err == nil {
			if _, ok := ref.ParseScript(text); ok {
				return check(w, text)
			}
		}
		return nil
	}
	scale := glue.ScaleTo(6, 1026, 66, 1026, func(w *mc.W, s enum.Shape) error { return shape(w, s, 1100) })
	far := glue.Far(240, 1030, 1<<13+2, func(w *mc.W, s enum.Shape) error { return shape(w, s, 0) })
	mc.Main(&mc.Check{
		Property:    "C06",
		Technique:   "bounded exhaustive enumeration of scripts; the generated text interpreted literally and compared with the evaluation of the script",
		Families:    []*mc.Family{scripts, invalid, far, commands(), long, scale, insts, adds},
		Assumptions: []string{"math/big and text/template are correct"},
	})
}
