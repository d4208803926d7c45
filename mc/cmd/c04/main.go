// Command c04 decides property C04 (a printed script loads back to its chain).
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

func refops(ops enum.Ops) []ref.Op {
	r := make([]ref.Op, len(ops))
	for i, o := range ops {
		r[i] = ref.Op(o)
	}
	return r
}

// form judges the instruction form of the operations.
func form(r *ir.Program, want []ref.Op) error {
	insts, err := glue.Insts(r)
	if err != nil {
		return err
	}
	got, err := ref.Expand(insts)
	if err != nil {
		return fmt.Errorf("instructions: %w\n%s", err, r)
	}
	if !ref.SameOps(got, want) {
		return fmt.Errorf("instructions expand to %v\n%s", got, r)
	}
	return nil
}

func check(w *mc.W, ops enum.Ops) error {
	want := refops(ops)
	chain, err := ref.Eval(want)
	if err != nil {
		return err
	}
	p := glue.Program(ops)
	r, err := acc.Decompile(p)
	if err != nil {
		return fmt.Errorf("decompile: %w", err)
	}
	for i := range ops {
		if p[i] != (addchain.Op{I: ops[i][0], J: ops[i][1]}) {
			return fmt.Errorf("decompile modified the program")
		}
	}
	w.Step(len(ops))
	r0 := ""
	if len(ops) <= 8 {
		r0 = r.String()
	}
	expands := func(stage string) error {
		if err := form(r, want); err != nil {
			return fmt.Errorf("%s: %w", stage, err)
		}
		return nil
	}
	if err := expands("after decompile"); err != nil {
		return err
	}
	tree, err := acc.Build(r)
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	if err := expands("after build"); err != nil {
		return err
	}
	text, err := printer.String(tree)
	if err != nil {
		return fmt.Errorf("print: %w", err)
	}
	if err := judge(text, want, chain); err != nil {
		return fmt.Errorf("%w\nscript:\n%s", err, text)
	}
	w.Trace(1)

	// Building again from the same instructions.
	tree2, err := acc.Build(r)
	if err != nil {
		return fmt.Errorf("build again: %w", err)
	}
	if again, err := printer.String(tree2); err != nil {
		return fmt.Errorf("print again: %w", err)
	} else if again != text {
		if err := judge(again, want, chain); err != nil {
			return fmt.Errorf("built again: %w\nscript:\n%s", err, again)
		}
	}
	if again, err := printer.String(tree); err != nil || again != text {
		return fmt.Errorf("the script changed from\n%s\nto\n%s", text, again)
	}

	// The convenience functions have their own path. The slice held other
	// programs before.
	used, _ := w.Local["program"].(addchain.Program)
	used = append(used[:0], p...)
	w.Local["program"] = used
	if len(used) <= 8 {
		for k := range used {
			for _, op := range []addchain.Op{{I: 0, J: 0}, {I: k, J: k}, {I: 0, J: k}} {
				if op == p[k] {
					continue
				}
				_, _ = acc.Decompile(p)
				used[k] = op
				_, _ = acc.Decompile(used)
				used[k] = p[k]
				d, err := acc.Decompile(used)
				if err != nil {
					return fmt.Errorf("operation %d changed to %v and back: %w", k, op, err)
				}
				if d.String() != r0 {
					if err := form(d, want); err != nil {
						return fmt.Errorf("operation %d changed to %v and back: %w", k, op, err)
					}
				}
			}
		}
	}
	r2, err := acc.Decompile(used)
	if err != nil {
		return err
	}
	text2, err := acc.String(r2)
	if err != nil {
		return fmt.Errorf("acc.String: %w", err)
	}
	if text2 != text {
		if err := judge(text2, want, chain); err != nil {
			return fmt.Errorf("acc.String: %w\nscript:\n%s", err, text2)
		}
	}
	w.Later(func() error {
		if err := expands("after another script was built"); err != nil {
			return err
		}
		if again, err := printer.String(tree); err != nil || again != text {
			return fmt.Errorf("the script changed from\n%s\nto\n%s", text, again)
		}
		tree3, err := acc.Build(r)
		if err != nil {
			return fmt.Errorf("build later: %w", err)
		}
		if again, err := printer.String(tree3); err != nil || again != text {
			if err := judge(again, want, chain); err != nil {
				return fmt.Errorf("built later: %w\nscript:\n%s", err, again)
			}
		}
		return nil
	})
	switch {
	case len(tree.Statements) == 1:
		w.Outcome("one-statement")
	case len(tree.Statements) < len(ops):
		w.Outcome("folded")
	default:
		w.Outcome("one-statement-per-operation")
	}
	return nil
}

func judge(text string, want []ref.Op, chain []*big.Int) error {
	// The loader of the tool.
	l, err := acc.LoadString(text)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	if !ref.Equal(l.Chain, chain) {
		return fmt.Errorf("loads to chain %v, want %v", l.Chain, chain)
	}
	if !ref.SameOps(glue.Ops(l.Program), want) {
		return fmt.Errorf("loads to operations %v", l.Program)
	}
	// An independent reader of the published grammar.
	s, ok := ref.ParseScript(text)
	if !ok {
		return fmt.Errorf("outside the published grammar")
	}
	m, err := ref.EvalScript(s)
	if err != nil {
		return fmt.Errorf("not a valid script: %w", err)
	}
	if !ref.Equal(m.Chain, chain) || !ref.SameOps(m.Ops, want) {
		return fmt.Errorf("reads as operations %v", m.Ops)
	}
	if m.Result != uint64(len(chain)-1) {
		return fmt.Errorf("returns element %d, not the last", m.Result)
	}
	return nil
}

func main() {
	mc.Main(&mc.Check{
		Property:    "C04",
		Technique:   "bounded exhaustive enumeration of chain programs through decompile, build, print and load, against the operations",
		Families:    append([]*mc.Family{commands(), files()}, glue.ProgramFamilies(false, check)...),
		Assumptions: []string{"math/big is correct"},
	})
}
