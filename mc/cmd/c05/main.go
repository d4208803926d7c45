// Command c05 decides property C05 (allocated programs compute the chain).
package main

import (
	"fmt"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// line is an instruction over variables.
type line struct {
	k       byte
	out     string
	x, y    string
	s, want int
}

func check(w *mc.W, p []ref.Inst) error {
	ops, err := ref.Expand(p)
	if err != nil {
		return err
	}
	chain, err := ref.Eval(ops)
	if err != nil {
		return err
	}
	w.Step(len(p))
	for mode := 0; mode < 5; mode++ {
		prog := glue.IR(p)
		asdecompiled := false
		if mode == 2 && len(p) <= 130 {
			// As the library makes it from the operations, if it is the same.
			d, err := decompiled(ops)
			if err != nil {
				return err
			}
			if q, err := glue.Insts(d); err == nil && slices.EqualFunc(p, q, sameinst) {
				prog, asdecompiled = d, true
				w.Outcome("as-decompiled")
			}
		}
		a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
		switch mode {
		case 1:
			// One operand object per index, as loading a script makes them.
			share(prog)
			a = pass.Allocator{Input: "in", Output: "out", Format: "tmp%02d_"}
		case 2:
			// Passes that may run before allocation.
			if err := pass.Exec(prog, pass.Func(pass.Eval), pass.Func(pass.ReadCounts), pass.NameByteValues, pass.NameXRuns); err != nil {
				return fmt.Errorf("naming: %w", err)
			}
			a = pass.Allocator{Input: "z", Output: "x", Format: "v[%d]"}
		case 3:
			// A program that has been allocated before, with the same names.
			if err := a.Execute(prog); err != nil {
				return fmt.Errorf("first allocation: %w", err)
			}
			// A copy is a program of its own.
			c := prog.Clone()
			b := pass.Allocator{Input: "cx", Output: "cz", Format: "ct%d"}
			if err := b.Execute(c); err != nil {
				return fmt.Errorf("allocation of a copy: %w", err)
			}
			w.Later(func() error {
				if err := judge(w, p, c, b, chain); err != nil {
					return fmt.Errorf("copy: %w\ntemporaries %v\n%s", err, c.Temporaries, c)
				}
				return nil
			})
			if err := judge(w, p, prog, a, chain); err != nil {
				return fmt.Errorf("after the allocation of a copy: %w\ntemporaries %v\n%s", err, prog.Temporaries, prog)
			}
		case 4:
			// With other names, one of which is now the output, and after
			// passes that run later.
			share(prog)
			b := pass.Allocator{Input: "z", Output: "t0", Format: "x%d"}
			if err := pass.Exec(prog, b, pass.Func(pass.Eval), pass.Func(pass.ReadCounts)); err != nil {
				return fmt.Errorf("first allocation: %w", err)
			}
		}
		if err := a.Execute(prog); err != nil {
			return fmt.Errorf("mode %d: %w", mode, err)
		}
		if err := judge(w, p, prog, a, chain); err != nil {
			return fmt.Errorf("%w\ntemporaries %v\n%s", err, prog.Temporaries, prog)
		}
		w.Trace(2)
		if asdecompiled {
			// The same operations decompiled again, under other names.
			d, err := decompiled(ops)
			if err != nil {
				return fmt.Errorf("second decompilation: %w", err)
			}
			b := pass.Allocator{Input: "dx", Output: "dz", Format: "dt%d"}
			if err := b.Execute(d); err != nil {
				return fmt.Errorf("second decompilation: %w", err)
			}
			for _, x := range []struct {
				p *ir.Program
				a pass.Allocator
			}{{d, b}, {prog, a}} {
				if err := judge(w, p, x.p, x.a, chain); err != nil {
					return fmt.Errorf("decompiled twice, names %v: %w\ntemporaries %v\n%s", x.a, err, x.p.Temporaries, x.p)
				}
			}
		}
		if mode == 1 || mode == 2 {
			mode := mode
			temps := append([]string{}, prog.Temporaries...)
			w.Later(func() error {
				if err := judge(w, p, prog, a, chain); err != nil {
					return fmt.Errorf("after another allocation, mode %d: %w\ntemporaries %v, were %v\n%s", mode, err, prog.Temporaries, temps, prog)
				}
				return nil
			})
		}
	}
	return nil
}

func decompiled(ops []ref.Op) (*ir.Program, error) {
	p := make(addchain.Program, len(ops))
	for i, op := range ops {
		p[i] = addchain.Op{I: op[0], J: op[1]}
	}
	return acc.Decompile(p)
}

func sameinst(a, b ref.Inst) bool {
	return a.K == b.K && a.Out == b.Out && a.X == b.X && (a.K != '+' || a.Y == b.Y) && (a.K != '<' || a.S == b.S)
}

func share(p *ir.Program) {
	m := map[int]*ir.Operand{}
	get := func(o *ir.Operand) *ir.Operand {
		if m[o.Index] == nil {
			m[o.Index] = o
		}
		return m[o.Index]
	}
	for _, i := range p.Instructions {
		switch o := i.Op.(type) {
		case ir.Add:
			i.Op = ir.Add{X: get(o.X), Y: get(o.Y)}
		case ir.Double:
			i.Op = ir.Double{X: get(o.X)}
		case ir.Shift:
			i.Op = ir.Shift{X: get(o.X), S: o.S}
		}
		i.Output = get(i.Output)
	}
}

func judge(w *mc.W, p []ref.Inst, prog *ir.Program, a pass.Allocator, chain []*big.Int) error {
	// The instructions are the same operations as before.
	got, err := glue.Insts(prog)
	if err != nil {
		return err
	}
	if len(got) != len(p) {
		return fmt.Errorf("%d instructions, want %d", len(got), len(p))
	}
	used := map[string]bool{}
	for k, i := range prog.Instructions {
		if got[k].K != p[k].K || got[k].Out != p[k].Out || p[k].K == '<' && got[k].S != p[k].S || !ref.SameOps([]ref.Op{{got[k].X, got[k].Y}}, []ref.Op{{p[k].X, p[k].Y}}) {
			return fmt.Errorf("instruction %d changed", k)
		}
		for _, o := range i.Operands() {
			if o.Identifier == "" {
				return fmt.Errorf("instruction %d: operand [%d] has no name", k, o.Index)
			}
			used[o.Identifier] = true
		}
		if i.Output.Identifier == a.Input {
			return fmt.Errorf("instruction %d writes the input variable", k)
		}
	}
	declared := map[string]bool{}
	for _, t := range prog.Temporaries {
		if declared[t] {
			return fmt.Errorf("temporary %q is declared twice", t)
		}
		declared[t] = true
		if t == a.Input || t == a.Output {
			return fmt.Errorf("%q is declared as a temporary", t)
		}
		if !used[t] {
			return fmt.Errorf("temporary %q is not used", t)
		}
	}
	for u := range used {
		if u != a.Input && u != a.Output && !declared[u] {
			return fmt.Errorf("variable %q is not declared", u)
		}
	}
	for _, alias := range []bool{false, true} {
		m := ref.NewMachine(a.Input, a.Output, alias)
		for k, i := range prog.Instructions {
			var err error
			switch o := i.Op.(type) {
			case ir.Add:
				err = m.Add(i.Output.Identifier, o.X.Identifier, o.Y.Identifier)
			case ir.Double:
				err = m.Add(i.Output.Identifier, o.X.Identifier, o.X.Identifier)
			case ir.Shift:
				err = m.Shift(i.Output.Identifier, o.X.Identifier, int(o.S))
			}
			if err != nil {
				return fmt.Errorf("aliased=%v: instruction %d: %w", alias, k, err)
			}
		}
		z, err := m.Load(a.Output)
		if err != nil {
			return fmt.Errorf("aliased=%v: %w", alias, err)
		}
		if want := chain[len(chain)-1]; z.Cmp(want) != 0 {
			return fmt.Errorf("aliased=%v: output is %v, want %v", alias, z, want)
		}
		// The interpreter of the library, which runs the same program.
		in := eval.NewInterpreter()
		one := big.NewInt(1)
		in.Store(a.Input, one)
		if alias {
			in.Store(a.Output, one)
		}
		if err := in.Execute(prog); err != nil {
			return fmt.Errorf("aliased=%v: interpreter: %w", alias, err)
		}
		if got, ok := in.Load(a.Output); !ok || got.Cmp(z) != 0 {
			return fmt.Errorf("aliased=%v: the interpreter computes %v, want %v", alias, got, z)
		}
		if got, ok := in.Load(a.Input); !ok || !alias && got.Cmp(big.NewInt(1)) != 0 {
			return fmt.Errorf("aliased=%v: the interpreter overwrote the input with %v", alias, got)
		}
		if !alias {
			if x, err := m.Load(a.Input); err != nil || x.Cmp(big.NewInt(1)) != 0 {
				return fmt.Errorf("input was overwritten with %v", x)
			}
		}
	}
	w.Max("temporaries", len(prog.Temporaries))
	w.Outcome(fmt.Sprintf("temporaries-%d", min(len(prog.Temporaries), 8)))
	return nil
}

func main() {
	mc.Main(&mc.Check{
		Property:    "C05",
		Technique:   "bounded exhaustive enumeration of instruction programs, executed on a register machine and by the interpreter of the library with output distinct from and aliased to the input",
		Families:    glue.InstFamilies(glue.Depths{Insts: [2]int{6, 6}, Ordered: [2]int{4, 5}, Adds: [2]int{8, 9}, Large: [2]int{1<<13 + 2, 1<<16 + 2}, ThoroughShifts: []int{1, 2, 3}}, check),
		Assumptions: []string{"math/big is correct", "temporary names from the format do not collide with the input and output names"},
	})
}
