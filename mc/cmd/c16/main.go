// Command c16 decides property C16 (names in built scripts).
package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

func check(w *mc.W, ops enum.Ops) error {
	want := make([]ref.Op, len(ops))
	for i, o := range ops {
		want[i] = ref.Op(o)
	}
	chain, err := ref.Eval(want)
	if err != nil {
		return err
	}
	r, err := acc.Decompile(glue.Program(ops))
	if err != nil {
		return fmt.Errorf("decompile: %w", err)
	}
	tree, err := acc.Build(r)
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	s := glue.Script(tree)
	if err := names(w, s, chain); err != nil {
		return fmt.Errorf("%w\nscript:\n%s", err, s.Text())
	}
	text, err := printer.String(tree)
	if err != nil {
		return fmt.Errorf("print: %w", err)
	}
	again, err := acc.Build(r)
	if err != nil {
		return fmt.Errorf("build again: %w", err)
	}
	if s2 := glue.Script(again); s2.Text() != s.Text() {
		if err := names(w, s2, chain); err != nil {
			return fmt.Errorf("built again: %w\nscript:\n%s", err, s2.Text())
		}
	}
	p, ok := ref.ParseScript(text)
	if !ok {
		return fmt.Errorf("printed script is outside the grammar:\n%s", text)
	}
	if err := names(w, p, chain); err != nil {
		return fmt.Errorf("printed: %w\nscript:\n%s", err, text)
	}
	w.Trace(1)
	w.Later(func() error {
		if s2 := glue.Script(tree); s2.Text() != s.Text() {
			return fmt.Errorf("the script changed from\n%s\nto\n%s", s.Text(), s2.Text())
		}
		later, err := acc.Build(r)
		if err != nil {
			return fmt.Errorf("build later: %w", err)
		}
		if s2 := glue.Script(later); s2.Text() != s.Text() {
			if err := names(w, s2, chain); err != nil {
				return fmt.Errorf("built later: %w\nscript:\n%s", err, s2.Text())
			}
		}
		return nil
	})
	return nil
}

func names(w *mc.W, s ref.Script, chain []*big.Int) error {
	if len(s) == 0 {
		return fmt.Errorf("no statements")
	}
	if err := unique(s); err != nil {
		return err
	}
	m, err := ref.EvalScript(s)
	if err != nil {
		return fmt.Errorf("script does not evaluate: %w", err)
	}
	w.Step(len(s))
	for _, st := range s[:len(s)-1] {
		i := m.Names[st.Name]
		if i >= uint64(len(m.Chain)) {
			return fmt.Errorf("%s denotes element %d, which does not exist", st.Name, i)
		}
		v := m.Chain[i]
		digits := st.Name[1:]
		switch {
		case st.Name[0] == '_' && strings.Trim(digits, "01") == "" && digits != "":
			x, _ := new(big.Int).SetString(digits, 2)
			if x.Cmp(v) != 0 {
				return fmt.Errorf("%s denotes the value %#b", st.Name, v)
			}
			w.Outcome("binary")
			w.Max("binary-digits", len(digits))
		case st.Name[0] == 'x' && decimal(digits):
			k, err := strconv.ParseUint(digits, 10, 32)
			if err != nil || v.Cmp(ref.Pow2(uint(k), -1)) != 0 {
				return fmt.Errorf("%s denotes the value %#x", st.Name, v)
			}
			w.Outcome("run")
			w.Max("run", int(k))
		case st.Name[0] == 'i' && decimal(digits):
			k, err := strconv.ParseUint(digits, 10, 32)
			if err != nil || k != i {
				return fmt.Errorf("%s denotes the element at index %d", st.Name, i)
			}
			if int(i) < len(chain) && chain[i].Cmp(v) != 0 {
				return fmt.Errorf("%s denotes %v, the chain has %v there", st.Name, v, chain[i])
			}
			w.Outcome("index")
		default:
			return fmt.Errorf("the name %q does not describe its value %v (index %d)", st.Name, v, i)
		}
	}
	return nil
}

// unique judges that names are legal, distinct and missing only from the last
// statement.
func unique(s ref.Script) error {
	seen := map[string]bool{}
	for i, st := range s {
		if (st.Name == "") != (i == len(s)-1) {
			return fmt.Errorf("statement %d of %d is named %q", i, len(s), st.Name)
		}
		if st.Name == "" {
			continue
		}
		if seen[st.Name] {
			return fmt.Errorf("name %q is defined twice", st.Name)
		}
		seen[st.Name] = true
		if !ref.LegalIdentifier(st.Name) {
			return fmt.Errorf("illegal name %q", st.Name)
		}
	}
	return nil
}

func decimal(s string) bool {
	return s != "" && strings.Trim(s, "0123456789") == "" && (s == "0" || s[0] != '0')
}

func main() {
	mc.Main(&mc.Check{
		Property:    "C16",
		Technique:   "bounded exhaustive enumeration of chain programs; every name of the built script re-derived from the value it denotes",
		Families:    append([]*mc.Family{commands()}, glue.ProgramFamilies(true, check)...),
		Assumptions: []string{"math/big is correct"},
	})
}
