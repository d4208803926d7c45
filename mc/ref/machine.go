package ref

import (
	"fmt"
	"math/big"
)

// Machine is a register machine over named variables.
type Machine struct {
	regs  map[string]*big.Int
	alias map[string]string
}

// NewMachine holds 1 in the input variable; every other variable is undefined,
// except that the output variable is the same register when aliased.
func NewMachine(in, out string, aliased bool) *Machine {
	m := &Machine{regs: map[string]*big.Int{in: big.NewInt(1)}, alias: map[string]string{}}
	if aliased {
		m.alias[out] = in
	}
	return m
}

func (m *Machine) reg(v string) string {
	if a, ok := m.alias[v]; ok {
		return a
	}
	return v
}

// Load reads a variable.
func (m *Machine) Load(v string) (*big.Int, error) {
	x, ok := m.regs[m.reg(v)]
	if !ok {
		return nil, fmt.Errorf("variable %q is read before it is written", v)
	}
	return x, nil
}

// Add stores x + y in z.
func (m *Machine) Add(z, x, y string) error {
	a, err := m.Load(x)
	if err != nil {
		return err
	}
	b, err := m.Load(y)
	if err != nil {
		return err
	}
	m.regs[m.reg(z)] = new(big.Int).Add(a, b)
	return nil
}

// Shift stores x doubled s times in z.
func (m *Machine) Shift(z, x string, s int) error {
	a, err := m.Load(x)
	if err != nil {
		return err
	}
	m.regs[m.reg(z)] = new(big.Int).Lsh(a, uint(s))
	return nil
}
