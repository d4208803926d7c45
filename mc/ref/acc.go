package ref

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Node is an expression of the acc language: K is 'i' (index U), 'n' (name S),
// '+' (X plus Y), '<' (X shifted by U) or '2' (double of X).
type Node struct {
	K byte
	U uint64 `json:",omitempty"`
	S string `json:",omitempty"`
	X *Node  `json:",omitempty"`
	Y *Node  `json:",omitempty"`
}

// Stmt is a statement; the name of the return statement is empty.
type Stmt struct {
	Name string
	E    *Node
}

// Script is a list of statements.
type Script []Stmt

// Idx, Name, Add, Shift and Double build nodes.
func Idx(u uint64) *Node              { return &Node{K: 'i', U: u} }
func Name(s string) *Node             { return &Node{K: 'n', S: s} }
func Add(x, y *Node) *Node            { return &Node{K: '+', X: x, Y: y} }
func ShiftBy(x *Node, s uint64) *Node { return &Node{K: '<', X: x, U: s} }
func Double(x *Node) *Node            { return &Node{K: '2', X: x} }

// String is a fully explicit canonical form.
func (n *Node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *Node) write(b *strings.Builder) {
	switch n.K {
	case 'i':
		b.WriteByte('#')
		b.WriteString(strconv.FormatUint(n.U, 10))
	case 'n':
		b.WriteByte('$')
		b.WriteString(n.S)
	case '+':
		b.WriteString("add(")
		n.X.write(b)
		b.WriteByte(',')
		n.Y.write(b)
		b.WriteByte(')')
	case '<':
		b.WriteString("shl(")
		n.X.write(b)
		b.WriteByte(',')
		b.WriteString(strconv.FormatUint(n.U, 10))
		b.WriteByte(')')
	case '2':
		b.WriteString("dbl(")
		n.X.write(b)
		b.WriteByte(')')
	default:
		b.WriteString("?")
	}
}

func (s Script) String() string {
	var b strings.Builder
	for _, st := range s {
		b.WriteString(st.Name)
		b.WriteByte('=')
		st.E.write(&b)
		b.WriteByte(';')
	}
	return b.String()
}

// Text prints the expression with parentheses around every operator below
// another operator.
func (n *Node) Text() string {
	sub := func(m *Node) string {
		if m.K == 'i' || m.K == 'n' {
			return m.Text()
		}
		return "(" + m.Text() + ")"
	}
	switch n.K {
	case 'i':
		if n.U == 0 {
			return "1"
		}
		return "[" + strconv.FormatUint(n.U, 10) + "]"
	case 'n':
		return n.S
	case '+':
		return sub(n.X) + " + " + sub(n.Y)
	case '<':
		return sub(n.X) + " << " + strconv.FormatUint(n.U, 10)
	default:
		return "2*" + sub(n.X)
	}
}

// Text prints the script.
func (s Script) Text() string {
	var b strings.Builder
	for _, st := range s {
		if st.Name == "" {
			b.WriteString("return ")
		} else {
			b.WriteString(st.Name + " = ")
		}
		b.WriteString(st.E.Text())
		b.WriteByte('\n')
	}
	return b.String()
}

// ---- grammar ----

// The published grammar, transcribed rule by rule with the semantics of parsing
// expression grammars: ordered choice, greedy repetition, no backtracking into
// a completed rule.
type peg struct {
	s    string
	bad  bool // an integer literal outside the range of 64 bits, or malformed
	base map[int]pres
}

type pres struct {
	n   *Node
	end int
	ok  bool
}

// ParseScript returns the tree the grammar assigns to the text. The second
// result is false for texts outside the grammar.
func ParseScript(src string) (Script, bool) {
	p := &peg{s: src, base: map[int]pres{}}
	var out Script
	pos := 0
	for {
		st, end, ok := p.assignment(pos)
		if !ok {
			break
		}
		out = append(out, st)
		pos = end
	}
	e, pos, ok := p.ret(pos)
	if !ok {
		return nil, false
	}
	out = append(out, Stmt{"", e})
	pos = p.ws(pos)
	if pos != len(p.s) || p.bad {
		return nil, false
	}
	return out, true
}

func (p *peg) ws(i int) int {
	for i < len(p.s) && (p.s[i] == ' ' || p.s[i] == '\t' || p.s[i] == '\r') {
		i++
	}
	return i
}

func (p *peg) lit(i int, l string) (int, bool) {
	if strings.HasPrefix(p.s[i:], l) {
		return i + len(l), true
	}
	return i, false
}

func (p *peg) assignment(i int) (Stmt, int, bool) {
	i = p.ws(i)
	name, i, ok := p.ident(i)
	if !ok {
		return Stmt{}, 0, false
	}
	i = p.ws(i)
	if i, ok = p.lit(i, "="); !ok {
		return Stmt{}, 0, false
	}
	i = p.ws(i)
	e, i, ok := p.expr(i)
	if !ok {
		return Stmt{}, 0, false
	}
	i = p.ws(i)
	if i, ok = p.lit(i, "\n"); !ok {
		return Stmt{}, 0, false
	}
	return Stmt{name, e}, i, true
}

func (p *peg) ret(i int) (*Node, int, bool) {
	i = p.ws(i)
	if j, ok := p.lit(i, "return"); ok {
		if k := p.ws(j); k > j {
			i = k
		}
	}
	e, i, ok := p.expr(i)
	if !ok {
		return nil, 0, false
	}
	i = p.ws(i)
	i, _ = p.lit(i, "\n")
	return e, i, true
}

func (p *peg) expr(i int) (*Node, int, bool) {
	i = p.ws(i)
	x, i, ok := p.shiftexpr(i)
	if !ok {
		return nil, 0, false
	}
	for {
		j := p.ws(i)
		k, ok := p.lit(j, "+")
		if !ok {
			k, ok = p.lit(j, "add")
		}
		if !ok {
			break
		}
		k = p.ws(k)
		y, k, ok := p.shiftexpr(k)
		if !ok {
			break
		}
		x, i = Add(x, y), k
	}
	return x, p.ws(i), true
}

func (p *peg) shiftexpr(i int) (*Node, int, bool) {
	if x, j, ok := p.baseexpr(p.ws(i)); ok {
		j = p.ws(j)
		k, ok := p.lit(j, "<<")
		if !ok {
			k, ok = p.lit(j, "shl")
		}
		if ok {
			if s, k, ok := p.uint(p.ws(k)); ok {
				return ShiftBy(x, s), p.ws(k), true
			}
		}
	}
	j := p.ws(i)
	if k, ok := p.lit(j, "2"); ok {
		if k, ok = p.lit(p.ws(k), "*"); ok {
			if x, k, ok := p.baseexpr(p.ws(k)); ok {
				return Double(x), k, true
			}
			return p.baseexpr(i)
		}
	}
	if k, ok := p.lit(j, "dbl"); ok {
		if x, k, ok := p.baseexpr(p.ws(k)); ok {
			return Double(x), k, true
		}
	}
	return p.baseexpr(i)
}

func (p *peg) baseexpr(i int) (*Node, int, bool) {
	if r, ok := p.base[i]; ok {
		return r.n, r.end, r.ok
	}
	n, end, ok := p.baseexpr1(i)
	p.base[i] = pres{n, end, ok}
	return n, end, ok
}

func (p *peg) baseexpr1(i int) (*Node, int, bool) {
	if j, ok := p.lit(i, "("); ok {
		if e, j, ok := p.expr(p.ws(j)); ok {
			if j, ok := p.lit(p.ws(j), ")"); ok {
				return e, j, true
			}
		}
	}
	if j, ok := p.lit(i, "1"); ok {
		return Idx(0), j, true
	}
	if j, ok := p.lit(i, "["); ok {
		if u, j, ok := p.uint(p.ws(j)); ok {
			if j, ok := p.lit(p.ws(j), "]"); ok {
				return Idx(u), j, true
			}
		}
	}
	if s, j, ok := p.ident(i); ok {
		return Name(s), j, true
	}
	return nil, 0, false
}

func (p *peg) class(i int, in func(byte) bool) int {
	for i < len(p.s) && in(p.s[i]) {
		i++
	}
	return i
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func octal(c byte) bool  { return c >= '0' && c <= '7' }
func hexa(c byte) bool {
	return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (p *peg) ident(i int) (string, int, bool) {
	if i >= len(p.s) || !letter(p.s[i]) {
		return "", 0, false
	}
	j := p.class(i, func(c byte) bool { return letter(c) || digit(c) })
	return p.s[i:j], j, true
}

// LegalIdentifier reports whether the whole string is an identifier.
func LegalIdentifier(s string) bool {
	p := &peg{s: s}
	_, end, ok := p.ident(0)
	return ok && end == len(s)
}

func (p *peg) uint(i int) (uint64, int, bool) {
	if j, ok := p.lit(i, "0x"); ok {
		if k := p.class(j, hexa); k > j {
			return p.value(p.s[j:k], 16), k, true
		}
	}
	if j, ok := p.lit(i, "0"); ok {
		if k := p.class(j, octal); k > j {
			return p.value(p.s[j:k], 8), k, true
		}
	}
	if k := p.class(i, digit); k > i {
		t := p.s[i:k]
		if len(t) > 1 && t[0] == '0' {
			// A leading zero announces octal, which this is not.
			p.bad = true
			return 0, k, true
		}
		return p.value(t, 10), k, true
	}
	return 0, 0, false
}

func (p *peg) value(digits string, base int) uint64 {
	x := new(big.Int)
	for i := 0; i < len(digits); i++ {
		c := digits[i]
		v := int64(0)
		switch {
		case digit(c):
			v = int64(c - '0')
		case c >= 'a':
			v = int64(c-'a') + 10
		default:
			v = int64(c-'A') + 10
		}
		x.Mul(x, big.NewInt(int64(base)))
		x.Add(x, big.NewInt(v))
	}
	if !x.IsUint64() {
		p.bad = true
		return 0
	}
	return x.Uint64()
}

// ---- meaning ----

// Inst is an operation at the level of instructions: K is '+', '2' or '<'.
type Inst struct {
	K    byte
	Out  int
	X, Y int
	S    int
}

// Meaning of a script.
type Meaning struct {
	Chain  []*big.Int
	Ops    []Op
	Insts  []Inst
	Result uint64 // element the return statement denotes
	Names  map[string]uint64

	ZeroShift bool // some shift amount is zero (outside the semantics)
	Dangling  bool // reads an element that no instruction outputs
	Future    bool // denotes, without using it, an element not computed
}

// EvalScript evaluates statements in order and operands left to right.
func EvalScript(s Script) (*Meaning, error) {
	m := &Meaning{Chain: []*big.Int{big.NewInt(1)}}
	names := map[string]uint64{}
	outputs := map[int]bool{0: true}
	read := func(i uint64) error {
		if i >= uint64(len(m.Chain)) {
			return fmt.Errorf("element %d not computed yet", i)
		}
		if !outputs[int(i)] {
			m.Dangling = true
		}
		return nil
	}
	push := func(i, j int) {
		m.Chain = append(m.Chain, new(big.Int).Add(m.Chain[i], m.Chain[j]))
		m.Ops = append(m.Ops, Op{i, j})
	}
	var rec func(n *Node) (uint64, error)
	rec = func(n *Node) (uint64, error) {
		switch n.K {
		case 'i':
			if n.U >= uint64(len(m.Chain)) {
				m.Future = true
			}
			return n.U, nil
		case 'n':
			i, ok := names[n.S]
			if !ok {
				return 0, fmt.Errorf("undefined %s", n.S)
			}
			return i, nil
		case '+':
			x, err := rec(n.X)
			if err != nil {
				return 0, err
			}
			y, err := rec(n.Y)
			if err != nil {
				return 0, err
			}
			if err := read(x); err != nil {
				return 0, err
			}
			if err := read(y); err != nil {
				return 0, err
			}
			push(int(x), int(y))
			out := len(m.Chain) - 1
			outputs[out] = true
			m.Insts = append(m.Insts, Inst{K: '+', Out: out, X: int(x), Y: int(y)})
			return uint64(out), nil
		default:
			x, err := rec(n.X)
			if err != nil {
				return 0, err
			}
			s := uint64(1)
			if n.K == '<' {
				s = n.U
			}
			if s == 0 {
				m.ZeroShift = true
				return x, nil
			}
			if err := read(x); err != nil {
				return 0, err
			}
			k := int(x)
			for ; s > 0; s-- {
				push(k, k)
				k = len(m.Chain) - 1
			}
			outputs[k] = true
			m.Insts = append(m.Insts, Inst{K: n.K, Out: k, X: int(x), Y: int(x), S: max(1, int(n.U))})
			return uint64(k), nil
		}
	}
	for _, st := range s {
		i, err := rec(st.E)
		if err != nil {
			return nil, err
		}
		if _, dup := names[st.Name]; dup {
			return nil, fmt.Errorf("redefinition of %s", st.Name)
		}
		names[st.Name] = i
		m.Result = i
		m.Names = names
	}
	return m, nil
}

// SameOps compares operations up to the order of operands.
func SameOps(a, b []Op) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x != y && x != (Op{y[1], y[0]}) {
			return false
		}
	}
	return true
}

// Expand unrolls instructions into operations. It fails when an instruction
// reads a value that no earlier instruction outputs, or when an output index is
// not the next one.
func Expand(insts []Inst) ([]Op, error) {
	var ops []Op
	out := map[int]bool{0: true}
	for k, i := range insts {
		for _, in := range []int{i.X, i.Y} {
			if !out[in] {
				return nil, fmt.Errorf("instruction %d reads element %d, which no instruction outputs", k, in)
			}
		}
		switch i.K {
		case '+':
			ops = append(ops, Op{i.X, i.Y})
		default:
			if i.S < 1 {
				return nil, fmt.Errorf("instruction %d shifts by %d", k, i.S)
			}
			x := i.X
			for s := 0; s < i.S; s++ {
				ops = append(ops, Op{x, x})
				x = len(ops)
			}
		}
		if i.Out != len(ops) {
			return nil, fmt.Errorf("instruction %d claims output %d, it is %d", k, i.Out, len(ops))
		}
		out[i.Out] = true
	}
	return ops, nil
}

// Fold turns operations into instructions, with a shift for every longest run
// of doublings that each are read by the next only.
func Fold(ops []Op) []Inst {
	reads := make([]int, len(ops)+1)
	for _, op := range ops {
		reads[op[0]]++
		if op[1] != op[0] {
			reads[op[1]]++
		}
	}
	var p []Inst
	for k := 0; k < len(ops); k++ {
		x, y := ops[k][0], ops[k][1]
		if x != y {
			p = append(p, Inst{K: '+', Out: k + 1, X: x, Y: y, S: 1})
			continue
		}
		s := 1
		for k+1 < len(ops) && ops[k+1] == (Op{k + 1, k + 1}) && reads[k+1] == 1 {
			k++
			s++
		}
		kind := byte('<')
		if s == 1 {
			kind = '2'
		}
		p = append(p, Inst{K: kind, Out: k + 1, X: x, Y: x, S: s})
	}
	return p
}

// Plain turns operations into one instruction each.
func Plain(ops []Op) []Inst {
	var p []Inst
	for k, op := range ops {
		kind := byte('+')
		if op[0] == op[1] {
			kind = '2'
		}
		p = append(p, Inst{K: kind, Out: k + 1, X: op[0], Y: op[1], S: 1})
	}
	return p
}
