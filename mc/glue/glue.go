// Package glue converts between the reference models and the types of the code
// under test.
package glue

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Expr converts an expression of the code under test.
func Expr(e ast.Expr) *ref.Node {
	switch e := e.(type) {
	case ast.Operand:
		return ref.Idx(uint64(e))
	case ast.Identifier:
		return ref.Name(string(e))
	case ast.Add:
		return ref.Add(Expr(e.X), Expr(e.Y))
	case ast.Shift:
		return ref.ShiftBy(Expr(e.X), uint64(e.S))
	case ast.Double:
		return ref.Double(Expr(e.X))
	}
	return &ref.Node{K: '?', S: fmt.Sprintf("%T", e)}
}

// Script converts a syntax tree of the code under test.
func Script(c *ast.Chain) ref.Script {
	var s ref.Script
	for _, st := range c.Statements {
		s = append(s, ref.Stmt{Name: string(st.Name), E: Expr(st.Expr)})
	}
	return s
}

// AST builds a syntax tree of the code under test.
func AST(s ref.Script) *ast.Chain {
	c := &ast.Chain{}
	for _, st := range s {
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(st.Name), Expr: ASTExpr(st.E)})
	}
	return c
}

// ASTExpr builds an expression of the code under test.
func ASTExpr(n *ref.Node) ast.Expr {
	switch n.K {
	case 'i':
		return ast.Operand(int(n.U))
	case 'n':
		return ast.Identifier(n.S)
	case '+':
		return ast.Add{X: ASTExpr(n.X), Y: ASTExpr(n.Y)}
	case '<':
		return ast.Shift{X: ASTExpr(n.X), S: uint(n.U)}
	case '2':
		return ast.Double{X: ASTExpr(n.X)}
	}
	panic("bad node")
}

// Ops converts a program.
func Ops(p addchain.Program) []ref.Op {
	ops := make([]ref.Op, len(p))
	for i, op := range p {
		ops[i] = ref.Op{op.I, op.J}
	}
	return ops
}

// Program converts operations.
func Program(ops [][2]int) addchain.Program {
	p := make(addchain.Program, len(ops))
	for i, op := range ops {
		p[i] = addchain.Op{I: op[0], J: op[1]}
	}
	return p
}

// Ints is the list of elements.
func Ints(c addchain.Chain) []*big.Int { return []*big.Int(c) }

// Insts converts instructions.
func Insts(p *ir.Program) ([]ref.Inst, error) {
	var out []ref.Inst
	for _, i := range p.Instructions {
		switch o := i.Op.(type) {
		case ir.Add:
			out = append(out, ref.Inst{K: '+', Out: i.Output.Index, X: o.X.Index, Y: o.Y.Index})
		case ir.Double:
			out = append(out, ref.Inst{K: '2', Out: i.Output.Index, X: o.X.Index, Y: o.X.Index, S: 1})
		case ir.Shift:
			out = append(out, ref.Inst{K: '<', Out: i.Output.Index, X: o.X.Index, Y: o.X.Index, S: int(o.S)})
		default:
			return nil, fmt.Errorf("unexpected operation %T", o)
		}
	}
	return out, nil
}

// IR builds an instruction program. Every operand is its own object, as the
// package under test builds it.
func IR(insts []ref.Inst) *ir.Program {
	p := &ir.Program{}
	for _, i := range insts {
		var op ir.Op
		switch i.K {
		case '+':
			op = ir.Add{X: ir.Index(i.X), Y: ir.Index(i.Y)}
		case '2':
			op = ir.Double{X: ir.Index(i.X)}
		default:
			op = ir.Shift{X: ir.Index(i.X), S: uint(i.S)}
		}
		p.AddInstruction(&ir.Instruction{Output: ir.Index(i.Out), Op: op})
	}
	return p
}
