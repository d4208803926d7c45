package enum

import "github.com/mmcloughlin/addchain/verifmc/ref"

// ScriptSpace is a space of scripts: exactly Statements statements with at most
// Ops operators in all, over the given leaves. Every statement but the last is
// named from Names; with Names empty the names are n0, n1, ...
type ScriptSpace struct {
	Statements int
	Ops        int
	Operands   []*ref.Node
	Names      []string
	Shifts     []uint64
	NoDouble   bool
}

// Operands lists index and name leaves.
func Operands(idx []uint64, names []string) []*ref.Node {
	var r []*ref.Node
	for _, i := range idx {
		r = append(r, ref.Idx(i))
	}
	for _, n := range names {
		r = append(r, ref.Name(n))
	}
	return r
}

// Exprs yields every expression with exactly k operators.
func Exprs(k int, leaves []*ref.Node, shifts []uint64, nodouble bool, yield func(*ref.Node)) {
	if k == 0 {
		for _, l := range leaves {
			yield(l)
		}
		return
	}
	for i := 0; i < k; i++ {
		Exprs(i, leaves, shifts, nodouble, func(x *ref.Node) {
			Exprs(k-1-i, leaves, shifts, nodouble, func(y *ref.Node) {
				yield(ref.Add(x, y))
			})
		})
	}
	Exprs(k-1, leaves, shifts, nodouble, func(x *ref.Node) {
		for _, s := range shifts {
			yield(ref.ShiftBy(x, s))
		}
		if !nodouble {
			yield(ref.Double(x))
		}
	})
}

// Scripts yields every script of the space that belongs to the shard.
func Scripts(sp ScriptSpace, shard, n int, yield func(ref.Script)) {
	cnt := 0
	cur := make(ref.Script, sp.Statements)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == sp.Statements {
			if cnt%n == shard {
				yield(cur)
			}
			cnt++
			return
		}
		names := sp.Names
		if i == sp.Statements-1 {
			names = []string{""}
		}
		for k := 0; k <= left; k++ {
			Exprs(k, sp.Operands, sp.Shifts, sp.NoDouble, func(e *ref.Node) {
				for _, name := range names {
					cur[i] = ref.Stmt{Name: name, E: e}
					rec(i+1, left-k)
				}
			})
		}
	}
	rec(0, sp.Ops)
}
