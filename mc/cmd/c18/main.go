// Command c18 decides property C18 (program builders and analyses).
package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Call of the builder.
type Call struct {
	M string // "add", "double", "shift"
	I int
	J int  `json:",omitempty"`
	S uint `json:",omitempty"`
}

// model applies a call to the list model.
func model(p []ref.Op, c Call) (q []ref.Op, ret int, ok bool) {
	in := func(i int) bool { return 0 <= i && i <= len(p) }
	q = append([]ref.Op{}, p...)
	switch c.M {
	case "add":
		if !in(c.I) || !in(c.J) {
			return p, 0, false
		}
		q = append(q, ref.Op{c.I, c.J})
	case "double":
		if !in(c.I) {
			return p, 0, false
		}
		q = append(q, ref.Op{c.I, c.I})
	case "shift":
		if !in(c.I) {
			return p, 0, false
		}
		i := c.I
		for k := uint(0); k < c.S; k++ {
			q = append(q, ref.Op{i, i})
			i = len(q)
		}
	}
	return q, len(q), true
}

func same(p addchain.Program, ops []ref.Op) bool {
	if len(p) != len(ops) {
		return false
	}
	for i, op := range p {
		a, b := ops[i][0], ops[i][1]
		if !(op.I == a && op.J == b || op.I == b && op.J == a) {
			return false
		}
	}
	return true
}

func checkHistory(w *mc.W, calls []Call) error {
	p := addchain.Program{}
	var m []ref.Op
	for n, c := range calls {
		q, ret, ok := model(m, c)
		w.Step(1)
		var got int
		var err error
		before := append(addchain.Program{}, p...)
		switch c.M {
		case "add":
			got, err = p.Add(c.I, c.J)
		case "double":
			got, err = p.Double(c.I)
		case "shift":
			got, err = p.Shift(c.I, c.S)
		}
		if ok != (err == nil) {
			return fmt.Errorf("call %d %+v on %v: error=%v, model accepts=%v", n, c, before, err, ok)
		}
		if ok && got != ret {
			return fmt.Errorf("call %d %+v on %v returned index %d, want %d", n, c, before, got, ret)
		}
		if !same(p, q) {
			return fmt.Errorf("call %d %+v on %v leaves %v, model says %v", n, c, before, p, q)
		}
		if n == len(calls)-1 {
			if ok {
				w.Outcome("accepted")
			} else {
				w.Outcome("rejected")
			}
		}
		m = q
	}
	w.Trace(1)
	return analyses(w, p, m)
}

// analyses compares every analysis of the program with its definition.
func analyses(w *mc.W, p addchain.Program, m []ref.Op) error {
	n := len(m)
	want, err := ref.Eval(m)
	if err != nil {
		return err
	}
	got := p.Evaluate()
	if len(got) != n+1 || !ref.Equal(got, want) {
		return fmt.Errorf("%v evaluates to %v, want %v", p, got, want)
	}
	var lastdeps []*big.Int
	doubles, adds := 0, 0
	reads := make([]int, n+1)
	dep := make([][]bool, n+1)
	dep[0] = make([]bool, n+1)
	dep[0][0] = true
	for k, op := range m {
		if op[0] == op[1] {
			doubles++
			reads[op[0]]++
		} else {
			adds++
			reads[op[0]]++
			reads[op[1]]++
		}
		d := make([]bool, n+1)
		for i := range d {
			d[i] = dep[op[0]][i] || dep[op[1]][i]
		}
		d[k+1] = true
		dep[k+1] = d
	}
	gd, ga := p.Count()
	if gd != doubles || ga != adds || p.Doubles() != doubles || p.Adds() != adds || gd+ga != n {
		return fmt.Errorf("%v: Count=%d,%d Doubles=%d Adds=%d want %d,%d", p, gd, ga, p.Doubles(), p.Adds(), doubles, adds)
	}
	rc := p.ReadCounts()
	pcopy := append(addchain.Program{}, p...)
	w.Later(func() error {
		if !ref.Equal(got, want) {
			return fmt.Errorf("the evaluation of %v changed to %v", m, got)
		}
		if !slices.Equal(rc, reads) {
			return fmt.Errorf("the read counts of %v changed to %v", m, rc)
		}
		if !slices.Equal(p, pcopy) {
			return fmt.Errorf("the program %v changed to %v", pcopy, p)
		}
		for k := range lastdeps {
			for i := range dep[k] {
				if dep[k][i] != (lastdeps[k].Bit(i) == 1) {
					return fmt.Errorf("the dependencies of %v changed to %v", m, lastdeps)
				}
			}
		}
		return nil
	})
	if fmt.Sprint(rc) != fmt.Sprint(reads) {
		return fmt.Errorf("%v: ReadCounts=%v want %v", p, rc, reads)
	}
	for round := 0; round < 2; round++ {
		ds := p.Dependencies()
		lastdeps = ds
		if len(ds) != n+1 {
			return fmt.Errorf("%v: %d dependency sets, want %d", p, len(ds), n+1)
		}
		for k := range ds {
			s := new(big.Int)
			for i, in := range dep[k] {
				if in {
					s.SetBit(s, i, 1)
				}
			}
			if s.Cmp(ds[k]) != 0 {
				return fmt.Errorf("%v: dependencies of %d are %b, want %b", p, k, ds[k], s)
			}
		}
	}
	for k, op := range p {
		if op.IsDouble() != (m[k][0] == m[k][1]) {
			return fmt.Errorf("IsDouble(%v)=%v", op, op.IsDouble())
		}
		wantops := []int{op.I, op.J}
		if op.I == op.J {
			wantops = wantops[:1]
		}
		if fmt.Sprint(op.Operands()) != fmt.Sprint(wantops) {
			return fmt.Errorf("Operands(%v)=%v", op, op.Operands())
		}
		for i := 0; i <= k+1; i++ {
			if op.Uses(i) != (op.I == i || op.J == i) {
				return fmt.Errorf("Uses(%v,%d)=%v", op, i, op.Uses(i))
			}
		}
	}
	if !same(p, m) {
		return fmt.Errorf("an analysis modified the program to %v", p)
	}
	return nil
}

// Prog is a program given directly.
type Prog [][2]int

func checkProgram(w *mc.W, ops Prog) error {
	p := addchain.Program{}
	var m []ref.Op
	for _, op := range ops {
		ret, err := p.Add(op[0], op[1])
		if err != nil || ret != len(m)+1 {
			return fmt.Errorf("Add(%d,%d) on %v = %d, %v", op[0], op[1], m, ret, err)
		}
		m = append(m, ref.Op(op))
		w.Step(1)
	}
	w.Trace(1)
	if err := analyses(w, p, m); err != nil {
		return err
	}
	if len(ops) > 40 {
		return nil
	}
	// The same program in a slice that held others before.
	q, _ := w.Local["program"].(addchain.Program)
	q = append(q[:0], p...)
	w.Local["program"] = q
	qd, qa := q.Count()
	pd, pa := p.Count()
	if qd != pd || qa != pa || !ref.Equal(q.Evaluate(), p.Evaluate()) || !ref.Equal(q.Dependencies(), p.Dependencies()) || fmt.Sprint(q.ReadCounts()) != fmt.Sprint(p.ReadCounts()) {
		return fmt.Errorf("%v is analysed differently in a slice that held another program before", p)
	}
	// The results are the caller's: overwriting them has no effect on later
	// analyses, nor on the program.
	ref.Scribble(p.Evaluate())
	for i, rc := 0, p.ReadCounts(); i < len(rc); i++ {
		rc[i] = -1
	}
	ref.Scribble(p.Dependencies())
	if !same(p, m) {
		return fmt.Errorf("the program changed to %v", p)
	}
	if err := analyses(w, p, m); err != nil {
		return fmt.Errorf("after earlier results were overwritten: %w", err)
	}
	return nil
}

// Long is a shift by a large amount after a program.
type Long struct {
	Before [][2]int
	I      int
	S      uint
}

func checkLong(w *mc.W, l Long) error {
	p := addchain.Program{}
	var m []ref.Op
	for _, op := range l.Before {
		if _, err := p.Add(op[0], op[1]); err != nil {
			return err
		}
		m = append(m, ref.Op(op))
	}
	w.Trace(1)
	step := func(c Call) error {
		w.Step(1)
		q, ret, ok := model(m, c)
		var got int
		var err error
		switch c.M {
		case "add":
			got, err = p.Add(c.I, c.J)
		case "double":
			got, err = p.Double(c.I)
		case "shift":
			got, err = p.Shift(c.I, c.S)
		}
		if ok != (err == nil) {
			return fmt.Errorf("%+v after %d operations: error=%v, model accepts=%v", c, len(m), err, ok)
		}
		if ok && got != ret {
			return fmt.Errorf("%+v after %d operations returned index %d, want %d", c, len(m), got, ret)
		}
		if !same(p, q) {
			return fmt.Errorf("%+v after %d operations leaves %d operations or other ones, want %d", c, len(m), len(p), len(q))
		}
		m = q
		return nil
	}
	cs := []Call{{M: "shift", I: l.I, S: l.S}}
	n := len(l.Before) + int(l.S)
	if l.I < 0 || l.I > len(l.Before) {
		n = len(l.Before)
	}
	for _, i := range []int{n, n / 2, n + 8, math.MaxInt32} {
		cs = append(cs, Call{M: "add", I: i, J: 0}, Call{M: "add", I: 1, J: i}, Call{M: "double", I: i}, Call{M: "shift", I: i, S: 3})
	}
	for _, c := range cs {
		if err := step(c); err != nil {
			return err
		}
	}
	if len(m) <= 700 {
		return analyses(w, p, m)
	}
	return counts(p, m)
}

// counts compares the analyses of linear cost with their definitions.
func counts(p addchain.Program, m []ref.Op) error {
	doubles := 0
	reads := make([]int, len(m)+1)
	for _, op := range m {
		reads[op[0]]++
		if op[0] == op[1] {
			doubles++
		} else {
			reads[op[1]]++
		}
	}
	if gd, ga := p.Count(); gd != doubles || ga != len(m)-doubles || p.Doubles() != doubles || p.Adds() != len(m)-doubles {
		return fmt.Errorf("%d operations: Count=%d,%d Doubles=%d Adds=%d want %d,%d", len(m), gd, ga, p.Doubles(), p.Adds(), doubles, len(m)-doubles)
	}
	rc := p.ReadCounts()
	if len(rc) != len(reads) {
		return fmt.Errorf("%d operations: %d read counts", len(m), len(rc))
	}
	for i := range rc {
		if rc[i] != reads[i] {
			return fmt.Errorf("%d operations: ReadCounts[%d]=%d want %d", len(m), i, rc[i], reads[i])
		}
	}
	if len(m) > 1<<13 {
		return nil
	}
	got := p.Evaluate()
	want, err := ref.Eval(m)
	if err != nil {
		return err
	}
	if len(got) != len(want) || !ref.Equal(got, want) {
		return fmt.Errorf("%d operations evaluate to another chain", len(m))
	}
	return nil
}

// Pair of ascending chains.
type Pair struct{ A, B ref.Ints }

func checkPair(w *mc.W, pr Pair) error {
	a, b := pr.A.Big(), pr.B.Big()
	mk := func(xs []*big.Int) addchain.Chain {
		// Spare capacity: an operator must not write into it.
		c := make(addchain.Chain, len(xs), len(xs)+len(b)+3)
		copy(c, ref.Clone(xs))
		return c
	}
	ca, cb := mk(a), mk(b)
	intact := func(what string) error {
		if !ref.Equal(ca, a) || !ref.Equal(cb, b) {
			return fmt.Errorf("%s modified its arguments: %v, %v", what, ca, cb)
		}
		for _, x := range ca[:cap(ca)][len(a):] {
			if x != nil {
				return fmt.Errorf("%s wrote behind its argument", what)
			}
		}
		for _, x := range cb[:cap(cb)][len(b):] {
			if x != nil {
				return fmt.Errorf("%s wrote behind its argument", what)
			}
		}
		return nil
	}
	end := a[len(a)-1]
	w.Trace(1)
	w.Step(len(a) + len(b))
	prod := addchain.Product(ca, cb)
	if err := ref.ValidChain(prod); err != nil {
		return fmt.Errorf("Product = %v: %v", prod, err)
	}
	if want := new(big.Int).Mul(end, b[len(b)-1]); prod[len(prod)-1].Cmp(want) != 0 {
		return fmt.Errorf("Product = %v does not end at %v", prod, want)
	}
	keep := ref.Clone(prod)
	if err := intact("Product"); err != nil {
		return err
	}
	for _, x := range a {
		xx := new(big.Int).Set(x)
		plus := addchain.Plus(ca, xx)
		if err := ref.ValidChain(plus); err != nil {
			return fmt.Errorf("Plus(%v) = %v: %v", x, plus, err)
		}
		if want := new(big.Int).Add(end, x); plus[len(plus)-1].Cmp(want) != 0 {
			return fmt.Errorf("Plus(%v) = %v does not end at %v", x, plus, want)
		}
		if xx.Cmp(x) != 0 {
			return fmt.Errorf("Plus modified its operand %v", x)
		}
		if err := intact("Plus"); err != nil {
			return err
		}
		// A member given by reference.
		plus2 := addchain.Plus(ca, ca[len(ca)-1])
		if want := new(big.Int).Lsh(end, 1); plus2[len(plus2)-1].Cmp(want) != 0 || !ref.Equal(plus2[:len(a)], a) {
			return fmt.Errorf("Plus(end) = %v", plus2)
		}
		if want := new(big.Int).Add(end, x); plus[len(plus)-1].Cmp(want) != 0 {
			return fmt.Errorf("a later Plus changed an earlier result to %v", plus)
		}
	}
	if err := intact("Plus"); err != nil {
		return err
	}
	if !ref.Equal(prod, keep) {
		return fmt.Errorf("the product changed afterwards to %v", prod)
	}
	return nil
}

func ascending(max int) []ref.Ints {
	var r []ref.Ints
	enum.Chains(max, 0, 1, func(c []int64) {
		for i := 1; i < len(c); i++ {
			if c[i] < c[i-1] {
				return
			}
		}
		r = append(r, ref.Strs(ref.Big(c)))
	})
	return r
}

func calls(n int, shifts []uint, extremes bool) []Call {
	var cs []Call
	idx := []int{}
	for i := -1; i <= n+1; i++ {
		idx = append(idx, i)
	}
	if extremes {
		idx = append(idx, math.MinInt64, math.MaxInt64, math.MinInt32, -2, n+2)
	}
	for _, i := range idx {
		for _, j := range idx {
			cs = append(cs, Call{M: "add", I: i, J: j})
		}
		cs = append(cs, Call{M: "double", I: i})
		for _, s := range shifts {
			cs = append(cs, Call{M: "shift", I: i, S: s})
		}
	}
	return cs
}

func main() {
	histories := mc.NewFamily("builder-histories", "every history of 1..4 builder calls with operands -1..len+1 (extreme integers in the last call), shifts by 1, 2, 3; calls that fail are part of the history",
		func(t mc.Tier) []mc.Gen[[]Call] {
			return mc.Shards("hist", 64, func(shard, n int, yield func([]Call)) {
				depth := 4
				cnt := 0
				var rec func(h []Call, m []ref.Op)
				rec = func(h []Call, m []ref.Op) {
					last := len(h) == depth-1
					for _, c := range calls(len(m), []uint{1, 2, 3}, last) {
						g := append(append([]Call{}, h...), c)
						if len(h) == 1 {
							cnt++
							if cnt%n != shard {
								continue
							}
						} else if len(h) == 0 {
							q, _, _ := model(m, c)
							if shard == 0 {
								yield(g)
							}
							rec(g, q)
							continue
						}
						yield(g)
						if !last {
							q, _, _ := model(m, c)
							rec(g, q)
						}
					}
				}
				rec(nil, nil)
			})
		}, checkHistory)

	accepted := mc.NewFamily("accepted-then-any", "every accepted history of 5 (6) add/double calls up to operand order, followed by every call with operands -1..len+1",
		func(t mc.Tier) []mc.Gen[[]Call] {
			return mc.Shards("acc", 64, func(shard, n int, yield func([]Call)) {
				depth := t.Pick(5, 6)
				cnt := 0
				var rec func(h []Call)
				rec = func(h []Call) {
					k := len(h)
					if k == 3 {
						cnt++
						if cnt%n != shard {
							return
						}
					}
					if k == depth {
						for _, c := range calls(k, []uint{1, 5}, true) {
							yield(append(append([]Call{}, h...), c))
						}
						return
					}
					for i := 0; i <= k; i++ {
						for j := i; j <= k; j++ {
							rec(append(append([]Call{}, h...), Call{M: "add", I: i, J: j}))
						}
					}
				}
				rec(nil)
			})
		}, checkHistory)

	programs := mc.NewFamily("programs", "every program of length 0..6 (7), values may repeat, both operand orders",
		func(t mc.Tier) []mc.Gen[Prog] {
			return mc.Shards("prog", 32, func(shard, n int, yield func(Prog)) {
				depth := t.Pick(5, 6)
				cnt := 0
				var rec func(p Prog)
				rec = func(p Prog) {
					k := len(p)
					if k == 3 {
						cnt++
						if cnt%n != shard {
							return
						}
					}
					if k >= 3 || shard == 0 {
						yield(append(Prog{}, p...))
					}
					if k == depth {
						return
					}
					for i := 0; i <= k; i++ {
						for j := 0; j <= k; j++ {
							rec(append(p, [2]int{i, j}))
						}
					}
				}
				rec(nil)
			})
		}, checkProgram)

	long := mc.NewFamily("long-programs", "programs from every word of period 1..3 over {double last, last+first, last+previous, last+middle, middle+first, double first}, lengths 62..66, 127..130 (255..258)",
		func(t mc.Tier) []mc.Gen[Prog] {
			return mc.Shards("long", 32, func(shard, n int, yield func(Prog)) {
				lens := []int{31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129}
				if t == mc.Thorough {
					lens = append(lens, 130, 191, 192, 255, 256, 257)
				}
				cnt := 0
				enum.Words(6, 3, func(wd []int) {
					for _, l := range lens {
						cnt++
						if !enum.Mine(cnt, shard, n) {
							continue
						}
						var p Prog
						for k := 0; k < l; k++ {
							i, j := k, k
							switch wd[k%len(wd)] {
							case 1:
								j = 0
							case 2:
								j = max(0, k-1)
							case 3:
								i, j = k/2, k
							case 4:
								i, j = k/2, 0
							case 5:
								i, j = 0, 0
							}
							p = append(p, [2]int{i, j})
						}
						yield(p)
					}
				})
			})
		}, checkProgram)

	scale := glue.ScaleTo(12, 514, 66, 1026, func(w *mc.W, s enum.Shape) error {
		if len(s.Ops) > 1600 {
			return nil
		}
		return checkProgram(w, Prog(s.Ops))
	})

	far := glue.Far(500, 1030, 4200, func(w *mc.W, s enum.Shape) error { return checkProgram(w, Prog(s.Ops)) })
	shifts := mc.NewFamily("shifts", "shift by every amount up to 300 (1100) and by 2^k+d, k up to 17 (20), |d| <= 1, from every element (and one that does not exist) of every program of up to 2 operations, then every call on the end, in the middle and behind the end",
		func(t mc.Tier) []mc.Gen[Long] {
			return mc.Shards("shifts", 64, func(shard, n int, yield func(Long)) {
				var amounts []uint
				for s := t.Pick(300, 1100); s >= 1; s-- {
					amounts = append(amounts, uint(s))
				}
				for k := t.Pick(17, 20); k >= 9; k-- {
					for d := -1; d <= 1; d++ {
						amounts = append(amounts, uint(1<<k+d))
					}
				}
				var progs [][][2]int
				progs = append(progs, nil)
				for _, a := range [][2]int{{0, 0}} {
					progs = append(progs, [][2]int{a})
					for _, b := range [][2]int{{0, 0}, {0, 1}, {1, 1}} {
						progs = append(progs, [][2]int{a, b})
					}
				}
				cnt := 0
				for _, s := range amounts {
					for _, p := range progs {
						for i := -1; i <= len(p)+1; i++ {
							if s > 1<<15 && (len(p) == 2 || i < 0) && t == mc.Quick {
								continue
							}
							cnt++
							if enum.Mine(cnt, shard, n) {
								yield(Long{p, i, s})
							}
						}
					}
				}
			})
		}, checkLong)

	pairs := mc.NewFamily("chain-pairs", "Product and Plus on every pair of ascending addition chains with up to 7 by 6 (7) elements, Plus with every member",
		func(t mc.Tier) []mc.Gen[Pair] {
			return mc.Shards("pairs", 32, func(shard, n int, yield func(Pair)) {
				as := ascending(t.Pick(7, 7))
				bs := ascending(t.Pick(6, 7))
				for i, a := range as {
					if i%n != shard {
						continue
					}
					for _, b := range bs {
						yield(Pair{a, b})
					}
				}
			})
		}, checkPair)

	longpairs := mc.NewFamily("long-chain-pairs", "Product and Plus on all pairs of ascending chains from step words of period 1..2 at lengths 5, 33, 65, 70",
		func(t mc.Tier) []mc.Gen[Pair] {
			return mc.Shards("longpairs", 16, func(shard, n int, yield func(Pair)) {
				var cs []ref.Ints
				for _, l := range []int{5, 33, 65, 70} {
					enum.Words(4, 2, func(wd []int) { cs = append(cs, ref.Strs(ref.Union(ref.LongChain(wd, l)))) })
				}
				i := 0
				for _, a := range cs {
					for _, b := range cs {
						i++
						if enum.Mine(i, shard, n) {
							yield(Pair{a, b})
						}
					}
				}
			})
		}, checkPair)

	mc.Deep(histories, programs, long, scale, far, shifts, pairs, longpairs)
	mc.Main(&mc.Check{
		Property:    "C18",
		Technique:   "bounded exhaustive enumeration of call histories against a list model",
		Families:    []*mc.Family{histories, accepted, programs, long, scale, far, shifts, pairs, longpairs},
		Assumptions: []string{"math/big is correct"},
	})
}
