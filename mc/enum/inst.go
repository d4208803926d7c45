package enum

import "github.com/mmcloughlin/addchain/verifmc/ref"

// InstSpace is a space of instruction programs.
type InstSpace struct {
	Max     int
	Ordered bool  // both operand orders of additions
	Shifts  []int // shift amounts
	AddOnly bool  // additions and doublings written as additions only
	AllRead bool  // every output but the last is read
	Longest bool  // only programs of exactly Max instructions
}

// Insts yields every instruction program of 1..Max instructions in which every
// input is element 0 or the output of an earlier instruction.
func Insts(sp InstSpace, shard, n int, yield func([]ref.Inst)) {
	outs := []int{0}
	reads := []int{0}
	var prog []ref.Inst
	cnt := 0
	unread := 0
	var rec func()
	use := func(i int) {
		if reads[i] == 0 && i > 0 {
			unread--
		}
		reads[i]++
	}
	unuse := func(i int) {
		reads[i]--
		if reads[i] == 0 && i > 0 {
			unread++
		}
	}
	push := func(k byte, x, y, s int) {
		use(x)
		use(y)
		last := outs[len(outs)-1]
		prog = append(prog, ref.Inst{K: k, Out: last + s, X: outs[x], Y: outs[y], S: s})
		outs = append(outs, last+s)
		reads = append(reads, 0)
		unread++
		rec()
		unread--
		reads = reads[:len(reads)-1]
		outs = outs[:len(outs)-1]
		prog = prog[:len(prog)-1]
		unuse(x)
		unuse(y)
	}
	rec = func() {
		l := len(prog)
		if l == 3 {
			cnt++
			if cnt%n != shard {
				return
			}
		}
		if l > 0 && (l >= 3 || shard == 0) && (!sp.AllRead || unread <= 1) && (!sp.Longest || l == sp.Max) {
			// With AllRead the only unread output is the last one.
			yield(prog)
		}
		if l == sp.Max {
			return
		}
		// Each further instruction reads at most two unread outputs and adds one.
		if sp.AllRead && unread-(sp.Max-l) > 1 {
			return
		}
		m := len(outs)
		for i := 0; i < m; i++ {
			for j := 0; j < m; j++ {
				if j < i && !sp.Ordered {
					continue
				}
				push('+', i, j, 1)
			}
			if !sp.AddOnly {
				push('2', i, i, 1)
			}
			for _, s := range sp.Shifts {
				push('<', i, i, s)
			}
		}
	}
	rec()
}

// Pressure yields programs that build up c live values by a word of ways to
// create them and then consume them in one of several orders.
func Pressure(c int, word []int, order int, middle bool) []ref.Inst {
	var p []ref.Inst
	next := 1
	add := func(k byte, x, y, s int) int {
		out := next + s - 1
		p = append(p, ref.Inst{K: k, Out: out, X: x, Y: y, S: s})
		next = out + 1
		return out
	}
	live := []int{}
	last := 0
	for i := 0; i < c; i++ {
		switch word[i%len(word)] {
		case 0:
			last = add('2', last, last, 1)
		case 1:
			last = add('+', last, 0, 1)
		case 2:
			last = add('<', last, last, 3)
		default:
			prev := 0
			if len(live) > 1 {
				prev = live[len(live)-2]
			}
			last = add('+', prev, last, 1)
		}
		live = append(live, last)
	}
	if middle && c > 2 {
		// Consume and rebuild in the middle, so that storage is freed and reused.
		x := live[c/2]
		y := live[c/2-1]
		z := add('+', y, x, 1)
		live[c/2-1] = z
		live = append(live[:c/2], live[c/2+1:]...)
		live = append(live, add('2', z, z, 1), add('+', z, 0, 1))
	}
	var idx []int
	m := len(live)
	for i := 0; i < m; i++ {
		switch order {
		case 0:
			idx = append(idx, i)
		case 1:
			idx = append(idx, m-1-i)
		case 2:
			if i%2 == 0 {
				idx = append(idx, i/2)
			} else {
				idx = append(idx, m-1-i/2)
			}
		default:
			// Even positions first.
			if 2*i < m {
				idx = append(idx, 2*i)
			} else if m%2 == 0 {
				idx = append(idx, 2*i-m+1)
			} else {
				idx = append(idx, 2*i-m)
			}
		}
	}
	acc := 0
	switch order {
	case 2:
		acc = live[idx[0]]
		idx = idx[1:]
	case 3:
		// Pairwise.
		cur := append([]int{}, live...)
		for len(cur) > 1 {
			var nx []int
			for i := 0; i+1 < len(cur); i += 2 {
				nx = append(nx, add('+', cur[i], cur[i+1], 1))
			}
			if len(cur)%2 == 1 {
				nx = append(nx, cur[len(cur)-1])
			}
			cur = nx
		}
		return p
	}
	for _, i := range idx {
		acc = add('+', acc, live[i], 1)
	}
	return p
}
