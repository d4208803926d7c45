// Command c17 decides property C17 (allocation needs no more temporaries than
// values simultaneously alive).
package main

import (
	"fmt"

	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// peak is the largest number of values alive at the same time: a value is alive
// at the points between two instructions from its computation to its last read,
// the last value also at the end.
func peak(p []ref.Inst) int {
	def := map[int]int{0: 0}
	last := map[int]int{}
	for k, i := range p {
		def[i.Out] = k + 1
		last[i.X] = k + 1
		last[i.Y] = k + 1
	}
	last[p[len(p)-1].Out] = len(p) + 1
	// Changes of the number of values alive at each point.
	step := make([]int, len(p)+2)
	for v, d := range def {
		if last[v] > d {
			step[d]++
			step[last[v]]--
		}
	}
	most, n := 0, 0
	for _, d := range step[:len(p)+1] {
		n += d
		most = max(most, n)
	}
	return most
}

func alldead(p []ref.Inst) bool {
	read := map[int]bool{}
	for _, i := range p {
		read[i.X], read[i.Y] = true, true
	}
	for _, i := range p[:len(p)-1] {
		if !read[i.Out] {
			return true
		}
	}
	return false
}

func check(w *mc.W, p []ref.Inst) error {
	if alldead(p) {
		w.Outcome("excluded-dead-value")
		return nil
	}
	w.Step(len(p))
	w.Trace(1)
	prog := glue.IR(p)
	a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
	if err := a.Execute(prog); err != nil {
		return fmt.Errorf("allocate: %w", err)
	}
	most := peak(p)
	if len(prog.Temporaries) > most {
		return fmt.Errorf("%d temporaries, at most %d values are alive at once\n%s", len(prog.Temporaries), most, prog)
	}
	// Allocating again does not need more.
	if err := a.Execute(prog); err != nil {
		return fmt.Errorf("allocate again: %w", err)
	}
	if len(prog.Temporaries) > most {
		return fmt.Errorf("allocated again: %d temporaries, at most %d values are alive at once\n%s", len(prog.Temporaries), most, prog)
	}
	w.Later(func() error {
		if len(prog.Temporaries) > most {
			return fmt.Errorf("%d temporaries later, at most %d values are alive at once\n%s", len(prog.Temporaries), most, prog)
		}
		if err := a.Execute(prog); err != nil {
			return fmt.Errorf("allocate later: %w", err)
		}
		if len(prog.Temporaries) > most {
			return fmt.Errorf("allocated later: %d temporaries, at most %d values are alive at once\n%s", len(prog.Temporaries), most, prog)
		}
		return nil
	})
	w.Max("peak", most)
	w.Outcome(fmt.Sprintf("peak-minus-temporaries-%d", min(most-len(prog.Temporaries), 3)))
	return nil
}

func main() {
	mc.Main(&mc.Check{
		Property:    "C17",
		Technique:   "bounded exhaustive enumeration of instruction programs against liveness computed from its definition",
		Families:    glue.InstFamilies(glue.Depths{Live: true, Insts: [2]int{7, 8}, Ordered: [2]int{5, 6}, Adds: [2]int{8, 9}, Large: [2]int{1<<16 + 2, 1<<17 + 2}, ThoroughShifts: []int{2}}, check),
		Assumptions: nil,
	})
}
