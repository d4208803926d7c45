// Package algs enumerates the algorithm configurations of the library.
package algs

import (
	"fmt"
	"math"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

// Seq is a sequence algorithm configuration.
type Seq struct {
	Name string
	Alg  alg.SequenceAlgorithm

	// Cost is Log if the configuration is suitable for large inputs.
	Cost int
	// Total is set unless the configuration may report failure.
	Total bool
}

// Costs of configurations: for large inputs, for inputs of a few thousand, and
// for two digit inputs.
const (
	Log = iota
	Linear
	Exponential
)

// Contfrac lists the continued fraction strategies.
func Contfrac() []Seq {
	ss := []struct {
		s    contfrac.Strategy
		cost int
	}{
		{contfrac.BinaryStrategy{}, Log},
		{contfrac.CoBinaryStrategy{}, Log},
		{contfrac.DichotomicStrategy{}, Log},
		{contfrac.SqrtStrategy{}, Log},
		{contfrac.TotalStrategy{}, Exponential},
		{contfrac.DyadicStrategy{}, Linear},
		{contfrac.FermatStrategy{}, Linear},
	}
	var r []Seq
	for _, s := range ss {
		r = append(r, Seq{Name: fmt.Sprintf("contfrac(%T)", s.s), Alg: contfrac.NewAlgorithm(s.s), Cost: s.cost, Total: true})
	}
	return r
}

var base = []struct {
	name  string
	h     heuristic.Heuristic
	total bool
}{
	{"H", heuristic.Halving{}, false},
	{"D", heuristic.DeltaLargest{}, true},
	{"A", heuristic.Approximation{}, true},
}

// Heuristics lists every composition of up to max basic heuristics, and nested
// and empty compositions.
func Heuristics(max int) []Seq {
	var r []Seq
	add := func(name string, h heuristic.Heuristic, total, log bool) {
		cost := Linear
		if log {
			cost = Log
		}
		r = append(r, Seq{Name: "heuristic(" + name + ")", Alg: heuristic.NewAlgorithm(h), Total: total, Cost: cost})
	}
	for i, b := range base {
		add(b.name, b.h, b.total, i == 0)
	}
	var rec func(hs []heuristic.Heuristic, name string, total, log bool)
	rec = func(hs []heuristic.Heuristic, name string, total, log bool) {
		add("first["+name+"]", heuristic.UseFirst(append([]heuristic.Heuristic{}, hs...)...), total, log)
		if len(hs) == max {
			return
		}
		for i, b := range base {
			l := log
			if len(hs) == 0 {
				l = i == 0
			}
			rec(append(hs, b.h), name+b.name, total || b.total, l)
		}
	}
	rec(nil, "", false, true)
	h, d, a := base[0].h, base[1].h, base[2].h
	u := heuristic.UseFirst
	add("first[first[H]D]", u(u(h), d), true, true)
	add("first[Hfirst[A]]", u(h, u(a)), true, true)
	add("first[first[HH]first[HA]]", u(u(h, h), u(h, a)), true, true)
	add("first[first[]first[first[H]D]A]", u(u(), u(u(h), d), a), true, true)
	return r
}

// Seqs lists every sequence algorithm configuration.
func Seqs(max int) []Seq { return append(Contfrac(), Heuristics(max)...) }

// Filter selects the total configurations with costs lo..hi.
func Filter(ss []Seq, lo, hi int) []Seq {
	var r []Seq
	for _, s := range ss {
		if s.Total && lo <= s.Cost && s.Cost <= hi {
			r = append(r, s)
		}
	}
	return r
}

// Decomposer is a decomposer configuration.
type Decomposer struct {
	Name string
	D    dict.Decomposer
}

// Decomposers lists the decomposers with window size up to k and run length up
// to t, and extreme settings.
func Decomposers(k, t int) []Decomposer {
	var r []Decomposer
	add := func(d dict.Decomposer) { r = append(r, Decomposer{fmt.Sprintf("%T%v", d, d), d}) }
	ext := []uint{31, 32, 33, 63, 64, 65, 127, 129, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint - 1, math.MaxUint}
	for i := 1; i <= k; i++ {
		add(dict.FixedWindow{K: uint(i)})
		add(dict.SlidingWindow{K: uint(i)})
	}
	for j := 0; j <= t; j++ {
		add(dict.RunLength{T: uint(j)})
	}
	for i := 1; i <= k; i++ {
		for j := 0; j <= t; j++ {
			add(dict.Hybrid{K: uint(i), T: uint(j)})
		}
	}
	for _, e := range ext {
		add(dict.FixedWindow{K: e})
		add(dict.SlidingWindow{K: e})
		add(dict.RunLength{T: e})
		add(dict.Hybrid{K: e, T: 0})
		add(dict.Hybrid{K: 2, T: e})
		add(dict.Hybrid{K: e, T: e})
		add(dict.Hybrid{K: e, T: 3})
	}
	return r
}

// Chain is a chain algorithm configuration.
type Chain struct {
	Name string
	Alg  alg.ChainAlgorithm
}

// Ensemble is the default ensemble.
func Ensemble() []Chain {
	var r []Chain
	for i, a := range ensemble.Ensemble() {
		r = append(r, Chain{fmt.Sprintf("ensemble[%d]", i), a})
	}
	return r
}

// WithOpt doubles the list with optimised versions.
func WithOpt(cs []Chain) []Chain {
	var r []Chain
	for _, c := range cs {
		r = append(r, c, Chain{"opt " + c.Name, opt.Algorithm{Algorithm: c.Alg}})
	}
	return r
}

// Dict combines decomposers and sequence algorithms.
func Dict(ds []Decomposer, ss []Seq) []Chain {
	var r []Chain
	for _, d := range ds {
		for _, s := range ss {
			r = append(r, Chain{"dict(" + d.Name + "," + s.Name + ")", dict.NewAlgorithm(d.D, s.Alg)})
		}
	}
	return r
}

// Runs lists the runs algorithms.
func Runs(ss []Seq) []Chain {
	var r []Chain
	for _, s := range ss {
		r = append(r, Chain{"runs(" + s.Name + ")", dict.NewRunsAlgorithm(s.Alg)})
	}
	return r
}

// Direct lists the sequence algorithms as chain algorithms, and the binary
// algorithm.
func Direct(ss []Seq) []Chain {
	r := []Chain{{"binary", binary.RightToLeft{}}}
	for _, s := range ss {
		r = append(r, Chain{"single(" + s.Name + ")", alg.AsChainAlgorithm(s.Alg)})
	}
	return r
}
