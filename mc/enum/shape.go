package enum

import "fmt"

// Shape is a program of a parametric family, at one size.
type Shape struct {
	Name string
	M    int
	Ops  Ops
}

func (s Shape) String() string { return fmt.Sprintf("%s(%d)", s.Name, s.M) }

// Sizes is every size up to dense, and every 2^k-1, 2^k, 2^k+1 and 2^k+2 up to
// max, and the neighbours of 100 and 1000.
func Sizes(dense, max int) []int {
	var s []int
	for m := 1; m <= dense; m++ {
		s = append(s, m)
	}
	for p := 1; p <= max; p *= 2 {
		for _, m := range []int{p - 1, p, p + 1, p + 2} {
			if m > dense && m <= max {
				s = append(s, m)
			}
		}
	}
	for p := 100; p <= max; p *= 10 {
		for _, m := range []int{p - 1, p, p + 1} {
			if m > dense && m <= max {
				s = append(s, m)
			}
		}
	}
	return s
}

type sketch struct {
	*Builder
	both bool // second operand order
}

func (s *sketch) last() int { return len(s.Ops) }

// add appends i+j and returns its position, or the position it has already.
func (s *sketch) add(i, j int) int {
	if s.both {
		i, j = j, i
	}
	if s.Builder.Add(i, j) {
		return len(s.Ops)
	}
	return len(s.Ops)
}

func (s *sketch) dbl(i, n int) int {
	for ; n > 0; n-- {
		s.Builder.Add(i, i)
		i = len(s.Ops)
	}
	return i
}

// seed builds the hub: element 1, 2, 3 or 5.
func (s *sketch) seed(kind int) int {
	switch kind {
	case 0:
		return 0
	case 1:
		return s.dbl(0, 1)
	case 2:
		return s.add(s.dbl(0, 1), 0)
	default:
		return s.add(s.dbl(0, 2), 0)
	}
}

type shape struct {
	name string
	cap  int // largest size
	make func(s *sketch, m int)
}

func shapes() []shape {
	var out []shape
	def := func(name string, cap int, f func(s *sketch, m int)) { out = append(out, shape{name, cap, f}) }
	for h := 0; h < 4; h++ {
		h := h
		// One element read m times, by consecutive steps.
		def(fmt.Sprintf("count-by-%d", h), 1<<20, func(s *sketch, m int) {
			hub := s.seed(h)
			for i := 0; i < m; i++ {
				s.add(s.last(), hub)
			}
		})
		// One element read m times, with doublings in between.
		for _, d := range []int{1, 3} {
			d := d
			def(fmt.Sprintf("shift-%d-add-%d", d, h), 1<<20/d, func(s *sketch, m int) {
				hub := s.seed(h)
				for i := 0; i < m; i++ {
					s.add(s.dbl(s.last(), d), hub)
				}
			})
		}
		// m values alive at once, each plus the hub, then summed; the hub is
		// indispensable for each of them.
		for _, desc := range []bool{false, true} {
			desc := desc
			def(fmt.Sprintf("star-%d-%v", h, desc), 600, func(s *sketch, m int) {
				hub := s.seed(h)
				var wide, star []int
				wide = append(wide, s.dbl(s.last(), 3))
				for i := 1; i < m; i++ {
					wide = append(wide, s.dbl(wide[i-1], 1))
				}
				for i := range wide {
					v := wide[i]
					if desc {
						v = wide[m-1-i]
					}
					star = append(star, s.add(v, hub))
				}
				acc := star[0]
				for _, v := range star[1:] {
					acc = s.add(acc, v)
				}
			})
		}
		// A value kept over m steps.
		def(fmt.Sprintf("gap-%d", h), 1<<20, func(s *sketch, m int) {
			hub := s.seed(h)
			v := s.dbl(hub, 1)
			for i := 1; i < m; i++ {
				v = s.add(v, s.last()-1)
			}
			s.add(s.last(), hub)
		})
	}
	// Runs of doublings.
	for _, pre := range []int{0, 2} {
		pre := pre
		def(fmt.Sprintf("run-%d", pre), 1<<20, func(s *sketch, m int) { s.dbl(s.seed(pre), m) })
		def(fmt.Sprintf("run-add-%d", pre), 1<<20, func(s *sketch, m int) {
			hub := s.seed(pre)
			s.add(s.dbl(hub, m), hub)
		})
		def(fmt.Sprintf("run-reread-%d", pre), 1<<20, func(s *sketch, m int) {
			hub := s.seed(pre)
			start := s.dbl(hub, 1)
			end := s.dbl(start, m)
			mid := (start + end) / 2
			s.add(s.add(s.add(end, mid), start), end-1)
		})
		def(fmt.Sprintf("two-runs-%d", pre), 1<<20, func(s *sketch, m int) {
			hub := s.seed(pre)
			a := s.dbl(hub, m)
			b := s.dbl(s.add(a, hub), m)
			s.add(b, a)
		})
		// Two runs from the same element.
		def(fmt.Sprintf("fork-%d", pre), 1<<20, func(s *sketch, m int) {
			hub := s.add(s.seed(pre), 0)
			hub = s.add(hub, s.last()-1)
			a := s.dbl(hub, m)
			b := s.add(hub, 0)
			b = s.dbl(b, m)
			s.add(a, b)
		})
	}
	// Runs of ones: every x_k up to m, and doubling of the length.
	def("ones", 1<<20, func(s *sketch, m int) {
		for i := 1; i < m; i++ {
			s.add(s.dbl(s.last(), 1), 0)
		}
	})
	def("ones-read-twice", 1<<20, func(s *sketch, m int) {
		// x_k is read by the doubling and by the final sum.
		for i := 1; i < m; i++ {
			s.add(s.dbl(s.last(), 1), 0)
		}
		x := s.last()
		s.add(s.add(s.dbl(x, 2), x), x)
	})
	for _, g := range []int{0, 1, 2} {
		g := g
		// 11..1 0..0 11..1 read twice: low ones without being ones.
		def(fmt.Sprintf("ones-gap-%d", g), 1<<20, func(s *sketch, m int) {
			x := 0
			for i := 1; i < m; i++ {
				x = s.add(s.dbl(x, 1), 0)
			}
			y := s.add(s.dbl(x, m+g), x)
			z := s.add(s.dbl(y, 2), y)
			s.add(s.add(z, y), x)
		})
		// 1 0..0 11..1 and 11..1 0.
		def(fmt.Sprintf("high-bit-%d", g), 1<<20, func(s *sketch, m int) {
			x := 0
			for i := 1; i < m; i++ {
				x = s.add(s.dbl(x, 1), 0)
			}
			t := s.dbl(0, m+g)
			y := s.add(t, x)
			z := s.add(s.dbl(y, 2), y)
			u := s.dbl(x, 1+g)
			v := s.add(s.add(z, u), y)
			s.add(v, u)
		})
	}
	// m values alive at once.
	for order := 0; order < 3; order++ {
		order := order
		pick := func(m, i int) int {
			switch order {
			case 0:
				return i
			case 1:
				return m - 1 - i
			}
			if i%2 == 0 {
				return i / 2
			}
			return m - 1 - i/2
		}
		waves := func(n int) func(s *sketch, m int) {
			return func(s *sketch, m int) {
				acc := s.seed(2)
				for k := 0; k < n; k++ {
					acc = s.dbl(acc, 1)
					var wide []int
					for i := 0; i < m; i++ {
						acc = s.add(s.dbl(acc, 1), 0)
						wide = append(wide, acc)
					}
					acc = wide[pick(m, 0)]
					for i := 1; i < m; i++ {
						acc = s.add(wide[pick(m, i)], acc)
					}
				}
			}
		}
		def(fmt.Sprintf("wave-%d", order), 600, waves(1))
		def(fmt.Sprintf("two-waves-%d", order), 600, waves(2))
		def(fmt.Sprintf("three-waves-%d", order), 100, waves(3))
	}
	// Growing and shrinking waves.
	def("swell", 40, func(s *sketch, m int) {
		acc := 0
		for k := 1; k <= m; k++ {
			acc = s.dbl(acc, 1)
			var wide []int
			for i := 0; i < k; i++ {
				acc = s.add(s.dbl(acc, 1), 0)
				wide = append(wide, acc)
			}
			for i := k - 2; i >= 0; i-- {
				acc = s.add(acc, wide[i])
			}
		}
	})
	// Fibonacci steps and their mix with doublings.
	def("fibonacci", 1<<20, func(s *sketch, m int) {
		s.dbl(0, 1)
		for i := 1; i < m; i++ {
			s.add(s.last(), s.last()-1)
		}
	})
	// Every earlier element is read twice, once much later.
	def("echo", 600, func(s *sketch, m int) {
		for i := 0; i < m; i++ {
			s.dbl(s.last(), 1)
		}
		for i := 1; i < m; i++ {
			s.add(s.last(), i)
		}
	})
	return out
}

// Shapes yields every parametric program at every size up to dense and around
// the powers of two up to max, in both operand orders.
func Shapes(dense, max, shard, n int, yield func(Shape)) {
	cnt := 0
	for _, sh := range shapes() {
		for _, m := range Sizes(dense, max) {
			if m > sh.cap {
				continue
			}
			for _, both := range []bool{false, true} {
				cnt++
				if cnt%n != shard {
					continue
				}
				s := &sketch{Builder: NewBuilder(), both: both}
				sh.make(s, m)
				if len(s.Ops) > 0 {
					name := sh.name
					if both {
						name += "-swapped"
					}
					yield(Shape{name, m, s.Ops})
				}
			}
		}
	}
}
