package enum

import "fmt"

// Far yields programs whose values stay small, so that their length can be
// large: values read again, or alive, over m operations. Sizes are powers of
// two and of ten and their neighbours, from min to max.
func Far(min, max, shard, n int, yield func(Shape)) {
	var sizes []int
	for p := 1; p <= max; p *= 2 {
		sizes = append(sizes, p-1, p, p+1, p+2)
	}
	for p := 10; p <= max; p *= 10 {
		sizes = append(sizes, p-1, p, p+1, 3*p)
	}
	cnt := 0
	seen := map[int]bool{}
	for _, m := range sizes {
		if m < min || m > max || seen[m] {
			continue
		}
		seen[m] = true
		for i, sh := range farshapes {
			cnt++
			if cnt%n != shard {
				continue
			}
			s := &sketch{Builder: NewBuilder(), both: (m+i)%2 == 1}
			sh.make(s, m)
			yield(Shape{sh.name, m, s.Ops})
		}
	}
}

// climb appends m additions of the first element.
func (s *sketch) climb(m int) {
	for i := 0; i < m; i++ {
		s.add(s.last(), 0)
	}
}

var farshapes = func() []shape {
	var out []shape
	def := func(name string, f func(s *sketch, m int)) { out = append(out, shape{name: name, make: f}) }
	// An element of a run of doublings is read again m operations later.
	for _, at := range []int{0, 2, 3, 5} {
		at := at
		def(fmt.Sprintf("far-run-%d", at), func(s *sketch, m int) {
			s.dbl(0, 5)
			s.climb(m)
			s.add(s.last(), at)
		})
	}
	// The run itself comes late and its start is read before it.
	def("far-late-run", func(s *sketch, m int) {
		s.climb(m)
		x := s.dbl(s.last(), 3)
		s.add(s.add(x, x-1), m/2)
	})
	// m values alive at once, consumed in order, in reverse order and from
	// both ends.
	for order := 0; order < 3; order++ {
		order := order
		def(fmt.Sprintf("far-alive-%d", order), func(s *sketch, m int) {
			s.climb(m)
			for i := 1; i < m; i++ {
				switch {
				case order == 0 || order == 2 && i%2 == 0:
					s.add(s.last(), i)
				default:
					s.add(s.last(), m-i)
				}
			}
		})
	}
	// The first element is read for the last time after m operations.
	def("far-input", func(s *sketch, m int) {
		x := s.dbl(0, 1)
		y := s.add(x, 0)
		for i := 0; i < m; i++ {
			x, y = y, s.add(y, x%2+1)
		}
		s.add(s.add(s.last(), 0), x)
	})
	// One early value read m times.
	def("far-hub", func(s *sketch, m int) {
		h := s.add(s.dbl(0, 1), 0)
		for i := 0; i < m; i++ {
			s.add(s.last(), h)
		}
	})
	// Every element read again m/2 operations later.
	def("far-echo", func(s *sketch, m int) {
		s.climb(m/2 + 1)
		for i := 1; i < m/2; i++ {
			s.add(s.last(), s.last()-m/2)
			if s.Vals[len(s.Vals)-1].BitLen() > 4000 {
				break
			}
		}
	})
	return out
}()
