// Package vsched is the instrumentation side of the schedule explorer. Code
// under test calls Point before each statement (inserted in an overlay copy at
// build time); while an exploration is active each point hands control to the
// explorer, so that exactly the chosen goroutine proceeds.
package vsched

import (
	"bytes"
	"runtime"
	"sync"
)

type waiter struct {
	id    uint64
	gate  bool
	ready func() bool
	ch    chan struct{}
}

const maxwaiters = 256

// Sched holds the parked goroutines of an exploration.
type Sched struct {
	mu  sync.Mutex
	ws  [maxwaiters]*waiter
	n   int
	off bool
}

var active *Sched

// Start makes s the active scheduler; nil ends the exploration.
//
//go:norace
func Start(s *Sched) { active = s }

//go:norace
func get() *Sched {
	if s := active; s != nil && !s.off {
		return s
	}
	return nil
}

// Point is a scheduling point.
func Point() {
	if s := get(); s != nil {
		s.park(false, nil)
	}
}

// Gate is a scheduling point at which the goroutine gives up control, as if
// it blocked.
func Gate() {
	if s := get(); s != nil {
		s.park(true, nil)
	}
}

// goid identifies the goroutine; identifiers grow in creation order.
func goid() uint64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	id := uint64(0)
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

//go:norace
func (s *Sched) park(gate bool, ready func() bool) {
	raceOff()
	w := &waiter{id: goid(), gate: gate, ready: ready, ch: make(chan struct{}, 1)}
	s.mu.Lock()
	if s.off || s.n == maxwaiters {
		s.mu.Unlock()
		raceOn()
		return
	}
	i := s.n
	for ; i > 0 && s.ws[i-1].id > w.id; i-- {
		s.ws[i] = s.ws[i-1]
	}
	s.ws[i] = w
	s.n++
	s.mu.Unlock()
	<-w.ch
	raceOn()
}

// Enabled is a parked goroutine that can proceed.
type Enabled struct {
	ID   uint64
	Gate bool
}

// Enabled lists the goroutines that can proceed in creation order. The slice
// is appended to buf.
//
//go:norace
func (s *Sched) Enabled(buf []Enabled) []Enabled {
	s.mu.Lock()
	for i := 0; i < s.n; i++ {
		if w := s.ws[i]; w.ready == nil || w.ready() {
			buf = append(buf, Enabled{w.id, w.gate})
		}
	}
	s.mu.Unlock()
	return buf
}

// Release lets the goroutine run to its next point.
//
//go:norace
func (s *Sched) Release(id uint64) {
	s.mu.Lock()
	for i := 0; i < s.n; i++ {
		if w := s.ws[i]; w.id == id {
			copy(s.ws[i:], s.ws[i+1:s.n])
			s.n--
			s.ws[s.n] = nil
			s.mu.Unlock()
			w.ch <- struct{}{}
			return
		}
	}
	s.mu.Unlock()
}

// Drain lets every goroutine run freely from now on.
//
//go:norace
func (s *Sched) Drain() {
	s.mu.Lock()
	s.off = true
	for i := 0; i < s.n; i++ {
		s.ws[i].ch <- struct{}{}
	}
	s.n = 0
	s.mu.Unlock()
}

// RaceOff stops treating synchronisation of the calling goroutine as
// synchronisation of the code under test; RaceOn undoes it.
func RaceOff() { raceOff() }

// RaceOn undoes RaceOff.
func RaceOn() { raceOn() }

// Step is a scheduling point inside an algorithm: only the counted one parks.
//
//go:norace
func Step() {
	if !stepping {
		return
	}
	stepCount++
	if stepCount == stepStop {
		stepping = false
		Gate()
	}
}

var (
	stepping  bool
	stepCount int
	stepStop  int
)

// CountSteps counts the steps from now on and parks at the given one (never if
// it is zero).
//
//go:norace
func CountSteps(stop int) { stepping, stepCount, stepStop = true, 0, stop }

// EndSteps ends counting and returns the count.
//
//go:norace
func EndSteps() int { stepping = false; return stepCount }

// Self identifies the calling goroutine.
func Self() uint64 { return goid() }
