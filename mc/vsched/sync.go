package vsched

import "sync"

// Mutex replaces sync.Mutex in instrumented code: waiting for it is visible to
// the explorer.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

// Lock locks m.
func (m *Mutex) Lock() {
	if s := get(); s != nil {
		for {
			s.park(false, m.free)
			if m.mu.TryLock() {
				m.set(true)
				return
			}
			if get() == nil {
				break
			}
		}
	}
	m.mu.Lock()
	m.set(true)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	Point()
	if m.mu.TryLock() {
		m.set(true)
		return true
	}
	return false
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.set(false)
	m.mu.Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	readers int
	writer  bool
}

//go:norace
func (m *RWMutex) free() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) readable() bool { return !m.writer }

//go:norace
func (m *RWMutex) write(b bool) { m.writer = b }

//go:norace
func (m *RWMutex) read(d int) { m.readers += d }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if s := get(); s != nil {
		for {
			s.park(false, m.free)
			if m.mu.TryLock() {
				m.write(true)
				return
			}
			if get() == nil {
				break
			}
		}
	}
	m.mu.Lock()
	m.write(true)
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	m.write(false)
	m.mu.Unlock()
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if s := get(); s != nil {
		for {
			s.park(false, m.readable)
			if m.mu.TryRLock() {
				m.read(1)
				return
			}
			if get() == nil {
				break
			}
		}
	}
	m.mu.RLock()
	m.read(1)
}

// RUnlock unlocks m for reading.
func (m *RWMutex) RUnlock() {
	m.read(-1)
	m.mu.RUnlock()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	Point()
	if m.mu.TryLock() {
		m.write(true)
		return true
	}
	return false
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	Point()
	if m.mu.TryRLock() {
		m.read(1)
		return true
	}
	return false
}

// RLocker returns the reading side.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
