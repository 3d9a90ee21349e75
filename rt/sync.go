package zz_simrt

import (
	"fmt"
	"sort"
	"sync"
)

// Mutex replaces sync.Mutex: the real lock is taken with TryLock so that a
// waiting task hands the processor back to the simulator.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	Y()
	for !m.mu.TryLock() {
		Blocked("Mutex.Lock")
	}
	Progress()
}
func (m *Mutex) TryLock() bool { Y(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); Progress(); Y() }

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	Y()
	for !m.mu.TryLock() {
		Blocked("RWMutex.Lock")
	}
	Progress()
}
func (m *RWMutex) RLock() {
	Y()
	for !m.mu.TryRLock() {
		Blocked("RWMutex.RLock")
	}
	Progress()
}
func (m *RWMutex) TryLock() bool  { Y(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { Y(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); Progress(); Y() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); Progress(); Y() }

// RLocker replaces sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	o := &Once{}
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	if w.n < 0 {
		w.mu.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	w.mu.Unlock()
	Progress()
	Y()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		Blocked("WaitGroup.Wait")
	}
}

// Go replaces sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L   sync.Locker
	mu  sync.Mutex
	seq int
	sig int
}

// NewCond replaces sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	my := c.seq
	c.seq++
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		ok := c.sig > my
		c.mu.Unlock()
		if ok {
			break
		}
		Blocked("Cond.Wait")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if c.sig < c.seq {
		c.sig++
	}
	c.mu.Unlock()
	Progress()
	Y()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.sig = c.seq
	c.mu.Unlock()
	Progress()
	Y()
}

// Pool replaces sync.Pool: last in, first out, with items dropped when the
// simulator says so (as the garbage collector may).
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	Y()
	p.mu.Lock()
	if n := len(p.items); n > 0 && !poolDrop() {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func poolDrop() bool { return active && splitmix(&poolRng)%8 == 0 }

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	Y()
}

// Map replaces sync.Map, with a Range order the simulator controls.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { Y(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { Y(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Y()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) { Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k interface{})                            { Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool)       { Y(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool         { Y(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) Clear()                                          { Y(); m.m = sync.Map{} }
func (m *Map) Range(f func(k, v interface{}) bool) {
	var keys []interface{}
	m.m.Range(func(k, v interface{}) bool { keys = append(keys, k); return true })
	sort.SliceStable(keys, func(a, b int) bool {
		return fmt.Sprintf("%T%#v", keys[a], keys[a]) < fmt.Sprintf("%T%#v", keys[b], keys[b])
	})
	order(keys)
	for _, k := range keys {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// ---- channels ----

// Send replaces ch <- v.
func Send[T any](ch chan<- T, v T) {
	for {
		select {
		case ch <- v:
			Progress()
			Y()
			return
		default:
			Blocked("send")
		}
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	for {
		select {
		case v, ok := <-ch:
			Progress()
			Y()
			return v, ok
		default:
			Blocked("receive")
		}
	}
}
