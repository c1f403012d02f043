// Package sync replaces the standard sync package inside a simulation.
package sync

import (
	"reflect"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex: barging, with a direct hand-off to a waiter that has
// waited for a millisecond.
type Mutex struct {
	locked bool
	wq     simrt.WaitQ
	race   int64
}

const starve = 1000000

func (m *Mutex) Lock() {
	simrt.Yield("lock")
	m.lockSlow()
	simrt.RaceAcquire(unsafe.Pointer(&m.race))
}

func (m *Mutex) lockSlow() {
	for m.locked {
		m.wq.Wait("mutex")
		if simrt.Handed() {
			return
		}
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Yield("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.race))
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Dying() {
		m.locked = false
		return
	}
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.race))
	if at, ok := m.wq.HeadSince(); ok && simrt.Now()-at >= starve {
		m.wq.HandOff()
	} else {
		m.locked = false
		m.wq.WakeOne()
	}
	simrt.Yield("unlock")
}

// RWMutex is sync.RWMutex (a waiting writer holds up new readers).
type RWMutex struct {
	readers int
	writer  bool
	wwait   int
	rq, wq  simrt.WaitQ
	raceW   int64
	raceR   int64
}

func (m *RWMutex) RLock() {
	simrt.Yield("rlock")
	for m.writer || m.wwait > 0 {
		m.rq.Wait("rwmutex-r")
		if simrt.Handed() {
			simrt.RaceAcquire(unsafe.Pointer(&m.raceW))
			return // counted by the writer that let us in
		}
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.raceW))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield("tryrlock")
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.raceW))
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Dying() {
		return
	}
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.raceR))
	m.readers--
	if m.readers == 0 {
		m.wq.WakeOne()
	}
	simrt.Yield("runlock")
}

func (m *RWMutex) Lock() {
	simrt.Yield("wlock")
	m.wwait++
	for m.writer || m.readers > 0 {
		m.wq.Wait("rwmutex-w")
	}
	m.wwait--
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.raceW))
	simrt.RaceAcquire(unsafe.Pointer(&m.raceR))
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield("trywlock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.raceW))
	simrt.RaceAcquire(unsafe.Pointer(&m.raceR))
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Dying() {
		m.writer = false
		return
	}
	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.raceW))
	m.writer = false
	// readers that were waiting get in before the next writer
	for m.rq.Len() > 0 {
		m.readers++
		m.rq.HandOff()
	}
	if m.readers == 0 {
		m.wq.WakeOne()
	}
	simrt.Yield("wunlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	gone int
	wq   simrt.WaitQ
	race int64
}

func (w *WaitGroup) Add(d int) {
	simrt.Yield("wg.add")
	if simrt.Dying() {
		return
	}
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.race))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.wq.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Yield("wg.wait")
	if simrt.Dying() {
		return
	}
	if w.n == 0 {
		simrt.RaceAcquire(unsafe.Pointer(&w.race))
		return
	}
	w.wq.Wait("waitgroup")
	simrt.RaceAcquire(unsafe.Pointer(&w.race))
	if w.n != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	race int64
}

func (o *Once) Do(f func()) {
	simrt.Yield("once")
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.race))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.RaceReleaseMerge(unsafe.Pointer(&o.race))
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	var bad bool
	return func() {
		o.Do(func() {
			bad = true
			defer func() {
				if bad {
					p = recover()
					panic(p)
				}
			}()
			f()
			bad = false
		})
		if bad {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	list []*condWait
}

type condWait struct {
	woken bool
	wq    simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait registers before unlocking, so a wake-up in between counts.
func (c *Cond) Wait() {
	w := &condWait{}
	c.list = append(c.list, w)
	c.L.Unlock()
	for !w.woken {
		w.wq.Wait("cond")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Yield("signal")
	if len(c.list) > 0 {
		w := c.list[0]
		c.list = c.list[1:]
		w.woken = true
		w.wq.WakeAll()
	}
}

func (c *Cond) Broadcast() {
	simrt.Yield("broadcast")
	for _, w := range c.list {
		w.woken = true
		w.wq.WakeAll()
	}
	c.list = nil
}

// Map is sync.Map, with a deterministic order.
type Map struct {
	k, v []interface{}
	race int64
}

func (m *Map) acq() { simrt.RaceAcquire(unsafe.Pointer(&m.race)) }
func (m *Map) rel() { simrt.RaceReleaseMerge(unsafe.Pointer(&m.race)) }

func (m *Map) find(key interface{}) int {
	for i, k := range m.k {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *Map) Load(key interface{}) (interface{}, bool) {
	simrt.Yield("map.load")
	m.acq()
	if i := m.find(key); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}

func (m *Map) Store(key, value interface{}) {
	simrt.Yield("map.store")
	m.store(key, value)
}

func (m *Map) store(key, value interface{}) {
	m.rel()
	if i := m.find(key); i >= 0 {
		m.v[i] = value
		return
	}
	m.k, m.v = append(m.k[:len(m.k):len(m.k)], key), append(m.v[:len(m.v):len(m.v)], value)
}

func (m *Map) del(i int) {
	k := append([]interface{}{}, m.k[:i]...)
	v := append([]interface{}{}, m.v[:i]...)
	m.k, m.v = append(k, m.k[i+1:]...), append(v, m.v[i+1:]...)
}

func (m *Map) LoadOrStore(key, value interface{}) (interface{}, bool) {
	simrt.Yield("map.loadorstore")
	m.acq()
	if i := m.find(key); i >= 0 {
		return m.v[i], true
	}
	m.store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key interface{}) (interface{}, bool) {
	simrt.Yield("map.loadanddelete")
	m.acq()
	m.rel()
	if i := m.find(key); i >= 0 {
		v := m.v[i]
		m.del(i)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value interface{}) (interface{}, bool) {
	simrt.Yield("map.swap")
	m.acq()
	if i := m.find(key); i >= 0 {
		old := m.v[i]
		m.store(key, value)
		return old, true
	}
	m.store(key, value)
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, new interface{}) bool {
	simrt.Yield("map.cas")
	m.acq()
	if i := m.find(key); i >= 0 && m.v[i] == old {
		m.store(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old interface{}) bool {
	simrt.Yield("map.cad")
	m.acq()
	m.rel()
	if i := m.find(key); i >= 0 && m.v[i] == old {
		m.del(i)
		return true
	}
	return false
}

func (m *Map) Clear() {
	simrt.Yield("map.clear")
	m.rel()
	m.k, m.v = nil, nil
}

// Range visits the keys present when it started; each at most once, with the
// value at the time of the visit, as sync.Map allows.
func (m *Map) Range(f func(key, value interface{}) bool) {
	simrt.Yield("map.range")
	ks := m.k
	for _, k := range ks {
		simrt.Yield("map.range1")
		m.acq()
		i := m.find(k)
		if i < 0 {
			continue
		}
		if !f(k, m.v[i]) {
			return
		}
	}
}

// Pool is sync.Pool. What is put back is scribbled over at once, as a
// concurrent user of the pool might, and any put object or a new one may be
// handed out next.
type Pool struct {
	New   func() interface{}
	items []interface{}
	sim   *simrt.Sim
	race  int64
}

func (p *Pool) fresh() {
	if p.sim != simrt.S {
		p.sim, p.items = simrt.S, nil
	}
}

func (p *Pool) Get() interface{} {
	simrt.Yield("pool.get")
	p.fresh()
	n := len(p.items)
	if n > 0 {
		i := n - 1
		if simrt.S != nil && !simrt.Dying() {
			switch c := simrt.NamedStream("pool").Choose(8); {
			case c == 7:
				i = -1
			case c == 6:
				i = 0
			}
		}
		if i >= 0 {
			x := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			simrt.RaceAcquire(unsafe.Pointer(&p.race))
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil || simrt.Dying() {
		return
	}
	p.fresh()
	scribble(reflect.ValueOf(x), 0)
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.race))
	p.items = append(p.items, x)
	simrt.Yield("pool.put")
}

func scribble(v reflect.Value, depth int) {
	if depth > 4 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Cap() > 0 {
			b := unsafe.Slice((*byte)(unsafe.Pointer(v.Pointer())), v.Cap())
			simrt.RaceWrite(unsafe.Pointer(&b[0]), len(b))
			for i := range b {
				b[i] = 0xA5
			}
		}
	}
}
