package simrt

import (
	"runtime"
	"unsafe"
)

// Channel operations. Channels stay real Go channels: buffering and closing
// use the runtime's own (non-blocking) operations; only waiting and the
// rendezvous of unbuffered channels happen in the kernel.

type chanWaiter struct {
	ptr  unsafe.Pointer
	task *Task
	cs   Case
	done *bool // the select this waiter belongs to has been decided
	idx  int
	out  *int
}

// Case is one channel operation of a select.
type Case interface {
	ptr() unsafe.Pointer
	isSend() bool
	capacity() int
	try() bool       // non-blocking attempt on the real channel
	meet(other Case) // rendezvous: other is the opposite operation of a parked task
}

// RecvCase receives from a channel.
type RecvCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// SendCase sends to a channel.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func NewRecv[T any](ch <-chan T) *RecvCase[T]      { return &RecvCase[T]{ch: ch} }
func NewSend[T any](ch chan<- T, v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }

func (c *RecvCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *RecvCase[T]) isSend() bool        { return false }
func (c *RecvCase[T]) capacity() int       { return cap(c.ch) }
func (c *RecvCase[T]) try() bool {
	select {
	case v, ok := <-c.ch:
		c.v, c.ok = v, ok
		return true
	default:
		return false
	}
}
func (c *RecvCase[T]) meet(o Case) {
	s := o.(*SendCase[T])
	c.v, c.ok = s.v, true
}

// Val is the received value.
func (c *RecvCase[T]) Val() T { return c.v }

// Val2 is the received value and whether the channel was open.
func (c *RecvCase[T]) Val2() (T, bool) { return c.v, c.ok }

func (c *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *SendCase[T]) isSend() bool        { return true }
func (c *SendCase[T]) capacity() int       { return cap(c.ch) }
func (c *SendCase[T]) try() bool {
	select {
	case c.ch <- c.v: // panics if closed
		return true
	default:
		return false
	}
}
func (c *SendCase[T]) meet(o Case) {
	r := o.(*RecvCase[T])
	r.v, r.ok = c.v, true
}

func (s *Sim) wakeChan(p unsafe.Pointer) {
	for _, w := range s.waiters {
		if w.ptr == p && !*w.done {
			s.ready(w.task)
		}
	}
}

func (s *Sim) findPeer(c Case) *chanWaiter {
	p := c.ptr()
	for _, w := range s.waiters {
		if w.ptr == p && !*w.done && w.cs.isSend() != c.isSend() && w.task != s.cur {
			return w
		}
	}
	return nil
}

func (s *Sim) dropWaiters(done *bool) {
	k := 0
	for _, w := range s.waiters {
		if w.done != done {
			s.waiters[k] = w
			k++
		}
	}
	for i := k; i < len(s.waiters); i++ {
		s.waiters[i] = nil
	}
	s.waiters = s.waiters[:k]
}

// attempt tries to complete one case now.
func (s *Sim) attempt(c Case) bool {
	p := c.ptr()
	if p == nil {
		return false
	}
	if c.try() {
		s.wakeChan(p)
		return true
	}
	if c.capacity() == 0 {
		if w := s.findPeer(c); w != nil {
			c.meet(w.cs)
			*w.done = true
			*w.out = w.idx
			RaceRelease(unsafe.Pointer(w.done))
			RaceAcquire(unsafe.Pointer(w.out))
			s.ready(w.task)
			return true
		}
	}
	return false
}

// Select performs one of the cases and returns its index; -1 if none is
// ready and there is a default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		for {
			for i, c := range cases {
				if c.ptr() != nil && c.try() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
			runtime.Gosched()
		}
	}
	if s.dying {
		for i, c := range cases {
			if c.ptr() != nil && !c.isSend() && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	Yield("chan")
	for {
		n := len(cases)
		off := 0
		if n > 1 {
			off = s.sel.Choose(n)
		}
		for k := 0; k < n; k++ {
			i := (off + k) % n
			if s.attempt(cases[i]) {
				s.mixHash(uint64(i), 0xc4a1)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		done, out := new(bool), new(int)
		*out = -1
		RaceRelease(unsafe.Pointer(out))
		for i, c := range cases {
			if c.ptr() != nil {
				s.waiters = append(s.waiters, &chanWaiter{ptr: c.ptr(), task: s.cur, cs: c, done: done, idx: i, out: out})
			}
		}
		s.block("chan")
		s.dropWaiters(done)
		if *done {
			RaceAcquire(unsafe.Pointer(done))
			s.mixHash(uint64(*out), 0xc4a2)
			return *out
		}
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := NewRecv(ch)
	Select(false, c)
	return c.v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := NewRecv(ch)
	Select(false, c)
	return c.v, c.ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) { Select(false, NewSend(ch, v)) }

// SendKernel is a non-blocking send from kernel context.
func SendKernel[T any](ch chan<- T, v T) bool {
	return attempt(NewSend(ch, v))
}

//go:noinline
func attempt(c Case) bool {
	if S == nil {
		return c.try()
	}
	return S.attempt(c)
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Dying() {
		defer func() { recover() }()
		close(ch)
		return
	}
	Yield("close")
	close(ch)
	wakeChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

//go:noinline
func wakeChan(p unsafe.Pointer) {
	if S != nil {
		S.wakeChan(p)
	}
}

// idle tells that there is nothing to interleave with.
//
//go:noinline
func idle() bool { return S == nil || S.dying }

// Copy is the builtin copy with a yield point between elements, so that an
// unprotected copy of shared data can be observed half done.
func Copy[T any](dst, src []T) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if n == 0 {
		return 0
	}
	sz := int(unsafe.Sizeof(dst[0]))
	RaceRead(unsafe.Pointer(&src[0]), n*sz)
	RaceWrite(unsafe.Pointer(&dst[0]), n*sz)
	if n == 1 || idle() {
		return copy(dst, src[:n])
	}
	d0, s0 := uintptr(unsafe.Pointer(&dst[0])), uintptr(unsafe.Pointer(&src[0]))
	if d0 == s0 {
		return n
	}
	P()
	if d0 > s0 && d0 < s0+uintptr(n*sz) {
		return copy(dst, src[:n])
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
		P()
	}
	return n
}

// CopyString is copy(dst, string).
func CopyString(dst []byte, src string) int { return copy(dst, src) }
