package simrt

import (
	"time"
	"unsafe"
)

// The wall clock may be set while a run goes on (Policy.JumpAt, JumpBy). As
// with the real clock, a reading carries a monotonic part that does not jump
// and that comparing, subtracting and deadlines go by; what drops it (Unix,
// Round, UTC ...) is left with the wall clock.

// timeRep is the layout of time.Time.
type timeRep struct {
	wall uint64
	ext  int64
	loc  unsafe.Pointer
}

const (
	hasMono    = uint64(1) << 63
	monoBase   = int64(1000000000)
	sec1885    = int64((1969*365+1969/4-1969/100+1969/400)-(1884*365+1884/4-1884/100+1884/400)) * 86400
	maxMonoSec = int64(1) << 33
)

// wallAt is the clock reading w (ns since 1970) taken at virtual time now.
func wallAt(w, now int64) time.Time {
	t := time.Unix(0, w).UTC()
	if !monoOK {
		return t
	}
	s := w/1000000000 + sec1885
	if s < 0 || s >= maxMonoSec {
		return t
	}
	p := (*timeRep)(unsafe.Pointer(&t))
	p.wall = hasMono | uint64(s)<<30 | uint64(w%1000000000)
	p.ext = now + monoBase
	return t
}

// monoOK tells whether time.Time is laid out as assumed.
var monoOK = true

func init() {
	const w = Epoch + 123456789
	a, b := wallAt(w, 5000), wallAt(w+7777777777, 6000)
	real := time.Now()
	r := (*timeRep)(unsafe.Pointer(&real))
	monoOK = unsafe.Sizeof(a) == unsafe.Sizeof(timeRep{}) && r.wall&hasMono != 0 &&
		int64(r.wall<<1>>31)-sec1885 == real.Unix() && int(r.wall&(1<<30-1)) == real.Nanosecond() &&
		b.Sub(a) == 1000 && b.Round(0).Sub(a.Round(0)) == 7777777777 && a.UnixNano() == w &&
		a.Add(3).UnixNano() == w+3 && a.Add(3).Sub(a) == 3 && b.UTC().Sub(a.UTC()) == 7777777777
}

// jumped is how far the wall clock was set since the start.
func jumped(now int64) int64 {
	var off int64
	if S != nil {
		for i, at := range S.cfg.Policy.JumpAt {
			if at > 0 && now >= at {
				off += S.cfg.Policy.JumpBy[i]
			}
		}
	}
	return off
}

// WallNow is the virtual wall clock.
func WallNow() time.Time {
	now := Now()
	off := jumped(now)
	if S != nil && off != S.jumped {
		S.jumped = off
		Fault("clock-jump")
	}
	return wallAt(Epoch+now+off, now)
}

// FromWall converts a clock reading to virtual ns; 0 for the zero time.
func FromWall(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	var n int64
	if p := (*timeRep)(unsafe.Pointer(&t)); monoOK && p.wall&hasMono != 0 {
		n = p.ext - monoBase
	} else {
		n = int64(t.Sub(time.Unix(0, Epoch+jumped(Now()))))
	}
	if n <= 0 {
		n = 1
	}
	return n
}
