// Package time is the standard time package on the simulation's clock.
package time

import (
	t "time"
	"unsafe"

	"verif.local/sim/simrt"
)

type (
	Duration   = t.Duration
	Time       = t.Time
	Month      = t.Month
	Weekday    = t.Weekday
	Location   = t.Location
	ParseError = t.ParseError
)

const (
	Nanosecond  = t.Nanosecond
	Microsecond = t.Microsecond
	Millisecond = t.Millisecond
	Second      = t.Second
	Minute      = t.Minute
	Hour        = t.Hour

	Layout      = t.Layout
	ANSIC       = t.ANSIC
	UnixDate    = t.UnixDate
	RubyDate    = t.RubyDate
	RFC822      = t.RFC822
	RFC822Z     = t.RFC822Z
	RFC850      = t.RFC850
	RFC1123     = t.RFC1123
	RFC1123Z    = t.RFC1123Z
	RFC3339     = t.RFC3339
	RFC3339Nano = t.RFC3339Nano
	Kitchen     = t.Kitchen
	Stamp       = t.Stamp
	StampMilli  = t.StampMilli
	StampMicro  = t.StampMicro
	StampNano   = t.StampNano
	DateTime    = t.DateTime
	DateOnly    = t.DateOnly
	TimeOnly    = t.TimeOnly

	January   = t.January
	February  = t.February
	March     = t.March
	April     = t.April
	May       = t.May
	June      = t.June
	July      = t.July
	August    = t.August
	September = t.September
	October   = t.October
	November  = t.November
	December  = t.December

	Sunday    = t.Sunday
	Monday    = t.Monday
	Tuesday   = t.Tuesday
	Wednesday = t.Wednesday
	Thursday  = t.Thursday
	Friday    = t.Friday
	Saturday  = t.Saturday
)

var (
	UTC   = t.UTC
	Local = t.UTC
)

func Now() Time               { return simrt.WallNow() }
func Since(x Time) Duration   { return Now().Sub(x) }
func Until(x Time) Duration   { return x.Sub(Now()) }
func Unix(s, ns int64) Time   { return t.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time { return t.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time { return t.UnixMicro(us).UTC() }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return t.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error)          { return t.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return t.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return t.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return t.LoadLocation(n) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return t.ParseInLocation(l, v, loc)
}

// Sleep lets virtual time pass.
func Sleep(d Duration) { simrt.Sleep(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	tm   *simrt.Timer
	race int64
}

func (x *Timer) arm(d Duration) {
	if d < 0 {
		d = 0
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&x.race))
	x.tm = simrt.AddTimer(simrt.Now()+int64(d), func() {
		if x.f != nil {
			f := x.f
			simrt.SpawnApp(func() { simrt.RaceAcquire(unsafe.Pointer(&x.race)); f() })
			return
		}
		simrt.SendKernel(x.c, Now())
	})
}

func NewTimer(d Duration) *Timer {
	simrt.Yield("newtimer")
	x := &Timer{c: make(chan Time, 1)}
	x.C = x.c
	x.arm(d)
	return x
}

func AfterFunc(d Duration, f func()) *Timer {
	simrt.Yield("afterfunc")
	x := &Timer{f: f}
	x.arm(d)
	return x
}

func (x *Timer) Stop() bool {
	simrt.Yield("timer.stop")
	return x.tm.Stop()
}

func (x *Timer) Reset(d Duration) bool {
	simrt.Yield("timer.reset")
	was := x.tm.Stop()
	x.arm(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker: a slow receiver loses ticks.
type Ticker struct {
	C      <-chan Time
	c      chan Time
	tm     *simrt.Timer
	period int64
}

func (x *Ticker) arm(at int64) {
	x.tm = simrt.AddTimer(at, func() {
		simrt.SendKernel(x.c, Now())
		x.arm(at + x.period)
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	simrt.Yield("newticker")
	x := &Ticker{c: make(chan Time, 1), period: int64(d)}
	x.C = x.c
	x.arm(simrt.Now() + x.period)
	return x
}

func (x *Ticker) Stop() {
	simrt.Yield("ticker.stop")
	x.tm.Stop()
}

func (x *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	simrt.Yield("ticker.reset")
	x.tm.Stop()
	x.period = int64(d)
	x.arm(simrt.Now() + x.period)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
