// Package runtime passes through what code may ask of the runtime.
package runtime

import (
	r "runtime"

	"verif.local/sim/simrt"
)

const (
	GOOS   = r.GOOS
	GOARCH = r.GOARCH
)

type (
	Error    = r.Error
	MemStats = r.MemStats
	Func     = r.Func
	Frames   = r.Frames
	Frame    = r.Frame
)

func Gosched()                                  { simrt.Yield("gosched") }
func GOMAXPROCS(int) int                        { return 4 }
func NumCPU() int                               { return 4 }
func NumGoroutine() int                         { return 1 }
func GC()                                       {}
func Goexit()                                   { r.Goexit() }
func KeepAlive(x interface{})                   { r.KeepAlive(x) }
func SetFinalizer(x, f interface{})             {}
func Version() string                           { return r.Version() }
func ReadMemStats(m *MemStats)                  {}
func Stack(b []byte, all bool) int              { return r.Stack(b, false) }
func Caller(s int) (uintptr, string, int, bool) { return r.Caller(s + 1) }
func Callers(s int, p []uintptr) int            { return r.Callers(s+1, p) }
func CallersFrames(p []uintptr) *Frames         { return r.CallersFrames(p) }
func FuncForPC(p uintptr) *Func                 { return r.FuncForPC(p) }
