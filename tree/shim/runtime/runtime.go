// Package runtime mirrors the few standard functions library code uses.
package runtime

import (
	"runtime"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type (
	Error    = runtime.Error
	MemStats = runtime.MemStats
	Frame    = runtime.Frame
	Frames   = runtime.Frames
	Func     = runtime.Func
)

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

// Gosched lets everything else that can run go first, and some time pass.
func Gosched() {
	if simrt.InSim() {
		simrt.Sleep(1000)
	}
}
func Goexit()                                         { runtime.Goexit() }
func GC()                                             {}
func NumCPU() int                                     { return 8 }
func NumGoroutine() int                               { return 1 }
func GOMAXPROCS(int) int                              { return 8 }
func KeepAlive(x any)                                 { runtime.KeepAlive(x) }
func Caller(n int) (uintptr, string, int, bool)       { return runtime.Caller(n + 1) }
func Callers(n int, pc []uintptr) int                 { return runtime.Callers(n+1, pc) }
func CallersFrames(pc []uintptr) *Frames              { return runtime.CallersFrames(pc) }
func FuncForPC(pc uintptr) *Func                      { return runtime.FuncForPC(pc) }
func Stack(b []byte, all bool) int                    { return 0 }
func ReadMemStats(m *MemStats)                        {}
func SetFinalizer(any, any)                           {}
func Version() string                                 { return runtime.Version() }
