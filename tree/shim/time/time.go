// Package time mirrors the standard package on the virtual clock.
package time

import (
	"time"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                        { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time                      { return time.UnixMilli(ms) }
func UnixMicro(ms int64) Time                      { return time.UnixMicro(ms) }
func Parse(l, v string) (Time, error)              { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error)     { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location          { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)     { return time.LoadLocation(n) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}

// Epoch is the wall-clock time at which every simulation starts.
var Epoch = time.Date(2026, 3, 1, 8, 30, 0, 0, time.UTC)

func Now() Time              { return Epoch.Add(simrt.Now()).In(time.Local) }
func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Sleep(d Duration) {
	if !simrt.InSim() {
		return
	}
	if d <= 0 {
		simrt.Point()
		return
	}
	simrt.Sleep(d)
}

type Timer struct {
	C *simrt.Chan[Time]
	t *simrt.Timer
	f func()
}

func (t *Timer) start(d Duration) {
	if t.f != nil {
		f := t.f
		g := simrt.CurGroup()
		t.t = simrt.At(d, func() {
			if g != nil && g.Dead {
				return
			}
			simrt.GoIn(g, "AfterFunc", f)
		})
		return
	}
	c := t.C
	t.t = simrt.At(d, func() { c.TrySend(Now()) })
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: simrt.MakeChan[Time](1)}
	t.start(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func After(d Duration) *simrt.Chan[Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil && t.f == nil && t.C == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	simrt.Point()
	ok := t.t.Stop()
	if t.C != nil && t.C.Len() > 0 { // Go 1.23: no stale value after Stop
		t.C.Drain()
		ok = true
	}
	return ok
}
func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

type Ticker struct {
	C *simrt.Chan[Time]
	t *simrt.Timer
	d Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: simrt.MakeChan[Time](1), d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.t = simrt.At(t.d, func() {
		t.C.TrySend(Now())
		t.arm()
	})
}
func (t *Ticker) Stop() {
	simrt.Point()
	t.t.Stop()
	t.C.Drain()
}
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = d
	t.arm()
}
func Tick(d Duration) *simrt.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
