// Package time replaces the standard time under simulation: same types, simulated clock.
package time

import (
	"time"

	"verif.local/simrt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = "2006-01-02 15:04:05"
	DateOnly    = "2006-01-02"
	TimeOnly    = "15:04:05"

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.UTC
	Date            = time.Date
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

func Now() Time {
	s := simrt.S
	if s == nil {
		return time.Unix(1700000000, 0).UTC()
	}
	simrt.Point()
	return time.Unix(0, s.Now()).UTC()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.SleepNS(int64(d)) }

type Ticker struct {
	C  <-chan Time
	ch chan Time
	d  Duration
	vc simrt.VC
	tm *simrt.Timer
	on bool
	s  *simrt.Sim
	p  *simrt.Proc
}

func mustTask() *simrt.Task {
	t := simrt.Cur()
	if t == nil {
		panic("simrt: timer outside the simulation")
	}
	return t
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d, on: true, s: simrt.S, p: mustTask().Proc}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.vc = nil
	t.s.Release(&t.vc)
	t.again()
}

func (t *Ticker) again() {
	t.tm = t.s.After(int64(t.d), func() {
		if t.p.Dead || !t.on {
			return
		}
		simrt.PutNB(t.ch, time.Unix(0, t.s.Now()).UTC(), t.vc)
		t.again()
	})
}

func (t *Ticker) Stop() {
	if t.s == simrt.S {
		t.on = false
		t.s.Cancel(t.tm)
	}
}
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.on = true
	t.d = d
	t.arm()
}
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C  <-chan Time
	ch chan Time
	f  func()
	vc simrt.VC // what happened before the timer was set
	tm *simrt.Timer
	s  *simrt.Sim
	p  *simrt.Proc
}

func (t *Timer) arm(d Duration) {
	t.vc = nil
	t.s.Release(&t.vc)
	t.tm = t.s.After(int64(d), func() {
		if t.p.Dead {
			return
		}
		if t.f != nil {
			vc, f := t.vc, t.f
			t.p.Go("AfterFunc", func() {
				t.s.Acquire(&vc)
				f()
			})
			return
		}
		simrt.PutNB(t.ch, time.Unix(0, t.s.Now()).UTC(), t.vc)
	})
}
func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	t := &Timer{C: ch, ch: ch, s: simrt.S, p: mustTask().Proc}
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f, s: simrt.S, p: mustTask().Proc}
	t.arm(d)
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	if t.s != simrt.S {
		return false
	}
	return t.s.Cancel(t.tm)
}
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}
