// Package vtime stands in for time: the clock is the scheduler's.
package vtime

import (
	"time"
	"unsafe"

	"github.com/browles/drip/zzv/rt/vs"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
)

func Now() Time                    { return vs.Now() }
func Since(t Time) Duration        { return vs.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(vs.Now()) }
func Sleep(d Duration)             { vs.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t vs.Timer

	tag byte // the start of a timer happens before its function
}

func (t *Timer) Fire() {
	if t.f != nil {
		vs.RaceAcquire(unsafe.Pointer(&t.tag))
		startFunc(t.f)
		return
	}
	vs.RaceDisable()
	select {
	case t.c <- vs.Now():
	default:
	}
	vs.RaceEnable()
}

func startFunc(f func()) { vs.Spawn("AfterFunc", f) }

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t.Fire = t
	t.t.Arm(vs.NowNano() + int64(d))
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	vs.RaceReleaseMerge(unsafe.Pointer(&t.tag))
	t.t.Fire = t
	t.t.Arm(vs.NowNano() + int64(d))
	return t
}

func (t *Timer) Stop() bool {
	vs.Point("Timer.Stop")
	return t.t.Disarm()
}

func (t *Timer) Reset(d Duration) bool {
	vs.Point("Timer.Reset")
	vs.RaceReleaseMerge(unsafe.Pointer(&t.tag))
	was := t.t.Disarm()
	t.t.Arm(vs.NowNano() + int64(d))
	return was
}

type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t vs.Timer
}

func (t *Ticker) Fire() {
	vs.RaceDisable()
	select {
	case t.c <- vs.Now():
	default:
	}
	vs.RaceEnable()
	t.t.Arm(t.t.When + int64(t.d))
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.t.Fire = t
	t.t.Arm(vs.NowNano() + int64(d))
	return t
}

func (t *Ticker) Stop() { t.t.Disarm() }

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.d = d
	t.t.Disarm()
	t.t.Arm(vs.NowNano() + int64(d))
}
