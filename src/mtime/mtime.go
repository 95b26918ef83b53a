// Package mtime is package time under the controlled scheduler: the clock is
// virtual and advances only when the scheduler lets a timer fire.
package mtime

import (
	"time"

	"flychain/zzmc/mc"
)

type (
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Time       = time.Time
	Location   = time.Location
	ParseError = time.ParseError
	Timer      = mc.Timer
	Ticker     = mc.Ticker
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}
func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func Unix(sec int64, nsec int64) Time             { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us) }
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	return time.ParseInLocation(layout, value, loc)
}

func Now() Time                             { return mc.Now() }
func Since(t Time) Duration                 { return mc.Now().Sub(t) }
func Until(t Time) Duration                 { return t.Sub(mc.Now()) }
func Sleep(d Duration)                      { mc.Sleep(d) }
func After(d Duration) <-chan Time          { return mc.After(d) }
func AfterFunc(d Duration, f func()) *Timer { return mc.AfterFunc(d, f) }
func NewTimer(d Duration) *Timer            { return mc.NewTimer(d) }
func NewTicker(d Duration) *Ticker          { return mc.NewTicker(d) }
func Tick(d Duration) <-chan Time           { return mc.Tick(d) }
