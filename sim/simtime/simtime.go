// Package simtime replaces the clock readings of package time. Inside a run the
// clock is the bubble's simulated clock; the wall-clock part of a reading can be
// stepped by the simulator while its monotonic part keeps advancing, which is
// what a real machine does when NTP or an operator sets the clock. (Readings
// inside a synctest bubble carry no monotonic part, so it is put in here.)
package simtime

import (
	"time"
	"unsafe"

	"verifsim/simrt"
)

type timeLayout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic   = 1 << 63
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

var base = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano() - int64(time.Hour)

func Now() time.Time {
	t := time.Now()
	w := simrt.Current()
	if w == nil {
		return t
	}
	mono := t.UnixNano() - base
	s := t.Add(time.Duration(w.WallShift))
	l := (*timeLayout)(unsafe.Pointer(&s))
	if l.wall&hasMonotonic == 0 && mono > 0 && l.ext-wallToInternal > 0 && l.ext-wallToInternal < 1<<33 {
		l.wall = hasMonotonic | uint64(l.ext-wallToInternal)<<30 | l.wall&(1<<30-1)
		l.ext = mono
	}
	return s
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func AfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(d, simrt.Callback("time.AfterFunc", f))
}
