// Package rtime is the wall clock of the code under test.
package rtime

import (
	"time"

	"verifsim/rt"
)

// Now replaces time.Now.
func Now() time.Time {
	if s := rt.Current(); s != nil {
		return s.Now()
	}
	return time.Now()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Mono and MonoSince read the simulated clock without making readings unique.
func Mono() time.Time { return time.Now() }

// MonoSince see Mono.
func MonoSince(t time.Time) time.Duration { return time.Since(t) }

// NewTicker replaces time.NewTicker; it stops with the run.
func NewTicker(d time.Duration) *time.Ticker {
	t := time.NewTicker(d)
	if s := rt.Current(); s != nil {
		s.OnClose(t.Stop)
	}
	return t
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) { rt.Sleep(d) }
