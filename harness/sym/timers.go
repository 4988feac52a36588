package sym

import "time"

// After stands for the one of time where a harness has no model of its own: the time passes in a
// goroutine, so that anything else may happen first.
//
//verif:stub time.After
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go func() {
		time.Sleep(d)
		c <- time.Time{}
	}()
	return c
}

// NewTimer stands for the one of time.
//
//verif:stub time.NewTimer
func NewTimer(d time.Duration) *time.Timer {
	return &time.Timer{C: After(d)}
}

// StopTimer stands for the one of time: nothing receives from a stopped timer.
//
//verif:stub (*time.Timer).Stop
func StopTimer(t *time.Timer) bool { return len(t.C) == 0 }
