package vs

import "time"

// Timer is a virtual-time event. Fire runs in scheduler context and must not block.
type Timer struct {
	When  int64
	seq   int64
	Fire  Firer
	armed bool
}

type Firer interface{ Fire() }

func Now() time.Time {
	if S == nil {
		return time.Unix(0, epoch)
	}
	return time.Unix(0, S.now)
}

func NowNano() int64 {
	if S == nil {
		return epoch
	}
	return S.now
}

func (t *Timer) Arm(when int64) {
	e := S
	if e == nil {
		return
	}
	t.Disarm()
	t.When = when
	t.armed = true
	e.tseq++
	t.seq = e.tseq
	e.timers = append(e.timers, t)
}

func (t *Timer) Disarm() bool {
	was := t.armed
	t.armed = false
	e := S
	if e == nil {
		return was
	}
	for i, x := range e.timers {
		if x == t {
			e.timers[i] = e.timers[len(e.timers)-1]
			e.timers[len(e.timers)-1] = nil
			e.timers = e.timers[:len(e.timers)-1]
			break
		}
	}
	return was
}

func (t *Timer) Armed() bool { return t.armed }

// fireTimer advances the clock to the earliest timer and fires it.
func (e *Exec) fireTimer() bool {
	var best *Timer
	for _, t := range e.timers {
		if best == nil || t.When < best.When || (t.When == best.When && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.When > e.now {
		e.now = best.When
	}
	best.Disarm()
	e.tracef("   clock %s", time.Duration(e.now-epoch))
	if best.Fire != nil {
		best.Fire.Fire()
	}
	return true
}

// fireTimers advances the clock and fires everything due then: what happens at the same time is concurrent.
func (e *Exec) fireTimers() bool {
	if !e.fireTimer() {
		return false
	}
	for {
		due := false
		for _, t := range e.timers {
			if t.When <= e.now {
				due = true
				break
			}
		}
		if !due {
			return true
		}
		e.fireTimer()
	}
}

// AdvanceClock moves the clock without firing anything (for sequential harnesses).
func AdvanceClock(d time.Duration) { S.now += int64(d) }

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration { return time.Duration(NowNano() - epoch) }

type sleeper struct{ woken bool }

func (s *sleeper) Enabled() bool { return s.woken }
func (s *sleeper) Fire()         { s.woken = true }

// Sleep blocks the current thread for d of virtual time.
func Sleep(d time.Duration) {
	e := S
	if e == nil || e.aborting {
		return
	}
	if d <= 0 {
		Point("sleep0")
		return
	}
	s := &sleeper{}
	t := &Timer{Fire: s}
	t.Arm(e.now + int64(d))
	Yield(s, "sleep")
}
