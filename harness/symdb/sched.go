package symdb

import (
	"sync"

	"verifharness/vf"
)

// Sched decides which of the goroutines that are about to issue a statement goes on.
type Sched struct {
	mu       sync.Mutex
	parked   []*thread
	arrived  int
	preempt  int
	switches int
}

type thread struct {
	kind string
	on   *txn // waits for its end
	gate chan struct{}
	cont bool
}

// NewSched makes a scheduler that takes the turn away from a goroutine that could go on at most n times.
func NewSched(n int) *Sched { return &Sched{preempt: n} }

func (s *Sched) yield(kind string, tx, on *txn) {
	if kind == "begin" || kind == "rollback" {
		// no effect on others that the next statement or the end of the thread does not show
		return
	}
	t := &thread{kind: kind, on: on, gate: make(chan struct{})}
	s.mu.Lock()
	s.parked = append(s.parked, t)
	s.mu.Unlock()
	<-t.gate
}

// Run schedules until no goroutine has a statement to execute; it is called by the goroutine that does none itself.
// The result is false if all of them wait for locks.
func (s *Sched) Run() bool {
	old := map[*thread]bool{}
	first := true
	for {
		vf.Settle()
		s.mu.Lock()
		ps := append([]*thread(nil), s.parked...)
		s.mu.Unlock()
		if len(ps) == 0 {
			return true
		}
		var cont *thread
		fresh := 0
		for _, t := range ps {
			if !old[t] {
				fresh++
				cont = t
			}
		}
		if fresh != 1 || first {
			cont = nil
		}
		first = false
		var can []*thread
		for _, t := range ps {
			if t.on == nil || t.on.done {
				can = append(can, t)
			}
		}
		if len(can) == 0 {
			return false
		}
		if cont != nil && cont.on != nil && !cont.on.done {
			cont = nil
		}
		var pick *thread
		switch {
		case len(can) == 1:
			pick = can[0]
		case cont == nil:
			pick = can[vf.Choice("turn", len(can))]
		case s.preempt <= 0:
			pick = cont
		default:
			k := vf.Choice("switch", len(can))
			if k == 0 {
				pick = cont
			} else {
				s.preempt--
				s.switches++
				for _, t := range can {
					if t == cont {
						continue
					}
					if k--; k == 0 {
						pick = t
						break
					}
				}
			}
		}
		s.mu.Lock()
		old = map[*thread]bool{}
		var rest []*thread
		for _, t := range s.parked {
			if t != pick {
				rest = append(rest, t)
				old[t] = true
			}
		}
		s.parked = rest
		s.mu.Unlock()
		close(pick.gate)
	}
}
