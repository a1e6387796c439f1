package main

import (
	"sort"
	"strings"
)

// ChanV is a channel. Its fields are changed only through the trail; buf is copied on write.
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	elem   *RT
}

type selCase struct {
	send bool
	ch   *ChanV
	val  Value
}

type selWait struct {
	cases  []selCase
	seq    int
	done   bool
	idx    int
	val    Value
	ok     bool
	closed bool // woken because the channel was closed under a send
}

type timerV struct {
	id     int
	when   int64
	period int64
	ch     *ChanV
	fn     *Closure
	args   []Value
	cell   *Value // the owner, for Stop/Reset
	seq    int
}

func (w *W) setChan(c *ChanV, buf []Value, closed bool) {
	ob, oc := c.buf, c.closed
	w.undo(func() { c.buf, c.closed = ob, oc })
	c.buf, c.closed = buf, closed
}

func (w *W) waiter(c *ChanV, send bool) (*G, int) {
	var best *G
	bi := -1
	for _, g := range w.gs {
		if g.done || g.sel == nil || g.sel.done || g == w.g {
			continue
		}
		for i, cs := range g.sel.cases {
			if cs.ch == c && cs.send == send {
				if best == nil || g.sel.seq < best.sel.seq {
					best, bi = g, i
				}
				break
			}
		}
	}
	return best, bi
}

// trySend reports whether the send could complete now (and does it).
func (w *W) sendReady(c *ChanV) bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	g, _ := w.waiter(c, false)
	return g != nil
}

func (w *W) recvReady(c *ChanV) bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) > 0 {
		return true
	}
	g, _ := w.waiter(c, true)
	return g != nil
}

func (w *W) doSend(c *ChanV, v Value) {
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	if g, i := w.waiter(c, false); g != nil && len(c.buf) == 0 {
		g.sel.done, g.sel.idx, g.sel.val, g.sel.ok = true, i, v, true
		return
	}
	if len(c.buf) < c.cap {
		nb := make([]Value, len(c.buf)+1)
		copy(nb, c.buf)
		nb[len(c.buf)] = v
		w.setChan(c, nb, c.closed)
		return
	}
	panic("doSend not ready")
}

func (w *W) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		nb := append([]Value(nil), c.buf[1:]...)
		if g, i := w.waiter(c, true); g != nil {
			nb = append(nb, g.sel.cases[i].val)
			g.sel.done, g.sel.idx = true, i
		}
		w.setChan(c, nb, c.closed)
		return v, true
	}
	if g, i := w.waiter(c, true); g != nil {
		v := g.sel.cases[i].val
		g.sel.done, g.sel.idx = true, i
		return v, true
	}
	if c.closed {
		return zeroOf(c.elem), false
	}
	panic("doRecv not ready")
}

func (w *W) closeChan(c *ChanV) {
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	w.setChan(c, c.buf, true)
	for {
		g, i := w.waiter(c, false)
		if g == nil {
			break
		}
		g.sel.done, g.sel.idx, g.sel.val, g.sel.ok = true, i, zeroOf(c.elem), false
	}
	for {
		g, i := w.waiter(c, true)
		if g == nil {
			break
		}
		g.sel.done, g.sel.idx, g.sel.closed = true, i, true
	}
}

// selectOp performs a select; blocking selects may not return (block signal).
func (w *W) selectOp(cases []selCase, blocking bool) (idx int, val Value, ok bool) {
	if s := w.g.sel; s != nil {
		if !s.done {
			panic(blockSig{})
		}
		w.g.sel = nil
		if s.closed {
			w.rtPanic("send on closed channel")
		}
		return s.idx, s.val, s.ok
	}
	var ready []int
	for i, c := range cases {
		if c.send && w.sendReady(c.ch) || !c.send && w.recvReady(c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		// the choices inside database/sql (which of several finished contexts is seen
		// first) are not explored
		if len(ready) > 1 && !strings.HasPrefix(strings.TrimLeft(w.fr.fn.name, "(*"), "database/sql.") {
			k = w.choose("select", len(ready))
		}
		i := ready[k]
		if cases[i].send {
			w.doSend(cases[i].ch, cases[i].val)
			return i, Value{}, false
		}
		v, ok := w.doRecv(cases[i].ch)
		return i, v, ok
	}
	if !blocking {
		return -1, Value{}, false
	}
	w.seqs.chanSeq++
	w.g.sel = &selWait{cases: cases, seq: w.seqs.chanSeq}
	w.g.what = "channel"
	panic(blockSig{})
}

// choose returns a nondeterministic value in [0,n), as a decision of the search.
func (w *W) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := w.newVar(name, 8, 0, uint64(n-1))
	return int(w.concretize(v))
}

func (w *W) newG(f *Func, args, env []Value) *G {
	w.seqs.gid++
	g := &G{id: w.seqs.gid}
	save := w.fr
	w.fr = nil
	g.top = w.newFrame(f.asFrameFunc(), args, env, -1)
	w.fr = save
	w.gs = append(w.gs, g)
	if f.hit == 0 {
		f.hit = 1
	}
	return g
}

func (w *W) runnable(g *G) bool {
	if g.done {
		return false
	}
	if g.sel != nil {
		return g.sel.done
	}
	if g.wake > 0 {
		return w.now >= g.wake
	}
	if g.blk != nil {
		return g.blk(w)
	}
	return true
}

// switchTo makes g the running goroutine.
func (w *W) switchTo(g *G) {
	if w.g != nil && !w.g.done && w.g != g {
		w.g.top = w.fr
	}
	w.g = g
	g.blk = nil
	w.fr = g.top
}

// schedule picks the next goroutine after the current one blocked or ended.
func (w *W) schedule() string {
	if w.g != nil && !w.g.done {
		w.g.top = w.fr
	}
	for n := 0; ; n++ {
		var cand []*G
		for _, g := range w.gs {
			if w.runnable(g) {
				cand = append(cand, g)
			}
		}
		if len(cand) > 0 {
			// round robin after the current goroutine
			cur := 0
			if w.g != nil {
				cur = w.g.id
			}
			sort.SliceStable(cand, func(i, j int) bool {
				a, b := cand[i].id, cand[j].id
				if (a > cur) != (b > cur) {
					return a > cur
				}
				return a < b
			})
			g := cand[0]
			w.g = g
			g.blk = nil
			w.fr = g.top
			return ""
		}
		if !w.advance() {
			s := "deadlock:"
			for _, g := range w.gs {
				if !g.done {
					s += "\n  goroutine " + itoa(g.id) + " blocked on " + g.what + w.where(g.top)
				}
			}
			return s
		}
		if n > 100000 {
			return "bound: too many idle timer steps"
		}
	}
}

// advance moves virtual time to the next event; false if there is none.
func (w *W) advance() bool {
	next := int64(0)
	for _, g := range w.gs {
		if !g.done && g.sel == nil && g.wake > 0 && (next == 0 || g.wake < next) {
			next = g.wake
		}
	}
	for _, t := range w.timers {
		if next == 0 || t.when < next {
			next = t.when
		}
	}
	if next == 0 {
		return false
	}
	if next > w.now {
		w.now = next
	}
	w.fireTimers()
	return true
}

func (w *W) fireTimers() {
	for {
		bi := -1
		for i, t := range w.timers {
			if t.when <= w.now && (bi < 0 || t.when < w.timers[bi].when || t.when == w.timers[bi].when && t.seq < w.timers[bi].seq) {
				bi = i
			}
		}
		if bi < 0 {
			return
		}
		t := w.timers[bi]
		nt := append([]*timerV(nil), w.timers[:bi]...)
		nt = append(nt, w.timers[bi+1:]...)
		if t.period > 0 {
			c := *t
			c.when += t.period
			nt = append(nt, &c)
		}
		w.timers = nt
		if t.ch != nil {
			if len(t.ch.buf) < t.ch.cap {
				sg := w.g
				w.g = nil
				w.doSend(t.ch, w.timeValue(w.now))
				w.g = sg
			} else if g, _ := w.waiter(t.ch, false); g != nil {
				w.doSend(t.ch, w.timeValue(w.now))
			}
		}
		if t.fn != nil {
			w.newG(t.fn.Fn, t.args, t.fn.Env)
		}
	}
}

func (w *W) addTimer(t *timerV) {
	w.seqs.timerSeq++
	t.seq = w.seqs.timerSeq
	nt := append([]*timerV(nil), w.timers...)
	w.timers = append(nt, t)
}

func (w *W) delTimer(cell *Value) bool {
	var nt []*timerV
	found := false
	for _, t := range w.timers {
		if t.cell == cell {
			found = true
			continue
		}
		nt = append(nt, t)
	}
	if found {
		w.timers = nt
	}
	return found
}
