package exec

import (
	"fmt"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Goroutines run one at a time on host goroutines that pass a baton.

type gor struct {
	id      int
	wake    chan struct{}
	ready   func() bool // nil = runnable
	why     string
	done    bool
	quantum int64
	turn    int64 // steps since it was scheduled
	top     *frame
	vc      []int32
	sleepTo int64
	daemon  bool
	started bool
	start   func()
	spun    bool
	loads   map[*value]int
}

type sched struct {
	m        *Machine
	gs       []*gor
	cur      *gor
	now      int64 // virtual nanoseconds since the epoch
	timers   []*timer
	tickers  map[*value]*timer
	explore  bool
	bound    int  // preemption bound
	delays   bool // choices at blocking count, too
	fin      chan string
	finDet   string
	killed   bool
	finished bool
	live     int
	allDone  chan struct{}
	settling *gor
	settled  bool
	idleTick bool
	seq      int64
}

type timer struct {
	when   int64
	period int64
	ch     *chanV
	fn     value
	off    bool
	fr     *frame
	seq    int64
}

func newSched(m *Machine) *sched {
	return &sched{m: m, now: 1_700_000_000_000_000_000, tickers: map[*value]*timer{}, fin: make(chan string, 1), allDone: make(chan struct{}, 1024)}
}

func (s *sched) newG() *gor {
	g := &gor{id: len(s.gs), wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	return g
}

// finish ends the path; only the first call counts.
func (s *sched) finish(outcome, detail string) {
	if s.finished {
		return
	}
	s.finished = true
	s.finDet = detail
	s.fin <- outcome
}

func (s *sched) runMain(fn *ssa.Function) (string, string) {
	m := s.m
	g := s.newG()
	s.cur = g
	g.started = true
	s.live = 1
	go s.body(g, func() {
		m.callFn(&frame{m: m, g: g}, m.info(fn), nil, nil)
		s.finish("ok", "")
	})
	out := <-s.fin
	// unwind everything that is still parked
	s.killed = true
	for _, x := range s.gs {
		if x.started && !x.done {
			select {
			case x.wake <- struct{}{}:
			default:
			}
		}
	}
	for s.live > 0 {
		<-s.allDone
		s.live--
	}
	return out, s.finDet
}

// body runs one goroutine's code and reports how it ended.
func (s *sched) body(g *gor, f func()) {
	m := s.m
	defer func() {
		g.done = true
		r := recover()
		if !s.killed && !s.finished {
			switch x := r.(type) {
			case nil:
				if g.id != 0 {
					s.leave(g)
				}
			case *abort:
				switch x.k {
				case abInfeasible:
					s.finish("infeasible", x.msg)
				case abUnsupported:
					w := x.msg
					if g.top != nil {
						w += " at " + g.top.where()
					}
					s.finish("unsupported", w)
				case abSteps, abDepth, abMem:
					s.finish("limit", x.msg+" "+where(g))
				case abExit:
					s.finish("exit", x.msg)
				case abUnknown:
					s.finish("unknown", x.msg)
				case abDeadlock:
					s.finish("deadlock", x.msg)
				case abStop:
					s.finish("ok", x.msg)
				}
			case *targetPanic:
				w := x.where
				if w == "" {
					w = where(g)
				}
				msg := m.panicText(x.v)
				m.violation("panic", msg, w, "", m.path.model)
				s.finish("panic", msg+" at "+w)
			default:
				d := fmt.Sprint("engine: ", r)
				if e, ok := r.(runtime.Error); ok {
					d = "engine: " + e.Error()
				}
				if g.top != nil {
					d += " at " + g.top.where()
				}
				if Debug {
					d += "\n" + hostStack()
				}
				s.finish("unsupported", d)
			}
		}
		s.allDone <- struct{}{}
	}()
	f()
}

// leave hands the baton on when a goroutine ends.
func (s *sched) leave(g *gor) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(*abort); ok && a.k == abUnsupported {
				s.finish("unsupported", a.msg)
			} else {
				s.finish("unsupported", fmt.Sprint("engine: ", r))
			}
		}
	}()
	s.pick(g, false)
}

func where(g *gor) string {
	if g.top != nil {
		return g.top.whereOwn()
	}
	return ""
}

func (m *Machine) panicText(v iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	switch x := v.v.(type) {
	case string:
		return v.t.String() + ": " + x
	case *symStr:
		return v.t.String() + ": <symbolic>"
	case T:
		if x.IsConst() {
			return fmt.Sprintf("%s: %d", v.t, x.SInt())
		}
	}
	return v.t.String()
}

func (s *sched) spawn(fr *frame, ci *cinst, fv value, args []value) {
	m := s.m
	if m.initing > 0 {
		return // goroutines of package initialisers are not modelled
	}
	g := s.newG()
	if len(s.gs) > 200 {
		panic(&abort{abUnsupported, "more than 200 goroutines"})
	}
	if m.race != nil {
		m.race.fork(fr.g, g)
	}
	b := ci.b
	g.start = func() {
		s.body(g, func() {
			sub := &frame{m: m, g: g}
			if b != "" {
				m.builtin(sub, ci, args)
			} else {
				m.call(sub, fv, args)
			}
		})
	}
	s.preempt(fr.g)
}

// switchTo hands the baton to g and parks the current goroutine.
func (s *sched) switchTo(from, to *gor) {
	if from == to {
		return
	}
	s.cur = to
	to.quantum, to.turn = 0, 0
	to.loads = nil
	if !to.started {
		to.started = true
		s.live++
		go to.start()
	} else {
		to.wake <- struct{}{}
	}
	if from.done {
		return
	}
	<-from.wake
	if s.killed {
		panic(&abort{abKilled, ""})
	}
}

func (s *sched) runnable() []*gor {
	var r []*gor
	for _, g := range s.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// order returns the runnable goroutines, the round-robin successor of g first.
func (s *sched) order(g *gor, rs []*gor) []*gor {
	var a, b []*gor
	for _, x := range rs {
		if x.id > g.id {
			a = append(a, x)
		} else {
			b = append(b, x)
		}
	}
	return append(a, b...)
}

// pick chooses the next goroutine when g cannot (or should not) continue.
func (s *sched) pick(g *gor, spinning bool) {
	for {
		rs := s.runnable()
		if spinning {
			// everybody else gets a turn first
			var o []*gor
			for _, x := range rs {
				if x != g {
					o = append(o, x)
				}
			}
			if len(o) == 0 {
				if s.settled = true; s.endSettle(g) {
					return
				}
				if s.fireNext() {
					continue
				}
				return
			}
			rs = o
			// if all of them are only spinning, let time pass
			all := true
			for _, x := range rs {
				if !x.spun {
					all = false
				}
			}
			g.spun = true
			if all {
				for _, x := range s.gs {
					x.spun = false
				}
				if s.settled = true; s.endSettle(g) {
					return
				}
				s.fireNext()
			}
		}
		if len(rs) == 0 {
			if s.endSettle(g) {
				return
			}
			if s.fireNext() {
				continue
			}
			var sb strings.Builder
			for _, x := range s.gs {
				if !x.done {
					fmt.Fprintf(&sb, "goroutine %d blocked on %s at %s; ", x.id, x.why, where(x))
				}
			}
			s.m.violation("deadlock", sb.String(), "", "", s.m.path.model)
			if g.done {
				s.finish("deadlock", sb.String())
				return
			}
			panic(&abort{abDeadlock, sb.String()})
		}
		rs = s.order(g, rs)
		k := 0
		if s.explore && len(rs) > 1 && !spinning && !(s.delays && s.m.path.preempts >= s.bound) {
			s.m.path.schedDec = true
			k = s.m.choose(len(rs))
			if k > 0 && s.delays {
				s.m.path.preempts++
			}
		}
		s.goTo(g, rs[k])
		return
	}
}

// endSettle resumes the goroutine that waits for all others to block or spin.
func (s *sched) endSettle(g *gor) bool {
	x := s.settling
	if x == nil || x.done || x == g {
		return false
	}
	s.settling = nil
	s.goTo(g, x)
	return true
}

func (s *sched) goTo(g, x *gor) {
	x.ready = nil
	x.why = ""
	s.switchTo(g, x)
}

// block parks g until ready holds.
func (s *sched) block(g *gor, why string, ready func() bool) {
	if ready() {
		return
	}
	if s.m.initing > 0 {
		s.m.unsupported("blocking during package initialisation")
	}
	for !ready() {
		g.ready = ready
		g.why = why
		g.spun = false
		s.pick(g, false)
	}
	g.ready = nil
}

// preempt is called at visible operations when schedules are explored.
func (s *sched) preempt(g *gor) {
	g.loads = nil
	// environment models are atomic except where they yield
	if !s.explore || g.inModel() {
		return
	}
	s.preemptAt(g)
}

func (g *gor) inModel() bool { return g.top != nil && g.top.cd != nil && g.top.cd.model }

func (s *sched) preemptAt(g *gor) {
	if !s.explore || s.m.initing > 0 || s.m.spec > 0 {
		return
	}
	rs := s.runnable()
	if len(rs) <= 1 || s.m.path.preempts >= s.bound {
		return
	}
	var o []*gor
	for _, x := range s.order(g, rs) {
		if x != g {
			o = append(o, x)
		}
	}
	s.m.path.schedDec = true
	k := s.m.choose(len(o) + 1)
	if k == 0 {
		return
	}
	s.m.path.preempts++
	s.goTo(g, o[k-1])
}

// yield lets the others run until they block or spin.
func (s *sched) yield(g *gor) { s.pick(g, true) }

// tick runs every 1024 instructions.
func (m *Machine) tick(fr *frame) {
	p := m.path
	if p.steps > m.cfg.StepLimit {
		panic(&abort{abSteps, "step limit"})
	}
	if m.Stop != nil && m.Stop() {
		panic(&abort{abUnknown, "time budget"})
	}
	if memOver.Load() && p.steps > 4_000_000 && memOver.CompareAndSwap(true, false) {
		panic(&abort{abMem, "memory limit"})
	}
	if (fr.g.quantum > m.cfg.SpinQuantum || fr.g.turn > 2000*m.cfg.SpinQuantum) && m.initing == 0 && m.spec == 0 && len(m.sch.gs) > 1 {
		fr.g.quantum, fr.g.turn = 0, 0
		m.sch.yield(fr.g)
	}
}

// settle runs every other goroutine until all are blocked (or spinning).
func (s *sched) settle(g *gor) {
	idle := 0
	s.settled = false
	for !s.settled {
		ready := false
		s.settling = g
		g.ready = func() bool { return ready }
		g.why = "settle"
		// run others; if they spin, the step budget below ends the wait
		o := 0
		for _, x := range s.runnable() {
			if x != g {
				o++
			}
		}
		if o == 0 {
			break
		}
		s.pick(g, false)
		idle++
		if idle > 50 {
			break
		}
		ready = false
	}
	g.ready = nil
	s.settling = nil
}

// ---------------------------------------------------------------- time

func (s *sched) addTimer(t *timer) {
	s.seq++
	t.seq = s.seq
	s.timers = append(s.timers, t)
}

// fireNext advances the clock to the earliest timer or sleeper.
func (s *sched) fireNext() bool {
	best := int64(-1)
	for _, t := range s.timers {
		if t.period > 0 && t.ch != nil && len(t.ch.buf) > 0 {
			continue // nobody takes its ticks
		}
		if !t.off && (best < 0 || t.when < best) {
			best = t.when
		}
	}
	for _, g := range s.gs {
		if !g.done && g.sleepTo > 0 && (best < 0 || g.sleepTo < best) {
			best = g.sleepTo
		}
	}
	if best < 0 {
		return false
	}
	s.advance(best)
	return true
}

func (s *sched) advance(to int64) {
	if to > s.now {
		s.now = to
	}
	for {
		var t *timer
		for _, x := range s.timers {
			if !x.off && x.when <= s.now && (t == nil || x.when < t.when) {
				t = x
			}
		}
		if t == nil {
			return
		}
		if t.period > 0 {
			t.when += t.period
		} else {
			t.off = true
		}
		if t.ch != nil {
			if w := t.ch.takeRecv(); w != nil {
				w.sel.complete(w.idx, s.m.timeVal(s.now), true)
			} else if len(t.ch.buf) < 1 {
				t.ch.buf = append(t.ch.buf, chItem{v: s.m.timeVal(s.now)})
			}
		}
		if t.fn != nil {
			s.spawn(t.fr, &cinst{}, t.fn, nil)
		}
	}
}

func (s *sched) sleep(g *gor, d int64) {
	if d <= 0 {
		s.preempt(g)
		return
	}
	g.sleepTo = s.now + d
	to := g.sleepTo
	s.block(g, "sleep", func() bool { return s.now >= to })
	g.sleepTo = 0
}

// ---------------------------------------------------------------- channels

type chItem struct {
	v  value
	vc []int32
}

type chanV struct {
	buf    []chItem
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	ti     *tinfo
	vc     []int32
}

type selState struct {
	g    *gor
	done bool
	idx  int
	val  value
	ok   bool
	cl   bool // woken by close while sending
	vc   []int32
}

func (st *selState) complete(i int, v value, ok bool) {
	st.done, st.idx, st.val, st.ok = true, i, v, ok
}

type waiter struct {
	sel *selState
	idx int
	val value
	vc  []int32
}

type selCase struct {
	ch   *chanV
	send bool
	val  value
}

func (c *chanV) takeRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (c *chanV) takeSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

// sel performs a send, a receive or a select; index -1 is the default case.
func (s *sched) sel(g *gor, cases []selCase, blocking bool) (int, value, bool) {
	m := s.m
	if m.spec > 0 {
		panic(specAbort{})
	}
	s.preempt(g)
	var rdy []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || hasLive(c.ch.recvq) || len(c.ch.buf) < c.ch.cap {
				rdy = append(rdy, i)
			}
		} else if len(c.ch.buf) > 0 || hasLive(c.ch.sendq) || c.ch.closed {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && s.explore {
			m.path.schedDec = true
			k = m.choose(len(rdy))
		}
		i := rdy[k]
		v, ok := s.do(g, cases[i])
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{g: g}
	names := ""
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{sel: st, idx: i, val: c.val, vc: m.vcSnap(g)}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
			names += "send "
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
			names += "receive "
		}
	}
	s.block(g, "channel "+strings.TrimSpace(names), func() bool { return st.done })
	if st.cl {
		m.rtPanicPlain("send on closed channel")
	}
	if m.race != nil {
		m.race.join(g, st.vc)
	}
	return st.idx, st.val, st.ok
}

func (s *sched) do(g *gor, c selCase) (value, bool) {
	m := s.m
	ch := c.ch
	if c.send {
		if ch.closed {
			m.rtPanicPlain("send on closed channel")
		}
		if w := ch.takeRecv(); w != nil {
			w.sel.vc = m.vcSnap(g)
			w.sel.complete(w.idx, c.val, true)
			if m.race != nil {
				if ch.cap == 0 {
					m.race.join(g, w.vc)
				}
				m.race.tick(g)
			}
			return nil, false
		}
		ch.buf = append(ch.buf, chItem{c.val, m.vcSnap(g)})
		if m.race != nil {
			m.race.join(g, ch.vc)
			m.race.tick(g)
		}
		return nil, false
	}
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = ch.buf[1:]
		if m.race != nil {
			m.race.join(g, it.vc)
			ch.vc = m.vcSnap(g)
			m.race.tick(g)
		}
		if w := ch.takeSend(); w != nil {
			ch.buf = append(ch.buf, chItem{w.val, w.vc})
			w.sel.complete(w.idx, nil, false)
		}
		return it.v, true
	}
	if w := ch.takeSend(); w != nil {
		v := w.val
		if m.race != nil {
			m.race.join(g, w.vc)
			w.sel.vc = m.vcSnap(g)
			m.race.tick(g)
		}
		w.sel.complete(w.idx, nil, false)
		return v, true
	}
	// closed
	if m.race != nil {
		m.race.join(g, ch.vc)
	}
	return nil, false
}

func (s *sched) closeChan(g *gor, ch *chanV) {
	m := s.m
	if ch == nil {
		m.rtPanicPlain("close of nil channel")
	}
	s.preempt(g)
	if ch.closed {
		m.rtPanicPlain("close of closed channel")
	}
	ch.closed = true
	ch.vc = m.vcSnap(g)
	if m.race != nil {
		m.race.tick(g)
	}
	for {
		w := ch.takeRecv()
		if w == nil {
			break
		}
		w.sel.vc = ch.vc
		w.sel.complete(w.idx, nil, false)
	}
	for {
		w := ch.takeSend()
		if w == nil {
			break
		}
		w.sel.cl = true
		w.sel.complete(w.idx, nil, false)
	}
}

// ---------------------------------------------------------------- locks

type muState struct {
	writer  bool
	readers int
	vc      []int32
	rvc     []int32
	owner   int
	wwait   int
}

type wgState struct {
	n  int64
	vc []int32
}

func (m *Machine) mu(p *value) *muState {
	st := m.path.muState[p]
	if st == nil {
		st = &muState{}
		m.path.muState[p] = st
	}
	return st
}

func (s *sched) lock(g *gor, p *value) {
	st := s.m.mu(p)
	s.preempt(g)
	if st.writer || st.readers > 0 {
		st.wwait++
		s.block(g, "mutex", func() bool { return !st.writer && st.readers == 0 })
		st.wwait--
	}
	st.writer = true
	st.owner = g.id
	if s.m.race != nil {
		s.m.race.join(g, st.vc)
		s.m.race.join(g, st.rvc)
	}
}

func (s *sched) unlock(g *gor, p *value) {
	st := s.m.mu(p)
	if !st.writer {
		panic(&targetPanic{v: iface{s.m.errStr(), "fatal: sync: unlock of unlocked mutex"}, where: g.top.whereOwn()})
	}
	st.writer = false
	st.vc = s.m.vcSnap(g)
	if s.m.race != nil {
		s.m.race.tick(g)
	}
	s.preempt(g)
}

func (s *sched) rlock(g *gor, p *value) {
	st := s.m.mu(p)
	s.preempt(g)
	s.block(g, "rwmutex", func() bool { return !st.writer && st.wwait == 0 })
	st.readers++
	if s.m.race != nil {
		s.m.race.join(g, st.vc)
	}
}

func (s *sched) runlock(g *gor, p *value) {
	st := s.m.mu(p)
	if st.readers <= 0 {
		panic(&targetPanic{v: iface{s.m.errStr(), "fatal: sync: RUnlock of unlocked RWMutex"}, where: g.top.whereOwn()})
	}
	st.readers--
	if s.m.race != nil {
		st.rvc = vcMax(st.rvc, g.vc)
		s.m.race.tick(g)
	}
	s.preempt(g)
}

// ---------------------------------------------------------------- races

type access struct {
	g     int
	c     int32
	where string

	atomic bool
}

type cellHist struct {
	w     access
	reads []access
}

type raceDet struct {
	m     *Machine
	cells map[any]*cellHist
	seen  map[string]bool
	only  bool
	av    map[*value]*[]int32
}

func vcMax(a, b []int32) []int32 {
	if len(b) > len(a) {
		a = append(a, make([]int32, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (m *Machine) vcSnap(g *gor) []int32 {
	if m.race == nil {
		return nil
	}
	return append([]int32(nil), g.vc...)
}

func (r *raceDet) own(g *gor) int32 {
	if len(g.vc) <= g.id {
		g.vc = append(g.vc, make([]int32, g.id+1-len(g.vc))...)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc[g.id]
}

func (r *raceDet) tick(g *gor)            { r.own(g); g.vc[g.id]++ }
func (r *raceDet) join(g *gor, v []int32) { g.vc = vcMax(g.vc, v) }
func (r *raceDet) fork(p, c *gor) {
	r.own(p)
	c.vc = append([]int32(nil), p.vc...)
	r.own(c)
	r.tick(p)
}

func (r *raceDet) hb(a access, g *gor) bool {
	return a.g == g.id || a.g < len(g.vc) && a.c <= g.vc[a.g]
}

func (r *raceDet) hist(k any) *cellHist {
	h := r.cells[k]
	if h == nil {
		h = &cellHist{w: access{g: -1}}
		r.cells[k] = h
	}
	return h
}

func (r *raceDet) read(g *gor, p *value)    { r.rd(g, p) }
func (r *raceDet) write(g *gor, p *value)   { r.wr(g, p) }
func (r *raceDet) readObj(g *gor, p *mapV)  { r.rd(g, p) }
func (r *raceDet) writeObj(g *gor, p *mapV) { r.wr(g, p) }

func (r *raceDet) rd(g *gor, k any) {
	if r.m.initing > 0 || g.inModel() {
		return
	}
	r.rdAny(g, k)
}

func (r *raceDet) rdAny(g *gor, k any) {
	h := r.hist(k)
	c := r.own(g)
	if h.w.g >= 0 && !r.hb(h.w, g) {
		r.report("read", g, h.w)
	}
	for i := range h.reads {
		if h.reads[i].g == g.id && !h.reads[i].atomic {
			h.reads[i].c = c
			return
		}
	}
	h.reads = append(h.reads, access{g: g.id, c: c, where: r.at(g)})
}

func (r *raceDet) at(g *gor) string {
	if g.top == nil {
		return ""
	}
	return g.top.whereOwn()
}

func (r *raceDet) wr(g *gor, k any) {
	if r.m.initing > 0 || g.inModel() {
		return
	}
	r.wrAny(g, k)
}

func (r *raceDet) wrAny(g *gor, k any) {
	h := r.hist(k)
	c := r.own(g)
	if h.w.g >= 0 && !r.hb(h.w, g) {
		r.report("write", g, h.w)
	}
	for _, a := range h.reads {
		if !r.hb(a, g) {
			r.report("write", g, a)
		}
	}
	h.reads = h.reads[:0]
	h.w = access{g: g.id, c: c, where: r.at(g)}
}

func (r *raceDet) report(what string, g *gor, a access) {
	w := r.at(g)
	// only races that involve the code under test count
	if !r.involvesOwn(g) {
		return
	}
	msg := fmt.Sprintf("data race: %s at %s is concurrent with the access at %s", what, w, a.where)
	if r.seen[msg] {
		return
	}
	r.seen[msg] = true
	r.m.violation("race", msg, w, "", r.m.path.model)
}

func (r *raceDet) involvesOwn(g *gor) bool {
	for f := g.top; f != nil; f = f.caller {
		if f.cd != nil && f.cd.own {
			return true
		}
	}
	return false
}

// memOver is set while the live heap is beyond MemLimit; the first long path
// that sees it gives up.
var memOver atomic.Bool

// MemLimit is how much live memory all paths may hold together.
const MemLimit = 9 << 30

// WatchMemory keeps memOver up to date.
func WatchMemory() {
	ms := []metrics.Sample{{Name: "/gc/heap/live:bytes"}, {Name: "/gc/cycles/total:gc-cycles"}}
	last := uint64(0)
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(ms)
		if c := ms[1].Value.Uint64(); c > last && ms[0].Value.Uint64() > MemLimit {
			// once in two collections: the path that gave up is gone by then
			last = c + 1
			memOver.Store(true)
		} else if ms[0].Value.Uint64() <= MemLimit {
			memOver.Store(false)
		}
	}
}
