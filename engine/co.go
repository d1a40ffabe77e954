package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program run as coroutines: one at a time, switching only where one must wait.
// One schedule is followed, the same each time the path is taken.

type coro struct {
	wake chan struct{}
	done bool
}

type sched struct {
	list []*coro // the first is that of the harness
	cur  int
	idle int // switches since something happened
	err  any // what ended another than the first
	kill bool
	gone chan struct{}
}

type killed struct{}

// waiter is a goroutine waiting on one or more channels.
type waiter struct {
	chosen bool
	index  int
	val    Value
	ok     bool
	shut   bool // the channel to send on was closed
}

type chanWait struct {
	w     *waiter
	index int
	val   Value
}

func (c *Chan) first(q *[]chanWait) *chanWait {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.w.chosen {
			return &x
		}
	}
	return nil
}

func (it *Interp) spawn(f func()) {
	if it.initDepth > 0 {
		unsup("goroutine")
	}
	s := it.sched
	if s == nil {
		s = &sched{list: []*coro{{wake: make(chan struct{}, 1)}}, gone: make(chan struct{})}
		it.sched = s
	}
	me := &coro{wake: make(chan struct{}, 1)}
	if len(s.list) > 1000 {
		unsup("too many goroutines")
	}
	at := len(s.list)
	for i, c := range s.list {
		if c.done {
			at = i
		}
	}
	if at == len(s.list) {
		s.list = append(s.list, me)
	} else {
		s.list[at] = me
	}
	depth, fr := it.depth, it.fr
	go func() {
		defer func() {
			r := recover()
			me.done = true
			if s.kill {
				s.gone <- struct{}{}
				return
			}
			s.idle = 0
			if r != nil {
				s.err = r
				s.cur = 0
				s.list[0].wake <- struct{}{}
				return
			}
			s.pass()
		}()
		<-me.wake
		if s.kill {
			return
		}
		s.idle = 0
		it.depth, it.fr = depth, fr
		f()
	}()
}

// pass wakes the next goroutine.
func (s *sched) pass() {
	for {
		s.cur = (s.cur + 1) % len(s.list)
		if !s.list[s.cur].done {
			s.list[s.cur].wake <- struct{}{}
			return
		}
	}
}

func (s *sched) live() int {
	n := 0
	for _, c := range s.list {
		if !c.done {
			n++
		}
	}
	return n
}

// wait lets other goroutines run until the condition holds.
func (it *Interp) wait(what string, cond func() bool) {
	for !cond() {
		s := it.sched
		if s == nil || s.live() < 2 || s.idle > 2*len(s.list) {
			unsup("blocked: %s", what)
		}
		s.idle++
		at := s.cur
		me := s.list[at]
		depth, fr, cur := it.depth, it.fr, it.cur
		s.pass()
		<-me.wake
		if s.kill {
			panic(killed{})
		}
		it.depth, it.fr, it.cur = depth, fr, cur
		if at == 0 && s.err != nil {
			r := s.err
			s.err = nil
			panic(r)
		}
	}
	if it.sched != nil {
		it.sched.idle = 0
	}
}

// endSched ends the goroutines left at the end of a path.
func (it *Interp) endSched() {
	s := it.sched
	it.sched = nil
	if s == nil {
		return
	}
	s.kill = true
	for i, c := range s.list {
		if i > 0 && !c.done {
			c.wake <- struct{}{}
			<-s.gone
		}
	}
}

// trySend sends without waiting.
func (it *Interp) trySend(c *Chan, v Value) bool {
	if c == nil {
		return false
	}
	if c.closed {
		it.rtPanic("send on closed channel")
	}
	if x := c.first(&c.recvq); x != nil {
		x.w.chosen, x.w.index, x.w.val, x.w.ok = true, x.index, v, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

// tryRecv receives without waiting.
func (it *Interp) tryRecv(c *Chan, et types.Type) (v Value, ok, got bool) {
	if c == nil {
		return nil, false, false
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if x := c.first(&c.sendq); x != nil {
			x.w.chosen, x.w.index = true, x.index
			c.buf = append(c.buf, x.val)
		}
		return v, true, true
	}
	if x := c.first(&c.sendq); x != nil {
		x.w.chosen, x.w.index = true, x.index
		return x.val, true, true
	}
	if c.closed {
		return zero(et), false, true
	}
	return nil, false, false
}

func (it *Interp) send(c *Chan, v Value) {
	if it.trySend(c, v) {
		return
	}
	w := &waiter{}
	if c != nil {
		c.sendq = append(c.sendq, chanWait{w: w, val: v})
	}
	it.wait("channel send", func() bool { return w.chosen })
	if w.shut {
		it.rtPanic("send on closed channel")
	}
}

func (it *Interp) recv(c *Chan, et types.Type) (Value, bool) {
	if v, ok, got := it.tryRecv(c, et); got {
		return v, ok
	}
	w := &waiter{}
	if c != nil {
		c.recvq = append(c.recvq, chanWait{w: w})
	}
	it.wait("channel receive", func() bool { return w.chosen })
	if !w.ok {
		return zero(et), false
	}
	return w.val, true
}

func (it *Interp) closeChan(c *Chan) {
	if c == nil {
		it.rtPanic("close of nil channel")
	}
	if c.closed {
		it.rtPanic("close of closed channel")
	}
	c.closed = true
	for x := c.first(&c.recvq); x != nil; x = c.first(&c.recvq) {
		x.w.chosen, x.w.index = true, x.index
	}
	for x := c.first(&c.sendq); x != nil; x = c.first(&c.sendq) {
		x.w.chosen, x.w.index, x.w.shut = true, x.index, true
	}
}

func (e *Engine) compileSelect(in *ssa.Select, dst int, op func(ssa.Value) opnd) execFn {
	type st struct {
		dir  types.ChanDir
		ch   opnd
		send *opnd
		et   types.Type
		recv int // which of the received values
	}
	var sts []st
	recvs := 0
	for _, s := range in.States {
		x := st{dir: s.Dir, ch: op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			o := op(s.Send)
			x.send = &o
		}
		if s.Dir == types.RecvOnly {
			x.recv = recvs
			recvs++
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		it := fr.it
		var recv []Value
		for _, s := range sts {
			if s.dir == types.RecvOnly {
				recv = append(recv, zero(s.et))
			}
		}
		for i, s := range sts {
			c, _ := s.ch.get(fr).(*Chan)
			if s.dir == types.RecvOnly {
				if v, ok, got := it.tryRecv(c, s.et); got {
					recv[s.recv] = v
					fr.env[dst] = append(Tuple{I(i), ok}, recv...)
					return
				}
			} else if it.trySend(c, copyVal(s.send.get(fr))) {
				fr.env[dst] = append(Tuple{I(i), false}, recv...)
				return
			}
		}
		if !blocking {
			fr.env[dst] = append(Tuple{I(-1), false}, recv...)
			return
		}
		w := &waiter{}
		for i, s := range sts {
			c, _ := s.ch.get(fr).(*Chan)
			if c == nil {
				continue
			}
			if s.dir == types.RecvOnly {
				c.recvq = append(c.recvq, chanWait{w: w, index: i})
			} else {
				c.sendq = append(c.sendq, chanWait{w: w, index: i, val: copyVal(s.send.get(fr))})
			}
		}
		it.wait("select", func() bool { return w.chosen })
		if w.shut {
			it.rtPanic("send on closed channel")
		}
		if s := sts[w.index]; s.dir == types.RecvOnly && w.ok {
			recv[s.recv] = w.val
		}
		fr.env[dst] = append(Tuple{I(w.index), w.ok}, recv...)
	}
}

// lock is the state of a mutex, wait group or the contents of a map shared by goroutines.
type lock struct {
	writers, readers, count int
	m                       *Map
}

func (it *Interp) lockOf(v Value) *lock {
	p, ok := v.(Ptr)
	if !ok {
		unsup("lock at %T", v)
	}
	if p == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := it.locks[p]
	if l == nil {
		l = &lock{}
		it.locks[p] = l
	}
	return l
}

func (it *Interp) many() bool { return it.sched != nil && it.sched.live() > 1 }

func coIntrinsics(in func(name string, f intrinsic)) {
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		in(t+".Lock", func(it *Interp, a []Value) Value {
			l := it.lockOf(a[0])
			if it.many() {
				it.wait("lock", func() bool { return l.writers <= 0 && l.readers <= 0 })
			}
			l.writers++
			return nil
		})
		in(t+".TryLock", func(it *Interp, a []Value) Value {
			l := it.lockOf(a[0])
			if l.writers > 0 || l.readers > 0 {
				return false
			}
			l.writers++
			return true
		})
		in(t+".Unlock", func(it *Interp, a []Value) Value { it.lockOf(a[0]).writers--; return nil })
	}
	in("(*sync.RWMutex).RLock", func(it *Interp, a []Value) Value {
		l := it.lockOf(a[0])
		if it.many() {
			it.wait("lock", func() bool { return l.writers <= 0 })
		}
		l.readers++
		return nil
	})
	in("(*sync.RWMutex).RUnlock", func(it *Interp, a []Value) Value { it.lockOf(a[0]).readers--; return nil })
	in("(*sync.WaitGroup).Add", func(it *Interp, a []Value) Value {
		n, ok := a[1].(I)
		if !ok {
			unsup("wait group of %T", a[1])
		}
		l := it.lockOf(a[0])
		if l.count += int(n); l.count < 0 {
			it.rtPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	in("(*sync.WaitGroup).Done", func(it *Interp, a []Value) Value {
		l := it.lockOf(a[0])
		if l.count--; l.count < 0 {
			it.rtPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	in("(*sync.WaitGroup).Wait", func(it *Interp, a []Value) Value {
		l := it.lockOf(a[0])
		it.wait("wait group", func() bool { return l.count == 0 })
		return nil
	})
	in("(*sync.WaitGroup).Go", func(it *Interp, a []Value) Value {
		l := it.lockOf(a[0])
		l.count++
		fr := it.fr
		it.spawn(func() {
			it.callValue(fr, a[1], nil)
			l.count--
		})
		return nil
	})
	in("runtime.Gosched", func(it *Interp, a []Value) Value {
		if it.many() {
			first := true
			it.wait("", func() bool { first = !first; return first })
		}
		return nil
	})

	var anyT types.Type = types.NewInterfaceType(nil, nil)
	mapOf := func(it *Interp, v Value) *Map {
		l := it.lockOf(v)
		if l.m == nil {
			l.m = newMap()
		}
		return l.m
	}
	in("(*sync.Map).Load", func(it *Interp, a []Value) Value {
		m := mapOf(it, a[0])
		if i := it.mapFind(m, a[1], anyT); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	})
	in("(*sync.Map).Store", func(it *Interp, a []Value) Value {
		it.mapSet(mapOf(it, a[0]), a[1], a[2], anyT)
		return nil
	})
	in("(*sync.Map).LoadOrStore", func(it *Interp, a []Value) Value {
		m := mapOf(it, a[0])
		if i := it.mapFind(m, a[1], anyT); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		it.mapSet(m, a[1], a[2], anyT)
		return Tuple{a[2], false}
	})
	in("(*sync.Map).LoadAndDelete", func(it *Interp, a []Value) Value {
		m := mapOf(it, a[0])
		if i := it.mapFind(m, a[1], anyT); i >= 0 {
			v := m.vals[i]
			it.mapDelete(m, a[1], anyT)
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	in("(*sync.Map).Delete", func(it *Interp, a []Value) Value {
		it.mapDelete(mapOf(it, a[0]), a[1], anyT)
		return nil
	})
	in("(*sync.Map).Range", func(it *Interp, a []Value) Value {
		m := mapOf(it, a[0])
		fr := it.fr
		for i := 0; i < len(m.keys); i++ {
			if m.live[i] && !it.truth(it.callValue(fr, a[1], []Value{m.keys[i], m.vals[i]})) {
				break
			}
		}
		return nil
	})
}
