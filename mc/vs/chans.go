package vs

import (
	"reflect"
	"sync"
	"unsafe"
)

// chanState is the model of one channel. Values are kept in a linked queue.
type chanState struct {
	next   *chanState
	ptr    unsafe.Pointer
	keep   any
	cap    int
	closed bool
	head   *cell
	tail   *cell
	n      int
	// parked communications
	sends, recvs *chanOp
	rel          [2]byte
	take         func() (any, bool)
	put          func(any)
}

type cell struct {
	next *cell
	v    any
}

// chanOp is one communication, or one case of a select.
type chanOp struct {
	nextCase *chanOp // further cases of the same select
	index    int
	t        *task
	ch       *chanState // nil: never ready
	send     bool
	v        any
	done     bool // carried out by the partner
	ok       bool
	next     *chanOp // queue of the channel
	group    *chanOp // first case of the select
	fired    *chanOp // in the first case: the case carried out
}

//go:norace
func find(p unsafe.Pointer) *chanState {
	mortal()
	if ctl == nil || p == nil {
		return nil
	}
	for s := ctl.chans; s != nil; s = s.next {
		if s.ptr == p {
			return s
		}
	}
	for s := outside; s != nil; s = s.next {
		if s.ptr == p {
			// made before the run: the model takes over what it holds
			n := &chanState{ptr: p, keep: s.keep, cap: s.cap, next: ctl.chans, put: s.put}
			for {
				v, ok := s.take()
				if !ok {
					break
				}
				n.push(v)
			}
			ctl.chans = n
			return n
		}
	}
	// a channel of code that is not instrumented
	ctl.giveUp()
	return nil
}

// outside are the channels made by instrumented code before the run.
var (
	outside   *chanState
	outsideMu sync.Mutex
)

// Made registers a channel of instrumented code.
//
//go:norace
func Made[C ~chan T, T any](c C) C {
	s := &chanState{ptr: *(*unsafe.Pointer)(unsafe.Pointer(&c)), keep: c, cap: cap(c)}
	if ctl == nil {
		s.take = func() (any, bool) {
			select {
			case v, ok := <-c:
				return v, ok
			default:
				return nil, false
			}
		}
		s.put = func(v any) { c <- v.(T) }
		outsideMu.Lock()
		if outsideN++; outsideN > 4096 {
			outside, outsideN = nil, 0
		}
		s.next = outside
		outside = s
		outsideMu.Unlock()
		return c
	}
	s.next = ctl.chans
	ctl.chans = s
	return c
}

var outsideN int

// restore gives channels made before the run what the model holds.
func (c *controller) restore() {
	for s := c.chans; s != nil; s = s.next {
		for s.put != nil && s.n > 0 {
			s.put(s.pop())
		}
	}
}

//go:norace
func (o *chanOp) ready() bool {
	if o.group.fired != nil {
		return true
	}
	for q := o; q != nil; q = q.nextCase {
		if q.can() {
			return true
		}
	}
	return false
}

// partner is a parked communication of another task that fits.
//
//go:norace
func partner(q *chanOp, t *task) *chanOp {
	for ; q != nil; q = q.next {
		if q.group.fired == nil && q.t != t {
			return q
		}
	}
	return nil
}

//go:norace
func (o *chanOp) can() bool {
	s := o.ch
	if s == nil {
		return false
	}
	if o.send {
		return s.closed || s.n < s.cap || partner(s.recvs, o.t) != nil
	}
	return s.n > 0 || s.closed || partner(s.sends, o.t) != nil
}

//go:norace
func (s *chanState) rp() unsafe.Pointer { return unsafe.Pointer(&s.rel[0]) }

//go:norace
func (s *chanState) push(v any) {
	c := &cell{v: v}
	if s.tail == nil {
		s.head = c
	} else {
		s.tail.next = c
	}
	s.tail = c
	s.n++
}

//go:norace
func (s *chanState) pop() any {
	c := s.head
	s.head = c.next
	if s.head == nil {
		s.tail = nil
	}
	s.n--
	return c.v
}

//go:norace
func enqueue(q **chanOp, o *chanOp) {
	for *q != nil {
		q = &(*q).next
	}
	*q = o
}

//go:norace
func dequeue(q **chanOp, o *chanOp) {
	for *q != nil {
		if *q == o {
			*q = o.next
			o.next = nil
			return
		}
		q = &(*q).next
	}
}

// do carries out a communication that can go on.
//
//go:norace
func (o *chanOp) do() {
	s := o.ch
	if o.send {
		if s.closed {
			panic("send on closed channel")
		}
		release(s.rp())
		acquire(s.rp())
		if p := partner(s.recvs, o.t); p != nil {
			p.v, p.ok, p.done = o.v, true, true
			p.group.fired = p
			return
		}
		s.push(o.v)
		return
	}
	acquire(s.rp())
	release(s.rp())
	switch {
	case s.n > 0:
		o.v, o.ok = s.pop(), true
		if p := partner(s.sends, o.t); p != nil {
			s.push(p.v)
			p.done = true
			p.group.fired = p
		}
	case s.closed:
		o.v, o.ok = nil, false
	default:
		p := partner(s.sends, o.t)
		o.v, o.ok = p.v, true
		p.done = true
		p.group.fired = p
	}
}

// communicate waits until one of the cases was carried out and returns it;
// nil if there is a default and nothing can go on.
//
//go:norace
func communicate(o *chanOp, fallback bool) *chanOp {
	t := here()
	n := 0
	for q := o; q != nil; q = q.nextCase {
		q.t, q.group = t, o
		q.index = n
		n++
	}
	t.want, t.op = free, nil
	ctl.step(t)
	if fallback {
		any := false
		for q := o; q != nil; q = q.nextCase {
			any = any || q.can()
		}
		if !any {
			return nil
		}
	}
	for q := o; q != nil; q = q.nextCase {
		if q.ch == nil {
			continue
		}
		if q.send {
			release(q.ch.rp())
			enqueue(&q.ch.sends, q)
		} else {
			release(q.ch.rp())
			enqueue(&q.ch.recvs, q)
		}
	}
	t.want, t.op = wantChan, o
	if !o.ready() {
		ctl.step(t)
	}
	t.want, t.op = free, nil
	for q := o; q != nil; q = q.nextCase {
		if q.ch == nil {
			continue
		}
		if q.send {
			dequeue(&q.ch.sends, q)
		} else {
			dequeue(&q.ch.recvs, q)
		}
	}
	if o.fired != nil {
		acquire(o.fired.ch.rp())
		return o.fired
	}
	// several cases may be possible
	m := 0
	for q := o; q != nil; q = q.nextCase {
		if q.can() {
			m++
		}
	}
	k := ctl.choose(m, 's')
	for q := o; q != nil; q = q.nextCase {
		if q.can() {
			if k == 0 {
				q.do()
				return q
			}
			k--
		}
	}
	panic("vs: no case can go on")
}

//go:norace
func ptrOf[T any](c T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Send is c <- v.
//
//go:norace
func Send[T any](c chan<- T) func(T) {
	return func(v T) { sendTo(c, v) }
}

//go:norace
func sendTo[T any](c chan<- T, v T) {
	s := find(ptrOf(c))
	if s == nil {
		c <- v
		return
	}
	communicate(&chanOp{ch: s, send: true, v: v}, false)
}

// Recv is <-c.
//
//go:norace
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	s := find(ptrOf(c))
	if s == nil {
		v, ok := <-c
		return v, ok
	}
	o := communicate(&chanOp{ch: s}, false)
	return value[T](o), o.ok
}

//go:norace
func value[T any](o *chanOp) T {
	v, _ := o.v.(T)
	return v
}

// Close is close(c).
//
//go:norace
func Close[T any](c chan<- T) {
	s := find(ptrOf(c))
	if s == nil {
		close(c)
		return
	}
	Yield()
	if s.closed {
		panic("close of closed channel")
	}
	release(s.rp())
	s.closed = true
}

// Len is len(c).
//
//go:norace
func Len[T any](c <-chan T) int {
	s := find(ptrOf(c))
	if s == nil {
		return len(c)
	}
	Yield()
	return s.n
}

// Case is one case of a select.
type Case struct {
	op   *chanOp
	real reflect.SelectCase // outside a run
}

//go:norace
func CaseSend[T any](c chan<- T) func(T) Case {
	return func(v T) Case {
		k := Case{op: &chanOp{ch: find(ptrOf(c)), send: true, v: v}}
		if ctl == nil {
			k.real = reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c), Send: reflect.ValueOf(&v).Elem()}
		}
		return k
	}
}

//go:norace
func CaseRecv[T any](c <-chan T) Case {
	k := Case{op: &chanOp{ch: find(ptrOf(c))}}
	if ctl == nil {
		k.real = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)}
	}
	return k
}

// Selected is the outcome of a select.
type Selected struct {
	Index int
	op    *chanOp
}

// Select carries out one case; Index -1 is the default.
//
//go:norace
func Select(fallback bool, cases ...Case) Selected {
	if len(cases) == 0 {
		if fallback {
			return Selected{Index: -1}
		}
		var never Sem
		never.Flag()
	}
	if here() == nil {
		return selectReal(fallback, cases)
	}
	for i := 0; i+1 < len(cases); i++ {
		cases[i].op.nextCase = cases[i+1].op
	}
	o := communicate(cases[0].op, fallback)
	if o == nil {
		return Selected{Index: -1}
	}
	return Selected{Index: o.index, op: o}
}

func selectReal(fallback bool, cases []Case) Selected {
	var list []reflect.SelectCase
	for _, k := range cases {
		list = append(list, k.real)
	}
	if fallback {
		list = append(list, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(list)
	if i == len(cases) {
		return Selected{Index: -1}
	}
	o := cases[i].op
	o.ok = ok
	if ok {
		o.v = v.Interface()
	}
	return Selected{Index: i, op: o}
}

// Got is the value received by the case for channel c.
//
//go:norace
func Got[T any](s Selected, c <-chan T) T { return value[T](s.op) }

//go:norace
func Got2[T any](s Selected, c <-chan T) (T, bool) { return value[T](s.op), s.op.ok }
