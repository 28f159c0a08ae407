package main

import (
	"fmt"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"
)

// own is a caller-supplied container
type own struct{ s []int }

func (o *own) PushBack(v int)  { o.s = append(o.s, v) }
func (o *own) PushFront(v int) { o.s = append([]int{v}, o.s...) }
func (o *own) Front() int      { return o.s[0] }
func (o *own) Back() int       { return o.s[len(o.s)-1] }
func (o *own) PopFront() int   { v := o.s[0]; o.s = o.s[1:]; return v }
func (o *own) PopBack() int    { v := o.s[len(o.s)-1]; o.s = o.s[:len(o.s)-1]; return v }
func (o *own) Empty() bool     { return len(o.s) == 0 }
func (o *own) Size() int       { return len(o.s) }
func (o *own) Clear()          { o.s = nil }
func (o *own) String() string  { return fmt.Sprint(o.s) }

func mk(h *hx.H, kind int) (c container.Container[int], m []int) {
	switch kind {
	case 2:
		c = deque.New[int]()
	case 3:
		c = bidlist.New[int]()
	default:
		c = &own{}
	}
	for n := h.R.Intn(5); n > 0; n-- {
		c.PushBack(-n)
		m = append(m, -n)
	}
	return
}

func names(kind int, safe bool) string {
	return fmt.Sprintf("%s safe=%v", []string{"default", "list", "deque with values", "list with values", "own with values"}[kind], safe)
}

func runQueue(h *hx.H, kind int, safe bool, nops int) {
	h.Begin("queue", names(kind, safe))
	var opts []queue.Option[int]
	var m []int
	switch kind {
	case 0:
	case 1:
		opts = append(opts, queue.WithListContainer[int]())
	default:
		var c container.Container[int]
		c, m = mk(h, kind)
		h.Op("existing", len(m))
		opts = append(opts, queue.WithContainer(c))
	}
	if safe {
		opts = append(opts, queue.WithGoroutineSafe[int]())
		if h.R.Intn(2) == 0 && len(opts) > 1 {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	q := queue.New(opts...)
	next := 0
	check := func() {
		h.Check(q.Size() == len(m) && q.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", q.Size(), q.Empty(), len(m))
		if len(m) > 0 {
			h.Check(q.Front() == m[0] && q.Back() == m[len(m)-1], "Front %d Back %d, want %d %d", q.Front(), q.Back(), m[0], m[len(m)-1])
		} else {
			h.Check(h.Panics(func() { q.Front() }) && h.Panics(func() { q.Back() }) && h.Panics(func() { q.Pop() }), "peeking at or popping an empty queue does not panic")
			h.Check(q.Size() == 0 && q.Empty(), "a failed operation changed the queue")
		}
	}
	check()
	for o := 0; o < nops; o++ {
		k := 1
		if nops > 100 {
			k = h.R.Intn(200)
		}
		switch r := h.R.Intn(16); {
		case r < 8:
			h.Op("Push x", k)
			for ; k > 0; k-- {
				next++
				q.Push(next)
				m = append(m, next)
			}
		case r < 15:
			h.Op("Pop x", k)
			for ; k > 0 && len(m) > 0; k-- {
				g := q.Pop()
				h.Check(g == m[0], "Pop gave %d, want %d", g, m[0])
				m = m[1:]
			}
		default:
			h.Op("Clear")
			q.Clear()
			m = nil
		}
		check()
	}
	for len(m) > 0 {
		g := q.Pop()
		h.Check(g == m[0], "Pop gave %d, want %d", g, m[0])
		m = m[1:]
	}
	check()
}

func runStack(h *hx.H, kind int, safe bool, nops int) {
	h.Begin("stack", names(kind, safe))
	var opts []stack.Option[int]
	var m []int
	switch kind {
	case 0:
	case 1:
		opts = append(opts, stack.WithListContainer[int]())
	default:
		var c container.Container[int]
		c, m = mk(h, kind)
		h.Op("existing", len(m))
		opts = append(opts, stack.WithContainer(c))
	}
	if safe {
		opts = append(opts, stack.WithGoroutineSafe[int]())
		if h.R.Intn(2) == 0 && len(opts) > 1 {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	s := stack.New(opts...)
	next := 0
	check := func() {
		h.Check(s.Size() == len(m) && s.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", s.Size(), s.Empty(), len(m))
		if len(m) > 0 {
			h.Check(s.Top() == m[len(m)-1], "Top %d, want %d", s.Top(), m[len(m)-1])
		} else {
			h.Check(h.Panics(func() { s.Top() }) && h.Panics(func() { s.Pop() }), "peeking at or popping an empty stack does not panic")
			h.Check(s.Size() == 0 && s.Empty(), "a failed operation changed the stack")
		}
	}
	check()
	for o := 0; o < nops; o++ {
		k := 1
		if nops > 100 {
			k = h.R.Intn(200)
		}
		switch r := h.R.Intn(16); {
		case r < 8:
			h.Op("Push x", k)
			for ; k > 0; k-- {
				next++
				s.Push(next)
				m = append(m, next)
			}
		case r < 15:
			h.Op("Pop x", k)
			for ; k > 0 && len(m) > 0; k-- {
				g := s.Pop()
				h.Check(g == m[len(m)-1], "Pop gave %d, want %d", g, m[len(m)-1])
				m = m[:len(m)-1]
			}
		default:
			h.Op("Clear")
			s.Clear()
			m = nil
		}
		check()
	}
	for len(m) > 0 {
		g := s.Pop()
		h.Check(g == m[len(m)-1], "Pop gave %d, want %d", g, m[len(m)-1])
		m = m[:len(m)-1]
	}
	check()
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories of queues and stacks over the default, list, pre-filled deque, list and caller-supplied containers, against a slice; distinct by history")
		for c := 0; h.More() || c < 400; c++ {
			n := 3 + h.R.Intn(40)
			if c%25 == 0 {
				n = 150
			}
			runQueue(h, h.R.Intn(5), h.R.Intn(2) == 0, n)
			runStack(h, h.R.Intn(5), h.R.Intn(2) == 0, n)
		}
	})
}
