package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	lsync "github.com/liyue201/gostl/utils/sync"
)

type op struct {
	name  string
	write bool // may change contents
	whole bool // its result shows one state of the container
	f     func(x int) string
}

type inst struct {
	objs []any // the containers; the first is the one operated on
	ops  []op
	two  []op // operations on two containers
}

// a comparator that can be told to panic
type bomb struct{ in int32 }

func (b *bomb) cmp(x, y int) int {
	if atomic.LoadInt32(&b.in) > 0 && atomic.AddInt32(&b.in, -1) == 0 {
		panic("comparator")
	}
	return x - y
}

type kind struct {
	name string
	mk   func(safe bool, b *bomb) inst
}

func str(f func() any) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic"
		}
	}()
	return fmt.Sprint(f())
}

func w(name string, f func(x int) any) op {
	return op{name, true, true, func(x int) string { return str(func() any { return f(x) }) }}
}
func r(name string, f func(x int) any) op {
	return op{name, false, true, func(x int) string { return str(func() any { return f(x) }) }}
}

// iterators are not for concurrent use: only the call itself
func it(name string, f func(x int)) op {
	return op{name, false, false, func(x int) string { return str(func() any { f(x); return "" }) }}
}

type none struct{}

func valErr(v any, err error) any { return fmt.Sprint(v, err != nil) }

// visits the first few entries and stops, or panics
func kv(t func(func(k, v int) bool)) func(x int) any {
	return func(x int) any {
		var s []string
		t(func(k, v int) bool {
			if x == 7 {
				panic("visitor")
			}
			s = append(s, fmt.Sprint(k, ":", v))
			return len(s) != x
		})
		return strings.Join(s, " ")
	}
}
func one(t func(func(v int) bool)) func(x int) any {
	return func(x int) any {
		var s []string
		t(func(v int) bool {
			if x == 7 {
				panic("visitor")
			}
			s = append(s, fmt.Sprint(v))
			return len(s) != x
		})
		return strings.Join(s, " ")
	}
}

func mkQueue(list bool) func(bool, *bomb) inst {
	return func(safe bool, b *bomb) inst {
		var o []queue.Option[int]
		if list {
			o = append(o, queue.WithListContainer[int]())
		}
		if safe {
			o = append(o, queue.WithGoroutineSafe[int]())
		}
		q := queue.New[int](o...)
		return inst{objs: []any{q}, ops: []op{
			w("Push", func(x int) any { q.Push(x); return "" }), w("Push", func(x int) any { q.Push(x + 10); return "" }),
			w("Pop", func(int) any { return q.Pop() }), r("Front", func(int) any { return q.Front() }), r("Back", func(int) any { return q.Back() }),
			r("Size", func(int) any { return q.Size() }), r("Empty", func(int) any { return q.Empty() }), r("String", func(int) any { return q.String() }), w("Clear", func(int) any { q.Clear(); return "" }),
		}}
	}
}

func mkStack(list bool) func(bool, *bomb) inst {
	return func(safe bool, b *bomb) inst {
		var o []stack.Option[int]
		if list {
			o = append(o, stack.WithListContainer[int]())
		}
		if safe {
			o = append(o, stack.WithGoroutineSafe[int]())
		}
		q := stack.New[int](o...)
		return inst{objs: []any{q}, ops: []op{
			w("Push", func(x int) any { q.Push(x); return "" }), w("Push", func(x int) any { q.Push(x + 10); return "" }),
			w("Pop", func(int) any { return q.Pop() }), r("Top", func(int) any { return q.Top() }),
			r("Size", func(int) any { return q.Size() }), r("Empty", func(int) any { return q.Empty() }), r("String", func(int) any { return q.String() }), w("Clear", func(int) any { q.Clear(); return "" }),
		}}
	}
}

func mkPQ(safe bool, b *bomb) inst {
	var o []priorityqueue.Option
	if safe {
		o = append(o, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New[int](b.cmp, o...)
	return inst{objs: []any{q}, ops: []op{
		w("Push", func(x int) any { q.Push(x); return "" }), w("Push", func(x int) any { q.Push(x + 10); return "" }),
		w("Pop", func(int) any { return q.Pop() }), r("Top", func(int) any { return q.Top() }),
		r("Size", func(int) any { return q.Size() }), r("Empty", func(int) any { return q.Empty() }), w("Clear", func(int) any { q.Clear(); return "" }),
	}}
}

var stamp int64

func mkMap(safe bool, b *bomb) inst {
	var o []treemap.Option
	if safe {
		o = append(o, treemap.WithGoroutineSafe())
	}
	m := treemap.New[int, int](b.cmp, o...)
	return inst{objs: []any{m}, ops: []op{
		w("Insert", func(x int) any { m.Insert(x%5, x); return "" }), w("Insert", func(x int) any { m.Insert(x%3, x+10); return "" }),
		w("Erase", func(x int) any { m.Erase(x % 5); return "" }), r("Get", func(x int) any { return valErr(m.Get(x % 5)) }),
		r("Contains", func(x int) any { return m.Contains(x % 5) }), r("Size", func(int) any { return m.Size() }),
		r("Traversal", kv(func(f func(k, v int) bool) { m.Traversal(f) })), w("Clear", func(int) any { m.Clear(); return "" }),
		it("Find", func(x int) { m.Find(x) }), it("LowerBound", func(x int) { m.LowerBound(x) }), it("UpperBound", func(x int) { m.UpperBound(x) }),
		it("Begin", func(int) { m.Begin() }), it("First", func(int) { m.First() }), it("Last", func(int) { m.Last() }),
	}}
}

func mkMulti(safe bool, b *bomb) inst {
	var o []treemap.Option
	if safe {
		o = append(o, treemap.WithGoroutineSafe())
	}
	m := treemap.NewMultiMap[int, int](b.cmp, o...)
	return inst{objs: []any{m}, ops: []op{
		w("Insert", func(x int) any { m.Insert(x%3, x); return "" }), w("Insert", func(x int) any { m.Insert(x%3, x+10); return "" }),
		w("Erase", func(x int) any { m.Erase(x % 3); return "" }), r("Contains", func(x int) any { return m.Contains(x % 3) }), r("Get", func(x int) any { _, e := m.Get(x % 3); return e != nil }),
		r("Size", func(int) any { return m.Size() }),
		r("Traversal", kv(func(f func(k, v int) bool) { m.Traversal(f) })), w("Clear", func(int) any { m.Clear(); return "" }),
		it("Find", func(x int) { m.Find(x) }), it("LowerBound", func(x int) { m.LowerBound(x) }), it("UpperBound", func(x int) { m.UpperBound(x) }),
		it("Begin", func(int) { m.Begin() }), it("First", func(int) { m.First() }), it("Last", func(int) { m.Last() }),
	}}
}

func mkSet(safe bool, b *bomb) inst {
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	m := set.New[int](b.cmp, o...)
	m2 := set.New[int](b.cmp, o...)
	for i := 0; i < 6; i += 2 {
		m2.Insert(i)
	}
	ins := []op{}
	for _, s := range []*set.Set[int]{m} {
		s := s
		ins = append(ins, w("Insert", func(x int) any { s.Insert(x); return "" }), w("Insert", func(x int) any { s.Insert(x % 4); return "" }),
			w("Erase", func(x int) any { s.Erase(x); return "" }), r("Contains", func(x int) any { return s.Contains(x) }),
			r("Size", func(int) any { return s.Size() }), r("String", func(int) any { return s.String() }),
			r("Traversal", one(func(f func(v int) bool) { s.Traversal(f) })), w("Clear", func(int) any { s.Clear(); return "" }),
			it("Find", func(x int) { s.Find(x) }), it("LowerBound", func(x int) { s.LowerBound(x) }), it("UpperBound", func(x int) { s.UpperBound(x) }),
			it("Begin", func(int) { s.Begin() }), it("First", func(int) { s.First() }), it("Last", func(int) { s.Last() }))
	}
	alg := func(name string, f func(a, b *set.Set[int]) *set.Set[int]) []op {
		return []op{it(name, func(int) { f(m, m2) }), it(name+"/swapped", func(int) { f(m2, m) }), it(name+"/self", func(int) { f(m, m) })}
	}
	var two []op
	two = append(two, alg("Union", func(a, b *set.Set[int]) *set.Set[int] { return a.Union(b) })...)
	two = append(two, alg("Intersect", func(a, b *set.Set[int]) *set.Set[int] { return a.Intersect(b) })...)
	two = append(two, alg("Diff", func(a, b *set.Set[int]) *set.Set[int] { return a.Diff(b) })...)
	two = append(two, op{"other.Insert", true, false, func(x int) string { return str(func() any { m2.Insert(x); return "" }) }}, op{"other.Erase", true, false, func(x int) string { return str(func() any { m2.Erase(x); return "" }) }})
	return inst{objs: []any{m, m2}, ops: ins, two: two}
}

func mkMultiSet(safe bool, b *bomb) inst {
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	s := set.NewMultiSet[int](b.cmp, o...)
	return inst{objs: []any{s}, ops: []op{
		w("Insert", func(x int) any { s.Insert(x); return "" }), w("Insert", func(x int) any { s.Insert(x % 3); return "" }),
		w("Erase", func(x int) any { s.Erase(x % 3); return "" }), r("Contains", func(x int) any { return s.Contains(x) }), r("Count", func(x int) any { return s.Count(x % 3) }),
		r("Size", func(int) any { return s.Size() }), r("String", func(int) any { return s.String() }), w("EraseAll", func(x int) any { s.EraseAll(x % 3); return "" }),
		r("Traversal", one(func(f func(v int) bool) { s.Traversal(f) })), w("Clear", func(int) any { s.Clear(); return "" }),
		it("Find", func(x int) { s.Find(x) }), it("LowerBound", func(x int) { s.LowerBound(x) }), it("UpperBound", func(x int) { s.UpperBound(x) }),
		it("Begin", func(int) { s.Begin() }), it("First", func(int) { s.First() }), it("Last", func(int) { s.Last() }),
	}}
}

func mkSkip(safe bool, b *bomb) inst {
	o := []skiplist.Option{skiplist.WithMaxLevel(3)}
	if safe {
		o = append(o, skiplist.WithGoroutineSafe())
	}
	m := skiplist.New[int, int](b.cmp, o...)
	return inst{objs: []any{m}, ops: []op{
		w("Insert", func(x int) any { m.Insert(x%5, x); return "" }), w("Insert", func(x int) any { m.Insert(x%3, x+10); return "" }),
		w("Remove", func(x int) any { return m.Remove(x % 5) }), r("Get", func(x int) any { return valErr(m.Get(x % 5)) }),
		r("Len", func(int) any { return m.Len() }), r("Keys", func(int) any { return m.Keys() }),
		r("Traversal", kv(func(f func(k, v int) bool) { m.Traversal(f) })),
	}}
}

func mkHamt(safe bool, b *bomb) inst {
	var o []hamt.Option
	if safe {
		o = append(o, hamt.WithGoroutineSafe())
	}
	m := hamt.New[int](o...)
	key := func(x int) hamt.Key { return hamt.Key(fmt.Sprint("k", x%5)) }
	return inst{objs: []any{m}, ops: []op{
		w("Insert", func(x int) any { m.Insert(key(x), x); return "" }), w("Insert", func(x int) any { m.Insert(key(x), x+10); return "" }),
		w("Erase", func(x int) any { return m.Erase(key(x)) }), r("Get", func(x int) any { return valErr(m.Get(key(x))) }),
		r("Keys", func(int) any { return fmt.Sprint(m.Keys()) }), r("StringKeys", func(int) any { return fmt.Sprint(m.StringKeys()) }),
		r("Traversal", func(x int) any {
			var s []string
			m.Traversal(func(k hamt.Key, v int) bool {
				if x == 7 {
					panic("visitor")
				}
				s = append(s, fmt.Sprint(string(k), v))
				return true
			})
			sort.Strings(s)
			return s
		}),
	}}
}

func mkKetama(safe bool, b *bomb) inst {
	o := []ketama.Option{ketama.WithReplicas(3)}
	if safe {
		o = append(o, ketama.WithGoroutineSafe())
	}
	m := ketama.New(o...)
	n := func(x int) string { return fmt.Sprint("n", x%4) }
	return inst{objs: []any{m}, ops: []op{
		w("Add", func(x int) any { m.Add(n(x), n(x+1)); return "" }), w("Remove", func(x int) any { m.Remove(n(x)); return "" }),
		r("Get", func(x int) any { s, ok := m.Get(fmt.Sprint(x)); return fmt.Sprint(s, ok) }), r("Empty", func(int) any { return m.Empty() }),
	}}
}

func mkBloom(safe bool, b *bomb) inst {
	var o []bloom.Option
	if safe {
		o = append(o, bloom.WithGoroutineSafe())
	}
	m := bloom.New(64, 3, o...)
	return inst{objs: []any{m}, ops: []op{
		w("Add", func(x int) any { m.Add(fmt.Sprint(x)); return "" }), r("Contains", func(x int) any { return m.Contains(fmt.Sprint(x)) }), r("Data", func(int) any { return m.Data() }),
	}}
}

// the lock of a container replaced by one that records; nil if there is no field of that type
type rec struct {
	held, secs int
	mode       int
	bad        string
	lock       sync.Mutex
}

func (r *rec) Lock()    { r.enter(2) }
func (r *rec) RLock()   { r.enter(1) }
func (r *rec) Unlock()  { r.leave(2) }
func (r *rec) RUnlock() { r.leave(1) }
func (r *rec) enter(m int) {
	if r.held != 0 {
		r.bad = "locks again while holding the lock"
	}
	r.held = m
	r.secs++
	if m > r.mode {
		r.mode = m
	}
}
func (r *rec) leave(m int) {
	if r.held != m {
		r.bad = fmt.Sprintf("unlocks mode %d while mode %d is held", m, r.held)
	}
	r.held = 0
}

var lockerType = reflect.TypeOf((*lsync.Locker)(nil)).Elem()

func spy(obj any) *rec {
	v := reflect.ValueOf(obj).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == lockerType {
			x := &rec{}
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
			return x
		}
	}
	return nil
}

var kinds = []kind{
	{"queue", mkQueue(false)}, {"queue on list", mkQueue(true)}, {"stack", mkStack(false)}, {"stack on list", mkStack(true)}, {"priority queue", mkPQ}, {"map", mkMap}, {"multimap", mkMulti},
	{"set", mkSet}, {"multiset", mkMultiSet}, {"skiplist", mkSkip}, {"trie", mkHamt}, {"ring", mkKetama}, {"bloom filter", mkBloom},
}

// sections: one operation after another, its lock watched
func sections(h *hx.H, k kind) {
	b := &bomb{}
	c := k.mk(true, b)
	var locks []*rec
	for _, o := range c.objs {
		if x := spy(o); x != nil {
			locks = append(locks, x)
		}
	}
	h.Begin("sections", k.name)
	n := 10 + h.R.Intn(30)
	for i := 0; i < n; i++ {
		x := h.R.Intn(8)
		if h.R.Intn(6) == 0 {
			atomic.StoreInt32(&b.in, int32(1+h.R.Intn(4)))
		}
		j := h.R.Intn(len(c.ops) + len(c.two))
		for _, l := range locks {
			l.secs, l.mode, l.bad = 0, 0, ""
		}
		var o op
		if j < len(c.ops) {
			o = c.ops[j]
		} else {
			o = c.two[j-len(c.ops)]
		}
		h.Op(o.name, x)
		res := o.f(x)
		blew := atomic.LoadInt32(&b.in) == 0
		atomic.StoreInt32(&b.in, 0)
		for li, l := range locks {
			h.Check(l.bad == "", "%s.%s %s", k.name, o.name, l.bad)
			h.Check(l.held == 0, "%s.%s returned %q with its lock held (mode %d)", k.name, o.name, res, l.held)
			if j < len(c.ops) {
				if li == 0 {
					h.Check(l.secs == 1, "%s.%s entered %d critical sections of its lock", k.name, o.name, l.secs)
					h.Check(!o.write || l.mode == 2, "%s.%s changes contents in shared mode", k.name, o.name)
				}
			} else if !o.write && !strings.HasSuffix(o.name, "/self") && res != "panic" {
				h.Check(l.secs >= 1, "%s.%s read a set without its lock", k.name, o.name)
			}
		}
		if blew && res == "panic" {
			// a comparator that panics in the middle of a change may leave anything behind but a lock
			return
		}
	}
}

type ev struct {
	o, x     int
	res      string
	from, to int64
	g        int
}

// explain looks for an order of the operations that a container used by one goroutine reproduces
func explain(k kind, pre []ev, ev []ev) bool {
	done := make([]bool, len(ev))
	var order []int
	var try func() bool
	replay := func(next int) bool {
		c := k.mk(false, &bomb{})
		for _, e := range pre {
			c.ops[e.o].f(e.x)
		}
		for _, i := range order {
			c.ops[ev[i].o].f(ev[i].x)
		}
		return c.ops[ev[next].o].f(ev[next].x) == ev[next].res
	}
	try = func() bool {
		if len(order) == len(ev) {
			return true
		}
		for i := range ev {
			if done[i] {
				continue
			}
			first := true
			for j := range ev {
				if !done[j] && j != i && ev[j].to < ev[i].from {
					first = false
				}
			}
			if !first || !replay(i) {
				continue
			}
			done[i] = true
			order = append(order, i)
			if try() {
				return true
			}
			order = order[:len(order)-1]
			done[i] = false
		}
		return false
	}
	return try()
}

// together: a few goroutines at once; the results must be those of some order
func together(h *hx.H, k kind) {
	c := k.mk(true, &bomb{})
	h.Begin("together", k.name)
	var pick []int
	for i, o := range c.ops {
		if o.whole {
			pick = append(pick, i)
		}
	}
	var pre []ev
	for i := h.R.Intn(5); i > 0; i-- {
		e := ev{o: pick[h.R.Intn(len(pick))], x: h.R.Intn(7)}
		pre = append(pre, e)
		h.Op("before", c.ops[e.o].name, e.x)
		c.ops[e.o].f(e.x)
	}
	gs := 2 + h.R.Intn(2)
	per := 3
	evs := make([]ev, gs*per)
	var clock int64
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < gs; g++ {
		rr := rand.New(rand.NewSource(h.R.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i := 0; i < per; i++ {
				e := &evs[g*per+i]
				e.g, e.o, e.x = g, pick[rr.Intn(len(pick))], rr.Intn(8)
				e.from = atomic.AddInt64(&clock, 1)
				e.res = c.ops[e.o].f(e.x)
				e.to = atomic.AddInt64(&clock, 1)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range evs {
		h.Op(fmt.Sprintf("goroutine %d: %s(%d) = %q during %d..%d", e.g, c.ops[e.o].name, e.x, e.res, e.from, e.to))
	}
	h.Check(explain(k, pre, evs), "%s: no order of these operations gives these results", k.name)
}

// crowd: many operations at once, for the race detector and for locks never released
func crowd(h *hx.H, k kind) {
	c := k.mk(true, &bomb{})
	h.Begin("crowd", k.name)
	all := append(append([]op{}, c.ops...), c.two...)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		rr := rand.New(rand.NewSource(h.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				all[rr.Intn(len(all))].f(rr.Intn(8))
			}
		}()
	}
	wg.Wait()
	h.Op("4 goroutines of 60 operations", len(all))
}

// pairs: two operations against each other, over and over
func pairs(h *hx.H, k kind) {
	c := k.mk(true, &bomb{})
	all := append(append([]op{}, c.ops...), c.two...)
	a, b := all[h.R.Intn(len(all))], all[h.R.Intn(len(all))]
	h.Begin("pair", k.name)
	for i := 0; i < 6; i++ {
		c.ops[0].f(i)
	}
	h.Op(a.name, "against", b.name)
	var wg sync.WaitGroup
	for _, o := range []op{a, b} {
		wg.Add(1)
		go func(o op) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				o.f(i % 8)
			}
		}(o)
	}
	wg.Wait()
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Conc = true
		h.Rule("a case is a history on one container: operations one by one with the lock recorded, two to four goroutines under the race detector, or a few concurrent operations whose results must fit some sequential order")
		start := time.Now()
		for h.Until(0.2, budget, start) {
			for _, k := range kinds {
				sections(h, k)
			}
		}
		for h.Until(0.45, budget, start) {
			for _, k := range kinds {
				pairs(h, k)
				pairs(h, k)
			}
		}
		for h.Until(0.55, budget, start) {
			for _, k := range kinds {
				crowd(h, k)
			}
		}
		for h.Until(0.9, budget, start) {
			for _, k := range kinds {
				together(h, k)
			}
		}
	})
}
