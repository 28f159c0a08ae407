package main

import (
	"math"
	"reflect"
	"time"
	"unsafe"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/rbtree"
)

type tree = rbtree.RbTree[int, int]
type node = rbtree.Node[int, int]

// the fields of the real tree, read and coloured through reflection: nothing but the names is assumed of them,
// and where a name is missing only the public self-check is used
func field(p any, name string) reflect.Value {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

var haveFields = func() bool {
	t := rbtree.New[int, int](func(a, b int) int { return a - b })
	t.Insert(1, 1)
	if f := field(t, "root"); !f.IsValid() || f.Type() != reflect.TypeOf((*node)(nil)) {
		return false
	}
	r := root(t)
	for _, n := range []string{"left", "right"} {
		if f := field(r, n); !f.IsValid() || f.Type() != reflect.TypeOf(r) {
			return false
		}
	}
	f := field(r, "color")
	return f.IsValid() && f.Kind() == reflect.Bool && f.Bool() == bool(rbtree.BLACK)
}()

func root(t *tree) *node             { return field(t, "root").Interface().(*node) }
func sub(n *node, side string) *node { return field(n, side).Interface().(*node) }
func black(n *node) bool             { return n == nil || field(n, "color").Bool() }
func paint(n *node, b bool)          { field(n, "color").SetBool(b) }

// rules returns whether the subtree obeys the rules, its black height, its height and its size
func rules(n *node) (ok bool, bh, height, size int) {
	if n == nil {
		return true, 0, 0, 0
	}
	l, r := sub(n, "left"), sub(n, "right")
	ok1, b1, h1, s1 := rules(l)
	ok2, b2, h2, s2 := rules(r)
	ok = ok1 && ok2 && b1 == b2 && (black(n) || black(l) && black(r))
	if h2 > h1 {
		h1 = h2
	}
	if black(n) {
		b1++
	}
	return ok, b1, h1 + 1, s1 + s2 + 1
}

func check(h *hx.H, t *tree, size int) {
	ok, err := t.IsRbTree()
	h.Check(ok && err == nil, "the self-check reports %v, %v", ok, err)
	if !haveFields {
		return
	}
	good, _, height, s := rules(root(t))
	h.Check(good && black(root(t)), "the tree breaks the red-black rules")
	h.Check(s == size, "the tree has %d nodes, want %d", s, size)
	h.Check(float64(height) <= 2*math.Log2(float64(size)+1)+1e-9, "height %d for %d entries", height, size)
}

// colours gives the tree other colours and compares the self-check with the rules
func colours(h *hx.H, t *tree, every bool) {
	if !haveFields {
		return
	}
	var ns []*node
	for n := t.First(); n != nil; n = n.Next() {
		ns = append(ns, n)
	}
	if len(ns) == 0 {
		return
	}
	old := make([]bool, len(ns))
	for i, n := range ns {
		old[i] = black(n)
	}
	ask := func() {
		good, _, _, _ := rules(root(t))
		good = good && black(root(t))
		var cs []bool
		for _, n := range ns {
			cs = append(cs, black(n))
		}
		ok, err := t.IsRbTree()
		h.Check(ok == good, "with the colours (black, in order) %v the self-check reports %v, want %v", cs, ok, good)
		h.Check(ok == (err == nil), "the self-check reports %v with error %v", ok, err)
	}
	h.Op("give the nodes other colours")
	if every {
		for c := 0; c < 1<<len(ns); c++ {
			for i, n := range ns {
				paint(n, c>>i&1 == 1)
			}
			ask()
		}
	} else {
		for c := 0; c < 4; c++ {
			i := h.R.Intn(len(ns))
			paint(ns[i], !old[i])
			ask()
			paint(ns[i], old[i])
		}
	}
	for i, n := range ns {
		paint(n, old[i])
	}
	check(h, t, len(ns))
}

func del(h *hx.H, t *tree, size int) {
	i := h.R.Intn(size)
	h.Op("Delete the entry at", i)
	n := t.First()
	for ; i > 0; i-- {
		n = n.Next()
	}
	t.Delete(n)
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every order of up to 7 keys inserted, the self-check compared with the rules under every colouring, then deletion one by one; then random histories; the rules are read off the real nodes")
		start := time.Now()
		done := true
		mk := func(desc bool) *tree {
			h.Begin("rbtree")
			return rbtree.New[int, int](func(a, b int) int { return a - b })
		}
		for n := 0; n <= 7 && done; n++ {
			hx.Seqs(n, n, func(s []int) bool {
				seen := map[int]bool{}
				for _, k := range s {
					seen[k] = true
				}
				if len(seen) < n {
					return done
				}
				t := mk(false)
				for i, k := range s {
					h.Op("Insert", k)
					t.Insert(k, k)
					check(h, t, i+1)
				}
				if n < 7 || h.R.Intn(50) == 0 {
					colours(h, t, true)
				}
				for m := n; m > 0; m-- {
					del(h, t, m)
					check(h, t, m-1)
				}
				done = h.Until(0.5, budget, start)
				return done
			})
		}
		for h.More() {
			t := mk(false)
			size, kmax, grow := 0, 1+h.R.Intn(400), 5
			for o := 50 + h.R.Intn(600); o > 0; o-- {
				if h.R.Intn(30) == 0 {
					grow = 2 + h.R.Intn(7)
				}
				switch {
				case h.R.Intn(10) < grow:
					k := h.R.Intn(kmax)
					h.Op("Insert", k)
					t.Insert(k, k)
					size++
				case size > 0:
					del(h, t, size)
					size--
				}
				if h.R.Intn(400) == 0 {
					h.Op("Clear")
					t.Clear()
					size = 0
				}
				check(h, t, size)
				if h.R.Intn(10) == 0 {
					colours(h, t, false)
				}
			}
		}
	})
}
