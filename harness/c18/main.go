package main

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
)

type points = treemap.Map[uint64, string]

// the map of points of the real ring, found by its type; nil if there is no such field
func inner(k *ketama.Ketama) *points {
	v := reflect.ValueOf(k).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*points)(nil)) {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*points)
		}
	}
	return nil
}

var open = inner(ketama.New()) != nil

type pt struct {
	x uint64
	n string
}

func ringOf(k *ketama.Ketama) []pt {
	var r []pt
	inner(k).Traversal(func(x uint64, n string) bool { r = append(r, pt{x, n}); return true })
	return r
}

var hashes = map[string]uint64{}

// a key hashes to where the only point of a node of that name lies
func hashOf(key string) uint64 {
	if h, ok := hashes[key]; ok {
		return h
	}
	k := ketama.New(ketama.WithReplicas(1))
	k.Add(key)
	r := ringOf(k)
	if len(r) != 1 {
		return 0
	}
	hashes[key] = r[0].x
	return r[0].x
}

func succ(r []pt, x uint64) string {
	for _, p := range r {
		if p.x >= x {
			return p.n
		}
	}
	return r[0].n
}

var keys []string

type placing struct {
	owner []string
	ok    []bool
}

func look(k *ketama.Ketama) placing {
	var p placing
	for _, key := range keys {
		o, ok := k.Get(key)
		p.owner = append(p.owner, o)
		p.ok = append(p.ok, ok)
	}
	return p
}

// whether the lookups are right for these members, given the ring itself
func sound(h *hx.H, k *ketama.Ketama, p placing, members map[string]bool, reps int) {
	for i, key := range keys {
		if reps == 0 || len(members) == 0 {
			h.Check(!p.ok[i], "ring with members %v and %d replicas: Get(%q) found %q", members, reps, key, p.owner[i])
			continue
		}
		h.Check(p.ok[i] && members[p.owner[i]], "ring with members %v and %d replicas: Get(%q) = %q, %v, not a present node", members, reps, key, p.owner[i], p.ok[i])
	}
	if !open {
		return
	}
	r := ringOf(k)
	h.Check(sort.SliceIsSorted(r, func(i, j int) bool { return r[i].x < r[j].x }), "ring points not in order")
	if len(r) == 0 {
		return
	}
	for i, key := range keys {
		h.Check(p.owner[i] == succ(r, hashOf(key)), "Get(%q) = %q, but the first point at or after its hash %d belongs to %q", key, p.owner[i], hashOf(key), succ(r, hashOf(key)))
	}
}

func build(reps int, safe bool, nodes ...string) *ketama.Ketama {
	opts := []ketama.Option{ketama.WithReplicas(reps)}
	if safe {
		opts = append(opts, ketama.WithGoroutineSafe())
	}
	k := ketama.New(opts...)
	k.Add(nodes...)
	return k
}

func names(m map[string]bool) []string {
	var s []string
	for n := range m {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

func main() {
	for i := 0; i < 120; i++ {
		keys = append(keys, fmt.Sprint(i))
	}
	keys = append(keys, "", "a", "b", "\x00", "10.0.0.1")
	pool := []string{"", "a", "b", "c", "10.0.0.1", "10.0.0.2", "0", "a\x00", "node", "node1", "node11"}
	replicas := []int{0, 1, 2, 3, 5, 7, 8, 10, 16, 40}
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("a case is one history of Add and Remove on a ring, with the lookups of 125 keys checked after every step against the ring's points and against the lookups before")
		// exact positions: keys that are node names, and every gap of small rings, the last wrapping around
		if open {
			for _, reps := range []int{1, 2, 3} {
				for _, set := range [][]string{{"a"}, {"a", "b"}, {"", "a", "c"}, {"node", "node1", "10.0.0.1", "0"}} {
					h.Begin("positions", reps, fmt.Sprintf("%q", set))
					k := build(reps, reps == 2, set...)
					r := ringOf(k)
					last, first := r[len(r)-1].x, r[0].x
					for i := 0; i < 400; i++ {
						key := fmt.Sprintf("k%d", i)
						x := hashOf(key)
						h.Op("get", key)
						o, ok := k.Get(key)
						h.Check(ok && o == succ(r, x), "Get(%q) = %q, %v with hash %d on ring from %d to %d, want %q", key, o, ok, x, first, last, succ(r, x))
					}
					for _, n := range set {
						h.Op("get", n)
						o, ok := k.Get(n)
						h.Check(ok && o == succ(r, hashOf(n)), "Get(%q) = %q, %v where a point lies exactly at its hash, want %q", n, o, ok, succ(r, hashOf(n)))
					}
				}
			}
			h.Exhaustive("key exactly at a point, between points and past the last point on rings of up to 12 points")
		}
		start := time.Now()
		for h.Until(0.9, budget, start) {
			reps := replicas[h.R.Intn(len(replicas))]
			safe := h.R.Intn(2) == 0
			h.Begin("replicas", reps, "safe", safe)
			k := build(reps, safe)
			members := map[string]bool{}
			before := look(k)
			sound(h, k, before, members, reps)
			for step := 0; step < 1+h.R.Intn(14); step++ {
				var ns []string
				for i := 0; i <= h.R.Intn(4)*h.R.Intn(2); i++ {
					if h.R.Intn(4) == 0 {
						ns = append(ns, fmt.Sprintf("n%d", h.R.Intn(30)))
					} else {
						ns = append(ns, pool[h.R.Intn(len(pool))])
					}
				}
				if h.R.Intn(12) == 0 {
					ns = nil
				}
				named := map[string]bool{}
				for _, n := range ns {
					named[n] = true
				}
				add := h.R.Intn(5) < 3
				changed := false
				var was []pt
				if open {
					was = ringOf(k)
				}
				if add {
					h.Op("add", fmt.Sprintf("%q", ns))
					k.Add(ns...)
					for n := range named {
						changed = changed || !members[n]
						members[n] = true
					}
				} else {
					h.Op("remove", fmt.Sprintf("%q", ns))
					k.Remove(ns...)
					for n := range named {
						changed = changed || members[n]
						delete(members, n)
					}
				}
				after := look(k)
				sound(h, k, after, members, reps)
				for i := range keys {
					same := after.ok[i] == before.ok[i] && after.owner[i] == before.owner[i]
					if add {
						h.Check(same || named[after.owner[i]], "adding %q moved key %q from %q to %q", ns, keys[i], before.owner[i], after.owner[i])
					} else {
						h.Check(same || named[before.owner[i]], "removing %q moved key %q from %q to %q", ns, keys[i], before.owner[i], after.owner[i])
					}
					h.Check(same || changed, "adding present or removing absent nodes %q moved key %q from %q to %q", ns, keys[i], before.owner[i], after.owner[i])
				}
				if open && !changed {
					h.Check(fmt.Sprint(was) == fmt.Sprint(ringOf(k)), "adding present or removing absent nodes %q changed the ring", ns)
				}
				h.Check(k.Empty() == (reps == 0 || len(members) == 0), "Empty() = %v with members %v and %d replicas", k.Empty(), names(members), reps)
				before = after
			}
			// the same members, however they came, place keys the same way
			ns := names(members)
			h.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			fresh := build(reps, !safe, ns...)
			p := look(fresh)
			for i := range keys {
				h.Check(p.ok[i] == before.ok[i] && p.owner[i] == before.owner[i], "members %v added in another order place key %q on %q, not %q", ns, keys[i], p.owner[i], before.owner[i])
			}
		}
	})
}
