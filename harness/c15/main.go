package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/hamt"
)

// zero is a string whose FNV-1 hash is 0: zero followed by zero bytes also has hash 0, and zero followed by
// zero bytes and any w has the hash of zero followed by w
var zero = []byte{0x92, 0x06, 0x77, 0x4c, 0xe0, 0x2f, 0x89, 0x2a, 0xd2}

// pairs of eight-byte strings whose hashes agree on the low n bits (and, followed by a common suffix, still do)
var pairs = []struct {
	n    int
	a, b uint64
}{
	{60, 3108381686412369551, 11219263669216988803},
	{54, 8278427168939988352, 17982368311245516274},
	{48, 8034358296512324777, 7167086457562845149},
	{42, 13939598808709033336, 1334398528648055440},
	{42, 13180354592693382493, 13957971643302443058},
	{42, 9377856799691277813, 16771144217698566060},
	{36, 3252016534400989845, 17023810201268027250},
	{36, 7459040491372977806, 13532151300941620203},
	{36, 6163231944911182549, 13324793983563357223},
	{30, 11730359434391775342, 14216348637499930650},
	{30, 275270643236371632, 11664420809133446972},
}

func sum(b []byte) uint64 {
	f := fnv.New64()
	f.Write(b)
	return f.Sum64()
}

func le(x uint64, suffix ...byte) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return string(b[:]) + string(suffix)
}

// full is a string with the hash of w and not equal to other such strings of different n
func full(n int, w string) string {
	b := append([]byte{}, zero...)
	for i := 0; i < n; i++ {
		b = append(b, 0)
	}
	return string(b) + w
}

// pool is a set of keys that belong together
type pool struct {
	name string
	keys []string
}

func (p *pool) add(k string) {
	for _, x := range p.keys {
		if x == k {
			return
		}
	}
	p.keys = append(p.keys, k)
}

// small pools for the exhaustive part
func smallPools() []pool {
	var ps []pool
	ps = append(ps, pool{"hash 0", []string{full(0, ""), full(1, ""), full(2, "")}})
	ps = append(ps, pool{"one hash", []string{full(0, "ab"), full(1, "ab"), full(5, "ab")}})
	ps = append(ps, pool{"two of one hash and one other", []string{full(0, "ab"), full(1, "ab"), ""}})
	for _, p := range pairs {
		ps = append(ps, pool{fmt.Sprint("agree on ", p.n, " bits"), []string{le(p.a), le(p.b), "x"}})
	}
	ps = append(ps, pool{"plain", []string{"", "a", "b"}})
	// agree on all bits but the lowest ones
	ps = append(ps, pool{"low bits", []string{full(0, "\x01"), full(0, "\x02"), full(0, "\x41")}})
	return ps
}

type trie struct {
	t *hamt.Hamt[int]
	m map[string]int
}

func build(safe bool) *trie {
	var o []hamt.Option
	if safe {
		o = append(o, hamt.WithGoroutineSafe())
	}
	return &trie{hamt.New[int](o...), map[string]int{}}
}

func (x *trie) get(h *hx.H, k string) {
	v, err := x.t.Get(hamt.Key(k))
	if w, ok := x.m[k]; ok {
		h.Check(err == nil && v == w, "Get(%q) gives %d and error %v, want %d", k, v, err, w)
	} else {
		h.Check(err == hamt.ErrorNotFound && v == 0, "Get(%q) gives %d and error %v for an absent key", k, v, err)
	}
}

func (x *trie) insert(h *hx.H, who, k string, v int) {
	h.Op(who, "Insert", fmt.Sprintf("%q", k), v)
	key := hamt.Key(k)
	if k == "" && v%2 == 0 {
		key = nil // the empty byte string
	}
	x.t.Insert(key, v)
	x.m[k] = v
	h.Check(string(key) == k, "Insert changes its key %q to %q", k, string(key))
}

func (x *trie) erase(h *hx.H, who, k string) {
	h.Op(who, "Erase", fmt.Sprintf("%q", k))
	_, w := x.m[k]
	delete(x.m, k)
	ok := x.t.Erase(hamt.Key(k))
	h.Check(ok == w, "Erase(%q) gives %v, want %v", k, ok, w)
}

func (x *trie) check(h *hx.H, ks []string) {
	for _, k := range ks {
		x.get(h, k)
	}
	seen := map[string]bool{}
	keys := x.t.Keys()
	for _, k := range keys {
		_, ok := x.m[string(k)]
		h.Check(ok && !seen[string(k)], "Keys gives %q, the trie holds %v", keys, x.m)
		seen[string(k)] = true
	}
	h.Check(len(keys) == len(x.m), "Keys gives %q, the trie holds %v", keys, x.m)
	if len(keys) > 0 {
		keys[0] = hamt.Key("changed") // the list is the caller's
	}
	seen = map[string]bool{}
	sk := x.t.StringKeys()
	for _, k := range sk {
		_, ok := x.m[k]
		h.Check(ok && !seen[k], "StringKeys gives %q, the trie holds %v", sk, x.m)
		seen[k] = true
	}
	h.Check(len(sk) == len(x.m), "StringKeys gives %q, the trie holds %v", sk, x.m)
	seen = map[string]bool{}
	n := 0
	x.t.Traversal(func(k hamt.Key, v int) bool {
		w, ok := x.m[string(k)]
		h.Check(ok && v == w && !seen[string(k)], "Traversal visits %q with %d, the trie holds %v", k, v, x.m)
		seen[string(k)] = true
		n++
		return true
	})
	h.Check(n == len(x.m), "Traversal visits %d keys, the trie holds %v", n, x.m)
	for stop := 1; stop <= len(x.m); stop++ {
		if len(x.m) > 4 && h.R.Intn(len(x.m)) > 2 {
			continue
		}
		n := 0
		x.t.Traversal(func(hamt.Key, int) bool { n++; return n < stop })
		h.Check(n == stop, "Traversal makes %d visits when the visitor stops it at visit %d", n, stop)
	}
}

func bigPool(h *hx.H) pool {
	var p pool
	switch h.R.Intn(5) {
	case 0: // everything mixed
		p.name = "mixed"
		for i := 0; i < 4+h.R.Intn(20); i++ {
			q := pairs[h.R.Intn(len(pairs))]
			var suf []byte
			for j := h.R.Intn(3); j > 0; j-- {
				suf = append(suf, byte(h.R.Intn(3)))
			}
			p.add(le(q.a, suf...))
			p.add(le(q.b, suf...))
			if h.R.Intn(2) == 0 {
				p.add(full(h.R.Intn(3), le(q.a, suf...)))
			}
			if h.R.Intn(3) == 0 {
				p.add(full(h.R.Intn(4), fmt.Sprint(h.R.Intn(4))))
			}
		}
	case 1: // many full collisions
		p.name = "collisions"
		n := 2 + h.R.Intn(12)
		w := fmt.Sprint(h.R.Intn(100))
		for i := 0; i < n; i++ {
			p.add(full(i, w))
			if i%3 == 0 {
				p.add(full(i, ""))
			}
		}
		p.add(w)
	case 2: // hashes that differ in the low bits only, with collisions
		p.name = "low bits"
		for i := 0; i < 10+h.R.Intn(60); i++ {
			p.add(full(h.R.Intn(2), string([]byte{byte(h.R.Intn(256))})))
		}
	case 3: // deep pairs with full collisions of each side
		p.name = "deep"
		q := pairs[h.R.Intn(len(pairs))]
		for i := 0; i < 3; i++ {
			p.add(le(q.a))
			p.add(le(q.b))
			p.add(full(i, le(q.a)))
			p.add(full(i, le(q.b)))
		}
		p.add("")
	default: // plain strings
		p.name = "plain"
		for i := 0; i < 5+h.R.Intn(400); i++ {
			p.add(fmt.Sprint(h.R.Intn(100000)))
		}
		p.add("")
	}
	return p
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every short history of inserts and erases of 3 keys whose hashes are equal or agree on 30 to 60 low bits; then random histories on such keys, on many colliding keys and on plain strings, two tries side by side, against a Go map")
		start := time.Now()
		for _, p := range pairs {
			d := sum([]byte(le(p.a))) ^ sum([]byte(le(p.b)))
			if d == 0 || d&(1<<uint(p.n)-1) != 0 {
				panic("the keys of the harness are wrong")
			}
		}
		if sum(zero) != 0 {
			panic("the keys of the harness are wrong")
		}
		done := true
		length, ops := 5, 6
		total := 1
		for i := 0; i < length; i++ {
			total *= ops
		}
		for pi, p := range smallPools() {
			for x := 0; x < total && done; x++ {
				h.Begin("hamt", p.name)
				t := build((pi+x)%2 == 0)
				for i, y := 0, x; i < length; i, y = i+1, y/ops {
					k := p.keys[y%3]
					if y%ops < 3 {
						t.insert(h, "", k, i+1)
					} else {
						t.erase(h, "", k)
					}
					t.check(h, p.keys)
				}
				if x%64 == 0 {
					done = h.Until(0.6, budget, start)
				}
			}
			if done {
				h.Exhaustive(fmt.Sprintf("every history of %d inserts and erases of 3 keys, keys: %s", length, p.name))
			}
		}
		for round := 0; h.More(); round++ {
			p := bigPool(h)
			h.Begin("hamt", p.name, len(p.keys), "keys")
			a, b := build(round%2 == 0), build(round%2 == 1)
			steps := 20 + 3*len(p.keys)
			bias := 1 + h.R.Intn(5)
			for i := 0; i < steps; i++ {
				t, who := a, "a"
				if h.R.Intn(4) == 0 {
					t, who = b, "b"
				}
				if i%(1+len(p.keys)) == len(p.keys) {
					bias = 1 + h.R.Intn(5)
				}
				k := p.keys[h.R.Intn(len(p.keys))]
				if h.R.Intn(6) < bias {
					t.insert(h, who, k, 1+h.R.Intn(1000))
				} else {
					t.erase(h, who, k)
				}
				t.get(h, k)
				if i == steps-1 || i%(1+len(p.keys)/4) == 0 {
					a.check(h, p.keys)
					b.check(h, p.keys)
				}
			}
			// erase everything, in any order
			for _, i := range h.R.Perm(len(p.keys)) {
				a.erase(h, "a", p.keys[i])
				if len(p.keys) < 40 {
					a.check(h, p.keys)
				}
			}
			a.check(h, p.keys)
			b.check(h, p.keys)
		}
	})
}
