package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type Clause struct {
	kind  string // requires ensures inv
	label string
	tags  []string
	expr  string
	file  string
	line  int
}

type Mod struct {
	field string
	refs  []string // nil: anywhere
	all   bool
}

type GhostStmt struct {
	point  string
	target string // field or variable
	at     string
	expr   string
}

type Hint struct {
	point string
	code  string
}

type LoopSpec struct {
	invs []Clause
	decs []string
	all  bool // every field the function modifies is arbitrary at the loop head
}

// Closure is the contract of the n-th function literal of a function.
type Closure struct {
	params []string
	result string
	as     string
	expr   string
	tags   []string
}

var closRe = regexp.MustCompile(`^(\d+)\s*\(([^)]*)\)\s*(\w*?)\s*(?:as\s+([\w.]+)\s*)?ensures(.*)$`)

type FuncSpec struct {
	extern     bool
	from       string // unit that proves this contract, when it is not this one
	key        string
	params     []string
	results    []string
	requires   []Clause
	ensures    []Clause
	panics     []string
	maypanic   []string
	mods       []Mod
	decreases  string
	ghosts     []GhostStmt
	ghostvars  [][3]string // name type init
	hints      []Hint
	loops      map[int]*LoopSpec
	trusted    bool
	inline     bool
	iface      bool
	functype   bool
	noterm     bool
	nopanic    bool
	rlimit     string
	hide       []string // spec functions kept closed in the proof
	implements []string
	visits     string
	lockOf     string
	lock2      string // a second lock, taken and released before
	inner      bool   // lock2 is the lock of a container this one owns: only to be taken while lockOf is held
	sections   string // critical sections of lockOf entered (1 when empty)
	ownstate   bool   // changes nothing but what belongs to the receiver
	split      int
	tags       []string
	file       string
	line       int
	closures   map[int]*Closure
	allocs     bool
	lockfree   bool
	nilrecv    bool
	own        bool
	auto       map[string]bool
}

type GhostField struct{ name, typ string }

type UnitSpec struct {
	name      string
	exactInt  bool
	pkgs      []string // packages under verification
	uses      []string // packages whose types/contracts are used
	specs     []string
	libs      []string
	broadcast []string
	ghosts    []GhostField
	funcs     map[string]*FuncSpec
	order     []string
	verify    []string // explicit list of function keys to verify (empty: all non-trusted in pkgs)
	aliases   map[string]string
	fields    []string
	globals   []string // package variables whose addresses or values specifications name
	fnvals    []string // functions used as values that behave as their contracts say
	axioms    []string
	triggers  map[string]string
	guards    []string
	tags      []string
}

var kwRe = regexp.MustCompile(`^(requires|ensures|panics|maypanic|modifies|decreases|ghost|ghostvar|hint|loop\d+|trusted|inline|noterm|nopanic|rlimit|implements|visits|locks|split|tags|closure|allocs|auto|lockfree|nilrecv|ownstate|sections|hide)\b`)
var funcRe = regexp.MustCompile(`^(func|iface|functype|extern)\s+([\w./$\[\]]+)\s*\(([^)]*)\)\s*(.*)$`)
var lblRe = regexp.MustCompile(`^\[([^\]]*)\]`)

func splitTop(s string, sep byte) []string {
	var out []string
	depth := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case sep:
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	t := strings.TrimSpace(s[last:])
	if t != "" || len(out) > 0 {
		out = append(out, t)
	}
	return out
}

func parseSpecFile(u *UnitSpec, path string, top bool, seen map[string]bool) error {
	if seen[path] {
		return nil
	}
	seen[path] = true
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	lines := strings.Split(string(b), "\n")
	type raw struct {
		text string
		line int
	}
	var cur *FuncSpec
	from := ""
	var items []raw
	flush := func() error {
		if cur == nil {
			return nil
		}
		for _, it := range items {
			if err := parseClause(cur, it.text, path, it.line); err != nil {
				return fmt.Errorf("%s:%d: %v", path, it.line, err)
			}
		}
		items = nil
		cur = nil
		return nil
	}
	for n, ln := range lines {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		if strings.TrimSpace(ln) == "" {
			continue
		}
		indented := ln[0] == ' ' || ln[0] == '\t'
		t := strings.TrimSpace(ln)
		if !indented {
			if err := flush(); err != nil {
				return err
			}
			if m := funcRe.FindStringSubmatch(t); m != nil {
				f := &FuncSpec{key: m[2], loops: map[int]*LoopSpec{}, file: path, line: n + 1, closures: map[int]*Closure{}, auto: map[string]bool{}}
				for _, p := range strings.Split(m[3], ",") {
					if p = strings.TrimSpace(p); p != "" {
						f.params = append(f.params, p)
					}
				}
				for _, p := range strings.Split(m[4], ",") {
					if p = strings.TrimSpace(p); p != "" {
						f.results = append(f.results, p)
					}
				}
				switch m[1] {
				case "iface":
					f.iface, f.trusted = true, true
				case "functype":
					f.functype, f.trusted = true, true
				case "extern":
					f.trusted, f.extern = true, true
				}
				if _, dup := u.funcs[f.key]; dup {
					return fmt.Errorf("%s:%d: duplicate contract for %s", path, n+1, f.key)
				}
				f.tags = append([]string(nil), u.tags...)
				f.own = top
				f.from = from
				u.funcs[f.key] = f
				u.order = append(u.order, f.key)
				cur = f
				continue
			}
			w := strings.Fields(t)
			rest := strings.TrimSpace(t[len(w[0]):])
			switch w[0] {
			case "unit":
				if top {
					u.name = w[1]
				} else {
					from = w[1]
				}
			case "pkg":
				if top {
					u.pkgs = append(u.pkgs, w[1:]...)
				} else {
					u.uses = append(u.uses, w[1:]...)
				}
			case "types":
				u.uses = append(u.uses, w[1:]...)
			case "use":
				save := u.tags
				for _, s := range w[1:] {
					if err := parseSpecFile(u, filepath.Join(filepath.Dir(path), s+".spec"), false, seen); err != nil {
						return err
					}
				}
				u.tags = save
			case "broadcast":
				u.broadcast = append(u.broadcast, w[1:]...)
			case "lib":
				for _, s := range w[1:] {
					l := filepath.Join(filepath.Dir(path), s)
					if !contains(u.libs, l) {
						u.libs = append(u.libs, l)
					}
				}
			case "ghost":
				i := strings.Index(rest, ":")
				u.ghosts = append(u.ghosts, GhostField{strings.ReplaceAll(strings.TrimSpace(rest[:i]), ".", "_"), strings.TrimSpace(rest[i+1:])})
			case "verify":
				if top {
					u.verify = append(u.verify, w[1:]...)
				}
			case "rename":
				u.aliases[w[1]] = w[2]
			case "axiom":
				u.axioms = append(u.axioms, rest)
			case "fnval":
				u.fnvals = append(u.fnvals, w[1:]...)
			case "gconst":
				u.globals = append(u.globals, w[1:]...)
			case "heap":
				u.fields = append(u.fields, w[1:]...)
			case "tags":
				u.tags = w[1:]
			case "exactint":
				if top {
					u.exactInt = true
				}
			case "guard":
				if !top {
					continue
				}
				u.guards = append(u.guards, rest)
			default:
				return fmt.Errorf("%s:%d: unknown directive %q", path, n+1, t)
			}
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s:%d: clause outside a function", path, n+1)
		}
		if kwRe.MatchString(t) {
			items = append(items, raw{t, n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: continuation without clause", path, n+1)
		}
	}
	return flush()
}

func parseLabel(s string) (label string, tags []string, rest string) {
	if m := lblRe.FindStringSubmatch(s); m != nil {
		rest = strings.TrimSpace(s[len(m[0]):])
		for _, w := range strings.Fields(m[1]) {
			if strings.HasPrefix(w, "@") {
				tags = append(tags, w[1:])
			} else {
				label = w
			}
		}
		return
	}
	return "", nil, strings.TrimSpace(s)
}

func parsePoint(s string) (string, string) {
	// POINT is a word, or stmt:"..."#k.before
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "stmt:") {
		j := strings.Index(s[6:], "\"") + 6
		k := j + 1
		for k < len(s) && s[k] != ' ' && s[k] != '{' {
			k++
		}
		return s[:k], strings.TrimSpace(s[k:])
	}
	i := strings.IndexAny(s, " {")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func parseClause(f *FuncSpec, t, file string, line int) error {
	kw := kwRe.FindString(t)
	rest := t[len(kw):]
	if strings.HasPrefix(kw, "loop") {
		n, _ := strconv.Atoi(kw[4:])
		ls := f.loops[n]
		if ls == nil {
			ls = &LoopSpec{}
			f.loops[n] = ls
		}
		rest = strings.TrimSpace(rest)
		switch {
		case strings.HasPrefix(rest, "inv"):
			l, tg, e := parseLabel(rest[3:])
			ls.invs = append(ls.invs, Clause{"inv", l, tg, e, file, line})
		case rest == "all":
			ls.all = true
		case strings.HasPrefix(rest, "dec "):
			ls.decs = append(ls.decs, strings.TrimSpace(rest[4:]))
		case strings.HasPrefix(rest, "hint "):
			p, c := parsePoint(rest[5:])
			f.hints = append(f.hints, Hint{fmt.Sprintf("loop%d.%s", n, p), c})
		case strings.HasPrefix(rest, "ghost "):
			p, c := parsePoint(rest[6:])
			g, err := parseGhost(c)
			if err != nil {
				return err
			}
			g.point = fmt.Sprintf("loop%d.%s", n, p)
			f.ghosts = append(f.ghosts, g)
		default:
			return fmt.Errorf("bad loop clause %q", t)
		}
		return nil
	}
	switch kw {
	case "requires", "ensures":
		l, tg, e := parseLabel(rest)
		c := Clause{kw, l, tg, e, file, line}
		if kw == "requires" {
			f.requires = append(f.requires, c)
		} else {
			f.ensures = append(f.ensures, c)
		}
	case "panics":
		f.panics = append(f.panics, strings.TrimSpace(rest))
	case "maypanic":
		f.maypanic = append(f.maypanic, strings.TrimSpace(rest))
	case "modifies":
		for _, it := range splitTop(rest, ',') {
			if it == "" {
				continue
			}
			m := Mod{}
			if i := strings.Index(it, "@"); i >= 0 {
				m.field = strings.TrimSpace(it[:i])
				m.refs = []string{strings.TrimSpace(it[i+1:])}
			} else {
				m.field = it
				m.all = true
			}
			m.field = strings.ReplaceAll(m.field, ".", "_")
			done := false
			for k := range f.mods {
				if f.mods[k].field == m.field {
					f.mods[k].all = f.mods[k].all || m.all
					f.mods[k].refs = append(f.mods[k].refs, m.refs...)
					done = true
				}
			}
			if !done {
				f.mods = append(f.mods, m)
			}
		}
	case "decreases":
		f.decreases = strings.TrimSpace(rest)
	case "ghost":
		p, c := parsePoint(rest)
		g, err := parseGhost(c)
		if err != nil {
			return err
		}
		g.point = p
		f.ghosts = append(f.ghosts, g)
	case "ghostvar":
		i := strings.Index(rest, ":")
		j := strings.Index(rest, "=")
		f.ghostvars = append(f.ghostvars, [3]string{strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1 : j]), strings.TrimSpace(rest[j+1:])})
	case "hint":
		p, c := parsePoint(rest)
		f.hints = append(f.hints, Hint{p, c})
	case "trusted":
		f.trusted = true
	case "inline":
		f.inline = true
	case "nopanic":
		f.nopanic = true
	case "noterm":
		f.noterm = true
	case "lockfree":
		f.lockfree = true
	case "nilrecv":
		f.nilrecv = true
	case "allocs":
		f.allocs = true
	case "hide":
		f.hide = strings.Fields(rest)
	case "rlimit":
		f.rlimit = strings.TrimSpace(rest)
	case "implements":
		f.implements = append(f.implements, strings.Fields(rest)...)
	case "visits":
		f.visits = strings.TrimSpace(rest)
		// what callers may assume of the visiting order is itself proved
		e := "h.Visit_trace == vrun(visitor, h0.Visit_trace, " + regexp.MustCompile(`\bh\b`).ReplaceAllString(f.visits, "h0") + ")"
		return parseClause(f, "ensures[visits] "+e, file, line)
	case "locks":
		f.lockOf = strings.TrimSpace(rest)
		refs := []string{f.lockOf}
		if i := strings.Index(rest, " also "); i >= 0 {
			f.lockOf, f.lock2 = strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+6:])
			refs = []string{f.lockOf, f.lock2}
		} else if i := strings.Index(rest, " inner "); i >= 0 {
			f.lockOf, f.lock2, f.inner = strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+7:]), true
			refs = []string{f.lockOf, f.lock2}
		}
		f.mods = append(f.mods, Mod{field: "Locker_held", refs: refs}, Mod{field: "Locker_sections", refs: refs})
	case "sections":
		f.sections = strings.TrimSpace(rest)
	case "ownstate":
		f.ownstate = true
	case "split":
		f.split = 1
	case "tags":
		f.tags = strings.Fields(rest)
	case "auto":
		for _, w := range strings.Fields(rest) {
			f.auto[w] = true
		}
	case "closure":
		m := closRe.FindStringSubmatch(strings.TrimSpace(rest))
		if m == nil {
			return fmt.Errorf("bad closure clause %q", rest)
		}
		n, _ := strconv.Atoi(m[1])
		_, tg, e := parseLabel(m[5])
		c := &Closure{result: m[3], as: m[4], expr: e, tags: tg}
		for _, p := range strings.Split(m[2], ",") {
			if p = strings.TrimSpace(p); p != "" {
				c.params = append(c.params, p)
			}
		}
		f.closures[n] = c
	}
	return nil
}

func parseGhost(c string) (GhostStmt, error) {
	// TARGET[@E] = V     (the first top-level single '=')
	depth := 0
	for i := 0; i < len(c); i++ {
		switch c[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '=':
			if depth == 0 && i+1 < len(c) && c[i+1] != '=' && c[i+1] != '~' {
				lhs, rhs := strings.TrimSpace(c[:i]), strings.TrimSpace(c[i+1:])
				g := GhostStmt{target: lhs, expr: rhs}
				if j := strings.Index(lhs, "@"); j >= 0 {
					g.target, g.at = strings.TrimSpace(lhs[:j]), strings.TrimSpace(lhs[j+1:])
				}
				g.target = strings.ReplaceAll(g.target, ".", "_")
				return g, nil
			}
		}
	}
	return GhostStmt{}, fmt.Errorf("bad ghost statement %q", c)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
