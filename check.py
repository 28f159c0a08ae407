#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property of /verif/properties.jsonl:
 1. govc compiles the current Go source of the units the property depends on, with their contracts
    (specs/*.spec), into Verus proof obligations;
 2. verus (z3) has to discharge every one of them;
 3. a bounded harness runs the public API against a reference model: when 2. fails it looks for a
    concrete failing input, and otherwise it is a labelled cross-check of the contracts.
Exit 0: every obligation discharged and the cross-check quiet.  Exit 1: VIOLATION line.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPECS = os.path.join(VERIF, 'specs')
GO = '/opt/veriftools/go1.27.3/bin/go'
VERUS_FLAGS = ['--no-auto-recommends-check', '--triggers-mode', 'silent', '--multiple-errors', '12',
               '--error-format=json', '--output-json', '--time-expanded']
T0 = time.time()
LIMIT = 840


def left():
    return LIMIT - (time.time() - T0)


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = os.path.dirname(GO) + ':' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['GOFLAGS'] = '-mod=mod'
    e['GOPROXY'] = 'off'
    e['GOTOOLCHAIN'] = 'local'
    e['GOWORK'] = 'off'
    return e


def run(cmd, timeout=None, cwd=None, extra=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace') + '\nTIMEOUT'


def die(msg):
    print('ERROR', msg, file=sys.stderr)
    sys.exit(2)


def build_govc():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'govc.%d' % os.getpid())
    rc, o, e = run([GO, 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'govc'), timeout=300)
    if rc != 0:
        die('cannot build govc: ' + o + e)
    fin = os.path.join(BUILD, 'govc')
    os.replace(out, fin)
    return fin


# ---------------------------------------------------------------- proofs

class Unit:
    def __init__(self, name, work):
        self.name, self.work = name, work
        self.meta = None
        self.error = None          # the unit could not be generated
        self.failed = {}           # function key -> list of (obligation id, tags, message)
        self.notes = []
        self.solver_ms = 0
        self.lib_error = None
        self.runs = 0

    def generate(self, govc, cover=False):
        rc, o, e = run([govc, '-repo', REPO] + (['-cover'] if cover else []) +
                       ['-prelude', os.path.join(SPECS, 'prelude.rs'), '-out', self.work,
                        os.path.join(SPECS, self.name + '.spec')], cwd=SPECS, timeout=120)
        if rc != 0:
            self.error = (o + e).strip()[-3000:]
            if rc not in (2, 3):
                self.error = 'govc exit %d: ' % rc + self.error
            return
        with open(os.path.join(self.work, self.name + '.json')) as f:
            self.meta = json.load(f)
        with open(os.path.join(self.work, self.name + '.rs')) as f:
            self.lines = f.read().split('\n')

    def funcs(self):
        return {f['key']: f for f in self.meta['functions']}

    def span(self, f):
        i = f['start'] - 1
        while i > 0 and self.lines[i - 1].startswith('#['):
            i -= 1
        return range(i, f['end'])

    def at(self, line):
        for f in self.meta['functions']:
            if f['status'] == 'verified' and f['start'] <= line <= f['end']:
                return f
        return None

    def verus(self, lines, tag, extra=(), timeout=300):
        path = os.path.join(self.work, '%s_%s.rs' % (self.name, tag))
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
        self.runs += 1
        rc, o, e = run(['verus', path, '--crate-type=lib'] + VERUS_FLAGS + list(extra), timeout=timeout, cwd=self.work)
        errs = []
        for l in e.split('\n'):
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                # the failing place is the primary span; other spans may point to a called lemma
                prim = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
                errs.append((d.get('message', ''), [s['line_start'] for s in prim], [s['line_start'] for s in d['spans']],
                             (d.get('rendered') or '')[:1500]))
        res, ms = None, 0
        try:
            j = json.loads(o)
            res = j.get('verification-results')
            ms = j.get('times-ms', {}).get('smt', {}).get('total', 0)
        except ValueError:
            pass
        self.solver_ms += ms
        return rc, res, errs, e

    def obligation(self, f, lines):
        """the obligation a reported line belongs to: the obligation at that line, or the next one"""
        best = None
        for ob in f['obligations']:
            for ln in lines:
                if ob['line'] == ln:
                    return ob
        for ln in lines:
            for ob in sorted(f['obligations'], key=lambda o: o['line']):
                if ob['line'] >= ln:
                    return ob
        return f['obligations'][-1] if f['obligations'] else {'id': f['key'] + '#body', 'tags': f.get('tags', [])}

    def prove(self):
        lines = list(self.lines)
        for f in self.meta['functions']:
            if f['status'] == 'unsupported':
                self.failed[f['key']] = [(f['key'] + '#translation', f.get('tags') or [], 'outside of the supported subset: ' + f.get('note', ''))]
        # 1. drop functions whose text does not type-check (a contract names something that is gone)
        for attempt in range(12):
            rc, res, errs, raw = self.verus(lines, 'run%d' % attempt)
            if res and not res.get('encountered-vir-error') and (res.get('verified', 0) + res.get('errors', 0)) > 0:
                break
            blamed = set()
            for msg, prim, allsp, rend in errs:
                hit = False
                for ln in prim + allsp:
                    f = self.at(ln)
                    if f and f['key'] not in blamed:
                        blamed.add(f['key'])
                        self.failed.setdefault(f['key'], []).append(
                            (f['key'] + '#contract_applies', f.get('tags') or [], 'the contract no longer fits the source: ' + rend))
                    hit = hit or f is not None
                    if hit:
                        break
            if not blamed:
                self.lib_error = raw[-3000:]
                return
            for k in blamed:
                f = self.funcs()[k]
                for i in self.span(f):
                    lines[i] = ''
        else:
            self.lib_error = 'does not type-check'
            return
        bad = self.collect(errs, res)
        # 2. retry the failing ones: other seeds, more resources
        if bad and res:
            for seed, mult in ((7, 2), (23, 4)):
                if not bad or left() < 330 or self.found():  # no need when the harness has a failing input
                    break
                l2 = list(lines)
                keep = set(k for k in bad if k)
                for f in self.meta['functions']:
                    if f['status'] != 'verified':
                        continue
                    if f['key'] not in keep and f['start'] > 1 and not lines[f['start'] - 1] == '':
                        for st in f['starts']:
                            l2[st - 1] = '#[verifier::external_body] ' + l2[st - 1]
                    elif f['key'] in keep:
                        for i in self.span(f):
                            m = re.match(r'#\[verifier::rlimit\((\d+)\)\]', l2[i])
                            if m:
                                l2[i] = '#[verifier::rlimit(%d)]' % (int(m.group(1)) * mult)
                rc, res2, errs2, raw2 = self.verus(l2, 'retry%d' % seed, ['--smt-option', 'smt.random_seed=%d' % seed], timeout=240)
                if not res2 or res2.get('encountered-vir-error') or res2.get('verified', 0) + res2.get('errors', 0) == 0:
                    break
                b2 = self.collect(errs2, res2)
                bad = {k: v for k, v in b2.items() if k in bad}
        for k, v in bad.items():
            if k is None:
                self.lib_error = v[0][2]
            else:
                self.failed.setdefault(k, []).extend(v)

    def found(self):
        return False

    def collect(self, errs, res):
        bad = {}
        if not res or res.get('encountered-vir-error') or (res.get('errors', 0) and not errs):
            bad[None] = [(self.name + '#lemmas', [], 'verus gave no answer')]
        for msg, prim, allsp, rend in errs:
            f = None
            for ln in prim:
                f = f or self.at(ln)
            use = prim
            if f is None:
                for ln in allsp:
                    f = f or self.at(ln)
                use = allsp
            if f is None:
                bad.setdefault(None, []).append((self.name + '#lemmas', [], rend or msg))
                continue
            ob = self.obligation(f, [l for l in use if f['start'] <= l <= f['end']])
            bad.setdefault(f['key'], []).append((ob['id'], ob.get('tags') or f.get('tags') or [], (rend or msg), ob.get('pos', '')))
        return bad

    def covers(self, govc):
        """vacuity check: every reachability assertion has to fail"""
        u = Unit(self.name, os.path.join(self.work, 'cover'))
        os.makedirs(u.work, exist_ok=True)
        u.generate(govc, cover=True)
        if u.error:
            return 0, ['not generated']
        rc, res, errs, raw = u.verus(u.lines, 'cover', ['--multiple-errors', '60'] if False else [], timeout=500)
        fl = set()
        for msg, prim, allsp, rend in errs:
            fl.update(prim)
        cov = {}
        for i, l in enumerate(u.lines):
            m = re.search(r'/\*COVER (.*?)\*/', l)
            if m:
                cov.setdefault(m.group(1), []).append(i + 1 in fl)
        return len(cov), sorted(k for k, v in cov.items() if not any(v))


def spec_scan(units):
    """assumptions made by hand in the specification libraries"""
    out = set()
    files = set()

    def walk(name):
        p = os.path.join(SPECS, name + '.spec')
        if p in files or not os.path.exists(p):
            return
        files.add(p)
        for l in open(p):
            w = l.split()
            if l.startswith('use '):
                for x in w[1:]:
                    walk(x)
            elif l.startswith('lib '):
                for x in w[1:]:
                    files.add(os.path.join(SPECS, x))
    for u in units:
        walk(u)
    files.add(os.path.join(SPECS, 'prelude.rs'))
    for p in sorted(files):
        if not os.path.exists(p):
            continue
        cur = ''
        for l in open(p):
            m = re.match(r'func (\S+?)\(|extern (\S+?)\(|functype (\S+?)\(|iface (\S+?)\(', l)
            if m:
                cur = [g for g in m.groups() if g][0]
                if m.group(2):
                    out.add('extern contract %s (%s)' % (cur, os.path.basename(p)))
            if l.strip() == 'trusted':
                out.add('trusted contract %s' % cur)
            for m in re.finditer(r'\b(assume|admit)\s*\(', l):
                out.add('%s in %s' % (m.group(1), os.path.basename(p)))
            m = re.search(r'axiom fn (\w+)', l)
            if m:
                out.add('axiom %s (%s)' % (m.group(1), os.path.basename(p)))
    return sorted(out)


# ---------------------------------------------------------------- harness

def harness(prop, cfg, seed, seconds, work):
    """returns (status, report): status ok | fail | unavailable"""
    name = cfg.get('harness')
    if not name:
        return 'unavailable', {'note': 'no harness'}
    hdir = os.path.join(VERIF, 'harness')
    binp = os.path.join(work, 'h_' + name)
    mod = os.path.join(work, 'go.mod')
    shutil.copy(os.path.join(hdir, 'go.mod'), mod)
    if os.path.exists(os.path.join(hdir, 'go.sum')):
        shutil.copy(os.path.join(hdir, 'go.sum'), os.path.join(work, 'go.sum'))
    cmd = [GO, 'build', '-modfile', mod, '-o', binp]
    if cfg.get('race'):
        cmd.append('-race')
    ov = cfg.get('overlay')
    tries = [cmd + ['./' + name]]
    if ov:
        op = os.path.join(work, 'overlay.json')
        with open(op, 'w') as f:
            json.dump({'Replace': {os.path.join(REPO, k): os.path.join(hdir, v) for k, v in ov.items()}}, f)
        tries.insert(0, cmd + ['-overlay', op, '-tags', 'verifoverlay', './' + name])
    note = ''
    for t in tries:
        rc, o, e = run(t, cwd=hdir, timeout=240)
        if rc == 0:
            break
        note += e[-1500:]
    if rc != 0:
        return 'unavailable', {'note': 'harness does not build: ' + note}
    trace = os.path.join(work, 'h_trace')
    args = [binp, '-seed', str(seed), '-seconds', str(seconds)]
    x = {'GORACE': 'halt_on_error=1 exitcode=66', 'GOTRACEBACK': 'single', 'GOMEMLIMIT': '6GiB'}
    rc, o, e = run(args, timeout=seconds * 3 + 60, cwd=work, extra=x)
    rep = None
    for l in o.split('\n'):
        if l.startswith('REPORT '):
            rep = json.loads(l[7:])
    if rc == 0 and rep is not None:
        if note:
            rep['note'] = 'built without the in-package overlay: ' + note[:600]
        return 'ok', rep
    fail = None
    for l in o.split('\n'):
        if l.startswith('FAIL '):
            fail = json.loads(l[5:])
    if fail is None:
        # crashed or hung outside of the harness' control: run again with the history written out
        rc2, o2, e2 = run(args + ['-trace', trace], timeout=seconds * 3 + 60, cwd=work, extra=x)
        hist = ''
        if os.path.exists(trace):
            with open(trace) as f:
                hist = f.read()[-6000:]
        fail = {'what': 'the program under test crashed or did not finish (exit %d)' % rc, 'history': hist.split('\n'),
                'output': (o + e)[:6000]}
    fail['command'] = 'cd %s && %s && %s -seed %s -seconds %s' % (hdir, ' '.join(t), binp, seed, seconds)
    return 'fail', fail


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    with open(os.path.join(VERIF, 'props.json')) as f:
        props = json.load(f)
    cfg = props[prop]
    support = set(cfg.get('support', [])) | {prop}
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return decide(prop, tier, seed, cfg, support, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, cfg, support, work):
    govc = build_govc()
    units = [Unit(n, work) for n in cfg['units']]
    hsec = cfg.get('hsec', 8) if tier == 'quick' else cfg.get('hsec_thorough', 240)
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        hfut = ex.submit(harness, prop, cfg, seed, hsec, work)

        def one(u):
            u.found = lambda: hfut.done() and hfut.result()[0] == 'fail'
            u.generate(govc)
            if not u.error:
                u.prove()
        list(ex.map(one, units))
        hstat, hrep = hfut.result()
    # which functions carry the property: those tagged with it, and what they call
    allf = {}
    impl = {}
    for u in units:
        if u.meta:
            for f in u.meta['functions']:
                allf.setdefault(f['key'], []).append((u, f))
                for ik in f.get('implements') or []:
                    impl.setdefault(ik, []).append(f['key'])

    def tags_of(f):
        t = set(f.get('tags') or [])
        for ob in f['obligations'] or []:
            t.update(ob.get('tags') or [])
        return t
    carry = set(k for k, l in allf.items() for (u, f) in l if prop in tags_of(f))
    todo = list(carry)
    while todo:
        k = todo.pop()
        for (u, f) in allf.get(k, []):
            for c in (f.get('called') or []) + sum((impl.get(c, []) for c in f.get('called') or []), []):
                if c in allf and c not in carry:
                    carry.add(c)
                    todo.append(c)
    n_ob = n_ok = 0
    fails, fn_names, missing = [], [], []
    for u in units:
        if u.error:
            fails.append({'unit': u.name, 'obligation': u.name + '#generation', 'where': '', 'message': u.error})
            n_ob += 1
            continue
        if u.lib_error:
            fails.append({'unit': u.name, 'obligation': u.name + '#lemmas', 'where': '', 'message': u.lib_error})
            n_ob += 1
        for f in u.meta['functions']:
            if f['key'] not in carry:
                continue
            if f['status'] == 'missing':
                missing.append(f['key'])
                last = f['key'].split('.')[-1]
                if last[:1].isupper():
                    fails.append({'unit': u.name, 'obligation': f['key'] + '#exists', 'where': '', 'message': 'the function under contract is gone: ' + f.get('note', '')})
                    n_ob += 1
                continue
            rel = [ob for ob in f['obligations'] or [] if set(ob.get('tags') or f.get('tags') or []) & support]
            if not rel and f['status'] == 'verified':
                continue
            bad = [b for b in u.failed.get(f['key'], []) if not b[1] or set(b[1]) & support]
            whole = [b for b in bad if b[0].endswith('#translation') or b[0].endswith('#contract_applies')]
            n_ob += max(len(rel), 1)
            if u.lib_error:
                continue
            if f['status'] == 'verified' and not whole:
                n_ok += len(rel) - len(set(b[0] for b in bad) & set(o['id'] for o in rel))
            fn_names.append(f['key'])
            for b in bad:
                fails.append({'unit': u.name, 'obligation': b[0], 'where': b[3] if len(b) > 3 else f.get('pos', ''), 'message': b[2]})
    if n_ob == 0:
        die('no obligation was generated for ' + prop)
    if fails and hstat == 'ok' and left() > 100:
        # look harder for a concrete failing input
        hsec2 = int(min(cfg.get('hsec_fail', 60), left() / 3 - 20))
        if hsec2 > hsec:
            st2, rep2 = harness(prop, cfg, seed + 1000003, hsec2, work)
            if st2 != 'unavailable':
                hstat, hrep = st2, rep2
    cover = {}
    if tier == 'thorough' and not fails:
        for u in units:
            if left() < 120:
                break
            n, bad = u.covers(govc)
            cover[u.name] = {'points': n, 'unreachable': bad}
    known = load_known(prop)
    viol = 0
    for k in known:
        if not k.get('fixed'):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    replay = None
    reasons = fails
    if fails or hstat == 'fail':
        viol = 1
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, '%s.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': fails,
                       'failing_input': hrep if hstat == 'fail' else None,
                       'harness': hstat if hstat != 'fail' else 'failing input found',
                       'harness_note': hrep.get('note') if hstat != 'fail' else None}, f, indent=1)
    trusted = spec_scan(cfg['units'])
    ms = sum(u.solver_ms for u in units)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': n_ob, 'discharged': n_ok,
            'checker_cmd': 'verus %s <unit>.rs on units %s generated by govc from /repo on this run' % (' '.join(VERUS_FLAGS[:3]), ', '.join(cfg['units'])),
            'trusted_base': ['govc (Go to Verus translation, /verif/govc)', 'verus 0.2026.09.13 and z3', 'go/types (type checking)'] + trusted,
            'back_end': 'verus / z3',
            'functions_under_contract': sorted(set(fn_names)),
            'functions_gone': missing,
            'solver_time_ms': ms,
            'verifier_runs': sum(u.runs for u in units),
            'failed_obligations': [x['obligation'] for x in fails],
            'bounded_cross_check': {'label': 'bounded, never counted as proved', 'status': hstat,
                                    'report': hrep if hstat != 'fail' else {'failing_input': hrep.get('what')}, 'seconds': hsec},
        },
        'assumptions': cfg.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - T0, 2),
        'violations': viol,
    }
    if cover:
        ev['coverage']['vacuity_check'] = cover
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        for x in reasons[:12]:
            print('FAILED-OBLIGATION', x['obligation'], x['where'])
        if hstat == 'fail':
            print('FAILING-INPUT', hrep.get('what'))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    print('OK property=%s obligations=%d discharged=%d functions=%d solver_ms=%d harness=%s wall=%.1fs' %
          (prop, n_ob, n_ok, len(set(fn_names)), ms, hstat, time.time() - T0))
    return 0


COMMON_ASSUMPTIONS = [
    'int, int64 and uint are treated as mathematical integers (no overflow); uint8, uint32 and uint64 are exact',
    'elements, comparators, predicates and visitors are total deterministic functions that do not touch the container',
    'memory is unbounded: allocation does not fail',
    'the Go compiler and runtime implement the language specification',
]


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


if __name__ == '__main__':
    sys.exit(main())
