#!/usr/bin/env python3
"""check.py ID   -- decide one property (see DESIGN.md).  Exit 0: held; exit 1 + VIOLATION line."""
import json, os, re, subprocess, sys, time, threading, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()

def sh(cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b'').decode('utf8', 'replace'), 'timeout after %ss' % timeout

def build_tools():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--manifest-path', V + '/vx/Cargo.toml'], env={'CARGO_TARGET_DIR': B + '/vx'}, timeout=400)
    if rc: raise RuntimeError('building the extractor: ' + e[-2000:])
def vx(unit, out, *flags):
    rc, o, e = sh([B + '/vx/debug/vx', REPO + '/src', V + '/contracts', unit, out] + list(flags), timeout=60)
    if rc: raise RuntimeError('extractor: ' + e)
    return json.loads(o)

VERIF_MSG = ['postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division by zero', 'unable to prove', 'decreases not satisfied', 'termination', 'possible', 'assert', 'cannot show', 'failed this', 'recommendation not met', 'unreachable', 'constructed value may fail']
def is_verif_msg(m):
    return any(m.startswith(x) or x in m for x in ['postcondition not satisfied', 'precondition not satisfied', 'precondition not met', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division', 'unable to prove', 'decreases not satisfied', 'could not prove termination', 'loop ensures not satisfied', 'requires not satisfied', 'bit shift', 'possible bit'])
def run_verus(path, extra=(), timeout=500):
    rc, o, e = sh(['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '30', '--rlimit', '30'] + list(extra), cwd=B, timeout=timeout)
    try: summary = json.loads(o)
    except Exception: summary = None
    diags = []
    for l in e.splitlines():
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except Exception: pass
    return rc, summary, diags, e

def markers(path):
    res, text = [], open(path).read().split('\n')
    for i, l in enumerate(text, 1):
        m = re.match(r'// @@(fn|use|raw|item|prelude)\s*(\S*)\s*(.*)', l)
        if m:
            kind = m.group(1)
            res.append((i, kind, m.group(3) if kind in ('fn', 'use') else m.group(2)))
    return res, text
def where(marks, line):
    cur = (0, 'prelude', 'top')
    for m in marks:
        if m[0] <= line: cur = m
        else: break
    return cur[1], cur[2]
def lemma_at(text, line):
    for i in range(min(line, len(text)) - 1, -1, -1):
        m = re.search(r'\bproof fn (\w+)', text[i])
        if m: return m.group(1)
        if text[i].startswith('// @@'): break
    return 'lemma'

class Unit:
    """one generated Verus file; verdict per function: proved / failed / undecided"""
    def __init__(self, name):
        self.name = name; self.fn = {}; self.failed = {}; self.undecided = {}; self.verified = 0; self.errors = 0; self.raw_errors = []; self.notes = []
        self.smt_ms = 0; self.info = None; self.path = None; self.assumed = []; self.imports = []; self.dropped = {}; self.probes = (0, 0); self.breakdown = {}
    def run(self):
        demote, drop = [], []
        out = os.path.join(B, 'gen', self.name + '.rs'); self.path = out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for rnd in range(14):
            flags = sum([['--demote', d] for d in demote], []) + sum([['--drop', d] for d in drop], [])
            info = vx(self.name, out, *flags); self.info = info
            for l in info['lost']:
                if 'fn' in l: self.undecided.setdefault(l['fn'], 'anchor lost: ' + l['why'])
                else: self.undecided.setdefault('*', 'anchor lost: %s %s' % (l['item'], l['why']))
            rc, s, diags, err = run_verus(out)
            marks, text = markers(out)
            errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
            comp = [d for d in errs if not is_verif_msg(d['message']) and 'rlimit' not in d['message'] and 'Resource limit' not in d['message']]
            if s is None or s['verification-results'].get('encountered-vir-error') or (s['verification-results']['verified'] == 0 and s['verification-results']['errors'] == 0) or comp:
                # not a verification result: the verifier could not take some function
                bad = []
                for d in comp or errs:
                    for sp in [x for x in d['spans'] if x['is_primary']] or d['spans']:
                        k, n = where(marks, sp['line_start'])
                        if k == 'fn' and n not in bad: bad.append((n, d['message'])); break
                new = [(n, m) for n, m in bad if n not in demote]
                again = [(n, m) for n, m in bad if n in demote and n not in drop]
                if new:
                    for n, m in new: demote.append(n); self.undecided.setdefault(n, 'not accepted by the verifier: ' + m)
                    continue
                if again:
                    for n, m in again: drop.append(n); self.undecided.setdefault(n, 'not accepted by the verifier: ' + m)
                    continue
                # no function to blame: demote every function that differs from the baseline
                base = json.load(open(V + '/contracts/baseline.json')).get(self.name, {})
                ch = [f['fn'] for f in info['fns'] if not f['assumed'] and not f['imported_from'] and base.get(f['fn'], {}).get('hash') != f['hash'] and f['fn'] not in demote]
                if ch:
                    for n in ch: demote.append(n); self.undecided.setdefault(n, 'not accepted by the verifier')
                    continue
                self.undecided['*'] = 'verifier error: ' + (comp[0]['message'] if comp else err[-600:])
                break
            self.verified, self.errors = s['verification-results']['verified'], s['verification-results']['errors']
            try:
                for mt in s['times-ms']['smt']['smt-run-module-times']:
                    for fb in mt['function-breakdown']:
                        self.breakdown[fb['function']] = fb; self.smt_ms += fb['time-micros'] / 1000.0
            except Exception: pass
            for d in errs:
                sp = ([x for x in d['spans'] if x['is_primary']] or d['spans'])[0]
                k, n = where(marks, sp['line_start'])
                # an obligation belongs to the function whose body generated it
                for x in d['spans']:
                    kk, nn = where(marks, x['line_start'])
                    if k != 'fn' and kk == 'fn': k, n = kk, nn
                if k == 'fn':
                    if 'rlimit' in d['message'] or 'Resource limit' in d['message']: self.undecided.setdefault(n, 'solver resource limit')
                    else: self.failed.setdefault(n, []).append(dict(tags=sorted(set(re.findall(r'/\*(C\d\d)\*/', ' '.join(text[x['line_start'] - 1] for x in d['spans'] if x['line_end'] - x['line_start'] < 3)))), obligation=d['message'], clause=' '.join(t['text'].strip() for x in d['spans'] for t in x['text'][:3])[:400], line=sp['line_start'], rendered=d.get('rendered', '')[:2500]))
                else:
                    nm = lemma_at(text, sp['line_start'])
                    if 'rlimit' in d['message'] or 'Resource limit' in d['message']: self.undecided.setdefault('lemma ' + nm, 'solver resource limit')
                    else: self.raw_errors.append(dict(obligation=d['message'], lemma=nm, line=sp['line_start'], rendered=d.get('rendered', '')[:2500]))
            break
        else:
            self.undecided['*'] = 'too many functions the verifier does not accept'
        for f in (self.info or {}).get('fns', []):
            if f['imported_from']: self.imports.append((f['fn'], f['imported_from']))
            elif f['assumed']:
                if f['fn'] not in self.undecided: self.assumed.append(f['fn'])
            self.fn[f['fn']] = f
            for d in f['dropped']: self.dropped.setdefault(d, []).append(f['fn'])
        # shape: with loops / closures added or removed the contract's anchors mean something else
        base = json.load(open(V + '/contracts/baseline.json')).get(self.name, {}) if os.path.exists(V + '/contracts/baseline.json') else {}
        for n in list(self.failed):
            b = base.get(n)
            if b and b['shape'] != self.fn[n]['shape']:
                self.undecided[n] = 'loops or closures of the function changed: contract anchors no longer apply (%s)' % self.failed[n][0]['obligation']
                del self.failed[n]
            elif b:
                new = set(self.fn[n]['calls']) - set(b['calls'])
                if any(os.path.exists(REPO) and re.search(r'\bfn\s+%s\b' % re.escape(c), allsrc()) and not re.search(r'\bfn\s+%s\b' % re.escape(c), '') and c not in known_fns() for c in new):
                    self.undecided[n] = 'calls a function without contract: %s (%s)' % (', '.join(sorted(new)), self.failed[n][0]['obligation'])
                    del self.failed[n]
        self.retry(base, demote, drop)
    def retry(self, base, demote, drop):
        """a changed function may ask the opposite question in a closure (any for all, a negated filter): its obligations
        are generated again with the contract of that closure stated for the negated result, and must all be discharged"""
        for n in list(self.failed):
            ks = self.fn[n].get('yesno', []) if n in self.fn else []
            if not ks or base.get(n, {}).get('hash') == self.fn[n]['hash']: continue
            ok = []
            def alt(k):
                out = os.path.join(B, 'gen', '%s_alt%d.rs' % (self.name, k))
                try:
                    vx(self.name, out, *sum([['--demote', d] for d in demote] + [['--drop', d] for d in drop], []) + ['--negate', '%s@%d' % (n, k)])
                    rc, s, diags, err = run_verus(out)
                    if s is None or s['verification-results'].get('encountered-vir-error') or s['verification-results']['verified'] == 0: return
                    marks, _ = markers(out)
                    if not any(where(marks, x['line_start']) == ('fn', n) for d in diags if d.get('level') == 'error' for x in d.get('spans', [])): ok.append(k)
                except Exception as x: self.notes.append('retry: %r' % x)
            ts = [threading.Thread(target=alt, args=(k,)) for k in ks[:6]]
            for t in ts: t.start()
            for t in ts: t.join()
            if ok:
                del self.failed[n]; self.notes.append('%s: discharged with the contract of closure %d stated for the negated result' % (n, ok[0]))
    def run_probe(self, demoted=()):
        """vacuity guard: assert(false) behind every precondition and at the start of every loop body must fail"""
        out = os.path.join(B, 'gen', self.name + '_probe.rs')
        flags = sum([['--demote', d] for d in demoted], [])
        vx(self.name, out, '--probe', *flags)
        rc, s, diags, err = run_verus(out, ['--no-auto-recommends-check', '-V', 'spinoff-all'])
        lines = [i for i, l in enumerate(open(out).read().split('\n'), 1) if 'if vx_probe() { assert(false); }' in l]
        hit = set(sp['line_start'] for d in diags if d.get('level') == 'error' for sp in d['spans'] if d['message'].startswith('assertion failed'))
        self.probes = (len(lines), len([l for l in lines if l in hit]))
        marks, _ = markers(out)
        # a function whose probe runs out of resources did not prove false either: not vacuous, though not counted as reachable
        spent = set(where(marks, sp['line_start'])[1] for d in diags if d.get('level') == 'error' and 'Resource limit' in d['message'] for sp in d['spans'])
        return [f for f in (where(marks, l)[1] for l in lines if l not in hit) if f not in spent]

_all = None
def allsrc():
    global _all
    if _all is None:
        _all = ''
        for d, _, fs in list(os.walk(REPO + '/src')) + list(os.walk(REPO + '/ffi/src')):
            for f in fs:
                if f.endswith('.rs'): _all += open(os.path.join(d, f)).read() + '\n'
    return _all
_kf = None
def known_fns():
    global _kf
    if _kf is None:
        p = V + '/contracts/known_fns.txt'
        _kf = set(open(p).read().split()) if os.path.exists(p) else set()
    return _kf

# ---------------------------------------------------------------- replay engine
def build_pub(src='/src', pub=B + '/pub', toml='/harness/pub.Cargo.toml'):
    if os.path.isdir(pub + '/src'): shutil.rmtree(pub + '/src.old', ignore_errors=True)
    os.makedirs(pub, exist_ok=True)
    shutil.copy(V + toml, pub + '/Cargo.toml')
    # remove files that no longer exist
    for d, _, fs in os.walk(pub + '/src'):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), pub + '/src')
            if not os.path.exists(os.path.join(REPO + src, rel)): os.remove(os.path.join(d, f))
    rc, o, e = sh([B + '/vx/debug/pubify', REPO + src, pub + '/src'])
    return rc == 0, e
def run_bin(name, known, budget, crate='harness'):
    env = {'CARGO_TARGET_DIR': B + '/target'}
    rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--bin', name], cwd=V + '/' + crate, env=env, timeout=500)
    if rc:
        return dict(unavailable='does not compile: ' + '\n'.join(l for l in e.splitlines() if l.startswith('error'))[:1500])
    out = B + '/run_%s_%d.json' % (name, os.getpid())
    scratch = B + '/scratch_%s_%d' % (name, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    rc, o, e = sh([B + '/target/debug/' + name, out], cwd=scratch, env={'VERIF_SEED': str(SEED), 'VERIF_TIER': TIER, 'VX_BUDGET': str(budget), 'VX_KNOWN': ';'.join(known), 'TMPDIR': scratch, 'RUST_BACKTRACE': '0'}, timeout=budget * 6 + 60)
    shutil.rmtree(scratch, ignore_errors=True)
    if not os.path.exists(out):
        return dict(crashed='exit %s %s' % (rc, e[-800:]))
    r = json.load(open(out)); os.remove(out)
    return r

def known_findings(pid):
    res = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) kind=(\S+) (.*)', l)
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3).strip()))
    return res

def main():
    pid = sys.argv[1]
    from props import PROPS
    P = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    build_tools()
    known = known_findings(pid)
    res = {}
    budget = P.get('budget', 4) if TIER == 'quick' else P.get('thorough_budget', 90)
    def harness():
        try:
            ok, e = build_pub()
            if ok and P.get('crate') == 'harness_ffi': ok, e = build_pub('/ffi/src', B + '/pubffi', '/harness_ffi/pub.Cargo.toml')
            for b in P.get('bins', []):
                res[b] = run_bin(b, [k for k, _ in known], budget, P.get('crate', 'harness')) if ok else dict(unavailable=e)
        except Exception as x:
            for b in P.get('bins', []): res.setdefault(b, dict(unavailable=str(x)))
    th = threading.Thread(target=harness); th.start()
    units, vac = [], []
    uts = []
    def one(u):
        # the probe runs beside the proof; it is redone if the proof had to leave functions out
        spec = {}
        def early():
            try: spec['vac'] = u.run_probe()
            except Exception as x: spec['err'] = x
        pt = threading.Thread(target=early); pt.start()
        try: u.run()
        except Exception as x: u.undecided['*'] = 'internal: %r' % x
        pt.join()
        if '*' not in u.undecided:
            out = [d for d in u.undecided if not d.startswith('lemma')]
            try:
                if out or 'err' in spec: spec['vac'] = u.run_probe(out)
                vac.extend((u.name, f) for f in spec['vac'])
            except Exception as x: u.notes.append('probe: %r' % x)
    for n in P.get('units', {}):
        u = Unit(n); units.append(u)
        t = threading.Thread(target=one, args=(u,)); t.start(); uts.append(t)
    for t in uts: t.join()
    th.join()
    # ------------------------------------------------------------ verdict
    failed, undecided, proved = [], [], []
    for u in units:
        fns = P['units'][u.name]
        allf = [f for f, i in u.fn.items() if not i['imported_from'] and f not in u.assumed]
        rel = allf if fns == '*' else fns
        for f in rel:
            if '*' in u.undecided: undecided.append((u.name, f, u.undecided['*']))
            elif f in u.failed:
                # an obligation tagged with other properties says nothing about this one
                mine = [o for o in u.failed[f] if not o['tags'] or pid in o['tags']]
                if mine: failed.append((u.name, f, mine))
                else: undecided.append((u.name, f, 'an obligation of %s failed in the same function' % ', '.join(sorted(set(sum([o['tags'] for o in u.failed[f]], []))))))
            elif f in u.undecided: undecided.append((u.name, f, u.undecided[f]))
            elif f not in u.fn: undecided.append((u.name, f, 'not extracted'))
            elif (u.name, f) in vac: undecided.append((u.name, f, 'vacuous precondition'))
            else: proved.append((u.name, f))
        for l in u.undecided:
            if l.startswith('lemma'): undecided.append((u.name, l, u.undecided[l]))
        if not u.undecided:
            for e in u.raw_errors: failed.append((u.name, 'lemma ' + e['lemma'], [e]))
        elif u.raw_errors: undecided.append((u.name, 'lemmas', u.raw_errors[0]['obligation']))
        if fns == '*' and '*' in u.undecided and not allf: undecided.append((u.name, '*', u.undecided['*']))
    hfail = []
    for b, r in res.items():
        for f in r.get('failures', []): hfail.append((b, f))
        if 'crashed' in r: hfail.append((b, dict(input='(the harness process itself crashed: abort, stack overflow or endless loop in the code under test)', difference=r['crashed'], kind='')))
    hav = [b for b, r in res.items() if 'evaluations' in r]
    ev = dict(property=pid, tier=TIER, seed=SEED, wall_s=round(time.time() - T0, 2), violations=0)
    ob = sum(u.verified + u.errors for u in units); dis = sum(u.verified for u in units)
    cov = dict(
        functions_under_contract=['%s: %s' % (u, f) for u, f in proved], undecided=['%s: %s: %s' % x for x in undecided],
        failed_obligations=['%s: %s: %s' % (u, f, o[0]['obligation']) for u, f, o in failed],
        obligations=ob, discharged=dis,
        obligation_unit='one per function, closure, loop or lemma query as counted by Verus (verified + errors)',
        solver_ms={u.name: round(u.smt_ms) for u in units}, backend='Verus %s with its bundled Z3' % verus_version(),
        checker_cmd='; '.join('vx /repo/src contracts %s build/gen/%s.rs && verus build/gen/%s.rs' % (u.name, u.name, u.name) for u in units) or 'none',
        trusted_base=trusted(units), extraction_drops={u.name: u.dropped for u in units}, vacuity_probes={u.name: '%d of %d reachable' % (u.probes[1], u.probes[0]) for u in units},
        bounded={b: {k: r.get(k) for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples', 'unavailable', 'wall_s') if r.get(k) is not None} for b, r in res.items()},
        bounded_note='bounded search on the real code (compiled against stand-ins for the crates missing here); never counted as proved' + (' -- ' + P['bounded_fns'] if P.get('bounded_fns') else ''),
    )
    ne = sum(r.get('evaluations', 0) for r in res.values())
    full = not failed and not undecided and proved
    if P['level'] == 'proof' and full: level = 'proof'
    elif P['level'] == 'proof':
        level = 'other'; cov['explanation'] = 'some contracts could not be decided on this tree; the listed functions were proved and the rest explored by bounded search'
    else:
        level = P['level']
    cov.update(evaluations=ne, distinct_nontrivial=sum(r.get('distinct_nontrivial', 0) for r in res.values()), rule='; '.join(r.get('rule', '') for r in res.values()), samples=sum([r.get('samples', []) for r in res.values()], [])[:4])
    if level == 'other': cov.setdefault('explanation', P.get('explanation', 'deductive verification of the listed functions, bounded search for the rest'))
    ev.update(level=level, coverage=cov, assumptions=P.get('assumptions', []))
    rc, lines = 0, []
    for kind, what in known: lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    if hfail or failed:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        rp = V + '/evidence/replay/%s.json' % pid
        json.dump(dict(property=pid, failing_inputs=[dict(harness=b, **f) for b, f in hfail],
            failed_obligations=[dict(unit=u, function=f, obligations=o, generated_file='build/gen/%s.rs' % u) for u, f, o in failed],
            how_to_replay='cd /verif && VERIF_SEED=%d ./check.py %s ; the harness source of each input is harness/src/bin/<harness>.rs (C37: harness_ffi/src/c37.rs)' % (SEED, pid)), open(rp, 'w'), indent=1)
        ev['violations'] = len(hfail) or len(failed)
        for b, f in hfail[:2]: print('failing input [%s]: %s\n   %s' % (b, f['input'][:600], f['difference'][:600]))
        for u, f, o in failed[:6]: print('failed obligation: unit %s, %s: %s | %s' % (u, f, o[0]['obligation'], o[0].get('clause', '')[:300]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hfail else ' no-failing-input-found'))
        rc = 1
    elif undecided and not hav and P.get('bins'):
        print('no answer: contracts undecided (%s) and the bounded search could not run (%s)' % (undecided[:3], res)); rc = 2
    elif not hav and not P.get('units'):
        print('no answer: the bounded search could not run (%s)' % res); rc = 2
    for u, f, w in undecided: print('undecided: unit %s, %s: %s' % (u, f, w[:300]))
    for b, r in res.items():
        if 'unavailable' in r: print('bounded search %s unavailable: %s' % (b, r['unavailable'][:800]))
    print('%s: %d functions proved, %d undecided, %d failed; %d obligations, %d discharged; bounded: %d evaluations; %.1f s' % (pid, len(proved), len(undecided), len(failed), ob, dis, ne, time.time() - T0))
    os.makedirs(V + '/evidence', exist_ok=True)
    ev['wall_s'] = round(time.time() - T0, 2)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for l in lines: print(l)
    sys.exit(rc)

def verus_version():
    try: return sh(['verus', '--version'])[1].split('Version:')[1].split()[0]
    except Exception: return '?'
def trusted(units):
    """mechanical scan of the generated files for everything assumed"""
    res = set()
    for u in units:
        if not u.path or not os.path.exists(u.path): continue
        marks, text = markers(u.path)
        for i, l in enumerate(text, 1):
            k, n = where(marks, i)
            if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'): res.add('%s: %s: %s' % (u.name, n, l.strip()[:120]))
            if 'axiom fn' in l:
                m = re.search(r'axiom fn (\w+)', l); res.add('axiom %s (prelude %s)' % (m.group(1), n))
            if 'external_body' in l:
                seg = ' '.join(text[i - 1:i + 2])
                m = re.search(r'external_body\][^;{]*?\b(?:fn|struct|enum|trait)\s+(\w+)', seg)
                if k == 'use': res.add('contract of %s (proved in another unit)' % n)
                elif k == 'fn': res.add('assumed contract: repo function %s (unit %s)' % (n, u.name))
                else: res.add('assumed contract: %s (%s %s)' % (m.group(1) if m else '?', k, n))
    res.add('vx: the extraction (method calls on std and dependency types renamed to the specified stand-ins of contracts/prelude, eager evaluation of iterator chains, for loops desugared, logging and error messages dropped)')
    res.add('Verus, Z3, rustc')
    res.add('floating point: uninterpreted operations, non-NaN scores')
    return sorted(res)
if __name__ == '__main__':
    main()
