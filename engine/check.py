#!/usr/bin/env python3
"""Runs the contract harnesses of one property against /repo's current tree.

 exit 0: every obligation was discharged (or, where the evidence says so, held on the bounded stand-in)
 exit 1: a line  VIOLATION property=<id> replay=<path>  names the failed obligation's replay file
"""
import sys, os, re, json, subprocess, time, shutil, tempfile, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'engine')
CONTRACTS = os.path.join(VERIF, 'contracts')
BUILD = os.path.join(VERIF, 'build')
JOBS = max(1, min(8, os.cpu_count() or 4))
SOLVERS = [('z3-new', ['z3-new', '-smt2']), ('cvc5', ['cvc5', '--nl-ext-tplanes']), ('z3', ['z3', '-smt2'])]
TRUSTED = [
    'the VC generator /verif/engine/vsym.{hpp,cpp} (template instantiation of the unmodified /repo headers over a symbolic scalar; path enumeration; rational-function normal forms)',
    'gcc 13 (instantiates the templates that are verified; the same compiler builds the library)',
    'libz3 4.8.12 / z3-new / cvc5 as SMT back ends, GMP rationals',
]
ASSUME = [
    'floating point is treated as mathematical real arithmetic; double literals denote the simplest rational that rounds to them',
    'libm contracts assumed: sqrt(x)>=0 and sqrt(x)^2=x, cos^2+sin^2=1, cos(acos z)=z, sin/cos(atan2(y,x))=y/r,x/r',
    'a default-constructed scalar is 0 (uninitialised reads are not modelled)',
]

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else e.stdout or ''), 'timeout'

def sh_watched(cmd, timeout, tries=3):
    """like sh for the verifier process; libz3 4.8.12 can deadlock in its timer thread: a process that uses no CPU for 20 s is restarted"""
    t0 = time.time()
    for k in range(tries):
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        last, since = -1, time.time()
        while True:
            try: return p.wait(0.05 if time.time() - t0 < 5 else 0.5)
            except subprocess.TimeoutExpired: pass
            try:
                w = open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split()
                cpu = int(w[11]) + int(w[12])
            except Exception: continue
            now = time.time()
            if cpu != last: last, since = cpu, now
            if now - t0 > timeout or now - since > 20:
                p.kill(); p.wait(); break
        if time.time() - t0 > timeout: return -999
    return -998

def engine_objects():
    """Engine objects do not depend on /repo; built once (setup_cmd) and reused when up to date."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    for name in ('vsym', 'vsym_concrete'):
        src, obj = os.path.join(ENGINE, name + '.cpp'), os.path.join(BUILD, name + '.o')
        deps = [src, os.path.join(ENGINE, 'vsym.hpp')]
        if not os.path.exists(obj) or any(os.path.getmtime(d) > os.path.getmtime(obj) for d in deps):
            tmp = obj + '.%d.tmp' % os.getpid()
            std = 'c++17'
            rc, o, e = sh(['g++', '-O2', '-std=' + std, '-w', '-I', os.path.join(ENGINE, 'include'), '-c', src, '-o', tmp], 600)
            if rc != 0:
                sys.stderr.write(e); raise SystemExit('engine does not build')
            os.replace(tmp, obj)
        out[name] = obj
    return out

def header(path):
    h = {'KIND': 'sym'}
    for line in open(path):
        m = re.match(r'//\s*([A-Z_]+):\s*(.*)', line)
        if m: h[m.group(1)] = m.group(2).strip()
        elif not line.startswith('//'): break
    return h

class Harness: pass

def compile_harness(src, objs, scratch, mode):
    exe = os.path.join(scratch, os.path.basename(src)[:-4] + '.' + mode)
    cmd = ['g++', '-std=gnu++98', '-O1', '-w', '-fno-strict-aliasing', '-I', os.path.join(ENGINE, 'include'), '-I', REPO]
    if mode == 'conc': cmd += ['-DVSYM_CONCRETE']
    cmd += [src, objs['vsym' if mode == 'sym' else 'vsym_concrete'], '-o', exe]
    if mode == 'sym': cmd += ['-lz3', '-lgmpxx', '-lgmp']
    rc, o, e = sh(cmd, 600)
    return (exe if rc == 0 else None), e

def portfolio(f, tmo):
    procs = []
    for name, cmd in SOLVERS:
        c = list(cmd)
        if name.startswith('z3'): c += ['-T:%d' % tmo, 'model.completion=true']
        else: c += ['--tlimit=%d' % (tmo * 1000), '--produce-models']
        txt = open(f).read()
        fn = f + '.' + name
        open(fn, 'w').write(txt.rstrip() + '\n(get-model)\n')
        procs.append((name, subprocess.Popen(c + [fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    t0 = time.time(); res = ('unknown', '', '')
    live = dict(procs)
    while live and time.time() - t0 < tmo + 5:
        for n in list(live):
            if live[n].poll() is not None:
                out = live[n].stdout.read()
                del live[n]
                first = out.strip().split('\n')[0].strip() if out.strip() else ''
                if first in ('sat', 'unsat'):
                    res = (first, n, out); break
        if res[0] != 'unknown': break
        time.sleep(0.02)
    for n, p in procs:
        if p.poll() is None: p.kill()
        p.wait()
    return res + (time.time() - t0,)

def parse_model(out):
    m = {}
    def num(s):
        s = s.strip()
        try:
            if s.startswith('('):
                inner = s[1:-1].strip()
                op, rest = inner.split(None, 1)
                toks = []; d = 0; cur = ''
                for ch in rest:
                    if ch == '(' : d += 1
                    if ch == ')' : d -= 1
                    if ch.isspace() and d == 0:
                        if cur: toks.append(cur); cur = ''
                    else: cur += ch
                if cur: toks.append(cur)
                v = [num(t) for t in toks]
                if op == '-': return -v[0] if len(v) == 1 else v[0] - v[1]
                if op == '/': return v[0] / v[1]
                if op == '*': return v[0] * v[1]
                return None
            return float(s.rstrip('?'))
        except Exception: return None
    for mm in re.finditer(r'\(define-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+Real\s+(.*?)\)\s*(?=\(define-fun|\)\s*$)', out, re.S):
        k = mm.group(1).strip('|')
        if '!' in k: continue
        v = num(' '.join(mm.group(2).split()))
        if v is not None: m[k] = repr(v)
    return m

def write_replay_input(path, model, choices):
    with open(path, 'w') as f:
        for k, v in model.items():
            v = str(v)
            if '/' in v:
                a, b = v.split('/'); v = repr(float(a) / float(b))
            f.write('var %s %s\n' % (k, v))
        for c in choices: f.write('choice %d\n' % c[1])

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vchk_%s_' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
        os.environ['VSYM_SCRATCH'] = self.scratch   # files written by code under test stay below this directory
        self.meta = json.load(open(os.path.join(CONTRACTS, 'levels.json'))).get(prop, {})
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'KNOWN-FINDING: property=(\S+) contract=(\S+) obligation=(\S+) (.*)', l.strip())
                if m and m.group(1) == prop: self.known.append((m.group(2), m.group(3), m.group(4)))
        self.violations, self.undecided, self.notes, self.known_hit = [], [], [], []
        self.cov = dict(obligations=0, discharged=0, by_backend={}, solver_time_s=0.0, paths=0, contracts=[], functions=set(), bounded=[], undecided=[], vacuous=[])
        self.budget = 780 if tier == 'quick' else 3400

    def left(self): return self.budget - (time.time() - self.t0)

    def backend(self, name, n):
        if n: self.cov['by_backend'][name] = self.cov['by_backend'].get(name, 0) + n

    def conc(self, h):
        if not hasattr(h, 'conc'):
            h.conc, h.conc_err = compile_harness(h.src, self.objs, self.scratch, 'conc')
            if not h.conc: self.notes.append('concrete build of %s failed: %s' % (os.path.basename(h.src), h.conc_err[-600:]))
        return h.conc

    def is_known(self, contract, ob):
        for c, o, txt in self.known:
            if c == contract and o == ob: return txt
        return None

    def violation(self, h, contract, ob, model, choices, how, confirmed, extra):
        k = self.is_known(contract, ob)
        if k:
            if (contract, ob) not in self.known_hit:
                self.known_hit.append((contract, ob)); print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
            return
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', 'replay', '%s.%s.%s.json' % (self.prop, contract, re.sub(r'\W+', '_', ob)))
        json.dump(dict(property=self.prop, harness=os.path.relpath(h.src, VERIF), contract=contract, obligation=ob, inputs=model,
                       choices=choices, found_by=how, reproduced_on_double_build=bool(confirmed), detail=extra,
                       how_to_replay='python3 /verif/engine/check.py --replay ' + p), open(p, 'w'), indent=1)
        self.violations.append((contract, ob, p, confirmed))

    def does_not_compile(self, h):
        """the harness uses the public interface only: code under contract that no longer compiles is a violation"""
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', 'replay', '%s.%s.compile.json' % (self.prop, os.path.basename(h.src)))
        json.dump(dict(property=self.prop, harness=os.path.relpath(h.src, VERIF), contract='*', obligation='compiles', inputs={}, choices=[], detail=h.conc_err[-4000:], how_to_replay='g++ -std=gnu++98 -DVSYM_CONCRETE -I%s -I%s -c %s' % (os.path.join(ENGINE, 'include'), REPO, h.src)), open(p, 'w'), indent=1)
        self.violations.append((os.path.basename(h.src), 'compiles', p, True))

    def try_replay(self, h, contract, model, choices):
        """run the real code over double on this input; returns list of (obligation, text)"""
        exe = self.conc(h)
        if not exe: return None
        f = os.path.join(self.scratch, 'rp_%s_%d.txt' % (contract, time.time_ns()))
        write_replay_input(f, model, choices)
        rc, o, e = sh([exe, '--contract', contract, '--replay', f], 150)
        os.unlink(f)
        if rc in (42, -11, -6, -8): return [('no_crash', 'the real code crashed (signal) on this input: ' + o[-300:])]
        try: r = json.loads(o.strip().split('\n')[-1])
        except Exception: return []
        if not r.get('precondition'): return []
        return r['fails']

    def exact_confirm(self, h, contract, ob, model, choices):
        if not getattr(h, 'sym', None): return None
        f = os.path.join(self.scratch, 'fx_%s_%d.txt' % (contract, time.time_ns()))
        write_replay_input(f, model, choices)
        rc, o, e = sh([h.sym, '--contract', contract, '--fix', f], 60)
        os.unlink(f)
        try: r = json.loads(o.strip().split('\n')[-1])
        except Exception: return None
        return any(x['failed'] and x['name'] == ob for x in r['obligations']) or any(x['ob'] == ob for x in r['fails'])

    def handle_fail(self, h, contract, ob, cands, how):
        """cands: list of (model, choices, note)"""
        last = ''
        for model, choices, note in cands:
            r = self.try_replay(h, contract, model, choices)
            if r is None: break
            hit = [x for x in r if x[0] == ob] or r
            if hit:
                self.violation(h, contract, hit[0][0] if not any(x[0] == ob for x in r) else ob, model, choices, how, True, hit[0][1] + ' ' + note)
                return
        # not reproduced from the models: search the concrete build
        s = self.search(h, contract, 12 if self.tier == 'quick' else 40)
        for x in (s or {}).get('fails', []):
            if x['robust'] and (x['ob'] == ob):
                self.violation(h, contract, ob, x['model'], x['choices'], how + '+search', True, x['what']); return
        model, choices, note = cands[0]
        if how != 'unknown' and h.kind == 'ghost':
            self.violation(h, contract, ob, model, choices, how, False, 'verifier output: obligation refuted on an abstract state ' + note)
        elif how != 'unknown':
            # exact (rational) re-evaluation of the counterexample on the symbolic build
            ok = [self.exact_confirm(h, contract, ob, m, c) for m, c, n in cands]
            if any(ok):
                self.violation(h, contract, ob, model, choices, how, False, 'exact rational evaluation of the real code confirms it; ' + note)
            else:
                # the solver's model is an artefact of the abstraction of transcendental terms: the obligation is open, not refuted
                self.cov['undecided'].append('%s.%s: solver model does not reproduce on the real code' % (contract, ob))

    def search(self, h, contract, tlim, n=200000, per_leaf=24, once=False):
        exe = self.conc(h)
        if not exe: return None
        rc, o, e = sh([exe, '--contract', contract, '--search', str(n), '--per-leaf', str(per_leaf), '--time', str(tlim), '--seed', str(self.seed)] + (['--once'] if once else []), tlim * 3 + 60)
        if not o.strip(): return None
        try: r = json.loads(o.strip().split('\n')[-1])
        except Exception: return None
        if 'crash' in r:
            return dict(contract=contract, runs=1, leaves=1, choices_exhausted=False, counts={}, covers={}, fails=[dict(ob='no_crash', what='the real code did not terminate within 60 s on this input' if r['crash'] == 26 else 'the real code crashed with signal %d' % r['crash'], robust=True, model=r['model'], choices=r['choices'])])
        return r

    def run_sym(self, h, contract):
        out = os.path.join(self.scratch, 'out_' + os.path.basename(h.src)[:-4] + '_' + contract)
        os.makedirs(out, exist_ok=True)
        tl = float(h.meta.get('TIME', '200')) * (1 if self.tier == 'quick' else 4)
        vct = int(h.meta.get('VC_TIMEOUT', '3000'))
        rc = sh_watched([h.sym, '--contract', contract, '--out', out, '--time', str(tl), '--vc-timeout', str(vct), '--seed', str(self.seed), '--paths', h.meta.get('PATHS', '200000')], max(30, min(tl * 2 + 60, self.left() - 20)))
        f = os.path.join(out, 'result.%s.json' % contract)
        try: return json.loads(open(f).read().strip().split('\n')[-1]), out
        except Exception: return dict(contract=contract, error='engine ended with %d' % rc), out

    def process_sym(self, h, r, out):
        c = r['contract']
        if 'error' in r:
            cf_ = os.path.join(out, 'crash.%s.txt' % c)
            if os.path.exists(cf_):
                model, choices = {}, []
                for l in open(cf_):
                    w = l.split()
                    if w[0] == 'var': model[w[1]] = w[2]
                    if w[0] == 'choice': choices.append(['c', int(w[1])])
                rp = self.try_replay(h, c, model, choices)
                if rp: self.violation(h, c, rp[0][0], model, choices, 'crash', True, rp[0][1]); return
            s = self.search(h, c, 20)
            for x in (s or {}).get('fails', []):
                if x['robust']: self.violation(h, c, x['ob'], x['model'], x['choices'], 'crash+search', True, x['what']); return
            self.cov['undecided'].append('%s: %s' % (c, r['error'])); return
        self.cov['functions'] |= set(x.strip() for x in r['functions'].split(';') if x.strip())
        self.cov['paths'] += r['paths']; self.cov['solver_time_s'] += r['z3_time']
        tot = sum(o['total'] for o in r['obligations']); dis = 0
        for o in r['obligations']:
            d = o['nf'] + o['fact'] + o['direct'] + o['z3']; dis += d
            self.backend('normal-form', o['nf']); self.backend('sign-facts', o['fact']); self.backend('evaluated', o['direct']); self.backend('libz3', o['z3'])
        byob = {}
        for f in r['fails']: byob.setdefault(f['ob'], []).append((f['model'], f['choices'], f['note'] or r.get('exception', '')))
        if not byob:
            ex = r['exported']
            tmo = int(h.meta.get('SMT_TIMEOUT', '20')) * (1 if self.tier == 'quick' else 5)
            unk = []
            def go(x):
                if self.left() < 30 or len(unk) > 9: return x, ('unknown', '', '', 0)
                return x, portfolio(x[1], int(max(5, min(tmo, self.left() - 20))))
            with cf.ThreadPoolExecutor(max(1, JOBS // 3)) as pool:
                for x, (res, who, txt, dt) in pool.map(go, ex):
                    self.cov['solver_time_s'] += dt
                    if res == 'unsat': dis += 1; self.backend(who, 1)
                    elif res == 'sat':
                        ch = [l.strip().rsplit('=', 1) for l in open(x[1] + '.choices') if '=' in l]
                        byob.setdefault(x[0], []).append((parse_model(txt), [[a, int(b)] for a, b in ch], 'model of ' + who))
                    else: unk.append(x)
            if unk:
                self.cov['undecided'] += ['%s.%s' % (c, x[0]) for x in unk]
                s = self.search(h, c, 15)
                for x in (s or {}).get('fails', []):
                    if x['robust']:
                        ok = self.exact_confirm(h, c, x['ob'], x['model'], x['choices'])
                        if ok is not False: self.violation(h, c, x['ob'], x['model'], x['choices'], 'unknown+search', True, x['what'])
        else:
            # failures present: exported ones are not pursued
            pass
        for ob, cands in byob.items(): self.handle_fail(h, c, ob, cands, 'refuted')
        if r['incomplete']: self.cov['undecided'].append('%s: exploration incomplete (%s)' % (c, r['incomplete']))
        if tot == 0 or not r['covers']: self.cov['vacuous'].append(c)
        self.cov['obligations'] += tot; self.cov['discharged'] += dis
        self.cov['contracts'].append(dict(contract=c, harness=os.path.basename(h.src), paths=r['paths'], obligations=tot, discharged=dis, solver_s=round(r['z3_time'], 2), time_s=round(r['time'], 2)))

    def process_bounded(self, h, c, s, why):
        if s is None:
            self.cov['undecided'].append('%s: bounded stand-in did not run' % c); return
        self.cov['bounded'].append(dict(contract=c, harness=os.path.basename(h.src), bound=h.meta.get('BOUND', why), runs=s.get('runs'), choice_leaves=s.get('leaves'), domain_exhausted=s.get('choices_exhausted'), checks=sum(s.get('counts', {}).values()), why=why, nontrivial=s.get('nontrivial'), sample=s.get('sample')))
        self.cov['functions'] |= set(x.strip() for x in s.get('functions', '').split(';') if x.strip())
        if not s.get('covers') and not s['fails']: self.cov['vacuous'].append(c)
        for x in s['fails']:
            if not x['robust']: continue
            ok = self.exact_confirm(h, c, x['ob'], x['model'], x['choices']) if h.kind == 'sym' else True
            if ok is False: continue
            self.violation(h, c, x['ob'], x['model'], x['choices'], 'bounded', True, x['what'])

    def run(self):
        self.objs = engine_objects()
        hs = []
        for src in sorted(glob.glob(os.path.join(CONTRACTS, self.prop + '_*.cpp'))):
            h = Harness(); h.src = src; h.meta = header(src); h.kind = h.meta['KIND']
            if h.meta.get('TIER') == 'thorough' and self.tier == 'quick': continue
            hs.append(h)
        if not hs: raise SystemExit('no contracts for ' + self.prop)
        def comp(h):
            if h.kind in ('sym', 'ghost'):
                h.sym, h.sym_err = compile_harness(h.src, self.objs, self.scratch, 'sym')
                if not h.sym and h.kind == 'sym': self.conc(h)
            else: self.conc(h)
        with cf.ThreadPoolExecutor(JOBS) as pool: list(pool.map(comp, hs))
        tasks = []
        for h in hs:
            exe = h.sym if h.kind in ('sym', 'ghost') else getattr(h, 'conc', None)
            if h.kind in ('sym', 'ghost') and not h.sym:
                self.notes.append('symbolic build of %s failed; obligations not generated, %s: %s' % (os.path.basename(h.src), 'bounded stand-in used instead' if h.kind == 'sym' else 'property rests on the other harnesses', '\n'.join([l for l in h.sym_err.split('\n') if 'error' in l][:4])))
                self.cov['undecided'].append(os.path.basename(h.src) + ': symbolic build failed')
                exe = getattr(h, 'conc', None) if h.kind == 'sym' else None
            if not exe:
                if h.kind != 'ghost' and h.meta.get('FRAGILE') != 'yes': self.does_not_compile(h)
                continue
            rc, o, e = sh([exe, '--list'], 60)
            for c in o.split():
                if h.kind in ('sym', 'ghost') and h.sym: tasks.append(('sym', h, c))
                else: tasks.append(('bnd', h, c))
        def go(t):
            mode, h, c = t
            if self.left() < 40: return t, None
            if mode == 'sym': return t, self.run_sym(h, c)
            tl = float(h.meta.get('TIME', '60')) * (1 if self.tier == 'quick' else 6)
            if h.kind == 'sym': return t, self.search(h, c, 30)
            return t, self.search(h, c, min(tl, self.left()), n=10**9, per_leaf=int(h.meta.get('PER_LEAF', '4')), once=True)
        with cf.ThreadPoolExecutor(JOBS) as pool:
            results = list(pool.map(go, tasks))
        for (mode, h, c), r in results:
            if r is None: self.cov['undecided'].append('%s: no time left' % c) if mode == 'sym' else self.process_bounded(h, c, None, ''); continue
            if mode == 'sym': self.process_sym(h, *r)
            else: self.process_bounded(h, c, r, 'symbolic build failed' if h.kind == 'sym' else 'bounded by construction')
        return self.finish()

    def finish(self):
        cov = self.cov
        cov['functions'] = sorted(cov['functions'])
        cov['solver_time_s'] = round(cov['solver_time_s'], 2)
        cov['checker_cmd'] = 'python3 /verif/engine/check.py %s --tier %s' % (self.prop, self.tier)
        cov['trusted_base'] = TRUSTED
        if self.notes: cov['notes'] = self.notes
        level = self.meta.get('level', 'proof')
        if level == 'exploration' or level == 'other':
            cov['evaluations'] = sum((b['runs'] or 0) for b in cov['bounded']) + cov['paths']
            cov['distinct_nontrivial'] = sum((b['nontrivial'] or 0) for b in cov['bounded'])
            cov['rule'] = 'cases are enumerated depth-first over the choices of the stated bound (every case differs in at least one choice); non-trivial: the preconditions hold and every postcondition of the contract was evaluated on the real code'
            cov['samples'] = [dict(contract=b['contract'], case=b['sample']) for b in cov['bounded'] if b['sample']][:6]
            cov['exhaustive'] = bool(cov['bounded']) and all(b['domain_exhausted'] for b in cov['bounded'])
            cov['explanation'] = self.meta.get('note', '')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=ASSUME + self.meta.get('assumptions', []), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print('%s: %d/%d obligations discharged over %d contracts, %d bounded stand-ins, %d undecided, %d vacuous, %.1f s' % (
            self.prop, cov['discharged'], cov['obligations'], len(cov['contracts']), len(cov['bounded']), len(cov['undecided']), len(cov['vacuous']), time.time() - self.t0))
        for u in cov['undecided']: print('  undecided:', u)
        for u in cov['vacuous']: print('  vacuous:', u)
        for n in self.notes: print('  note:', n[:400])
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            seen = set()
            for c, ob, p, confirmed in sorted(self.violations, key=lambda v: not v[3]):
                if (c, ob) in seen: continue
                seen.add((c, ob))
                print('  failed obligation: %s.%s' % (c, ob))
            best = sorted(self.violations, key=lambda v: not v[3])[0]
            print('VIOLATION property=%s replay=%s%s' % (self.prop, best[2], '' if best[3] else ' no-failing-input-found'))
            return 1
        return 0

def replay(path):
    d = json.load(open(path)); c = Check(d['property'], 'quick'); c.objs = engine_objects()
    h = Harness(); h.src = os.path.join(VERIF, d['harness']); h.meta = header(h.src); h.kind = h.meta['KIND']
    r = c.try_replay(h, d['contract'], d['inputs'], d['choices'])
    shutil.rmtree(c.scratch, ignore_errors=True)
    print(json.dumps(r, indent=1)); return 1 if r else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--setup': engine_objects(); print('engine built'); sys.exit(0)
    if a[0] == '--replay': sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    chk = Check(a[0], tier)
    try: rc = chk.run()
    finally: shutil.rmtree(chk.scratch, ignore_errors=True)
    sys.exit(rc)
