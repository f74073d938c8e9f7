"""Common frame of all checks: obligations, discharge, evidence, known findings, replay files, exit policy."""
import os, sys, json, time, traceback, signal, subprocess, tempfile, re
import z3
from .sym import *
from .build import VERIF, REPO, Build, BuildError

Z3NEW = '/opt/veriftools/bin/z3-new'


class OutOfTime(Exception):
    pass


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, bytes): return x.hex()
    return str(x)


def solve_smt2(text, timeout_s, which):
    """runs an external solver; 'unsat' / 'sat' / 'unknown'"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text); fn = f.name
    try:
        if which == 'cvc5': cmd = ['cvc5', '--tlimit=%d' % int(timeout_s * 1000), fn]
        else: cmd = ['z3-new', '-T:%d' % int(timeout_s), fn]
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout_s + 10)
        except (subprocess.TimeoutExpired, FileNotFoundError): return 'unknown'
        for l in r.stdout.split():
            if l in ('sat', 'unsat', 'unknown'): return l
        return 'unknown'
    finally: os.unlink(fn)


class Check:
    def __init__(self, pid, method=''):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        if '--quick' in sys.argv: self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obls = []          # (name, fn, kind, status, backend, seconds)
        self.failed = []        # (name, detail)
        self.functions = {}     # name -> dict
        self.contracts = []
        self.assumptions = []
        self.trusted = ['clang++-18 front end and the LLVM 18 passes named in coverage.checker_cmd preserve the source semantics',
                        'the LLVM IR semantics of /verif/engine/sym.py and /verif/engine/exec.py',
                        'z3 %s' % z3.get_version_string()]
        self.bounded = []
        self.notes = []
        self.solver_s = 0.0
        self.stats = {'loops': 0, 'candidate_invariants': 0, 'inductive_invariants': 0}
        self.invs = []
        self.vacuity = []
        self.violation = None
        self.known_printed = []
        self.searcher = None    # callable(check) -> failing input dict or None
        self.B = None
        self.hints = []
        self.verbose = '-v' in sys.argv

    def log(self, *a):
        if self.verbose: print('[%6.1f]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def build(self):
        if self.B is None: self.B = Build()
        return self.B

    # ---------------------------------------------------------------- obligations
    def rec(self, name, fn, kind, ok, backend, secs=0.0, detail=''):
        self.obls.append((name, fn, kind, 'discharged' if ok else 'FAILED', backend, secs))
        if not ok:
            self.failed.append(('%s: %s' % (fn, name) if fn else name, detail))
            self.log('FAILED', fn, name, str(detail)[:600])

    def ground(self, name, ok, detail='', fn='', n=1):
        """a closed (variable-free or finitely quantified) obligation decided by evaluating every instance"""
        self.obls.append((name, fn, 'ground', 'discharged' if ok else 'FAILED', 'exhaustive evaluation of %d instance(s)' % n, 0.0))
        if not ok:
            self.failed.append(('%s: %s' % (fn, name) if fn else name, detail))
            self.log('FAILED ground', fn, name, str(detail)[:600])
        return ok

    def prove(self, name, assumptions, goal, fn='', kind='lemma', timeout=60):
        """assumptions |- goal; returns (ok, model)"""
        if goal is True:
            self.rec(name, fn, kind, True, 'constant folding'); return True, None
        s = z3.Solver(); s.set('timeout', int(timeout * 1000))
        for a in assumptions:
            if a is True: continue
            s.add(zb(a))
        s.add(zb(Not(goal)))
        t = time.time(); r = s.check(); dt = time.time() - t; self.solver_s += dt
        be = 'z3'
        mdl = None
        if r == z3.sat: mdl = s.model()
        elif r == z3.unknown:
            txt = s.to_smt2()
            for w in ('cvc5', 'z3-new'):
                t = time.time(); q = solve_smt2(txt, timeout, w); self.solver_s += time.time() - t
                if q != 'unknown': be = w; r = {'sat': z3.sat, 'unsat': z3.unsat}[q]; break
        ok = r == z3.unsat
        self.rec(name, fn, kind, ok, be, dt, '' if ok else 'solver: %s %s' % (r, self.short(mdl)))
        return ok, mdl

    def short(self, mdl):
        if mdl is None: return ''
        return ', '.join('%s=%s' % (d.name(), str(mdl[d])[:60]) for d in list(mdl.decls())[:24])

    def satisfiable(self, name, assumptions, timeout=60):
        """vacuity guard: the assumptions have a model"""
        s = z3.Solver(); s.set('timeout', int(timeout * 1000))
        for a in assumptions:
            if a is not True: s.add(zb(a))
        t = time.time(); r = s.check(); self.solver_s += time.time() - t
        self.vacuity.append((name, str(r)))
        if r == z3.unsat:
            self.rec('vacuity: ' + name, '', 'cover', False, 'z3', 0, 'assumptions contradictory')
        return r != z3.unsat

    def discharge(self, v, timeout=30, on_model=None, batch=24):
        """discharges the obligations collected by a Verifier"""
        todo = [o for o in v.obls if o.status is None]
        todo.sort(key=lambda o: o.nfacts)
        for o in v.obls:
            if o.status == 'discharged': self.obls.append((o.name, o.fn, o.kind, 'discharged', o.backend, 0.0))
        i = 0
        while i < len(todo):
            grp = todo[i:i + batch]; i += batch
            self._dis(v, grp, timeout, on_model)
        v.obls = []
        self.solver_s += v.solver_time; v.solver_time = 0
        self.stats['loops'] += v.stats['loops']; self.stats['candidate_invariants'] += v.stats['candidates']
        self.stats['inductive_invariants'] += v.stats['survivors']
        v.stats = {'loops': 0, 'candidates': 0, 'survivors': 0}
        self.invs += v.invariants; v.invariants = []
        for f in v.called: self.functions.setdefault(f, {'obligations': 0})
        v.called = set()

    def _dis(self, v, grp, timeout, on_model):
        if self.failed: timeout = min(timeout, 5)      # the check fails anyway: the rest is told only where it is quick
        nf = grp[0].nfacts
        neg = [And(o.guard, Not(o.prop) if not isinstance(o.prop, bool) else (not o.prop)) for o in grp]
        s = z3.Solver(); s.set('timeout', int(timeout * 1000))
        # every obligation only uses the facts known when it was generated: guard later facts per obligation
        nmax = max(o.nfacts for o in grp)
        for f in v.facts[:nf]: s.add(zb(f))
        if nmax != nf and len(grp) > 1:
            # split where the fact count changes substantially
            by = {}
            for o in grp: by.setdefault(o.nfacts, []).append(o)
            for g in by.values(): self._dis(v, g, timeout, on_model)
            return
        s.add(zb(Or(*neg)))
        t = time.time(); r = s.check(); dt = time.time() - t; self.solver_s += dt
        if r == z3.unsat:
            for o in grp: self.rec(o.name, o.fn, o.kind, True, 'z3', dt / len(grp))
            return
        if len(grp) > 1:
            h = len(grp) // 2
            self._dis(v, grp[:h], timeout, on_model); self._dis(v, grp[h:], timeout, on_model)
            return
        o = grp[0]
        be = 'z3'
        if r == z3.unknown:
            txt = s.to_smt2()
            for w in ('cvc5', 'z3-new'):
                t = time.time(); q = solve_smt2(txt, timeout, w); d2 = time.time() - t; self.solver_s += d2; dt += d2
                if q == 'unsat': self.rec(o.name, o.fn, o.kind, True, w, dt); return
                if q == 'sat': r = q; be = w; break
        mdl = s.model() if r == z3.sat else None
        self.rec(o.name, o.fn, o.kind, False, be, dt, 'solver: %s %s' % (r, self.short(mdl)))
        if mdl is not None and on_model: on_model(o, mdl)

    # ---------------------------------------------------------------- parallel proof jobs
    def parallel(self, jobs, procs=8):
        """runs proof jobs (name, fn(check)) in forked processes and merges their obligations"""
        import pickle
        todo = list(jobs)[::-1]; run = {}

        def start(nm, fn):
            r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.alarm(0)
                    base = {k: (len(getattr(self, k)) if k != 'functions' else 0) for k in ('obls', 'failed', 'contracts', 'assumptions', 'notes', 'bounded', 'vacuity', 'hints', 'invs')}
                    f0 = set(self.functions); s0 = self.solver_s; st0 = dict(self.stats)
                    try: fn(self)
                    except Unsupported as e: self.failed.append(('%s: the verifier cannot process the current source' % nm, str(e) + '\n' + traceback.format_exc()[-1200:]))
                    except Exception: self.failed.append(('%s: the verifier failed' % nm, traceback.format_exc()[-2500:]))
                    out = {k: getattr(self, k)[n:] for k, n in base.items()}
                    out['functions'] = {k: v for k, v in self.functions.items() if k not in f0}
                    out['solver_s'] = self.solver_s - s0
                    out['stats'] = {k: self.stats[k] - st0.get(k, 0) for k in self.stats}
                    out['hints'] = jsonable(out['hints']); out['failed'] = [(str(a), str(b)) for a, b in out['failed']]
                    data = pickle.dumps(out)
                    with os.fdopen(w, 'wb') as f: f.write(data)
                except BaseException:
                    traceback.print_exc(); code = 1
                finally: os._exit(code)
            os.close(w)
            return pid, r, nm
        import select
        live = []
        try:
            while todo or live:
                while todo and len(live) < procs:
                    nm, fn = todo.pop(); pid, r, nm = start(nm, fn); live.append([pid, r, nm, b''])
                rs, _, _ = select.select([x[1] for x in live], [], [], 5)
                for x in list(live):
                    if x[1] in rs:
                        d = os.read(x[1], 1 << 20)
                        if d: x[3] += d; continue
                        os.close(x[1]); os.waitpid(x[0], 0); live.remove(x)
                        if not x[3]: self.failed.append(('%s: proof job died' % x[2], '')); continue
                        o = pickle.loads(x[3])
                        for k in ('obls', 'failed', 'contracts', 'assumptions', 'notes', 'bounded', 'vacuity', 'hints', 'invs'):
                            cur = getattr(self, k)
                            for y in o[k]:
                                if k in ('contracts', 'assumptions', 'notes') and y in cur: continue
                                cur.append(y)
                        self.functions.update(o['functions']); self.solver_s += o['solver_s']
                        for k, n in o['stats'].items(): self.stats[k] = self.stats.get(k, 0) + n
                        if o['failed']:
                            left = signal.alarm(0)
                            if left: signal.alarm(min(left, 150))
                        self.log('job %s done (%d obligations, %d failed)' % (x[2], len(o['obls']), len(o['failed'])))
        except BaseException:
            for x in live:
                try: os.kill(x[0], signal.SIGKILL); os.waitpid(x[0], 0)
                except OSError: pass
            raise

    # ---------------------------------------------------------------- known findings
    def known(self):
        fn = os.path.join(VERIF, 'known_findings.jsonl')
        out = []
        if os.path.exists(fn):
            for l in open(fn):
                l = l.strip()
                if l and not l.startswith('#'):
                    d = json.loads(l)
                    if d.get('property') == self.pid and d.get('status') == 'known': out.append(d)
        return out

    def print_known(self, d, still):
        """a listed finding: printed when it (still) occurs on this tree"""
        if still:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, d['what']), flush=True)
            self.known_printed.append(d['id'])

    # ---------------------------------------------------------------- end
    def replay_file(self, data):
        d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%d.json' % (self.pid, int(time.time() * 1000)))
        json.dump(jsonable(data), open(fn, 'w'), indent=1)
        return fn

    def evidence(self):
        by = {}
        for o in self.obls:
            if o[3] == 'discharged':
                k = o[4].split(' of ')[0]; by[k] = by.get(k, 0) + 1
        kinds = {}
        for o in self.obls: kinds[o[2]] = kinds.get(o[2], 0) + 1
        for o in self.obls:
            if o[1] in self.functions: self.functions[o[1]]['obligations'] = self.functions[o[1]].get('obligations', 0) + 1
        cov = {
            'obligations': len(self.obls), 'discharged': sum(1 for o in self.obls if o[3] == 'discharged'),
            'checker_cmd': 'clang++-18 -O1 -emit-llvm | opt -passes=... (see engine/build.py) -> engine/exec.py -> z3 (fallback cvc5, z3-new)',
            'trusted_base': self.trusted,
            'discharged_by_back_end': by, 'obligations_by_kind': kinds,
            'functions_under_contract': sorted(self.contracts),
            'functions_executed': sorted(self.functions),
            'loops_with_invariants': [{'function': f, 'loop': h, 'invariants': i} for f, h, i in self.invs][:60],
            'loop_statistics': self.stats, 'solver_seconds': round(self.solver_s, 2),
            'vacuity_guards': ['%s: %s' % x for x in self.vacuity],
            'bounded_stand_ins': self.bounded, 'notes': self.notes, 'known_findings_seen': self.known_printed,
            'obligation_sample': ['%s | %s | %s' % (o[1], o[0], o[4]) for o in self.obls if o[4] != 'constant folding'][:80],
        }
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': jsonable(cov), 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2)}
        if self.violation: ev['violations'] = 1
        return ev

    level = 'proof'

    def finish(self):
        if not self.obls and not self.failed: self.failed.append(('no obligation was generated', ''))
        code = 0
        if self.failed:
            self.log('obligations failed: %d; searching for a failing input' % len(self.failed))
            inp = None
            for h in self.hints:
                inp = h; break
            if inp is None and self.searcher:
                signal.alarm(0)
                try:
                    signal.signal(signal.SIGALRM, self._alarm); signal.alarm(200)
                    inp = self.searcher(self)
                except Exception as e:
                    self.log('search failed', traceback.format_exc())
                finally: signal.alarm(0)
            fn = self.replay_file({'property': self.pid, 'failed_obligations': [{'obligation': n, 'verifier_output': d} for n, d in self.failed[:40]],
                                   'failing_input': inp, 'tree': self.B.key if self.B else None})
            print('VIOLATION property=%s replay=%s%s' % (self.pid, fn, '' if inp is not None else ' no-failing-input-found'), flush=True)
            self.violation = True; code = 1
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        json.dump(self.evidence(), open(os.path.join(d, self.pid + '.json'), 'w'), indent=1)
        n = len(self.obls); k = sum(1 for o in self.obls if o[3] == 'discharged')
        print('%s: %d/%d obligations discharged, %.1f s, solver %.1f s' % (self.pid, k, n, time.time() - self.t0, self.solver_s), flush=True)
        return code

    def _alarm(self, *a): raise OutOfTime()

    def run(self, main, limit=None):
        sys.setrecursionlimit(100000)
        limit = limit or (560 if self.tier == 'quick' else 840 - 210)
        signal.signal(signal.SIGALRM, self._alarm); signal.alarm(limit)
        try: main(self)
        except OutOfTime: self.failed.append(('the verifier ran out of its time budget', '%d s' % limit))
        except BuildError as e: self.failed.append(('extraction from the current source failed', str(e)[-3000:]))
        except Unsupported as e: self.failed.append(('the verifier cannot process the current source', str(e) + '\n' + traceback.format_exc()[-1500:]))
        except Exception as e: self.failed.append(('the verifier failed', traceback.format_exc()[-3000:]))
        finally: signal.alarm(0)
        if self.verbose:
            for n, d in self.failed: print('FAIL', n, str(d)[:1500], file=sys.stderr)
        sys.exit(self.finish())
