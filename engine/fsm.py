"""Contracts for byte-state machines (init / step functions over a small state record).

The representation relation R(state bytes, specification state) has a fixed shape:
  * "wide" bytes are equal to a byte of the last code point or of its property record,
  * the remaining "small" bytes together with the specification state lie in a finite set T.
The byte classification and T are *proposed* by running the native code (breadth first over representative code points);
nothing about them is trusted: the verifier then proves, for all states in R and all 32-bit code points, that every
transition re-establishes R and that the result equals the specification's.
"""
import itertools, random
import z3
from .sym import *


class Machine:
    """
    check        Check
    nbytes       size of the state record
    native       dict: 'construct'(fill)->bytearray ; ops: name -> fn(state bytes, cp) -> (ret, state bytes)
    sym          dict: name -> fn(list of byte terms, cp term) -> (ret term, list of byte terms)
    spec         object with
                   start()                      -> small spec state (tuple) before any code point
                   ops: name -> dict(pre=fn(s,last,cp)->bool, next=fn(s,last,cp)->(out,s'), use_last=bool)
                   small: list of (name, nbits)
                   works for ints and z3 terms; props through spec.P
    reps         representative code points
    """

    def __init__(self, check, name, nbytes, native, sym, spec, reps, props=None, klass=None):
        self.c, self.name, self.n = check, name, nbytes
        self.native, self.sym, self.spec, self.reps, self.props = native, sym, spec, reps, props
        self.klass = klass
        self.mops = getattr(spec, 'mine_ops', spec.ops)     # concrete operations (an operation with a free extra input appears once per value)
        self.paths = {}

    # ------------------------------------------------------------ mining
    def mine(self, limit=60000):
        """explores (native state, spec state) pairs"""
        start = (bytes(self.native['construct'](0)), self.spec.start(), None)
        seen = {start: ()}
        todo = [start]
        trans = []
        self.mism = None
        keyseen = set()
        while todo:
            nxt = []
            for st in todo:
                b, s, last = st
                for op, d in self.mops.items():
                    cps = [last] if d.get('use_last') else self.reps
                    for cp in cps:
                        if cp is None: continue
                        if not d['pre'](s, last, cp): continue
                        ret, nb = self.native[op](bytearray(b), cp)
                        out, ns = d['next'](s, last, cp)
                        if not self.outeq(out, ret, concrete=True) and self.mism is None:
                            self.mism = (seen[st] + ((op, cp),), ret, out)
                        ns = tuple(int(x) for x in ns)
                        t = (bytes(nb), ns, cp)
                        if t not in seen:
                            # one representative per (small bytes, spec, class of last)
                            seen[t] = seen[st] + ((op, cp),)
                            k = (self.abskey(t),)
                            if k in keyseen: continue
                            keyseen.add(k); nxt.append(t)
                            if len(seen) > limit: raise Unsupported('state space of %s too large' % self.name)
            todo = nxt
        self.seen = seen

    def abskey(self, t):
        b, s, last = t
        return (tuple(b[k] for k in self.small), s, self.klass(last) if last is not None else None)

    def classify(self, trials=400):
        """which bytes are copies of the last code point / its record; which are never written"""
        rnd = random.Random(5)
        a = self.native['construct'](0); f = self.native['construct'](255)
        first = [op for op, d in self.mops.items() if d['pre'](self.spec.start(), None, self.reps[0])][0]
        cand = {k: None for k in range(self.n)}
        src = {}
        for k in range(self.n):
            src[k] = [('cp', j) for j in range(4)] + ([('P', j) for j in range(11)] if self.props else [])
        pad = set(range(self.n))
        state = [bytearray(a), bytearray(f)]
        s = self.spec.start(); last = None
        init = True
        pool = list(self.reps)
        for t in range(trials):
            cp = rnd.choice(pool)
            ops = [op for op, d in self.mops.items() if d['pre'](s, last, last if d.get('use_last') else cp)]
            op = rnd.choice(ops)
            if self.mops[op].get('use_last'): cp = last
            for i in range(2):
                ret, nb = self.native[op](bytearray(state[i]), cp); state[i] = bytearray(nb)
            out, s = self.mops[op]['next'](s, last, cp); s = tuple(int(x) for x in s); last = cp
            for k in range(self.n):
                if not (state[0][k] == 0 and state[1][k] == 255): pad.discard(k)
                v = state[0][k]
                keep = []
                for w, j in src[k]:
                    x = (cp >> (8 * j)) & 255 if w == 'cp' else (self.props.rec(cp) >> (8 * j)) & 255
                    if x == v: keep.append((w, j))
                src[k] = keep
        self.pad = pad
        self.wide = {}
        for k in range(self.n):
            if k in pad: continue
            if src[k]: self.wide[k] = src[k]
        self.small = [k for k in range(self.n) if k not in pad and k not in self.wide]

    # ------------------------------------------------------------ relation
    def build(self):
        self.classify()
        self.mine()
        self.T = {}
        for (b, s, last), path in self.seen.items():
            if last is None: continue
            key = (tuple(b[k] for k in self.small), s, self.klass(last))
            self.T.setdefault(key, path)

    def rel(self, bs, s, last, kl):
        """R as a formula; kl: class of last as a term (bit-vector of self.kbits)"""
        conj = []
        for k, srcs in self.wide.items():
            w, j = srcs[0]
            x = z3.Extract(8 * j + 7, 8 * j, last) if w == 'cp' else z3.Extract(8 * j + 7, 8 * j, self.props.P(last))
            conj.append(eqv(bs[k], fold(x), 8))
        conj.append(self.small_rel([bs[k] for k in self.small], s, kl))
        return And(*conj)

    def small_rel(self, sb, s, kl):
        # group:  for each (small bytes, spec) the set of classes
        widths = [8] * len(sb) + [n for _, n in self.spec.small]
        terms = list(sb) + list(s)
        grp = {}
        for (b, sp, k) in self.T: grp.setdefault(k, set()).add(b + sp)
        # classes with identical tuple sets share one disjunct
        inv = {}
        for k, ts in grp.items(): inv.setdefault(frozenset(ts), []).append(k)
        out = []
        whole = concat([(t if is_c(t) else bv(t, w), w) for t, w in zip(terms, widths)]) if terms else 0
        tot = sum(widths)

        def pack(t):
            r = 0
            for v, w in zip(t, widths): r = (r << w) | (v & mask(w))
            return r
        for ts, ks in inv.items():
            kc = Or(*[eqv(kl, k, self.kbits) for k in ks])
            tc = Or(*[eqv(whole, pack(t), tot) for t in ts]) if tot else True
            out.append(And(kc, tc))
        return Or(*out)

    def outeq(self, spec_out, ret, concrete=False):
        if concrete:
            if spec_out is None: return True
            return int(spec_out) == int(ret)
        if spec_out is None: return True
        n = self.retbits
        return eqv(ret, spec_out, n)

    # ------------------------------------------------------------ proof
    def prove(self, dom, kterm, kbits, retbits=1, timeout=60, rounds=12):
        """dom(cp): domain axiom for the property record of a code point; kterm(cp): class term"""
        c = self.c; self.kbits = kbits; self.retbits = retbits
        ok = True
        for op, d in self.spec.ops.items():
            for start in (True, False):
                if start and d.get('use_last'): continue
                if start and not d.get('from_start', True): continue
                for r in range(rounds):
                    res = self._prove1(op, d, start, dom, kterm, timeout, final=(r == rounds - 1))
                    if res is not False: break
                ok = ok and res is True
        return ok

    def _prove1(self, op, d, start, dom, kterm, timeout, final):
        c = self.c
        cp, last = z3.BitVec('cp', 32), z3.BitVec('last', 32)
        asm = []
        if start:
            b0 = self.native['construct'](0); bs = []
            for k in range(self.n): bs.append(int(b0[k]) if k not in self.pad else z3.BitVec('pad%d' % k, 8))
            s = self.spec.start(); last_t = None
            if not self.spec.ops[op]['pre'](s, None, 0): return True
        else:
            bs = [z3.BitVec('st%d' % k, 8) for k in range(self.n)]
            # wide bytes are substituted by their source right away
            for k, srcs in self.wide.items():
                w, j = srcs[0]
                bs[k] = fold(z3.Extract(8 * j + 7, 8 * j, last)) if w == 'cp' else fold(z3.Extract(8 * j + 7, 8 * j, self.props.P(last)))
            s = tuple(z3.BitVec('s_' + n, w) for n, w in self.spec.small)
            asm.append(self.rel(bs, s, last, kterm(last))); asm += dom(last); last_t = last
        if d.get('use_last'): cp = last
        else: asm += dom(cp)
        pre = d['pre'](s, last_t, cp)
        if pre is False: return True
        asm.append(pre)
        nf = len(self.obl_facts) if hasattr(self, 'obl_facts') else 0
        ret, nb = self.sym[op](bs, cp, asm)
        out, ns = d['next'](s, last_t, cp)
        goals = [('%s result equals the specification (%s)' % (op, 'first code point' if start else 'any history'), self.outeq(out, ret)),
                 ('%s re-establishes the state relation (%s)' % (op, 'first code point' if start else 'any history'), self.rel(nb, ns, cp, kterm(cp)))]
        if not self.vac_done(op, start): c.satisfiable('%s: %s, %s' % (self.name, op, 'start' if start else 'inductive'), asm, timeout)
        allok = True
        for i, (nm, g) in enumerate(goals):
            s_ = z3.Solver(); s_.set('timeout', int(timeout * 1000))
            for a in asm:
                if a is not True: s_.add(zb(a))
            s_.add(zb(Not(g)))
            import time
            t = time.time(); r = s_.check(); dt = time.time() - t; c.solver_s += dt
            if r == z3.unsat: c.rec(nm, self.name, 'post' if i == 0 else 'representation', True, 'z3', dt); continue
            m = s_.model() if r == z3.sat else None
            if i == 1 and m is not None and not final and allok:
                # enlarge the proposed relation by the successor of the counterexample; soundness is unaffected
                ev = lambda x: x if is_c(x) else m.eval(x, model_completion=True).as_long()
                key = (tuple(ev(nb[k]) for k in self.small), tuple(ev(x) for x in ns), ev(kterm(cp)))
                wide_ok = all(ev(nb[k]) == self.widev(srcs[0], ev(cp), m) for k, srcs in self.wide.items())
                if key in self.T or not wide_ok:
                    c.rec(nm, self.name, 'representation', False, 'z3', dt, c.short(m)); self.cex(op, m, start); return None
                # history reaching it
                ok = None
                if not start:
                    k0 = (tuple(ev(bs[k]) for k in self.small), tuple(ev(x) for x in s), ev(kterm(last)))
                    p = self.T.get(k0)
                    if p is not None: ok = p[:-1] + ((p[-1][0], ev(last)), (op if op in self.mops else self.spec.concrete(op, m), ev(cp)))
                else: ok = ((op if op in self.mops else self.spec.concrete(op, m), ev(cp)),)
                self.T[key] = ok or ((op if op in self.mops else self.spec.concrete(op, m), ev(cp)),)
                return False
            c.rec(nm, self.name, 'post' if i == 0 else 'representation', False, 'z3', dt, '%s %s' % (r, c.short(m)))
            allok = False
            if m is not None: self.cex(op, m, start, bs, s, kterm)
        return True if allok else None

    def widev(self, src, cp, m):
        w, j = src
        if w == 'cp': return (cp >> (8 * j)) & 255
        return (m.eval(self.props.P(z3.BitVecVal(cp, 32)), model_completion=True).as_long() >> (8 * j)) & 255

    def vac_done(self, op, start):
        k = (op, start)
        self._vac = getattr(self, '_vac', set())
        if k in self._vac: return True
        self._vac.add(k); return False

    def cex(self, op, m, start, bs=None, s=None, kterm=None):
        """turn a model into a code point history and replay it natively"""
        ev = lambda x: x if is_c(x) else m.eval(x, model_completion=True).as_long()
        cp = ev(z3.BitVec('cp', 32)); last = ev(z3.BitVec('last', 32))
        if op not in self.mops: op = self.spec.concrete(op, m)
        paths = [()]
        if not start:
            if bs is not None:
                k0 = (tuple(ev(bs[k]) for k in self.small), tuple(ev(x) for x in s), ev(kterm(last)))
                if k0 in self.T: paths = [self.T[k0]]
            else: paths = list(self.T.values())[:500]
        for p in paths:
            for h in ([p] if not p else [p, p[:-1] + ((p[-1][0], last),)]):
                for tail in ([cp], [x for x in self.reps]) if True else ():
                    for t in tail:
                        r = self.replay(h + ((op, t),))
                        if r: self.c.hints.append(r); return r
        return None

    def replay(self, hist):
        """runs a history natively against the specification; returns a failing input or None"""
        for fill in (0, 255):
            b = bytes(self.native['construct'](fill)); s = self.spec.start(); last = None
            for i, (op, cp) in enumerate(hist):
                d = self.mops[op]
                if d.get('use_last'): cp = last
                if cp is None or not d['pre'](s, last, cp): break
                ret, b = self.native[op](bytearray(b), cp); b = bytes(b)
                out, s = d['next'](s, last, cp); s = tuple(int(x) for x in s)
                if not self.outeq(out, ret, concrete=True):
                    return {'machine': self.name, 'history': [[o, 'U+%04X' % (x if x is not None else 0)] for o, x in hist[:i + 1]], 'got': int(ret), 'expected': int(out)}
                last = cp
        return None

    def search(self, seconds=60, seed=1):
        """exhaustive short histories over representatives, then random ones (only after an obligation failed)"""
        import time
        t0 = time.time(); rnd = random.Random(seed)
        mism = getattr(self, 'mism', None)
        if mism:
            r = self.replay(mism[0])
            if r: return r
        ops = list(self.mops)
        reps = list(self.reps) + [x for x in getattr(self, 'extra_reps', []) if x not in set(self.reps)]
        for L in (1, 2, 3):
            for h in itertools.product(reps, repeat=L):
                if time.time() - t0 > seconds / 4: break
                r = self.replay(tuple((self.first_op if i == 0 else self.step_op if self.step_op in self.mops else rnd.choice(ops), x) for i, x in enumerate(h)))
                if r: return r
        while time.time() - t0 < seconds:
            n = rnd.randint(2, 10)
            k = rnd.choice([reps, rnd.sample(reps, min(len(reps), 3)), rnd.sample(reps, min(len(reps), 4)), rnd.sample(reps, min(len(reps), 6)), None])
            h = []
            for i in range(n):
                cp = rnd.choice(k) if k else rnd.randrange(0x110000)
                op = self.first_op if i == 0 else rnd.choice(([self.step_op] if self.step_op in self.mops else []) * 3 + ops)
                h.append((op, cp))
            r = self.replay(tuple(h))
            if r: return r
        return None
