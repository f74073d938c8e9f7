"""Control flow, loops with inferred inductive invariants, calls."""
import re, time, itertools, math
import z3
from .sym import *
from .sym import _fresh
from . import ir
from .ir import I, PTR, size_of, offs, store_size


class Cell:
    __slots__ = ('key', 'kind', 'bits', 'es', 'name', 'obj', 'g')

    def __init__(self, key, kind, bits, name, obj=None, es=None, g=None):
        self.key, self.kind, self.bits, self.name, self.obj, self.es, self.g = key, kind, bits, name, obj, es, g

    def __repr__(self): return self.name


class LoopInfo:
    def __init__(self): self.cells = []


class MemSnap(dict):
    """memory on a loop exit edge of an unrolled iteration, with the SSA values of that iteration"""
    env = None


class View(dict):
    """valuation of loop cells at one program point"""
    pass


def sccs(nodes, succ):
    idx = {}; low = {}; st = []; on = set(); out = []; c = itertools.count()
    for root in nodes:
        if root in idx: continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = next(c); st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = next(c); st.append(w); on.add(w)
                    work.append((w, iter(succ(w)))); adv = True; break
                elif w in on: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v: break
                out.append(comp)
    return out[::-1]   # topological order


class Forall:
    """an invariant that holds for every 64-bit index: body(index) -> formula"""

    def __init__(self, body): self.body = body


class Verifier(Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.objs = {}
        self.quick = 0
        self.itctx = []
        self.stats = {'loops': 0, 'candidates': 0, 'survivors': 0}
        self.schemas = []; self.terms = []; self._tids = set()      # universally quantified hypotheses and the terms they are used at
        self.invariants = []
        self.call_log = None
        self.called = set()
        self.cases = []

    def global_obj(self, name, mod):
        o = super().global_obj(name, mod)
        self.objs[o.id] = o
        return o

    def reg(self, o):
        self.objs[o.id] = o
        return o

    # ------------------------------------------------------------ operands
    def val(self, env, ty, c, mod):
        if c[0] == 'reg':
            return env[c[1]]
        return self.constval(c, ty, mod)

    # ------------------------------------------------------------ merging
    def merge_mem(self, items):
        """items: list of (guard, mem); mutually exclusive guards"""
        base = items[-1][1]
        if all(m is base for _, m in items): return dict(base)
        out = dict(base)
        ids = set()
        for _, m in items: ids |= m.keys()
        for i in ids:
            vals = [m.get(i) for _, m in items]
            if all(v is vals[0] for v in vals):
                out[i] = vals[0]; continue
            o = self.objs.get(i)
            cs = []
            for (g, m) in items:
                v = m.get(i)
                if v is None:
                    if o is None: cs = None; break
                    v = self.content(State(True, m), o)
                cs.append(v)
            if cs is None: continue
            r = cs[-1]
            for (g, _), v in list(zip(items, cs))[-2::-1]:
                if v is r: continue
                r = self.merge_content(g, v, r, o)
            out[i] = r
        return out

    def merge_content(self, g, a, b, o):
        if isinstance(a, Arr):
            return a if a.a.eq(b.a) else Arr(z3.If(zb(g), a.a, b.a))
        keys = set(a.d) | set(b.d)
        d = {}
        done = set()
        for k in sorted(keys):
            x, y = a.d.get(k), b.d.get(k)
            if x is not None and y is not None and x[1] == y[1]:
                d[k] = (self.mval(g, x[0], y[0], x[1] * 8), x[1]); continue
            # differing segmentation: cut at all boundaries
            n = None
            lo = k
            bounds = sorted({s for s in keys} | {s + v[1] for s, v in a.d.items()} | {s + v[1] for s, v in b.d.items()})
            hi = next((z for z in bounds if z > lo), None)
            x2 = x if x is not None and (hi is None or lo + x[1] <= hi) else None
            segs = []
            end = max([lo + v[1] for v in (x, y) if v is not None])
            cuts = [z for z in bounds if lo <= z <= end]
            for s, e in zip(cuts, cuts[1:]):
                if s in done or s in d: continue
                va = self._cellload(o, a, s, e - s); vb = self._cellload(o, b, s, e - s)
                d[s] = (self.mval(g, va, vb, (e - s) * 8), e - s); done.add(s)
        # pieces covered only by wider segments starting earlier were handled above
        return Cells(d)

    def mval(self, g, x, y, n):
        if x is y: return x
        if isinstance(x, StrVal) or isinstance(y, StrVal):
            if not (isinstance(x, StrVal) and isinstance(y, StrVal)):
                return x if isinstance(x, StrVal) else y   # not yet constructed / already destroyed on one path
            if x.obj is not y.obj: raise Unsupported('merge of distinct strings')
            return StrVal(x.a if x.a.eq(y.a) else z3.If(zb(g), x.a, y.a), ite(g, x.n, y.n, 64), x.es, x.obj)
        if isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)):
            if not isinstance(x, (Ptr, PtrIte)): x = self._orptr(x)
            if not isinstance(y, (Ptr, PtrIte)): y = self._orptr(y)
            return ptr_ite(g, x, y)
        return ite(g, self.mat(x), self.mat(y), n)

    def _orptr(self, v):
        if is_c(v) and v == 0: return NULLP
        return Ptr(Obj('uninit', 'opaque'))

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, st):
        if len(self.stack) > self.opts['maxinline']: raise Unsupported('inlining depth at ' + fn.name)
        self.stack.append(fn.name)
        self.called.add(fn.name)
        try:
            env = {}
            for (ty, nm, at), v in zip(fn.params, args): env[nm] = v
            rets = []
            blocks = fn.blocks
            entry = next(iter(blocks))
            exits = []
            self.run_region(fn, env, list(blocks), entry, [(None, st.g, st.m)], exits, rets)
            if not rets:
                return None, State(False, st.m)
            g = Or(*[r[0] for r in rets])
            if len(rets) > 1 and not isinstance(g, bool) and self._covers(rets, st.g): g = st.g
            m = self.merge_mem([(r[0], r[1]) for r in rets])
            v = None
            if fn.ret.k != 'void':
                v = rets[-1][2]
                for r in rets[-2::-1]: v = self.vite(r[0], r[2], v, fn.ret)
            return v, State(g, m)
        finally:
            self.stack.pop()

    def _covers(self, rets, g):
        return getattr(self, '_nodrop', False)

    def run_region(self, fn, env, nodes, entry, incoming, exits, rets):
        """executes an acyclic-after-collapsing region once; returns back edges to entry"""
        ns = set(nodes); back = []
        pend = {entry: list(incoming)}
        key = (fn.name, entry, len(nodes))
        cache = fn.__dict__.setdefault('_scc', {})
        if key not in cache:
            comps = sccs([entry] + [n for n in nodes if n != entry], lambda b: [s for s in fn.blocks[b].succs if s in ns and s != entry])
            cache[key] = comps
        for comp in cache[key]:
            cs = set(comp)
            loop = len(comp) > 1 or (comp[0] in fn.blocks[comp[0]].succs and comp[0] != entry)
            if not loop:
                b = comp[0]
                inc = pend.pop(b, None)
                if not inc: continue
                out = self.exec_block(fn, env, b, inc, rets)
            else:
                heads = [b for b in comp if b in pend]
                if not heads: continue
                if len(heads) > 1: raise Unsupported('irreducible control flow in ' + fn.name)
                inc = pend.pop(heads[0])
                inc = [e for e in inc if e[1] is not False]
                if not inc: continue
                out = self.exec_loop(fn, env, comp, heads[0], inc, rets)
            for pred, succ, g, m in out:
                if g is False: continue
                if succ == entry: back.append((pred, g, m))
                elif succ in ns: pend.setdefault(succ, []).append((pred, g, m))
                else: exits.append((pred, succ, g, m))
        return back

    def run_from(self, fn, env, pend, rets):
        """executes the part of a function behind a loop"""
        entry = next(iter(fn.blocks)); pend = dict(pend)
        for comp in fn._scc[(fn.name, entry, len(fn.blocks))]:
            cs = set(comp)
            if len(comp) == 1 and comp[0] not in fn.blocks[comp[0]].succs:
                inc = pend.pop(comp[0], None)
                if not inc: continue
                out = self.exec_block(fn, env, comp[0], inc, rets)
            else:
                heads = [b for b in comp if b in pend]
                if not heads: continue
                if len(heads) > 1: raise Unsupported('irreducible control flow in ' + fn.name)
                inc = [e for e in pend.pop(heads[0]) if e[1] is not False]
                if not inc: continue
                out = self.exec_loop(fn, env, comp, heads[0], inc, rets)
            for pred, succ, g, m in out:
                if g is not False: pend.setdefault(succ, []).append((pred, g, m))

    def merge_in(self, fn, env, b, inc):
        inc = [e for e in inc if e[1] is not False]
        if not inc: return None
        # same predecessor twice (switch): merge guards
        by = {}
        for n, (p, g, m) in enumerate(inc):
            k = (p, n) if isinstance(m, MemSnap) else p
            if k in by: by[k] = (p, Or(by[k][1], g), m)
            else: by[k] = (p, g, m)
        inc = list(by.values())
        g = self.or_guards([x[1] for x in inc])
        m = self.merge_mem([(x[1], x[2]) for x in inc]) if len(inc) > 1 else dict(inc[0][2])
        return inc, g, m

    def or_guards(self, gs):
        """disjunction with  (a & c) | (a & !c) = a  simplification"""
        gs = list(gs)
        changed = True
        while changed and len(gs) > 1:
            changed = False
            for i in range(len(gs)):
                for j in range(i + 1, len(gs)):
                    r = self._compl(gs[i], gs[j])
                    if r is not None:
                        gs[i] = r; del gs[j]; changed = True; break
                if changed: break
        return Or(*gs)

    def _conj(self, g):
        if g is True: return []
        if isinstance(g, z3.BoolRef) and z3.is_and(g):
            out = []
            for a in g.children(): out += self._conj(a)
            return out
        return [g]

    def _compl(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            if a is True or b is True: return True
            return None
        ca, cb = self._conj(a), self._conj(b)
        if len(ca) != len(cb): return None
        sa = {x.get_id(): x for x in ca}; sb = {x.get_id(): x for x in cb}
        da = [x for k, x in sa.items() if k not in sb]; db = [x for k, x in sb.items() if k not in sa]
        if not da and not db: return a
        if len(da) == 1 and len(db) == 1 and Not(da[0]).eq(db[0]) if len(da) == 1 and len(db) == 1 else False:
            r = [x for k, x in sa.items() if k in sb]
            return And(*r)
        if len(da) == 1 and len(db) == 1 and (Not(db[0]).eq(da[0])):
            r = [x for k, x in sa.items() if k in sb]
            return And(*r)
        return None

    def phi_vals(self, fn, env, b, inc):
        vals = {}
        for i in fn.blocks[b].insts:
            if i.op != 'phi': break
            src = {p: c for c, p in i.x}
            v = None
            for p, g, m in inc[::-1]:
                x = self.val(m.env if isinstance(m, MemSnap) else env, i.ty, src[p], fn.mod)
                v = x if v is None else self.vite(g, x, v, i.ty)
            vals[i.res] = v
        return vals

    def exec_block(self, fn, env, b, inc, rets, merged=None):
        if merged is None:
            r = self.merge_in(fn, env, b, inc)
            if r is None: return []
            inc, g, m = r
            vals = self.phi_vals(fn, env, b, inc)
            env.update(vals)
        else:
            g, m = merged
        st = State(g, m)
        for i in fn.blocks[b].insts:
            if i.op == 'phi': continue
            t = self.step(fn, env, st, i, rets)
            if t is not None:
                return [(b, s, gg, st.m) for s, gg in t]
            if st.g is False: return []
        return []

    # ------------------------------------------------------------ instructions
    def step(self, fn, env, st, i, rets):
        op = i.op; mod = fn.mod
        V = lambda k: self.val(env, i.a[k][0], i.a[k][1], mod)
        if op == 'br':
            if not i.a: return [(i.x[0], st.g)]
            c = V(0)
            if not is_c(c): c = simp(c)
            if is_c(c): return [(i.x[0] if c else i.x[1], st.g)]
            if i.x[0] == i.x[1]: return [(i.x[0], st.g)]
            return [(i.x[0], And(st.g, c)), (i.x[1], And(st.g, Not(c)))]
        if op == 'switch':
            c = V(0); n = i.a[0][0].n
            c = self.mat(c)
            if not is_c(c): c = simp(c)
            d, cs = i.x
            if is_c(c):
                for k, t in cs:
                    if k[1] == int(c): return [(t, st.g)]
                return [(d, st.g)]
            out = []; groups = {}
            for k, t in cs: groups.setdefault(t, []).append(fold(bv(c, n) == k[1]))
            none = And(*[Not(e) for es in groups.values() for e in es])
            for t, es in groups.items(): out.append((t, And(st.g, Or(*es))))
            out.append((d, And(st.g, none)))
            return out
        if op == 'ret':
            rets.append((st.g, st.m, V(0) if i.a else None))
            return []
        if op == 'unreachable':
            self.oblige('unreachable point is not reached', st.g, False, 'unreachable', fn.name)
            st.g = False
            return []
        if op == 'resume': return []
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = V(0), V(1)
            if i.ty.k == 'vec':
                env[i.res] = [binop(op, x, y, i.ty.e.n) for x, y in zip(a, b)]
            else: env[i.res] = self.arith(op, a, b, i.ty, i.x)
            return
        if op == 'icmp':
            a, b = V(0), V(1); ty = i.ty
            if ty.k == 'vec': env[i.res] = [cmpop(i.x, x, y, ty.e.n) for x, y in zip(a, b)]
            elif ty.k == 'ptr': env[i.res] = self.ptr_cmp(i.x, a, b)
            else: env[i.res] = self.icmp(i.x, a, b, ty.n)
            return
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if i.a[0][0].k == 'vec': env[i.res] = [self.vite(x, p, q, i.ty.e) for x, p, q in zip(c, a, b)]
            else: env[i.res] = self.vite(c if not isinstance(c, int) or isinstance(c, bool) else bool(c), a, b, i.ty)
            return
        if op == 'load':
            env[i.res] = self.load(st, V(0), i.ty); return
        if op == 'store':
            self.store(st, V(1), V(0), i.a[0][0]); return
        if op == 'getelementptr':
            ops = [(t, self.val(env, t, c, mod)) for t, c in i.a]
            if i.ty.k == 'struct' and len(ops) == 1: env[i.res] = ops[0][1]
            else: env[i.res] = self.gep(i.ty, ops)
            return
        if op == 'alloca':
            sz = size_of(i.ty) * (V(0) if i.a else 1)
            o = self.reg(self.new_cells('%s.%s' % (fn.name[:40], i.res), sz, sym=False))
            env[i.res] = Ptr(o); return
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = V(0); f = i.a[0][0]; t = i.ty
            if op == 'freeze' or (f.k == t.k == 'ptr'): env[i.res] = v; return
            if op == 'ptrtoint': env[i.res] = PInt(v); return
            if op == 'inttoptr': env[i.res] = self.as_ptr(v); return
            if op == 'bitcast':
                if f.k == 'vec' and t.k == 'int':
                    r = self.from_vec(v, f); env[i.res] = r; return
                if f.k == 'vec' and t.k == 'vec':
                    env[i.res] = self.to_vec(self.from_vec(v, f), t); return
                if f.k == 'int' and t.k == 'vec':
                    env[i.res] = self.to_vec(self.mat(v), t); return
                env[i.res] = v; return
            fx = {'zext': zext, 'sext': sext, 'trunc': trunc}[op]
            if f.k == 'vec': env[i.res] = [fx(x, f.e.n, t.e.n) for x in v]; return
            if isinstance(v, PInt):
                env[i.res] = fresh('ptrbits', t.n); return
            env[i.res] = fx(self.mat(v), f.n, t.n); return
        if op == 'extractvalue':
            v = V(0)
            for k in i.x: v = v[k]
            env[i.res] = v; return
        if op == 'insertvalue':
            def ins(v, ks, e):
                v = list(v)
                v[ks[0]] = e if len(ks) == 1 else ins(v[ks[0]], ks[1:], e)
                return v
            env[i.res] = ins(V(0), i.x, V(1)); return
        if op == 'extractelement':
            v, k = V(0), V(1)
            if not is_c(k): raise Unsupported('symbolic extractelement')
            env[i.res] = v[int(k)]; return
        if op == 'insertelement':
            v, e, k = V(0), V(1), V(2)
            if not is_c(k): raise Unsupported('symbolic insertelement')
            v = list(v); v[int(k)] = e; env[i.res] = v; return
        if op == 'shufflevector':
            a, b = V(0), V(1); mk = i.a[2][1]
            n = i.a[0][0].n
            if mk[0] == 'zero': ks = [0] * i.a[2][0].n
            elif mk[0] in ('poison', 'undef'): ks = [None] * i.a[2][0].n
            else: ks = [x[1] if x[0] == 'int' else None for x in mk[1]]
            ab = list(a) + list(b)
            env[i.res] = [ab[k] if k is not None else fresh('undef', i.ty.e.n) for k in ks]; return
        if op in ('call', 'invoke'):
            r = self.do_call(fn, env, st, i)
            if i.res is not None: env[i.res] = r
            if op == 'invoke':
                return [(i.x['normal'], st.g)]
            return
        if op == 'landingpad': env[i.res] = None; return
        if op == 'fence': return
        raise Unsupported('instruction ' + i.line[:120])

    def icmp(self, pr, a, b, n):
        if isinstance(a, Scaled) or isinstance(b, Scaled):
            if isinstance(a, Scaled) and isinstance(b, Scaled) and a.g == b.g: return cmpop(self._spr(pr), a.t, b.t, 64)
            if isinstance(a, Scaled) and is_c(b) and sgn(b, 64) % a.g == 0: return cmpop(pr if pr[0] == 'u' else pr, a.t, (sgn(b, 64) // a.g) & mask(64), 64)
            if isinstance(b, Scaled) and is_c(a) and sgn(a, 64) % b.g == 0: return cmpop(pr, (sgn(a, 64) // b.g) & mask(64), b.t, 64)
            if isinstance(a, Scaled) and is_c(b):   # compare g*t with k
                k = sgn(b, 64)
                if pr in ('ult', 'slt'): return cmpop(pr, a.t, (-(-k // a.g)) & mask(64), 64)
                if pr in ('ugt', 'sgt'): return cmpop(pr, a.t, (k // a.g) & mask(64), 64)
                if pr in ('uge', 'sge'): return cmpop(pr, a.t, (-(-k // a.g)) & mask(64), 64)
                if pr in ('ule', 'sle'): return cmpop(pr, a.t, (k // a.g) & mask(64), 64)
        if isinstance(a, PInt) or isinstance(b, PInt):
            pa = a.p if isinstance(a, PInt) else self.as_ptr(a)
            pb = b.p if isinstance(b, PInt) else self.as_ptr(b)
            return self.ptr_cmp(pr, pa, pb)
        return cmpop(pr, self.mat(a), self.mat(b), n)

    def _spr(self, pr): return pr

    # ------------------------------------------------------------ calls
    def do_call(self, fn, env, st, i):
        c = i.x['callee']
        args = [self.val(env, t, v, fn.mod) for t, v in i.a]
        if c[0] == 'reg':
            p = env[c[1]]
            if isinstance(p, Ptr) and p.obj.kind == 'func': name = p.obj.fname
            else: raise Unsupported('indirect call in %s' % fn.name)
        else: name = c[1]
        return self.call_named(fn, st, i, name, args)

    def call_named(self, fn, st, i, name, args):
        if name.startswith('llvm.'): return self.intrinsic(st, i, name, args)
        for rx, h in self.contracts:
            if rx.match(name):
                self.call_site = (fn.name if fn else '', name)
                return h(self, st, name, args, i)
        if re.match(r'_ZSt\d+__throw_|__assert_fail|_ZSt9terminatev|abort$|__clang_call_terminate|_ZSt21__glibcxx_assert_fail|__cxa_throw|__cxa_allocate_exception|_ZSt20__throw', name):
            self.oblige('%s is not reached' % name, st.g, False, 'unreachable', fn.name if fn else '')
            st.g = False
            return None
        if name in ('__cxa_guard_acquire',): return 1 if self.opts.get('guard_first', True) else fresh('guard', 32)
        if name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'): return 0
        f = None
        for m in self.mods:
            f = m.fn(name)
            if f: break
        if f is None: raise Unsupported('call to %s without contract' % name)
        if self.stack.count(name) > self.opts.get('maxrec', 2): raise Unsupported('recursion through %s' % name)
        v, st2 = self.call_fn(f, args, st)
        st.g, st.m = st2.g, st2.m
        return v

    def intrinsic(self, st, i, name, args):
        n = name.split('.')
        k = n[1]
        if k in ('lifetime', 'experimental', 'dbg', 'invariant', 'donothing', 'prefetch'): return None
        if k in ('assume',): return None
        if k == 'expect': return args[0]
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], k == 'memmove'); return None
        if k == 'memset':
            self.memset(st, args[0], args[1], args[2]); return None
        if k in ('umin', 'umax', 'smin', 'smax'):
            ty = i.ty
            pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
            if ty.k == 'vec': return [self.vite(cmpop(pr, a, b, ty.e.n), a, b, ty.e) for a, b in zip(*args[:2])]
            a, b = args[:2]
            if isinstance(a, Scaled) or isinstance(b, Scaled):
                return self.vite(self.icmp(pr, a, b, ty.n), a, b, ty)
            return self.vite(cmpop(pr, a, b, ty.n), a, b, ty)
        if k == 'abs':
            a = self.mat(args[0]); w = i.ty.n
            return ite(cmpop('slt', a, 0, w), binop('sub', 0, a, w), a, w)
        if k in ('ctpop', 'cttz', 'ctlz'):
            a = self.mat(args[0]); w = i.ty.n
            if i.ty.k == 'vec': raise Unsupported(name)
            if k == 'ctpop':
                r = 0
                for b in range(w): r = binop('add', r, zext(extract(a, b, b, w), 1, w) if is_c(a) else zext(fold(z3.Extract(b, b, a)), 1, w) if False else (zext_bit(a, b, w)), w)
                return r
            if k == 'cttz' and w >= 32 and not is_c(a):
                # t = number of trailing zeros, characterised by  t > j  <=>  bits 0..j are zero
                t = fresh('ctz', w); z = True
                for b in range(w):
                    z = And(z, z3.Extract(b, b, a) == 0)
                    zn = fresh('z', 1); self.fact(zn == zb(z)); z = zn
                    self.fact(z3.UGT(t, b) == z)
                self.fact(z3.ULE(t, w))
                return t
            r = w
            rng = range(w - 1, -1, -1) if k == 'cttz' else range(w)
            for b in rng:
                bit = bool(a >> b & 1) if is_c(a) else (z3.Extract(b, b, a) == 1)
                r = ite(bit, b if k == 'cttz' else w - 1 - b, r, w)
            return r
        if k in ('fshl', 'fshr'):
            a, b, s = [self.mat(x) for x in args]; w = i.ty.n
            if not is_c(s): raise Unsupported(name)
            s = int(s) % w
            if k == 'fshr': s = (w - s) % w
            if s == 0: return a if k == 'fshl' else b
            return concat([(extract(a, w - 1 - s, 0, w), w - s), (extract(b, w - 1, w - s, w), s)])
        if k == 'bswap':
            a = args[0]; w = i.ty.n
            return concat([(extract(a, 8 * j + 7, 8 * j, w), 8) for j in range(w // 8)])
        if k in ('usub', 'uadd') and n[2] == 'sat':
            a, b = [self.mat(x) for x in args]; w = i.ty.n
            if k == 'usub': return ite(cmpop('ult', a, b, w), 0, binop('sub', a, b, w), w)
            s = binop('add', a, b, w)
            return ite(cmpop('ult', s, a, w), mask(w), s, w)
        if n[-2:][0] == 'overflow' or 'overflow' in n:
            a, b = [self.mat(x) for x in args]; w = i.ty.e[0].n
            if k == 'uadd':
                s = binop('add', a, b, w); return [s, cmpop('ult', s, a, w)]
            if k == 'usub': return [binop('sub', a, b, w), cmpop('ult', a, b, w)]
            if k == 'umul':
                p = binop('mul', zext(a, w, 2 * w), zext(b, w, 2 * w), 2 * w)
                return [trunc(p, 2 * w, w), cmpop('ne', extract(p, 2 * w - 1, w, 2 * w), 0, w)]
        if k == 'vector' and n[2] == 'reduce':
            v = args[0]; w = i.ty.n
            r = v[0]
            for x in v[1:]: r = binop(n[3], r, x, w)
            return r
        if k == 'x86':
            rest = '.'.join(n[2:])
            if 'pmovmskb' in rest:
                v = args[0]
                r = concat([(self._top(x), 1) for x in v[::-1]])
                return zext(r, len(v), i.ty.n)
        if k in ('trap', 'ubsantrap'):
            self.oblige('trap is not reached', st.g, False, 'unreachable'); st.g = False; return None
        if k in ('stacksave',): return NULLP
        if k in ('stackrestore',): return None
        if k == 'is' and n[2] == 'constant': return False
        if k == 'objectsize': return mask(i.ty.n)
        raise Unsupported('intrinsic ' + name)

    def _top(self, x):
        return (x >> 7 & 1) if is_c(x) else z3.Extract(7, 7, x)

    def memcpy(self, st, d, s, n, move=False):
        n = self.mat(n)
        if not is_c(n): n = simp(n)
        if not is_c(n):
            h = self.opts.get('memcpy_sym')
            if h: return h(self, st, d, s, n)
            return self.memcpy_sym(st, d, s, n)
        n = int(n)
        if n == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            # distribute over pointer alternatives only when simple
            for g, q in leaves(d):
                for g2, r in leaves(s):
                    gg = And(g, g2)
                    if gg is True: continue
                    sub = State(And(st.g, gg), dict(st.m))
                    self.memcpy(sub, q, r, n)
                    st.m = self.merge_mem([(gg, sub.m), (Not(gg), st.m)])
            return
        self._bounds(st, s.obj, s.off, n, 'memcpy read', st.g)
        self._bounds(st, d.obj, d.off, n, 'memcpy write', st.g)
        if s.obj.kind == 'cell' and d.obj.kind == 'cell' and s.off.t is None and d.off.t is None:
            c = self.content(st, s.obj)
            segs = []
            k = s.off.c; end = k + n
            d0 = c.d
            while k < end:
                e = d0.get(k)
                if e is not None and k + e[1] <= end: segs.append((k - s.off.c, e[0], e[1])); k += e[1]
                else:
                    nxt = min([q for q in list(d0) + [q + v[1] for q, v in d0.items()] if q > k] + [end])
                    nxt = min(nxt, end)
                    segs.append((k - s.off.c, self._cellload(s.obj, c, k, nxt - k), nxt - k)); k = nxt
            for o, v, z in segs: self.store_bytes(st, d.obj, d.off.addc(o), z, v, st.g)
            return
        es = d.obj.es if d.obj.kind == 'arr' else (s.obj.es if s.obj.kind == 'arr' else (s.off.g if s.off.t is not None else 1))
        if n % es: es = 1
        for k in range(0, n, es):
            v = self.load_bytes(st, s.obj, s.off.addc(k), es, st.g)
            self.store_bytes(st, d.obj, d.off.addc(k), es, v, st.g)

    def memcpy_sym(self, st, d, s, n): raise Unsupported('memcpy of symbolic length')

    def memset(self, st, d, v, n):
        n = self.mat(n)
        if not is_c(n): n = simp(n)
        if not is_c(n) or not isinstance(d, Ptr): raise Unsupported('memset of symbolic length')
        n = int(n)
        self._bounds(st, d.obj, d.off, n, 'memset', st.g)
        es = d.obj.es if d.obj.kind == 'arr' else min(n, 8)
        k = 0
        while k < n:
            z = min(es, n - k)
            x = concat([(v, 8)] * z)
            self.store_bytes(st, d.obj, d.off.addc(k), z, x, st.g); k += z

    # ------------------------------------------------------------ loops
    def exec_loop(self, fn, env, comp, header, inc, rets):
        info_key = (tuple(self.stack), header, tuple(self.itctx))
        cs = list(comp)
        r = self.merge_in(fn, env, header, inc)
        inc, g0, m0 = r
        entry_phi = self.phi_vals(fn, env, header, inc)
        ctl = self.opts.get('control')
        ctl = ctl(self, fn, header, g0, m0, entry_phi) if ctl is not None and not self.quick else None
        if ctl is not None: return self.loop_control(fn, env, cs, header, g0, m0, entry_phi, rets, info_key, ctl)
        if self.try_unroll(fn, env, cs, header, g0, m0, entry_phi, rets) is True:
            return self._unrolled
        sp = self.split_objects(fn, env, comp, header, g0, m0, entry_phi, rets)
        if sp is not None: return sp
        return self.loop_inv(fn, env, cs, header, g0, m0, entry_phi, rets, info_key)

    def split_objects(self, fn, env, cs, header, g0, m0, entry_phi, rets):
        """a loop pointer that points into one of several objects: the loop is verified once for each of them"""
        for i in fn.blocks[header].insts:
            if i.op != 'phi': break
            p = entry_phi[i.res]
            if i.ty.k != 'ptr' or not isinstance(p, PtrIte): continue
            lv = [(g, q) for g, q in leaves(p) if g is not False]
            objs = []
            for g, q in lv:
                if q.obj not in objs: objs.append(q.obj)
            if len(objs) < 2: continue
            exits = []
            for k, o in enumerate(objs):
                gs = [(g, q) for g, q in lv if q.obj is o]
                cond = Or(*[g for g, q in gs])
                g1 = And(g0, cond)
                if g1 is False or self.query(self.facts + [zb(g1)], 5000)[0] == 'unsat': continue
                e1 = dict(env); ph1 = dict(entry_phi)
                q = gs[-1][1]
                for g, r in gs[-2::-1]: q = Ptr(o, off_ite(g, r.off, q.off))
                ph1[i.res] = q
                for d in (e1, ph1):
                    for r, x in list(d.items()):
                        if isinstance(x, PtrIte): d[r] = self.restrict(x, g1)
                self.itctx.append(('object', k)); ex = []
                try:
                    ik = (tuple(self.stack), header, tuple(self.itctx))
                    ex = self.split_objects(fn, e1, cs, header, g1, dict(m0), ph1, rets)
                    if ex is None: ex = self.loop_inv(fn, e1, list(cs), header, g1, dict(m0), ph1, rets, ik)
                finally: self.itctx.pop()
                for p_, s_, g_, m_ in ex:
                    mm = MemSnap(m_); mm.env = m_.env if isinstance(m_, MemSnap) else e1
                    exits.append((p_, s_, g_, mm))
            return exits
        return None

    # ---- loops driven by a finite control state
    def loop_control(self, fn, env, cs, header, g0, m0, entry_phi, rets, info_key, ctl):
        """a loop whose header state has finitely many values of some cells (small integers, ghost states): one invariant
        per reachable value, found as a fixpoint over the reachable values, each iteration executed with those cells concrete.
        ctl.cells: (object id, offset, size, values) of memory cells that take one of the values, every iteration is executed for each of them; ctl.ghosts(view): terms, ctl.assume(view): facts of the ghosts,
        ctl.candidates(view) -> [(name, formula)]"""
        phis = [i for i in fn.blocks[header].insts if i.op == 'phi']
        small = [ph for ph in phis if ph.ty.k == 'int' and ph.ty.n <= 32]
        havoc_cells = {tuple(x[:3]) for x in ctl.cells}
        splits = list(itertools.product(*[x[3] for x in ctl.cells]))
        limit = self.opts.get('control_limit', 2000)

        def keyterms(w): return [w[('phi', ph.res)] for ph in small] + list(ctl.ghosts(w))
        def const(x):
            if isinstance(x, bool): return int(x)
            if isinstance(x, int): return x
            if isinstance(x, z3.BoolRef):
                x = z3.simplify(x); return int(z3.is_true(x)) if z3.is_true(x) or z3.is_false(x) else None
            x = z3.simplify(x); return x.as_long() if z3.is_bv_value(x) else None
        def eq(x, k):
            if isinstance(x, (bool, int)): return int(x) == k
            if isinstance(x, z3.BoolRef): return x if k else z3.Not(x)
            return x == z3.BitVecVal(k, x.size())

        def enumerate_keys(g, ts):
            cv = [const(t) for t in ts]
            hyp = [zb(f) for f in self.facts] + [zb(g)]; out = []
            while True:
                r, m = self.query(hyp, self.timeout)
                if r == 'unsat': return out
                if r != 'sat': raise Unsupported('control state of a loop not enumerable in ' + fn.name)
                k = []
                for t, c in zip(ts, cv):
                    if c is None:
                        v = m.eval(t, model_completion=True); c = int(z3.is_true(v)) if isinstance(v, z3.BoolRef) else v.as_long()
                    k.append(c)
                out.append(tuple(k))
                if len(out) > limit: raise Unsupported('too many control states of a loop in ' + fn.name)
                d = [eq(t, c) for t, c, q in zip(ts, k, cv) if q is None]
                if not d: return out
                hyp.append(z3.Not(z3.And(*d)))

        def pointers(w, mem, gk):
            r = {}
            for ph in phis:
                if ph.ty.k == 'ptr': r[('phi', ph.res)] = w[('phi', ph.res)]
            st = State(True, mem)
            for k in havoc_cells:
                if k[1] == 'arr' or k[1] == 'all': continue
                o = self.objs[k[0]]; ev = self.content(st, o).d.get(k[1])
                if ev is not None and ev[1] == k[2] and isinstance(ev[0], (Ptr, PtrIte)): r[k] = ev[0]
            for k, p in list(r.items()):
                if isinstance(p, PtrIte): p = self.restrict(p, gk)
                if isinstance(p, PtrIte):
                    lv = [q for g, q in leaves(p) if g is not False]
                    if any(q.obj is not lv[0].obj or q.off.t is not None or q.off.c != lv[0].off.c for q in lv): raise Unsupported('loop pointer alternatives')
                    p = lv[0]
                if p.off.t is not None: raise Unsupported('moving pointer in a loop with finite control')
                r[k] = p
            return r

        def start(key, split, ptrs, envc, cands):
            ph = dict(entry_phi); m = dict(m0)
            for k, p in ptrs.items():
                if k[0] == 'phi': ph[k[1]] = p
                else:
                    c = self.content(State(True, m), self.objs[k[0]]).copy(); self._cellstore(self.objs[k[0]], c, k[1], k[2], p); m[k[0]] = c
            hv = self.havoc(fn, envc, header, g0, m, ph, {}, havoc_cells, phis)
            n = 0
            for q in small:
                v = bool(key[n]) if q.ty.n == 1 else key[n]
                hv['phi'][q.res] = v; envc[q.res] = v; n += 1
            for x, k in zip(ctl.cells, split):
                o = self.objs[x[0]]; c = hv['m'][x[0]].copy()
                self._cellstore(o, c, x[1], x[2], k); hv['m'][x[0]] = c
                hv['cells'][tuple(x[:3])] = k
            w = self.view_hv(hv)
            for t in ctl.ghosts(w): self.fact(Implies(hv['g'], eq(t, key[n]))); n += 1
            for f in ctl.assume(w, key, split): self.fact(Implies(hv['g'], f))
            for nm, f in ctl.candidates(w):
                if nm in cands: self.assume(hv['g'], f)
            return hv

        def viewof(phi, m):
            h = {'cells': {k: None for k in havoc_cells if k[1] not in ('arr', 'all')}, 'arrs': [k[0] for k in havoc_cells if k[1] == 'arr'], 'strs': {}}
            return self.view(fn, env, header, phi, m, h)

        class Again(Exception): pass
        while True:
            live, ptrs, work = {}, {}, []

            def edge(g, w, mem):
                for x in ctl.cells:
                    y = w[('cell',) + tuple(x[:3])]
                    if self.query(self.facts + [zb(And(g, *[Not(eq(y, k)) for k in x[3]]))], self.timeout)[0] != 'unsat': raise Unsupported('cell of a loop outside its values in ' + fn.name)
                for key in enumerate_keys(g, keyterms(w)):
                    fm = len(self.facts)
                    gk = And(g, *[eq(t, c) for t, c in zip(keyterms(w), key)])
                    p = pointers(w, mem, gk)
                    cl = [(nm, f) for nm, f in ctl.candidates(w) if key not in live or nm in live[key]]
                    keep = {nm for nm, f in self.prune([(nm, (lambda _, f=f: f)) for nm, f in cl], [(gk, w)], 'control')}
                    del self.facts[fm:]
                    if key not in live: live[key] = keep; ptrs[key] = p; work.append(key); continue
                    for k, q in p.items():
                        r = ptrs[key].get(k)
                        if r is None or r.obj is not q.obj or r.off.c != q.off.c: raise Unsupported('loop pointer changes object')
                    if keep != live[key]:
                        live[key] = keep
                        if key not in work: work.append(key)
            try:
                edge(g0, viewof(entry_phi, m0), m0)
                while work:
                    key = work.pop(0)
                    fm = len(self.facts); mark = (len(self.schemas), len(self.terms))
                    wl = []; new = False
                    for split in splits:
                        f2 = len(self.facts); m2 = (len(self.schemas), len(self.terms))
                        self.dry += 1; saved = self.wlog; self.wlog = []; objmark = self._mark()
                        try:
                            envc = dict(env)
                            hv = start(key, split, ptrs[key], envc, live[key])
                            back = self.loop_body(fn, envc, cs, header, hv, [], [])
                        finally: wl = self.wlog; self.wlog = saved; self.dry -= 1
                        for o, off, size in wl:
                            if (o.id > objmark and o.name[:1] != '@') or o.kind in ('null', 'const'): continue
                            k = (o.id, 'arr') if o.kind == 'arr' else (o.id, 'all') if off is None or off.t is not None else (o.id, off.c, size)
                            if k not in havoc_cells and (o.id, 'all') not in havoc_cells: havoc_cells.add(k); new = True
                        if self.wlog is not None: self.wlog.extend(w for w in wl if w[0].id <= objmark or w[0].name[:1] == '@')
                        if not new:
                            for p, g, m in back:
                                edge(g, viewof({ph.res: self.val(envc, ph.ty, {q: c for c, q in ph.x}[p], fn.mod) for ph in phis}, m), m)
                        del self.facts[f2:]; self.untrack(m2)
                        if key in work: break
                    del self.facts[fm:]; self.untrack(mark)
                    if new: raise Again()
                break
            except Again: continue
        if not self.dry and not self.quick:
            self.stats['loops'] += 1
            for key in live:
                self.stats['candidates'] += len(live[key]); self.stats['survivors'] += len(live[key])
                for nm in sorted(live[key]):
                    ob = Obligation('loop %s/%s invariant [%s] holds in control state %s' % (fn.name, header, nm, key), fn.name, 'invariant', True, True, len(self.facts))
                    ob.status = 'discharged'; ob.backend = 'z3'; self.obls.append(ob)
            self.invariants.append((fn.name, header, ['%d control states' % len(live)] + sorted(set.intersection(*live.values())) if live else []))
        ctl.live = live
        exits = []; kept = []; ends = []
        for n, key in enumerate(sorted(live)):
            for split in splits:
                envc = dict(env); ex = []; fm = len(self.facts); no = len(self.obls)
                self.itctx.append(('control', n, split))
                try:
                    hv = start(key, split, ptrs[key], envc, live[key])
                    self.loop_body(fn, envc, cs, header, hv, ex, rets)
                finally: self.itctx.pop()
                if ctl.post is not None:
                    # the rest of the function is executed and decided here, where only the facts of this iteration are around; its postcondition is kept
                    rr = []; pend = {}
                    for p_, s_, g_, m_ in ex: pend.setdefault(s_, []).append((p_, g_, m_))
                    self.run_from(fn, envc, pend, rr)
                    es = [(r[0], z3.And(*[zb(f) for f in ctl.post(self.view_mem(r[1]), r[2])])) for r in rr if r[0] is not False]
                    todo = [o for o in self.obls[no:] if o.status is None]
                    neg = [zb(And(o.guard, Not(o.prop))) for o in todo] + [zb(And(g, Not(f))) for g, f in es]
                    if not self.dry and (not neg or self.query(self.facts + [z3.Or(*neg)], self.timeout)[0] == 'unsat'):
                        for o in todo: o.status = 'discharged'; o.backend = 'cvc5' if self.opts.get('cvc5') else 'z3'
                        del self.facts[fm:]
                        kept += [Implies(g, f) for g, f in es]
                    ends += rr
                    continue
                for p_, s_, g_, m_ in ex:
                    mm = MemSnap(m_); mm.env = m_.env if isinstance(m_, MemSnap) else envc
                    exits.append((p_, s_, g_, mm))
        if ends and not self.dry and len(kept) == len([r for r in ends if r[0] is not False]) and fn.ret.k == 'void':
            # summary: some return state with the postcondition
            m = self.merge_mem([(r[0], r[1]) for r in ends if r[0] is not False])
            for oid, c in list(m.items()):
                if c is m0.get(oid) or not isinstance(c, Cells): continue
                c = c.copy(); old = m0[oid].d if isinstance(m0.get(oid), Cells) else {}
                for off, (x, k) in list(c.d.items()):
                    if isinstance(x, PtrIte):
                        if len({(q.obj, q.off.c, q.off.t is None) for g, q in leaves(x) if g is not False}) == 1: c.d[off] = (self.collapse(x), k)
                    elif z3.is_bv(x) and not z3.is_bv_value(x) and not (off in old and same(old[off][0], x)): c.d[off] = (fresh('%s+%d' % (self.objs[oid].name.split('.')[-1], off), 8 * k), k)
                m[oid] = c
            g = And(g0, z3.Bool('returns!%d' % next(_fresh)))
            for f in ctl.post(self.view_mem(m), None): self.fact(Implies(g, f))
            rets.append((g, m, None))
        else:
            rets += ends
            for f in kept: self.fact(f)
        return exits

    def restrict(self, p, g):
        """the alternatives of a pointer that are possible under g"""
        if isinstance(p, Ptr): return p
        a, b = self.restrict(p.a, And(g, p.c)), self.restrict(p.b, And(g, Not(p.c)))
        if self.query(self.facts + [zb(And(g, p.c))], 3000)[0] == 'unsat': return b
        if self.query(self.facts + [zb(And(g, Not(p.c)))], 3000)[0] == 'unsat': return a
        return PtrIte(p.c, a, b)

    def loop_inv(self, fn, env, cs, header, g0, m0, entry_phi, rets, info_key):
        # ---- discover modified state and pointer strides
        phis = [i for i in fn.blocks[header].insts if i.op == 'phi']
        objmark = Obj._n.__reduce__()[1][0] if False else self._mark()
        strides = {}
        writes = None
        mod_keys = []
        rounds = 0
        hv = None
        havoc_cells = set()
        tu = self.tbl_used; self.tbl_used = set()
        while True:
            rounds += 1
            if rounds > 8: raise Unsupported('loop write-set does not stabilise in ' + fn.name)
            fm = len(self.facts); self.dry += 1; self.quick += 1
            saved = self.wlog; self.wlog = []
            envc = dict(env)
            hv = self.havoc(fn, envc, header, g0, m0, entry_phi, strides, havoc_cells, phis)
            dr = []; ex2 = []
            try:
                back = self.loop_body(fn, envc, cs, header, hv, ex2, dr)
            finally:
                wl = self.wlog; self.wlog = saved; self.dry -= 1; self.quick -= 1
                del self.facts[fm:]
            changed = False
            for o, off, size in wl:
                if (o.id > objmark and o.name[:1] != '@') or o.kind in ('null', 'const'): continue
                if o.kind == 'arr': k = (o.id, 'arr')
                elif off is None: k = (o.id, 'all')
                elif off.t is not None: k = (o.id, 'all')
                else: k = (o.id, off.c, size)
                if k not in havoc_cells and (o.id, 'all') not in havoc_cells:
                    havoc_cells.add(k); changed = True
            if self.wlog is not None: self.wlog.extend(w for w in wl if w[0].id <= objmark or w[0].name[:1] == '@')
            # pointer strides
            for ph in phis:
                if ph.ty.k != 'int' or ph.ty.n != 64 or strides.get(('iphi', ph.res)) == 1: continue
                ev = entry_phi[ph.res]
                if isinstance(ev, PInt): continue
                h0 = hv['phi'][ph.res]; cur = strides.get(('iphi', ph.res), 0)
                d = math.gcd(cur, multiple(self.mat(ev) if not isinstance(ev, Scaled) else self.mat(ev)))
                for (p, g, m) in back:
                    v = self.val(envc, ph.ty, {q: c for c, q in ph.x}[p], fn.mod)
                    if isinstance(v, PInt): d = 1; break
                    d = math.gcd(d, multiple(self.mat(v), h0 if cur == 0 else None))
                if d == 0 or d >= 1 << 20: d = 1
                if d != cur:
                    strides[('iphi', ph.res)] = d
                    if d > 1 or cur > 1: changed = True
            for (p, g, m) in back:
                for ph in phis:
                    if ph.ty.k != 'ptr': continue
                    v = self.val(envc, PTR, {q: c for c, q in ph.x}[p], fn.mod)
                    changed |= self.stride(strides, ('phi', ph.res), hv['phi'][ph.res], v)
                for key, hvv in hv['cells'].items():
                    if isinstance(hvv, Ptr):
                        o = self.objs[key[0]]
                        v = self._cellload(o, self.content(State(True, m), o), key[1], 8)
                        changed |= self.stride(strides, key, hvv, v)
            if not changed: break
        lt = self.tbl_used; self.tbl_used = tu | lt
        info = LoopInfo(); info.tables = {k: self.tables[k] for k in lt}; info.fn = fn.name; info.header = header; info.stack = tuple(self.stack); info.ex = self
        info.env = env
        entry = self.view(fn, env, header, entry_phi, m0, hv)
        info.cells = self.cells_of(fn, phis, hv, entry)
        info.entry = entry; info.m0 = m0; info.key = info_key
        cands = []
        if not self.quick and self.loop_hook:
            cands = list(self.loop_hook(self, info) or [])
        memo = self.houdini_memo.get(info_key)
        if memo is not None: cands = [c for c in cands if c[0] in memo]
        ncand = len(cands)
        # ---- entry pruning
        if cands:
            cands = self.prune(cands, [(g0, entry)], 'entry')
        names = {c[0] for c in cands}
        # ---- preservation
        while True:
            fm = len(self.facts)
            envc = dict(env)
            saved = self.wlog
            if saved is not None: self.wlog = []
            hv = self.havoc(fn, envc, header, g0, m0, entry_phi, strides, havoc_cells, phis)
            hview = self.view_hv(hv)
            if not cands: break
            mark = (len(self.schemas), len(self.terms))
            for nm, f in cands: self.assume(hv['g'], f(hview))
            self.dry += 1
            try:
                back = self.loop_body(fn, envc, cs, header, hv, [], [])
            finally: self.dry -= 1
            bviews = [(g, self.view(fn, envc, header, {ph.res: self.val(envc, ph.ty, {q: c for c, q in ph.x}[p], fn.mod) for ph in phis}, m, hv)) for p, g, m in back]
            new = self.prune(cands, bviews, 'preserve')
            del self.facts[fm:]
            self.untrack(mark)
            self.wlog = saved
            if len(new) == len(cands): break
            cands = new
        if not self.quick:
            self.houdini_memo[info_key] = {c[0] for c in cands}
        # ---- final pass
        envc = env
        hv = self.havoc(fn, envc, header, g0, m0, entry_phi, strides, havoc_cells, phis)
        hview = self.view_hv(hv)
        for nm, f in cands: self.assume(hv['g'], f(hview))
        if not self.dry and not self.quick:
            self.stats['loops'] += 1; self.stats['candidates'] += ncand; self.stats['survivors'] += len(cands)
            for nm, f in cands:
                for w in ('holds on entry', 'is preserved by the body'):
                    ob = Obligation('loop %s/%s invariant [%s] %s' % (fn.name, header, nm, w), fn.name, 'invariant', True, True, len(self.facts))
                    ob.status = 'discharged'; ob.backend = 'z3'
                    self.obls.append(ob)
            self.invariants.append((fn.name, header, sorted(c[0] for c in cands)))
        exits = []
        back = self.loop_body(fn, envc, cs, header, hv, exits, rets)
        if self.opts.get('variants') and not self.dry: self.check_variant(fn, envc, header, hv, back, phis)
        return exits

    def _mark(self):
        o = Obj('mark', 'mark'); return o.id

    def stride(self, strides, key, h, v):
        if isinstance(h, PtrIte) or isinstance(v, PtrIte):
            if isinstance(h, Ptr) and isinstance(v, PtrIte) and any(q.obj is not h.obj for g, q in leaves(v) if g is not False):
                raise Unsupported('loop pointer changes object')
            if isinstance(v, PtrIte): return False
            raise Unsupported('loop pointer alternatives')
        if h.obj is not v.obj:
            if h.obj.kind == 'null' or v.obj.kind == 'null': raise Unsupported('nullable loop pointer')
            raise Unsupported('loop pointer changes object %s/%s' % (h.obj, v.obj))
        if h.off.t is None:   # first round: entry value used as is
            g = abs(v.off.c - h.off.c) if v.off.t is None else math.gcd(v.off.g, v.off.c - h.off.c)
            if v.off.t is not None: g = math.gcd(v.off.g, abs(v.off.c - h.off.c))
            if g == 0:
                return False
            strides[key] = math.gcd(strides.get(key, 0), g); return True
        if v.off.t is None: d = math.gcd(h.off.g, h.off.c - v.off.c)
        else: d = math.gcd(math.gcd(h.off.g, v.off.g), v.off.c - h.off.c)
        if d != h.off.g or key not in strides:
            if key in strides and strides[key] == d: return False
            strides[key] = d; return True
        return False

    def havoc_ptr(self, name, ev, key, strides):
        if isinstance(ev, PtrIte):
            objs = {q.obj for g, q in leaves(ev) if g is not False}
            if len(objs) == 1: ev = self.collapse(ev)
            else: raise Unsupported('loop pointer with several objects')
        if ev.obj.kind in ('null', 'func', 'opaque'): return ev
        s = strides.get(key)
        if s is None:
            if ev.off.t is None: return Ptr(ev.obj, ev.off)    # first round
            return ev if False else Ptr(ev.obj, ev.off)
        c = ev.off.c % s
        if ev.off.t is not None and ev.off.g % s: 
            s = math.gcd(s, ev.off.g); c = ev.off.c % s
        return Ptr(ev.obj, Off(s, fresh(name, 64), c))

    def collapse(self, p):
        if isinstance(p, Ptr): return p
        a, b = self.collapse(p.a), self.collapse(p.b)
        return Ptr(a.obj, off_ite(p.c, a.off, b.off))

    def havoc(self, fn, env, header, g0, m0, entry_phi, strides, havoc_cells, phis):
        m = dict(m0)
        h = {'phi': {}, 'cells': {}, 'm': m, 'arrs': {}, 'strs': {}}
        gn = z3.Bool('loop.%s!%d' % (header, next(_fresh)))
        h['g'] = And(g0, gn)
        for ph in phis:
            ev = entry_phi[ph.res]
            if ph.ty.k == 'ptr': v = self.havoc_ptr(ph.res, ev, ('phi', ph.res), strides)
            elif isinstance(ev, PInt): raise Unsupported('pointer-valued integer phi')
            elif ph.ty.k == 'int' and ph.ty.n == 64 and strides.get(('iphi', ph.res), 0) > 1:
                v = z3.BitVecVal(strides[('iphi', ph.res)], 64) * fresh(ph.res, 64)
            elif ph.ty.k in ('int', 'vec'): v = self.fresh_of(ph.ty, ph.res)
            else: raise Unsupported('phi type')
            h['phi'][ph.res] = v; env[ph.res] = v
        byobj = {}
        for k in havoc_cells: byobj.setdefault(k[0], []).append(k)
        for oid, ks in byobj.items():
            o = self.objs[oid]
            c = self.content(State(True, m0), o)
            if any(k[1] == 'arr' for k in ks):
                a = z3.Array('%s.h!%d' % (o.name, next(_fresh)), c.a.domain(), c.a.range())
                m[oid] = Arr(a); h['arrs'][oid] = a; continue
            c = c.copy()
            if any(k[1] == 'all' for k in ks):
                rngs = [(s, v[1]) for s, v in c.d.items()]
                covered = set()
                for s, n in rngs: covered |= set(range(s, s + n))
                k = 0
                while k < o.size:
                    if k not in covered:
                        e = k
                        while e < o.size and e not in covered: e += 1
                        al = 4 if (e - k) % 4 == 0 and o.size > 64 else 1
                        rngs += [(z, 1) for z in range(k, e)]; k = e
                    else: k += 1
            else: rngs = [(k[1], k[2]) for k in ks]
            # coalesce: drop ranges strictly inside others
            rngs = sorted(set(rngs), key=lambda x: (x[0], -x[1]))
            out = []
            for s, n in rngs:
                if out and s + n <= out[-1][0] + out[-1][1]: continue
                if out and s < out[-1][0] + out[-1][1]:
                    e = max(s + n, out[-1][0] + out[-1][1]); out[-1] = (out[-1][0], e - out[-1][0])
                else: out.append((s, n))
            for s, n in out:
                ev = c.d.get(s)
                evv = ev[0] if ev is not None and ev[1] == n else None
                nm = '%s+%d' % (o.name.split('.')[-1], s)
                if isinstance(evv, StrVal):
                    nv = StrVal(z3.Array('%s.sa!%d' % (nm, next(_fresh)), BV64, z3.BitVecSort(8 * evv.es)), fresh(nm + '.len', 64), evv.es, evv.obj)
                    h['strs'][(oid, s)] = nv
                elif isinstance(evv, (Ptr, PtrIte)):
                    nv = self.havoc_ptr(nm, evv, (oid, s, n), strides); h['cells'][(oid, s, n)] = nv
                else:
                    nv = fresh(nm, 8 * n); h['cells'][(oid, s, n)] = nv
                self._cellstore(o, c, s, n, nv)
            m[oid] = c
        return h

    def loop_body(self, fn, env, cs, header, hv, exits, rets):
        """one arbitrary iteration from the havocked header state"""
        ns = set(cs); back = []
        pend = {}
        out = self.exec_block(fn, env, header, None, rets, merged=(hv['g'], dict(hv['m'])))
        ent = {}
        for pred, succ, g, m in out:
            if g is False: continue
            if succ == header: back.append((pred, g, m))
            elif succ in ns: ent.setdefault(succ, []).append((pred, g, m))
            else: exits.append((pred, succ, g, m))
        back += self.run_inner(fn, env, cs, header, ent, exits, rets)
        return back

    def run_inner(self, fn, env, cs, header, pend, exits, rets):
        ns = set(cs); back = []
        key = ('inner', fn.name, header, len(cs))
        cache = fn.__dict__.setdefault('_scc', {})
        if key not in cache:
            nodes = [n for n in cs if n != header]
            # order by reachability from header successors
            cache[key] = sccs(nodes, lambda b: [s for s in fn.blocks[b].succs if s in ns and s != header])
        for comp in cache[key]:
            loop = len(comp) > 1 or comp[0] in fn.blocks[comp[0]].succs
            if not loop:
                inc = pend.pop(comp[0], None)
                if not inc: continue
                out = self.exec_block(fn, env, comp[0], inc, rets)
            else:
                heads = [b for b in comp if b in pend]
                if not heads: continue
                if len(heads) > 1: raise Unsupported('irreducible control flow in ' + fn.name)
                inc = [e for e in pend.pop(heads[0]) if e[1] is not False]
                if not inc: continue
                out = self.exec_loop(fn, env, comp, heads[0], inc, rets)
            for pred, succ, g, m in out:
                if g is False: continue
                if succ == header: back.append((pred, g, m))
                elif succ in ns: pend.setdefault(succ, []).append((pred, g, m))
                else: exits.append((pred, succ, g, m))
        return back

    # ---- concrete unrolling
    def try_unroll(self, fn, env, cs, header, g0, m0, entry_phi, rets):
        rx = self.opts.get('unroll_symbolic')
        symbolic = bool(rx and re.search(rx, fn.name))
        phis = [i for i in fn.blocks[header].insts if i.op == 'phi']
        # probe the first iteration without side effects
        fm = len(self.facts); self.dry += 1; self.quick += 1; sw = self.wlog; self.wlog = [] if sw is not None else None
        envc = dict(env); envc.update(entry_phi)
        try:
            ex = []; rr = []
            back = self.loop_body(fn, envc, cs, header, {'g': g0, 'm': m0}, ex, rr)
        except Unsupported:
            back = None
        finally:
            self.dry -= 1; self.quick -= 1; self.wlog = sw
            del self.facts[fm:]
        if back is None: return False
        def conc(back, ex, rr, g):
            gs = [x[1] for x in back]
            if not gs: return True
            if len(ex) == 0 and len(rr) == 0: return True
            return all(x[2] is g or same(x[2], g) for x in ex) and False
        if not symbolic and back and (ex or rr): return False
        # all-symbolic infinite candidate loops are not concrete either
        allexits = []; n = 0
        g, m, ph = g0, m0, entry_phi
        outer = self.tf_pending
        if outer is None: self.tf_pending = []
        try: ok = self._unroll(fn, env, cs, header, g, m, ph, symbolic, allexits, rets)
        finally: pend, self.tf_pending = self.tf_pending, outer
        if ok and outer is None:
            for x in pend: self.table_fact(*x)
        return ok

    def _unroll(self, fn, env, cs, header, g, m, ph, symbolic, allexits, rets):
        n = 0
        save = (len(self.facts), len(self.obls), len(rets))
        while True:
            env.update(ph)
            self.itctx.append(n)
            ex = []
            try: back = self.loop_body(fn, env, cs, header, {'g': g, 'm': m}, ex, rets)
            finally: self.itctx.pop()
            if symbolic:
                sn = dict(env); ex2 = []
                for p_, s_, g_, m_ in ex:
                    mm = MemSnap(m_); mm.env = m_.env if isinstance(m_, MemSnap) else sn
                    ex2.append((p_, s_, g_, mm))
                ex = ex2
            allexits += ex
            back = [b for b in back if b[1] is not False]
            if symbolic and back:
                gg = self.or_guards([b[1] for b in back])
                if gg is not True and self.query(self.facts + [zb(gg)], 5000)[0] == 'unsat': back = []
            if not back: break
            n += 1
            if (ex and not symbolic and n > 0 and back) or n > (self.opts['unroll_try'] if symbolic and self.opts.get('unroll_try') else self.opts['unroll']):
                del self.facts[save[0]:]; del self.obls[save[1]:]; del rets[save[2]:]
                if symbolic and not self.opts.get('unroll_try'): raise Unsupported('unrolling bound exceeded in ' + fn.name)
                return False
            r = self.merge_in(fn, env, header, back)
            bi, g, m = r
            ph = self.phi_vals(fn, env, header, bi)
        self._unrolled = allexits
        return True

    # ---- views
    def cells_of(self, fn, phis, hv, entry):
        out = []
        for ph in phis:
            v = hv['phi'][ph.res]
            if ph.ty.k == 'int': out.append(Cell(('phi', ph.res), 'int', ph.ty.n, ph.res, g=multiple(v) if ph.ty.n == 64 and isinstance(v, z3.ExprRef) else None))
            elif ph.ty.k == 'ptr' and isinstance(v, Ptr): out.append(Cell(('phi', ph.res), 'ptr', 64, ph.res, v.obj, g=v.off.g if v.off.t is not None else None))
        for k, v in hv['cells'].items():
            o = self.objs[k[0]]
            nm = '%s+%d' % (o.name.split('.')[-1], k[1])
            if isinstance(v, Ptr): out.append(Cell(('cell',) + k, 'ptr', 64, nm, v.obj, g=v.off.g if v.off.t is not None else None))
            else: out.append(Cell(('cell',) + k, 'int', k[2] * 8, nm))
        for oid, a in hv['arrs'].items(): out.append(Cell(('arr', oid), 'arr', 0, self.objs[oid].name, self.objs[oid]))
        for (oid, s), v in hv['strs'].items(): out.append(Cell(('str', oid, s), 'str', 0, '%s+%d' % (self.objs[oid].name.split('.')[-1], s), v.obj, v.es))
        return out

    def view_hv(self, hv):
        v = View()
        for k, x in hv['phi'].items(): v[('phi', k)] = x
        for k, x in hv['cells'].items(): v[('cell',) + k] = x
        for k, x in hv['arrs'].items(): v[('arr', k)] = x
        for k, x in hv['strs'].items(): v[('str',) + k] = x
        v.mem = hv['m']
        return v

    def view_mem(self, m):
        w = View(); w.mem = m; return w

    def view(self, fn, env, header, phi, m, hv):
        v = View()
        for k, x in phi.items(): v[('phi', k)] = self.collapse(x) if isinstance(x, PtrIte) and len({q.obj for g, q in leaves(x)}) == 1 else x
        st = State(True, m)
        for k in hv['cells']:
            o = self.objs[k[0]]
            x = self._cellload(o, self.content(st, o), k[1], k[2])
            if isinstance(x, PtrIte) and len({q.obj for g, q in leaves(x)}) == 1: x = self.collapse(x)
            v[('cell',) + k] = x
        for k in hv['arrs']: v[('arr', k)] = self.content(st, self.objs[k]).a
        for k in hv['strs']:
            o = self.objs[k[0]]
            v[('str',) + k] = self.content(st, o).d[k[1]][0]
        v.mem = m
        return v

    def by_cases(self, goal):
        """facts and goal are contradictory, shown case by case (the cases need not be exhaustive: the rest is a case too)"""
        s = z3.Solver(); s.set('timeout', self.timeout)
        t = time.time()
        try:
            for f in self.facts: s.add(zb(f))
            s.add(zb(goal))
            for group in self.cases:
                for k in group:
                    s.push(); s.add(k); r = s.check(); s.pop(); self.nqueries += 1
                    if r != z3.unsat: return False
                s.add(z3.Not(z3.Or(*group)))
            return s.check() == z3.unsat
        finally: self.solver_time += time.time() - t

    # ---- universally quantified invariants: proved at an arbitrary index, used at the index terms the code touches
    def assume(self, g, x):
        if not isinstance(x, Forall): self.fact(Implies(g, x)); return
        self.schemas.append((g, x))
        for t in list(self.terms): self.fact(Implies(g, x.body(t)))

    def term(self, t):
        t = z3.simplify(bv(t, 64))
        if t.get_id() in self._tids: return
        self._tids.add(t.get_id()); self.terms.append(t)
        for g, x in list(self.schemas): self.fact(Implies(g, x.body(t)))

    def untrack(self, mark):
        del self.schemas[mark[0]:]
        for t in self.terms[mark[1]:]: self._tids.discard(t.get_id())
        del self.terms[mark[1]:]

    # ---- Houdini step
    def prune(self, cands, points, what):
        live = list(cands)
        pts = [(g, w) for g, w in points if g is not False]
        forms = {}; sk = None
        for nm, f in live:
            try:
                fs = []
                for g, w in pts:
                    x = f(w)
                    if isinstance(x, Forall):
                        if sk is None: sk = fresh('any', 64)
                        x = x.body(sk)
                    fs.append(Implies(g, x))
                forms[nm] = And(*fs)
            except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
                forms[nm] = False
        live = [c for c in live if forms[c[0]] is not False]
        nf_ = len(self.facts); mark = (len(self.schemas), len(self.terms))
        if sk is not None:
            for t in (sk, sk - 1, sk + 1): self.term(t)
        # cheap structural pass
        todo = [c for c in live if forms[c[0]] is not True]
        good = [c for c in live if forms[c[0]] is True]
        drop = set()
        rounds = 0
        while todo:
            rounds += 1
            t_ = time.time()
            r, mdl = self.query(self.facts + [Not(And(*[forms[c[0]] for c in todo]))], min(self.timeout, self.opts.get('together', self.timeout)))
            if self.opts.get('trace') and time.time() - t_ > 2: print('   query %s %s %.1f s (%d candidates, %d facts)' % (what, r, time.time() - t_, len(todo), len(self.facts)))
            if r == 'unsat': break
            if r == 'sat':
                keep = []
                for c in todo:
                    v = mdl.eval(zb(forms[c[0]]), model_completion=True)
                    if z3.is_true(v): keep.append(c)
                    else:
                        drop.add(c[0])
                        if os.environ.get('VERIF_WHY') == c[0]: print('WHY', what, zb(forms[c[0]]), mdl)
                if len(keep) == len(todo):   # model evaluation inconclusive: fall back to one by one
                    keep = [c for c in todo if self.query(self.facts + [Not(forms[c[0]])], self.timeout)[0] == 'unsat']
                    todo = keep; break
                todo = keep
                continue
            # unknown: one by one
            keep = []
            for c in todo:
                t_ = time.time(); rr, mdl = self.query(self.facts + [Not(forms[c[0]])], max(2000, self.timeout // 4))
                if self.opts.get('trace') and time.time() - t_ > .5: print('   %s: %s %.1f s' % (c[0], rr, time.time() - t_))
                if rr == 'unknown' and self.cases and self.by_cases(Not(forms[c[0]])): rr = 'unsat'
                if rr == 'unsat': keep.append(c)
                elif rr == 'sat' and os.environ.get('VERIF_WHY') == c[0]: print('WHY', what, zb(forms[c[0]]), mdl)
            todo = keep
            break
        if sk is not None: del self.facts[nf_:]; self.untrack(mark)
        ok = {c[0] for c in todo} | {c[0] for c in good}
        if self.opts.get('trace'):
            for c in cands:
                if c[0] not in ok: print('   pruned at %s: %s' % (what, c[0]))
        return [c for c in cands if c[0] in ok]


def zext_bit(a, b, w):
    return (a >> b) & 1 if is_c(a) else z3.ZeroExt(w - 1, z3.Extract(b, b, a)) if w > 1 else a
