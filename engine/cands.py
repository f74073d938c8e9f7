"""Generic candidate loop invariants (Houdini keeps the inductive ones; none is trusted)."""
import itertools
import z3
from .sym import *


def pidx(p, es):
    """index (64 bit) of a pointer in units of es bytes"""
    i = p.off.idx(es)
    if i is None: raise Unsupported('misaligned loop pointer')
    return i


def unit(o, hints=()):
    if o.kind == 'arr': return o.es
    return None


def above(ex, info, key, bits=32):
    """lower-bound searches over sorted constant tables: the element at the upper end of the interval is >= key"""
    out = []
    ptrs = [c for c in info.cells if c.kind == 'ptr']
    ints = [c for c in info.cells if c.kind == 'int' and c.bits == 64]
    for tk, (f, o, g, cc, size) in info.tables.items():
        if size * 8 != bits: continue
        m = o.size // g
        for p in ptrs:
            if p.obj is not o: continue
            for n in ints:
                for e in {g, c_g(p, g)}:
                    def cand(v, p=p, n=n, f=f, e=e, o=o, g=g):
                        i = v[p.key].off.idx(e)
                        if i is None: raise Unsupported('misaligned')
                        j = binop('add', i, v[n.key], 64)
                        if e % g: raise Unsupported('stride')
                        k = bv(binop('mul', j, e // g, 64), 64)
                        t = f(k)
                        col = ex.table_column(tk)
                        return Or(cmpop('uge', j, o.size // e, 64), z3.UGE(t, bv(key, bits)))
                    out.append(('%s[%s + %s] >= key (column %d, unit %d)' % (o.name[:40], p.name, n.name, cc, e), cand))
        for p in ints:
            if not p.g or p.g <= 1 or p.g % g or o.size % p.g: continue
            for n in ints:
                if n is p: continue

                def cand(v, p=p, n=n, f=f, o=o, g=g):
                    i = quotient(v[p.key], p.g)
                    if i is None: raise Unsupported('misaligned')
                    j = binop('add', i, v[n.key], 64)
                    return Or(cmpop('uge', j, o.size // p.g, 64), z3.UGE(f(bv(binop('mul', j, p.g // g, 64), 64)), bv(key, bits)))
                out.append(('%s[%s + %s] >= key (column %d)' % (o.name[:40], p.name, n.name, cc), cand))
    return out


def c_g(p, g): return p.g or g


def generic(consts=(), rel=(), extra=None, pairs=True, key=None):
    """returns a loop_hook: bounds of integer cells by constants, orders between cells, pointers inside their objects"""
    def hook(ex, info):
        out = []
        ints = [c for c in info.cells if c.kind == 'int' and c.bits in (8, 16, 32, 64)]
        ptrs = [c for c in info.cells if c.kind == 'ptr']
        ks = set(consts)
        for t in info.tables.values(): ks |= {(t[1].size // t[2]) if t[2] else 0}
        ks = {k for k in ks} | {k - 1 for k in ks if k > 0}
        for c in ints:
            ev = info.entry.get(c.key)
            for k in sorted(ks):
                if k < (1 << c.bits): out.append(('%s <= %d' % (c.name, k), lambda v, c=c, k=k: cmpop('ule', v[c.key], k, c.bits)))
            out.append(('%s >= 0' % c.name, lambda v, c=c: cmpop('sge', v[c.key], 0, c.bits)))
            if ev is not None and not isinstance(ev, (Scaled, PInt)):
                out.append(('%s == entry' % c.name, lambda v, c=c, ev=ev: eqv(ex.mat(v[c.key]), ev, c.bits)))
                out.append(('%s <= entry' % c.name, lambda v, c=c, ev=ev: cmpop('ule', ex.mat(v[c.key]), ev, c.bits)))
                out.append(('%s >= entry' % c.name, lambda v, c=c, ev=ev: cmpop('uge', ex.mat(v[c.key]), ev, c.bits)))
        if pairs:
            for a, b in itertools.permutations(ints, 2):
                if a.bits != b.bits: continue
                out.append(('%s <= %s' % (a.name, b.name), lambda v, a=a, b=b: cmpop('ule', v[a.key], v[b.key], a.bits)))
                out.append(('%s <= %s + 1' % (a.name, b.name), lambda v, a=a, b=b: cmpop('ule', v[a.key], binop('add', v[b.key], 1, a.bits), a.bits)))
            sizes = {t[1].size for t in info.tables.values()}
            for a, b in itertools.permutations(ints, 2):
                if a.bits != 64 or b.bits != 64: continue
                for S in sizes:
                    for es in (1, 4, 8, 12, 16, 20, 24, 32, 40, 48):
                        if S % es: continue
                        out.append(('%s + %d * %s <= %d' % (a.name, es, b.name, S), lambda v, a=a, b=b, es=es, S=S:
                                    And(cmpop('ule', v[b.key], S // es, 64), cmpop('ule', v[a.key], binop('sub', S, binop('mul', v[b.key], es, 64), 64), 64))))
            for a in ints:
                for es in (4, 8, 12, 16, 20, 24, 32, 40, 48):
                    if a.bits == 64 and any(S % es == 0 for S in sizes):
                        out.append(('%d divides %s' % (es, a.name), lambda v, a=a, es=es: eqv(binop('urem', v[a.key], es, 64), 0, 64) if es & (es - 1) else eqv(binop('and', v[a.key], es - 1, 64), 0, 64)))
        for c in ints:
            if not c.g or c.g <= 1: continue

            def Q(v, c=c):
                q = quotient(v[c.key], c.g)
                if q is None: raise Unsupported('not a multiple')
                return q
            for t in info.tables.values():
                if t[1].size % c.g: continue
                m = t[1].size // c.g
                out.append(('%s / %d <= %d' % (c.name, c.g, m), lambda v, Q=Q, m=m: cmpop('ule', Q(v), m, 64)))
                for n in ints:
                    if n is c or n.bits != 64: continue
                    out.append(('%s / %d + %s <= %d' % (c.name, c.g, n.name, m), lambda v, Q=Q, m=m, n=n: And(cmpop('ule', v[n.key], m, 64), cmpop('ule', Q(v), binop('sub', m, v[n.key], 64), 64))))
        for c in ptrs:
            o = c.obj

            def inside(v, c=c, o=o):
                p = v[c.key]
                if o.kind == 'arr': return cmpop('ule', pidx(p, o.es), ex.arr_len(State(True, v.mem), o), 64)
                if c.g and c.g > 1:
                    i = p.off.idx(c.g)
                    if i is None: raise Unsupported('misaligned')
                    return cmpop('ule', i, o.size // c.g, 64)
                return And(cmpop('sle', p.off.term(), o.size, 64), cmpop('sge', p.off.term(), 0, 64))
            out.append(('%s inside %s' % (c.name, o.name), inside))
            for n in ints:
                if n.bits != 64: continue

                def span(v, c=c, o=o, n=n):
                    # p + n elements stay inside: element size is the stride of the pointer
                    p = v[c.key]; k = v[n.key]
                    if o.kind == 'arr':
                        i = pidx(p, o.es); on = ex.arr_len(State(True, v.mem), o)
                        return And(cmpop('ule', k, on, 64), cmpop('ule', i, binop('sub', on, k, 64), 64))
                    es = ex.stride_hint.get(o.id) if hasattr(ex, 'stride_hint') else None
                    es = es or (p.off.g if p.off.t is not None else None)
                    if not es: 
                        return And(cmpop('sge', k, 0, 64))
                    m = o.size // es
                    i = p.off.idx(es)
                    if i is None: raise Unsupported('span')
                    return And(cmpop('ule', k, m, 64), cmpop('ule', i, binop('sub', m, k, 64), 64))
                out.append(('%s + %s inside %s' % (c.name, n.name, o.name), span))
        for a, b in itertools.permutations(ptrs, 2):
            if a.obj is b.obj:
                out.append(('%s <= %s' % (a.name, b.name), lambda v, a=a, b=b: ex.ptr_cmp('ule', v[a.key], v[b.key])))
        if key is not None: out += above(ex, info, key)
        if extra: out += list(extra(ex, info) or [])
        return out
    return hook


def indices(info, objs, es=None):
    """index terms of a loop over an array: element index of every pointer into it, and every 64-bit integer cell"""
    out = []
    for c in info.cells:
        if c.kind == 'ptr' and c.obj in objs: out.append((c.name, lambda v, c=c: pidx(v[c.key], es or c.obj.es)))
    for c in info.cells:
        if c.kind == 'int' and c.bits == 64: out.append((c.name, lambda v, c=c: info.ex.mat(v[c.key])))
    return out


def along(objs, eqs=(), invs=(), base=None, arrs=(), lengths=(), plus=False):
    """candidates that tie the loop state to specification sequences indexed by the position in an array.
    eqs: (name, f(i) term, bits): some integer cell equals it;  invs: (name, g(view, i) bool);  arrs: (name, obj, f(i) -> array term)
    lengths: extra terms n for which  n - cell  is also tried as an index"""
    base = base or generic()

    def hook(ex, info):
        out = list(base(ex, info))
        ix = indices(info, objs)
        for n in lengths:
            for c in info.cells:
                if c.kind == 'int' and c.bits == 64: ix.append(('n-%s' % c.name, lambda v, c=c, n=n: binop('sub', n, ex.mat(v[c.key]), 64)))
        if plus:
            for nm_, I_ in list(ix): ix.append(('%s+1' % nm_, lambda v, I_=I_: binop('add', I_(v), 1, 64)))
        for iname, I in ix:
            for nm, f, bits in eqs:
                for c in info.cells:
                    if c.kind != 'int': continue
                    if c.bits == bits: out.append(('%s == %s(%s)' % (c.name, nm, iname), lambda v, c=c, I=I, f=f: eqv(ex.mat(v[c.key]), f(I(v)), c.bits)))
                    elif c.bits > bits: out.append(('%s == %s(%s)' % (c.name, nm, iname), lambda v, c=c, I=I, f=f, bits=bits: eqv(ex.mat(v[c.key]), zext(f(I(v)), bits, c.bits), c.bits)))
                    elif bits == 8 and c.bits == 1: out.append(('%s == %s(%s)' % (c.name, nm, iname), lambda v, c=c, I=I, f=f, bits=bits: eqv(zext(v[c.key], 1, 8), f(I(v)), 8)))
            for nm, g in invs:
                out.append(('%s(%s)' % (nm, iname), lambda v, I=I, g=g: g(v, I(v))))
            for nm, o, f in arrs:
                for c in info.cells:
                    if c.kind == 'arr' and c.obj is o: out.append(('%s == %s(%s)' % (c.name, nm, iname), lambda v, c=c, I=I, f=f: v[c.key] == f(I(v))))
        return out
    return hook


def select(a, j, ex=None, alias=None):
    """a[j] with a chain of stores at  base + constant  expanded into a comparison on the distance j - base"""
    ch = []
    while z3.is_store(a):
        ch.append((a.arg(1), a.arg(2))); a = a.arg(0)
    if len(ch) < 4: return z3.Select(rebuild(a, ch), j)

    def split(i):
        if z3.is_bv_value(i): return None, i.as_long()
        if i.decl().kind() == z3.Z3_OP_BADD and i.num_args() == 2:
            for q in (0, 1):
                if z3.is_bv_value(i.arg(q)): return i.arg(1 - q), i.arg(q).as_long()
        return i, 0
    base = split(ch[0][0])[0]
    parts = [split(i) for i, _ in ch]
    if base is None or any(b is None or not b.eq(base) for b, _ in parts): return z3.Select(rebuild(a, ch), j)
    r = z3.Select(a, j)
    def chain(b):
        t = r
        for (i, x), (_, k) in list(zip(ch, parts))[::-1]: t = z3.If(j - b == k, x, t)
        return t
    t = chain(base)
    if alias is not None: ex.fact(z3.Implies(base == alias, t == chain(alias)))      # congruence, spelled out for the solver
    return t


def rebuild(a, ch):
    for i, x in ch[::-1]: a = z3.Store(a, i, x)
    return a


def spans(ex, info):
    """extra candidates: a loop pointer stays between its entry value and any pointer into the same object that is in scope"""
    out = []
    for c in info.cells:
        if c.kind != 'ptr': continue
        ev = info.entry.get(c.key)
        if isinstance(ev, PtrIte) and len({q.obj for g, q in leaves(ev) if g is not False}) == 1: ev = ex.collapse(ev)
        if isinstance(ev, Ptr): out.append(('%s >= entry' % c.name, lambda v, c=c, ev=ev: And(ex.ptr_cmp('ule', ev, v[c.key]), eqv(binop('urem', binop('sub', ex.mat(v[c.key].off.term()), ex.mat(ev.off.term()), 64), c.g or 1, 64), 0, 64))))
        for r, e in info.env.items():
            if isinstance(e, PtrIte) and len({q.obj for g, q in leaves(e) if g is not False}) == 1: e = ex.collapse(e)
            if isinstance(e, Ptr) and e.obj is c.obj: out.append(('%s <= %s' % (c.name, r), lambda v, c=c, e=e: ex.ptr_cmp('ule', v[c.key], e)))
    return out
