"""multistage tables reproduce the mapping they are built from"""
import ctypes, random, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier, Forall
from engine.cands import generic

STD = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert chrono cstddef cstdint cstring functional iomanip iterator limits map memory new optional ostream span sstream stdexcept string string_view tuple type_traits unordered_map utility variant vector format iostream'.split())
TU = STD + '''#define private public
#include "libunicode/multistage_table_generator.h"
#undef private
#include "libunicode/codepoint_properties.h"
using namespace support;
using Value = std::uint32_t;
struct Hash { std::size_t operator()(Value v) const noexcept; };
using Stage1 = decltype(unicode::codepoint_properties::%(view)s::stage1_element_type {});
constexpr std::uint32_t BS = unicode::codepoint_properties::%(view)s::block_size, MAXV = 0x10FFFF;
using Table = multistage_table<Value, std::uint32_t, Stage1, std::uint16_t, BS, MAXV>;
using Gen = multistage_table_generator<Value, std::uint32_t, Stage1, std::uint16_t, Hash, BS, MAXV>;
using PM = std::pair<std::uint32_t const, std::uint16_t>; using PH = std::pair<std::size_t const, std::vector<std::size_t>>;
extern "C" {
unsigned z_off(int k) { switch (k) { case 0: return sizeof(Gen); case 1: return offsetof(Gen, _input); case 2: return offsetof(Gen, _inputSize); case 4: return offsetof(Gen, _blockHashMap); case 5: return offsetof(Gen, _stage3Map);
 case 6: return sizeof(Table); case 7: return offsetof(Table, stage1); case 8: return offsetof(Table, stage2); case 9: return offsetof(Table, stage3); case 10: return BS; case 11: return sizeof(Stage1);
 case 3: { struct X { Value const* a; std::size_t b; Table& c; }; return offsetof(X, b) + 8; } 
 case 12: return offsetof(PM, second); case 13: return offsetof(PH, second); } return 0; }
void z_generate(Gen* g) { g->generate(); }
Stage1 z_block(Gen* g, std::uint32_t b) { return g->get_or_create_index_to_stage2_block(b); }
std::uint16_t z_value(Gen* g, std::uint32_t b) { return g->get_or_create_stage3_index(b); }
bool z_find(Gen* g, std::size_t b, std::size_t* r) { auto x = g->find_same_block(b); if (x) *r = *x; return x.has_value(); }
std::size_t z_hash(Gen* g, std::size_t b) { return g->hashBlock(b); }
Value z_get(Table const* t, std::uint32_t i) { return t->get(i); }
Value z_view(Table const* t, std::uint32_t i) { return t->to_view().get(i); }
}
'''
NAT = STD + '''
#include "libunicode/multistage_table_generator.h"
#include "libunicode/codepoint_properties.h"
using namespace support;
template <typename S1, typename S2, unsigned BS> int run(unsigned const* in, std::size_t n, unsigned* bad) {
    struct H { std::size_t operator()(unsigned v) const noexcept { return v %% 7; } };
    multistage_table<unsigned, unsigned, S1, S2, BS, 0x10FFFF> t;
    try { support::generate(in, n, t, H {}); } catch (std::exception const&) { return 0; }
    for (std::size_t i = 0; i < n; ++i) if (i / BS >= t.stage1.size() || t.stage1[i / BS] * BS + i %% BS >= t.stage2.size() || t.stage2[t.stage1[i / BS] * BS + i %% BS] >= t.stage3.size() || t.get((unsigned) i) != in[i]) { *bad = (unsigned) i; return 1; }
    for (unsigned x: { 0x110000u, 0x7FFFFFFFu, 0xFFFFFFFFu }) if (t.get(x) != in[0]) { *bad = x; return 1; }
    unsigned d = 0; while (d < n && in[d] == in[0]) ++d;
    if (d < n) for (unsigned long b = 0x110000; b < (1ul << 32); b += 0x10000) { unsigned x = (unsigned) (b + d); if (x > 0x10FFFF && t.get(x) != in[0]) { *bad = x; return 1; } }
    return 0; }
extern "C" int n_run(int kind, unsigned const* in, std::size_t n, unsigned* bad) { return kind == 0 ? run<std::uint8_t, std::uint16_t, 256>(in, n, bad) : run<std::uint16_t, std::uint16_t, 256>(in, n, bad); }
extern "C" unsigned n_name(unsigned c, char* o, unsigned cap) { auto s = unicode::codepoint_properties::name(c); unsigned k = 0; for (; k < s.size() && k < cap; ++k) o[k] = s[k]; return k; }
'''.replace('%%', '%')
GEN = r'^_ZN?K?7support26multistage_table_generatorI.*E'
VEC = r'^_ZNK?St6vectorI'
UMAP = [r'^_ZNK?St13unordered_mapI', r'^_ZNK?St8__detail14_Node_iteratorI.*EptEv$', r'^_ZNSt8__detaileqERKNS_19_Node_iterator_base']
VALUE, BLOCK, FIND, HASH = ['26get_or_create_stage3_indexEj$', '35get_or_create_index_to_stage2_blockEj$', '15find_same_blockEm$', '9hashBlockEm$']
BV64 = z3.BitVecSort(64)
K = lambda x, n=64: z3.BitVecVal(x, n)
Z = lambda x, n: z3.ZeroExt(n - x.size(), x) if n > x.size() else x


class Proof:
    def __init__(self, c, so, view):
        self.c, self.view = c, view
        o = [so.z_off(i) for i in range(14)]
        (self.size, self.input, self.isz, self.out, self.hmap, self.vmap, self.tsize, self.s1, self.s2, self.s3, self.bs, self.e1, self.sec2, self.secv) = o
        self.lim = 1 << (8 * self.e1)
        self.tag = '[%s] ' % view

    def env(self, inst=(), es=4):
        """inst: the members kept as calls (by contract)"""
        pats = [VEC] + UMAP + [x for x in inst]
        mod = ir.Module(open(self.c.build().ir(TU % {'view': self.view}, noinline=pats, strip=pats)).read())
        v = Verifier(mod, self.contracts(inst), {})
        self.v = v; n = self.n = z3.BitVec('n', 64); v.fact(z3.And(z3.URem(n, K(self.bs)) == 0, z3.UGE(n, self.bs), z3.ULE(n, 1 << 31)))
        self.text = v.reg(v.new_arr('input', es, n * (4 // es))); self.I = v.content(State(True, {}), self.text).a
        self.o = v.reg(v.new_cells('generator', self.size)); self.t = v.reg(v.new_cells('table', self.tsize))
        self.stage1 = v.reg(v.new_arr('stage1', self.e1, 1 << 60)); self.present = v.reg(v.new_arr('present', 1, 1 << 32)); self.map = v.reg(v.new_arr('map', 2, 1 << 32))
        self.bucket = v.reg(v.new_cells('bucket', self.secv + 24)); self.starts = v.reg(v.new_arr('starts', 8, z3.BitVec('bucketsize', 64))); v.fact(z3.ULT(z3.BitVec('bucketsize', 64), 1 << 40))
        self.ghost = v.reg(v.new_cells('ghost', 8))
        self.F2 = z3.Array('stage2', BV64, z3.BitVecSort(16)); self.F3 = z3.Array('stage3', BV64, z3.BitVecSort(32))      # what the append-only vectors will hold in the end
        self.j = z3.BitVec('j', 64); v.fact(z3.ULT(self.j, self.bs))                                                      # an arbitrary place within a block
        self.n1, self.n2, self.n3, self.done = z3.BitVecs('n1 n2 n3 done', 64)
        v.fact(z3.And(z3.ULT(self.n1, 1 << 40), z3.ULT(self.n2, 1 << 40), z3.ULE(self.n3, 1 << 16)))
        self.o.cinit = {self.input: (Ptr(self.text), 8), self.isz: (n, 8), self.out: (Ptr(self.t), 8)}
        self.t.cinit = {self.s1: (self.n1, 8), self.s2: (self.n2, 8), self.s3: (self.n3, 8)}; self.ghost.cinit = {0: (self.done, 8)}
        v.load_hook = self.on_load
        v.loop_hook = generic(extra=self.extra) if hasattr(self, 'extra') and self.extra else generic()
        return v, mod

    extra = None
    def on_load(self, ex, o, i, val, g):
        if o is self.starts:                # invariant of the buckets: blocks handled before
            ex.fact(Implies(g, z3.And(z3.URem(bv(val, 64), K(self.bs)) == 0, z3.ULT(bv(val, 64), self.n), z3.ULE(bv(val, 64) + self.bs, self.done))))

    # ---- state access
    def vsize(self, ex, st, k): return bv(ex.mat(ex.load_bytes(st, self.t, Off(0, None, k), 8, True)), 64)
    def cont(self, ex, st, o): return ex.content(st, o).a
    def entry(self, ex, st, b):
        """block b is recorded: its entry at place j leads to the value"""
        i = Z(z3.Select(self.cont(ex, st, self.stage1), b), 64) * self.bs + self.j
        return self.right(ex, st, i, b * self.bs + self.j)
    def right(self, ex, st, i, at):
        k = Z(z3.Select(self.F2, i), 64)
        return z3.And(z3.ULT(i, self.vsize(ex, st, self.s2)), z3.ULT(k, self.vsize(ex, st, self.s3)), z3.Select(self.F3, k) == z3.Select(self.I, at))
    def known(self, ex, st, x):
        """the value map is right at x"""
        i = Z(z3.Select(self.cont(ex, st, self.map), Z(x, 64)), 64)
        return z3.Implies(z3.Select(self.cont(ex, st, self.present), Z(x, 64)) != 0, z3.And(z3.ULT(i, self.vsize(ex, st, self.s3)), z3.Select(self.F3, i) == x))

    # ---- contracts
    def contracts(self, inst):
        def which(p):
            if not isinstance(p, Ptr) or p.off.t is not None: raise Unsupported('container at a symbolic address')
            if p.obj is self.t: return {self.s1: 1, self.s2: 2, self.s3: 3}[p.off.c]
            if p.obj is self.o: return {self.hmap: 'h', self.vmap: 'm'}[p.off.c]
            if p.obj is self.bucket and p.off.c == self.secv: return 'b'
            raise Unsupported('container %r' % p)

        def vec(ex, st, name, a, inst_):
            k = which(a[0])
            at = {1: self.s1, 2: self.s2, 3: self.s3}
            for op in ('4sizeEv', '5emptyEv', '6resizeE', 'ixEm', '12emplace_backI', '9push_backE', '5beginEv', '3endEv', '6cbeginEv', '4cendEv', '4dataEv'):
                if re.search('E' + op, name): break
            else: raise Unsupported('vector member ' + name)
            if k == 'b':
                cnt = z3.BitVec('bucketsize', 64)
                if op in ('5beginEv', '6cbeginEv'): return Ptr(self.starts)
                if op in ('3endEv', '4cendEv'): return Ptr(self.starts, Off(8, cnt, 0))
                if op == '9push_backE':
                    x = bv(ex.mat(ex.load_bytes(st, a[1].obj, a[1].off, 8, st.g)), 64)
                    ex.oblige('only the block being handled is added to the buckets', st.g, z3.And(z3.URem(x, K(self.bs)) == 0, x == self.done, z3.ULT(x, self.n)), 'pre', name); return None
                if op == '4sizeEv': return cnt
                if op == '5emptyEv': return cnt == 0
                if op == '4dataEv': return Ptr(self.starts)
                if op == 'ixEm':
                    ex.oblige('an element of the bucket', st.g, z3.ULT(bv(a[1], 64), cnt), 'bounds', name); return Ptr(self.starts, Off(8, bv(a[1], 64), 0))
                raise Unsupported('bucket member ' + name)
            n = self.vsize(ex, st, at[k])
            if op == '4sizeEv': return n
            if op == '5emptyEv': return n == 0
            if op == '6resizeE':
                if k != 1: raise Unsupported('resize of a later stage')
                ex.store_bytes(st, self.t, Off(0, None, at[k]), 8, a[1], st.g); return None
            if op == 'ixEm':
                if k != 1: raise Unsupported('indexing a later stage')
                ex.oblige('stage 1 is indexed within its size', st.g, z3.ULT(bv(a[1], 64), n), 'memory', name)
                return Ptr(self.stage1, Off(self.e1, a[1], 0))
            if op in ('12emplace_backI', '9push_backE'):
                if k == 1: raise Unsupported('appending to stage 1')
                w, F = (2, self.F2) if k == 2 else (4, self.F3)
                x = bv(ex.mat(ex.load(st, a[1], ir.I(8 * w))), 8 * w)
                ex.fact(Implies(st.g, z3.Select(F, n) == x)); ex.store_bytes(st, self.t, Off(0, None, at[k]), 8, n + 1, st.g); ex.fact(Implies(st.g, z3.ULT(n, 1 << 60)))
                return Ptr(ex.reg(ex.new_cells('back', 8)))
            if op == '4dataEv' and k == 1: return Ptr(self.stage1)
            raise Unsupported('vector member ' + name)

        def umap(ex, st, name, a, inst_):
            k = which(a[0]); null = K(0)
            if re.search('E3endEv', name) or re.search('E4cendEv', name): return 0
            key = a[1] if len(a) > 1 else None
            if k == 'm':
                x = Z(bv(ex.mat(ex.load(st, key, ir.I(32))), 32), 64)
                if re.search('E4findE', name):
                    p = z3.Select(self.cont(ex, st, self.present), x) != 0
                    return PtrIte(p, Ptr(self.map, Off(2, x, -self.sec2)), 0)
                if re.search('EixE', name):
                    new = st.m.copy(); st.m[self.present.id] = Arr(z3.If(zb(st.g), z3.Store(self.cont(ex, st, self.present), x, K(1, 8)), self.cont(ex, st, self.present)))
                    if ex.wlog is not None: ex.wlog.append((self.present, Off(1, x, 0), 1))
                    return Ptr(self.map, Off(2, x, 0))
            else:
                if re.search('E4findE', name): return PtrIte(z3.FreshConst(z3.BoolSort(), 'found'), Ptr(self.bucket), 0)
                if re.search('EixE', name): return Ptr(self.bucket, Off(0, None, self.secv))
            raise Unsupported('unordered_map member ' + name)

        def arrow(ex, st, name, a, inst_):
            p = ex.load_bytes(st, a[0].obj, a[0].off, 8, st.g); real = [(g, q) for g, q in leaves(p) if isinstance(q, Ptr)]
            if len(real) != 1: raise Unsupported('iterator to several elements')
            ex.oblige('the iterator is not past the end', And(st.g), real[0][0], 'memory', name)
            return real[0][1]

        def throw(ex, st, name, a, inst_):
            ex.oblige('an exception is thrown only for a mapping too large for the stage types', st.g, self.refusal(ex, st), 'post', name); st.g = False; return None

        def itereq(ex, st, name, a, inst_):
            x, y = (ex.load_bytes(st, p.obj, p.off, 8, st.g) for p in a[:2])
            isnull = lambda p: Not(Or(*[g for g, q in leaves(p) if isinstance(q, Ptr)])) if not is_c(p) else p == 0
            if is_c(y) and y == 0: return isnull(x)
            if is_c(x) and x == 0: return isnull(y)
            raise Unsupported('comparison of two iterators')

        def memcmp(ex, st, name, a, inst_):
            r = fresh('memcmp', 32); p, q, ln = a[:3]
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is self.text and q.obj is self.text): raise Unsupported('memcmp of other memory')
            i, k, ln = bv(p.off.idx(4), 64), bv(q.off.idx(4), 64), bv(ln, 64)
            for x in (i, k): ex.oblige('the compared blocks lie in the input', st.g, z3.And(z3.ULE(ln, 4 * self.n), z3.ULE(x, self.n), z3.ULE(4 * x + ln, 4 * self.n)), 'memory', name)
            ex.fact(Implies(st.g, z3.Implies(z3.And(r == 0, z3.ULE(4 * self.j + 4, ln)), z3.Select(self.I, i + self.j) == z3.Select(self.I, k + self.j))))
            return r

        def hash_(ex, st, name, a, inst_):
            ex.oblige('the hashed block lies in the input', st.g, z3.And(z3.ULE(bv(a[1], 64), self.n), z3.ULE(bv(a[1], 64) + self.bs, self.n)), 'pre', name); return fresh('hash', 64)

        def value(ex, st, name, a, inst_):
            i = Z(bv(a[1], 32), 64); ex.oblige('the value is one of the input', st.g, z3.ULT(i, self.n), 'pre', name)
            r = fresh('value', 16); old = self.vsize(ex, st, self.s3); new = fresh('n3', 64)
            ex.store_bytes(st, self.t, Off(0, None, self.s3), 8, new, st.g)
            ex.fact(Implies(st.g, z3.And(z3.ULE(old, new), z3.ULE(new, 1 << 16), z3.ULT(Z(r, 64), new), z3.Select(self.F3, Z(r, 64)) == z3.Select(self.I, i))))
            return r

        def find(ex, st, name, a, inst_):
            b = bv(a[1], 64); ex.oblige('the block is the next one', st.g, z3.And(z3.URem(b, K(self.bs)) == 0, z3.ULT(b, self.n), b == self.done), 'pre', name)
            r = fresh('same', 64); has = z3.FreshConst(z3.BoolSort(), 'has')
            ex.fact(Implies(st.g, z3.Implies(has, z3.And(z3.ULT(r, z3.UDiv(b, K(self.bs))), z3.Select(self.I, r * self.bs + self.j) == z3.Select(self.I, b + self.j)))))
            ex.fact(Implies(st.g, z3.Implies(has, self.entry(ex, st, r))))
            f8 = z3.If(has, K(1, 8), K(0, 8))
            if len(a) > 2 or (isinstance(a[0], Ptr) and a[0].obj is not self.o): raise Unsupported('optional returned by reference')
            t = inst_.ty
            return [r, f8] if t.k == 'struct' and len(t.e) == 2 else [r, f8]

        def block(ex, st, name, a, inst_):
            b = Z(bv(a[1], 32), 64); g = self.ghost; done = bv(ex.mat(ex.load_bytes(st, g, Off(0, None, 0), 8, True)), 64)
            ex.oblige('blocks are handled in order', st.g, z3.And(z3.URem(b, K(self.bs)) == 0, z3.ULT(b, self.n), b == done), 'pre', name)
            q = fresh('b', 64); ex.term(q); ex.oblige('every block before is recorded', st.g, z3.Implies(z3.ULT(q * self.bs, done) if False else z3.ULT(q, z3.UDiv(b, K(self.bs))), self.entry(ex, st, q)), 'pre', name)
            r = fresh('r', 8 * self.e1); n2, n3 = fresh('n2', 64), fresh('n3', 64); o2, o3 = self.vsize(ex, st, self.s2), self.vsize(ex, st, self.s3)
            ex.oblige('stage 2 consists of whole blocks', st.g, z3.URem(o2, K(self.bs)) == 0, 'pre', name)
            ex.store_bytes(st, self.t, Off(0, None, self.s2), 8, n2, st.g); ex.store_bytes(st, self.t, Off(0, None, self.s3), 8, n3, st.g); ex.store_bytes(st, g, Off(0, None, 0), 8, done + self.bs, st.g)
            ex.fact(Implies(st.g, z3.And(z3.ULE(o2, n2), z3.ULT(n2, 1 << 40), z3.URem(n2, K(self.bs)) == 0, z3.ULE(o3, n3), z3.ULE(n3, 1 << 16), self.right(ex, st, Z(r, 64) * self.bs + self.j, b + self.j))))
            return r
        con = [(re.compile(VEC), vec), (re.compile(UMAP[0]), umap), (re.compile(UMAP[1]), arrow), (re.compile(UMAP[2]), itereq), (re.compile(r'^(memcmp|bcmp)$'), memcmp), (re.compile('^__cxa_allocate_exception$'), throw)]
        m = {VALUE: value, BLOCK: block, FIND: find, HASH: hash_}
        return [(re.compile('.*' + x), m[x]) for x in inst] + con

    def refusal(self, ex, st): return z3.Or(z3.UGE(self.vsize(ex, st, self.s2), self.lim * self.bs), z3.UGE(self.vsize(ex, st, self.s3), 1 << 16))

    # ---- functions
    def value(self):
        c = self.c; w = self.tag + 'get_or_create_stage3_index'; self.extra = None
        v, mod = self.env(); i = z3.BitVec('i', 32); x = z3.BitVec('x', 32); v.fact(z3.ULT(Z(i, 64), self.n)); s0 = State(True, {})
        val = z3.Select(self.I, Z(i, 64))
        for q in (x, val): v.fact(self.known(v, s0, q))
        r, st = v.call_fn(mod.fn('z_value'), [Ptr(self.o), i], s0); r = bv(v.mat(r), 16)
        ob = lambda nm, p: v.oblige(nm, st.g, p, fn=w)
        ob('the index leads to the value', z3.And(z3.ULT(Z(r, 64), self.vsize(v, st, self.s3)), z3.Select(self.F3, Z(r, 64)) == val))
        ob('values are only added', z3.And(z3.UGE(self.vsize(v, st, self.s3), self.n3), z3.ULE(self.vsize(v, st, self.s3), 1 << 16)))
        ob('the value map stays right for every value', self.known(v, st, x))
        ob('the other stages are kept', z3.And(self.vsize(v, st, self.s2) == self.n2, self.vsize(v, st, self.s1) == self.n1, self.cont(v, st, self.stage1) == self.cont(v, s0, self.stage1)))
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    def hash(self):
        c = self.c; w = self.tag + 'hashBlock'; self.extra = None
        v, mod = self.env(es=1); b = z3.BitVec('b', 64); v.fact(z3.And(z3.URem(b, K(self.bs)) == 0, z3.ULT(b, self.n)))
        _, st = v.call_fn(mod.fn('z_hash'), [Ptr(self.o), b], State(True, {}))
        v.oblige('nothing is written', st.g, And(*[self.vsize(v, st, a) == m for a, m in ((self.s1, self.n1), (self.s2, self.n2), (self.s3, self.n3))]), fn=w); c.contracts.append(w); c.discharge(v)

    def find(self):
        c = self.c; w = self.tag + 'find_same_block'; self.extra = None
        v, mod = self.env([HASH]); b = z3.BitVec('b', 64); v.fact(z3.And(z3.URem(b, K(self.bs)) == 0, z3.ULT(b, self.n), b == self.done))
        p = v.reg(v.new_cells('result', 8)); s0 = State(True, {})
        r, st = v.call_fn(mod.fn('z_find'), [Ptr(self.o), b, Ptr(p)], s0); r = zb(r) if not isinstance(r, z3.BitVecRef) else r != 0
        k = bv(v.mat(v.load_bytes(st, p, Off(0, None, 0), 8, True)), 64)
        v.oblige('a block found was handled before and has the same content', st.g, z3.Implies(r, z3.And(z3.ULT(k, z3.UDiv(b, K(self.bs))), z3.Select(self.I, k * self.bs + self.j) == z3.Select(self.I, b + self.j))), fn=w)
        v.oblige('the tables are kept', st.g, And(*[self.vsize(v, st, a) == m for a, m in ((self.s1, self.n1), (self.s2, self.n2), (self.s3, self.n3))], self.cont(v, st, self.stage1) == self.cont(v, s0, self.stage1)), fn=w)
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    def block(self):
        c = self.c; w = self.tag + 'get_or_create_index_to_stage2_block'
        b = z3.BitVec('b', 32); B = Z(b, 64)

        def extra(ex, info):
            S = lambda w_: State(True, w_.mem); n2 = lambda w_: self.vsize(ex, S(w_), self.s2); n3 = lambda w_: self.vsize(ex, S(w_), self.s3)
            out = [('stage 3 grows', lambda w_: z3.And(z3.UGE(n3(w_), self.n3), z3.ULE(n3(w_), 1 << 16))), ('stage 2 grows by at most a block', lambda w_: z3.And(z3.UGE(n2(w_), self.n2), z3.ULE(n2(w_) - self.n2, self.bs))),
                   ('the entry at place j leads to its value', lambda w_: z3.Implies(z3.UGT(n2(w_), self.n2 + self.j), self.right(ex, S(w_), self.n2 + self.j, B + self.j)))]
            for x in info.cells:
                if x.kind == 'int' and x.bits in (32, 64):
                    out.append(('%s: as many entries as values' % x.name, lambda w_, x=x: Z(bv(w_[x.key], x.bits), 64) - B == n2(w_) - self.n2))
                    out.append(('%s: as many entries counted' % x.name, lambda w_, x=x: Z(bv(w_[x.key], x.bits), 64) == n2(w_) - self.n2))
            return out
        self.extra = extra
        v, mod = self.env([VALUE, FIND]); v.opts['unroll'] = 4; s0 = State(True, {})
        v.fact(z3.And(z3.URem(B, K(self.bs)) == 0, z3.ULT(B, self.n), B == self.done, z3.URem(self.n2, K(self.bs)) == 0, z3.UGE(self.n1, z3.UDiv(self.n, K(self.bs)))))
        r, st = v.call_fn(mod.fn('z_block'), [Ptr(self.o), b], s0); r = bv(v.mat(r), 8 * self.e1)
        ob = lambda nm, p: v.oblige(nm, st.g, p, fn=w)
        ob('the block at the index has the value at every place', self.right(v, st, Z(r, 64) * self.bs + self.j, B + self.j))
        ob('the stages only grow, stage 2 by whole blocks', z3.And(z3.UGE(self.vsize(v, st, self.s2), self.n2), z3.UGE(self.vsize(v, st, self.s3), self.n3), z3.ULE(self.vsize(v, st, self.s3), 1 << 16), z3.URem(self.vsize(v, st, self.s2), K(self.bs)) == 0))
        ob('stage 1 is kept', z3.And(self.vsize(v, st, self.s1) == self.n1, self.cont(v, st, self.stage1) == self.cont(v, s0, self.stage1)))
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    def generate(self):
        c = self.c; w = self.tag + 'generate'

        def extra(ex, info):
            S = lambda w_: State(True, w_.mem); n2 = lambda w_: self.vsize(ex, S(w_), self.s2); n3 = lambda w_: self.vsize(ex, S(w_), self.s3)
            done = lambda w_: bv(ex.mat(ex.load_bytes(S(w_), self.ghost, Off(0, None, 0), 8, True)), 64)
            out = [('sizes', lambda w_: z3.And(z3.ULE(n3(w_), 1 << 16), z3.ULT(n2(w_), 1 << 40), z3.URem(n2(w_), K(self.bs)) == 0)), ('blocks handled', lambda w_: z3.And(z3.URem(done(w_), K(self.bs)) == 0, z3.ULE(done(w_), self.n))),
                   ('stage 1 has room', lambda w_: self.vsize(ex, S(w_), self.s1) == z3.UDiv(self.n, K(self.bs))),
                   ('every block handled is recorded', lambda w_: Forall(lambda q: z3.Implies(z3.ULT(q, z3.UDiv(done(w_), K(self.bs))), self.entry(ex, S(w_), q))))]
            for x in info.cells:
                if x.kind == 'int' and x.bits in (32, 64):
                    out.append(('%s: the next block' % x.name, lambda w_, x=x: Z(bv(w_[x.key], x.bits), 64) == done(w_)))
                    out.append(('%s: the number of the next block' % x.name, lambda w_, x=x: Z(bv(w_[x.key], x.bits), 64) * self.bs == done(w_)))
            return out
        self.extra = extra
        v, mod = self.env([BLOCK]); s0 = State(True, {}); v.fact(z3.And(self.n2 == 0, self.n3 == 0, self.done == 0))
        q = z3.BitVec('q', 64); v.term(q)
        _, st = v.call_fn(mod.fn('z_generate'), [Ptr(self.o)], s0)
        v.oblige('every block of the input is recorded', st.g, z3.Implies(z3.ULT(q, z3.UDiv(self.n, K(self.bs))), self.entry(v, st, q)), fn=w)
        v.oblige('stage 1 has an entry for every block', st.g, self.vsize(v, st, self.s1) == z3.UDiv(self.n, K(self.bs)), fn=w)
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    def get(self):
        c = self.c; self.extra = None
        for fn, w in (('z_get', 'multistage_table::get'), ('z_view', 'multistage_table_view::get')):
            w = self.tag + w
            mod = ir.Module(open(c.build().ir(TU % {'view': self.view}, noinline=[VEC], strip=[VEC])).read())
            N = K(0x110000); i = z3.BitVec('i', 32); at = z3.If(z3.ULE(i, 0x10FFFF), Z(i, 64), K(0)); b, j = z3.UDiv(at, K(self.bs)), z3.URem(at, K(self.bs))
            n2, n3 = z3.BitVecs('n2 n3', 64)
            def data(ex, st, name, a, inst_):
                if not re.search('E4dataEv', name): raise Unsupported('vector member ' + name)
                return Ptr({self.s1: A, self.s2: B_, self.s3: C}[a[0].off.c])
            v = Verifier(mod, [(re.compile(VEC), data)], {}); t = v.reg(v.new_cells('table', self.tsize)); t.cinit = {}
            A, B_, C = [v.reg(v.new_arr(nm, e, m)) for nm, e, m in (('stage1', self.e1, z3.UDiv(N, K(self.bs))), ('stage2', 2, n2), ('stage3', 4, n3))]
            s0 = State(True, {}); a, b_, c_ = [v.content(s0, x).a for x in (A, B_, C)]; val = z3.BitVec('value', 32)
            k = Z(z3.Select(a, b), 64) * self.bs + j; m = Z(z3.Select(b_, k), 64)
            v.fact(z3.And(z3.ULT(n2, 1 << 40), z3.ULE(n3, 1 << 16), z3.ULT(k, n2), z3.ULT(m, n3), z3.Select(c_, m) == val))
            r, st = v.call_fn(mod.fn(fn), [Ptr(t), i], s0)
            v.oblige('the value recorded for the index, or for index zero beyond the maximum', st.g, bv(v.mat(r), 32) == val, fn=w)
            c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)


def names():
    out = {}
    for lo, hi, f in ucd.ranges('extracted/DerivedName.txt'):
        for x in range(lo, hi + 1): out[x] = f[0]
    return out


def main(c):
    B = c.build()
    from engine.build import CORE
    nat = ctypes.CDLL(B.so(NAT, list(CORE) + [x for x in ('codepoint_properties_names.cpp',) if x not in CORE]))
    views = {}
    PS = [Proof(c, ctypes.CDLL(B.so(TU % {'view': x} + 'std::size_t Hash::operator()(Value v) const noexcept { return v; }')), x) for x in ('tables_view', 'names_view')]

    def names_ground(c):
        want = names(); buf = ctypes.create_string_buffer(256); bad = []
        for x in range(0x110000):
            k = nat.n_name(x, buf, 256); g = buf.raw[:k].decode('latin1')
            if g != want.get(x, ''): bad.append((x, g, want.get(x, '')))
        for x in (0x110000, 0x7FFFFFFF, 0xFFFFFFFF):
            k = nat.n_name(x, buf, 256)
            if buf.raw[:k].decode('latin1') != want.get(0, ''): bad.append((x, buf.raw[:k].decode('latin1'), want.get(0, '')))
        if bad: c.hints.append({'code point': 'U+%04X' % bad[0][0], 'name reported': bad[0][1], 'name in DerivedName.txt': bad[0][2], 'code points with a wrong name': len(bad)})
        c.ground('names_view: the name of every code point is the one of DerivedName.txt', not bad, str(bad[:2]), 'codepoint_properties::name', 0x110000 + 3)

    def search(ch):
        rnd = random.Random(c.seed); t = __import__('time').time(); bad = ctypes.c_uint(); k = 0
        while __import__('time').time() - t < 120:
            kind = rnd.randrange(2); k += 1
            blocks = rnd.choice((1, 2, 3, 5, 9, 40)) if k % 8 else rnd.choice((255, 256, 257, 300, 520))
            vals = rnd.choice((1, 2, 3, 200, 70000)) if k % 8 else rnd.choice((60000, 1 << 32))
            pool = [np.array([rnd.randrange(vals) for _ in range(256)], np.uint32) if rnd.random() < .7 else np.full(256, rnd.randrange(vals), np.uint32) for _ in range(max(1, int(blocks * rnd.choice((.3, .7, 1)))))]
            seq = [pool[i] if k % 16 == 0 and i < len(pool) else rnd.choice(pool) for i in range(blocks)]
            if k % 5 == 0:
                seq = [x.copy() for x in seq]; x = seq[-1]; x[rnd.choice((0, 255, rnd.randrange(256)))] ^= 1 << rnd.choice((0, 8, 16, 31))
            a = np.concatenate(seq).astype(np.uint32)
            if nat.n_run(kind, a.ctypes.data_as(ctypes.c_void_p), ctypes.c_size_t(len(a)), ctypes.byref(bad)):
                i = bad.value
                return {'stage 1 element bytes': kind + 1, 'input size': len(a), 'index with a wrong value': i, 'distinct blocks of the input': len({x.tobytes() for x in seq}), 'distinct values of the input': len(set(a.tolist())), 'input value': int(a[i]) if i < len(a) else int(a[0]),
                        'input (if short)': a.tolist() if len(a) <= 512 else None, 'seed': c.seed}
        return None
    c.searcher = search
    c.assumptions += ['T is instantiated by an opaque 32-bit value compared with ==; the code only copies, compares and hashes it; the hash function is arbitrary', 'std::vector, std::unordered_map and memcmp by contract; allocation succeeds',
                      'a mapping with more distinct blocks or values than the stage types can index is refused by an exception: no table is returned']
    c.notes.append('stage 2 and stage 3 only grow, so their final content is a prophecy array; the place within a block and the block are arbitrary constants')
    jobs = [('names', names_ground)]
    for p in PS: jobs += [(p.tag + n, lambda c, p=p, n=n: getattr(p, n)()) for n in ('value', 'hash', 'find', 'block', 'generate', 'get')]
    c.parallel(jobs)
