"""per code point queries: exhaustive native evaluation (ground obligations) and symbolic safety proofs"""
import ctypes, re
import numpy as np
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic

N = 0x110000
OUT = [0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x00FFFFFF, 0xD800D800, 0xA00041]


class Native:
    def __init__(self, check, includes, exprs, sources, pre=''):
        """exprs: key -> C++ expression over `char32_t c` convertible to unsigned"""
        t = ['#include <cstdint>', '#include <cstddef>'] + ['#include <%s>' % i for i in includes] + ['using namespace unicode;', pre, 'extern "C" {']
        self.keys = list(exprs)
        for i, k in enumerate(self.keys):
            t.append('unsigned one_%d(char32_t c) { return (unsigned)(%s); }' % (i, exprs[k]))
            t.append('void all_%d(unsigned* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = one_%d(c); }' % (i, i))
        t.append('}')
        self.so = ctypes.CDLL(check.build().so('\n'.join(t), sources))
        for i in range(len(self.keys)): getattr(self.so, 'one_%d' % i).argtypes = [ctypes.c_uint]; getattr(self.so, 'one_%d' % i).restype = ctypes.c_uint
        self.c = check

    def all(self, key):
        a = np.zeros(N, np.uint32)
        getattr(self.so, 'all_%d' % self.keys.index(key))(a.ctypes.data_as(ctypes.c_void_p))
        return a

    def one(self, key, c): return getattr(self.so, 'one_%d' % self.keys.index(key))(c)

    def lemma(self, key, want, name, fn, above=None):
        """want: array of N expected values; above: expected value above U+10FFFF (sampled natively, proved symbolically elsewhere)"""
        a = self.all(key)
        want = np.asarray(want, dtype=np.uint32)
        bad = np.nonzero(a != want)[0]
        c = self.c
        if len(bad):
            b = int(bad[0])
            c.hints.append({'query': key, 'code_point': 'U+%04X' % b, 'got': int(a[b]), 'expected': int(want[b]), 'differing_code_points': int(len(bad))})
        c.ground(name, len(bad) == 0, '%d code points differ, first U+%04X' % (len(bad), int(bad[0])) if len(bad) else '', fn, N)
        if above is not None:
            for x in OUT:
                if self.one(key, x) != above:
                    c.hints.append({'query': key, 'value': '0x%X' % x, 'got': self.one(key, x), 'expected': above})
                    c.ground(name + ' (above U+10FFFF)', False, hex(x), fn); break
        return a


def sym_above(check, mod, fname, pre_args, expect, label, opts=None, contracts=(), retbits=None, hook=None, outsize=0, post=None, shared=None):
    """symbolic execution for every 32-bit argument: all accesses in bounds; above U+10FFFF the result is `expect`"""
    cands = [n for n in mod.functions if re.search(fname, n) and mod.fn(n)]
    if len(cands) != 1: raise Unsupported('function %s: %s' % (fname, cands))
    f = mod.fn(cands[0])
    cp = z3.BitVec('cp', 32)
    v = Verifier(mod, list(contracts), dict({'table_facts': True}, **(opts or {})))
    v.loop_hook = hook or generic(key=cp)
    args = []
    if f.params[0][0].k == 'ptr':
        out = v.reg(v.new_cells('out', outsize)); args.append(Ptr(out))
    args += list(pre_args) + [cp]
    r, st = v.call_fn(f, args, State(True, {}))
    if post: post(v, st, r, cp, args)
    elif expect is not None:
        v.oblige('result for arguments above U+10FFFF is the default', And(st.g, z3.UGT(cp, 0x10FFFF)), eqv(r, expect, retbits or f.ret.n), fn=label)
    check.contracts.append(label)
    check.discharge(v)
