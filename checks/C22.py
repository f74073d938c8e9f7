"""the ASCII scan returns the length of the longest printable ASCII prefix, for every vector width"""
import re, subprocess
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along

FLAGS = {128: (), 256: ('-mavx2',), 512: ('-mavx512f', '-mavx512bw')}
TU = '''#include <cstddef>
#include <concepts>
#include "scan_simd_impl.h"
extern "C" size_t x_scan(char const* p, size_t n, size_t m) { return unicode::detail::scan_for_text_ascii_simd<%d>(std::string_view(p, n), m); }
'''

def exe(c):
    src = r'''
#include <libunicode/scan.h>
#include <libunicode/scan_simd_impl.h>
#include <libunicode/simd_detector.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
using namespace unicode;
namespace unicode::detail { size_t scan_for_text_ascii_256(std::string_view, size_t) noexcept; size_t scan_for_text_ascii_512(std::string_view, size_t) noexcept; size_t scan_for_text_ascii(std::string_view, size_t) noexcept; }
static size_t f128(std::string_view t, size_t m) { return detail::scan_for_text_ascii_simd<128>(t, m); }
static unsigned char cur[4096]; static size_t curn, curm; static char const* curf;
static void show(char const* what, long got, long want) { printf("FAIL %s %s max=%zu got=%ld want=%ld bytes=", curf, what, curm, got, want); for (size_t i = 0; i < curn; ++i) printf("%02x", cur[i]); printf("\n"); fflush(stdout); _exit(3); }
static void segv(int) { show("reads-outside", -1, -1); }
int main(int argc, char** argv)
{
    signal(SIGSEGV, segv); signal(SIGBUS, segv);
    long pg = sysconf(_SC_PAGESIZE);
    char* base = (char*)mmap(0, 4 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base, pg, PROT_NONE); mprotect(base + 3 * pg, pg, PROT_NONE);
    char* lo = base + pg; char* hi = base + 3 * pg;
    std::mt19937 g(atoi(argv[1]));
    static const unsigned char special[] = {0, 9, 10, 0x1f, 0x1b, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xbf, 0xc2, 0xff, 0xe2};
    size_t w = detail::max_simd_size();
    struct F { char const* n; size_t (*f)(std::string_view, size_t); size_t w; } fs[] = {{"simd<128>", f128, 0}, {"simd<256>", [](std::string_view t, size_t m) { return detail::scan_for_text_ascii_256(t, m); }, 256}, {"simd<512>", [](std::string_view t, size_t m) { return detail::scan_for_text_ascii_512(t, m); }, 512}, {"dispatch", [](std::string_view t, size_t m) { return detail::scan_for_text_ascii(t, m); }, 0}};
    auto run = [&] {
        size_t want = 0, lim = std::min(curn, curm);
        while (want < lim && cur[want] >= 0x20 && cur[want] < 0x80) ++want;
        for (auto& f: fs) {
            if (f.w > w) continue;
            curf = f.n;
            for (int side = 0; side < 2; ++side) {
                memset(lo, 0x41, 2 * pg);
                char* p = side ? hi - curn : lo;
                memcpy(p, cur, curn);
                size_t r = f.f(std::string_view(p, curn), curm);
                if (r != want) show("result", (long)r, (long)want);
            }
        }
    };
    for (size_t n = 0; n <= 150; ++n) for (size_t k = 0; k <= n; k += (n > 70 ? 7 : 1)) for (unsigned b: {0x1fu, 0x7fu, 0x80u, 0xffu}) for (size_t m: {n, n / 2, (size_t)-1}) {
        curn = n; curm = m; memset(cur, 0x41, n); if (k < n) cur[k] = b; run();
    }
    for (int it = 0; it < 60000; ++it) {
        curn = g() % 200; curm = g() % 3 ? 100000 : g() % 220;
        for (size_t i = 0; i < curn; ++i) cur[i] = 0x20 + g() % 0x60;
        for (int k = g() % 4; k > 0 && curn; --k) cur[g() % curn] = g() % 2 ? special[g() % sizeof special] : g() % 256;
        run();
    }
    return 0;
}
'''
    from engine.build import CORE
    return c.build().exe(src, CORE)


def good(x): return And(cmpop('uge', x, 0x20, 8), cmpop('ult', x, 0x80, 8))


def post(T, E, r, k):
    """r is the length of the longest printable prefix of the first E bytes (k arbitrary)"""
    return And(cmpop('ule', r, E, 64), Implies(cmpop('ult', k, r, 64), good(z3.Select(T, k))), Or(eqv(r, E, 64), Not(good(z3.Select(T, bv(r, 64))))))


def width(c, w):
    mod = ir.Module(open(c.build().ir(TU % w, flags=FLAGS[w])).read())
    v = Verifier(mod, []); v.timeout = 150000
    n, m, k = z3.BitVecs('n max k', 64)
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
    text = v.reg(v.new_arr('text', 1, n)); T = text.init.a
    E = z3.If(z3.ULT(m, n), m, n)
    v.loop_hook = along([text], invs=[('within the limit', lambda w_, i: z3.ULE(bv(i, 64), E)),
                                      ('all before are printable', lambda w_, i: z3.Implies(z3.ULT(k, bv(i, 64)), zb(good(z3.Select(T, k)))))], lengths=[n])
    nm = 'scan_for_text_ascii_simd<%d>' % w
    r, st = v.call_fn(mod.fn('x_scan'), [Ptr(text), n, m], State(True, {}))
    v.oblige('the result is the length of the longest printable prefix within the limit', st.g, post(T, E, v.mat(r), k), fn=nm)
    c.satisfiable(nm + ' precondition', v.facts)
    c.contracts.append(nm); c.discharge(v, timeout=60)


def wrapper(c, tu, fn, callee, w):
    """the exported function hands its arguments to the width's function and returns its result"""
    mod = ir.Module(open(c.build().ir('#include <concepts>\n#include "%s"\n' % tu, noinline=[r'scan_for_text_ascii_simdILm'], flags=FLAGS[w])).read())
    n, m, k = z3.BitVecs('n max k', 64); R = z3.BitVec('R', 64)
    calls = []

    def h(ex, st, name, a, i):
        ok = And(eqv(a[0], n, 64), isinstance(a[1], Ptr) and a[1].obj is text and a[1].off.t is None and a[1].off.c == 0, eqv(a[2], m, 64))
        ex.oblige('the arguments are passed on unchanged', st.g, ok, 'precondition')
        return R
    v = Verifier(mod, [(re.compile(r'.*scan_for_text_ascii(_256|_512|_simdILm)'), h), (re.compile(r'.*max_simd_size'), lambda ex, st, name, a, i: fresh('simd', 64))])
    text = v.reg(v.new_arr('text', 1, n))
    f = [x for x in mod.functions if re.match(fn, x)]
    if len(f) != 1: raise Unsupported('%s not found' % fn)
    r, st = v.call_fn(mod.fn(f[0]), [n, Ptr(text), m], State(True, {}))
    v.oblige('the result is the one of the vector scan', st.g, eqv(v.mat(r), R, 64), fn=f[0])
    c.contracts.append(f[0]); c.discharge(v)


def main(c):
    def search(ch):
        r = subprocess.run([exe(c), str(c.seed)], capture_output=True, text=True, timeout=150)
        if r.returncode == 3: return {'scan': r.stdout.strip()}
        return None
    c.searcher = search
    c.notes.append('the loop guard computes end - width, which may lie before the buffer; only the address is compared, and the comparison is modelled on signed offsets (flat address space)')
    jobs = [('scan %d' % w, lambda c, w=w: width(c, w)) for w in FLAGS]
    jobs += [('dispatch', lambda c: wrapper(c, 'scan.cpp', r'_ZN7unicode6detail19scan_for_text_asciiESt17', None, 128)),
             ('wrapper 256', lambda c: wrapper(c, 'scan256.cpp', r'_ZN7unicode6detail23scan_for_text_ascii_256E', None, 256)),
             ('wrapper 512', lambda c: wrapper(c, 'scan512.cpp', r'_ZN7unicode6detail23scan_for_text_ascii_512E', None, 512))]
    c.parallel(jobs)
