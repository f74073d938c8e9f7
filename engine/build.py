"""Mechanical extraction: everything is rebuilt from /repo's working tree into a scratch directory keyed by its content."""
import os, hashlib, subprocess, fcntl, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
UCD = '/usr/share/unicode'
GEN = ['ucd.cpp', 'ucd.h', 'ucd_enums.h', 'ucd_fmt.h', 'ucd_ostream.h', 'case_normalization_data.h',
       'codepoint_properties_data.h', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
OPT = '/usr/lib/llvm-18/bin/opt'
PIPE = 'cgscc(inline),function(sroa,early-cse,instcombine,simplifycfg,sroa,early-cse,loop-simplify,lcssa)'
DEFS = ['-std=c++20', '-DLIBUNICODE_USE_INTRINSICS']


class BuildError(Exception):
    pass


def run(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def tracked_sources():
    base = os.path.join(REPO, 'src')
    out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if os.path.basename(rel) in GEN: continue
            if re.search(r'\.(h|hpp|c|cpp|cc|rl|txt|inc|ipp)$', f): out.append(rel)
    return sorted(out)


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, 'src', f), 'rb') as fh: h.update(fh.read())
    return h.hexdigest()[:20]


class Build:
    """scratch copy of the sources with freshly generated tables"""

    def __init__(self):
        self.files = tracked_sources()
        self.key = tree_hash(self.files)
        root = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
        os.makedirs(root, exist_ok=True)
        self.dir = os.path.join(root, self.key)
        self.src = os.path.join(self.dir, 'src')
        self.lu = os.path.join(self.src, 'libunicode')
        self.lock = open(os.path.join(root, self.key + '.lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            if not os.path.exists(os.path.join(self.dir, 'ok')): self.prepare()
        finally: fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.cmds = []

    def prepare(self):
        if os.path.exists(self.dir): shutil.rmtree(self.dir)
        for f in self.files:
            d = os.path.join(self.src, f); os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(os.path.join(REPO, 'src', f), d)
        # the table generator is part of the code under verification: rebuild and run it
        tg = sorted(f for f in os.listdir(os.path.join(self.lu, 'tablegen')) if f.endswith('.cpp'))
        objs = []

        def comp(f):
            o = os.path.join(self.dir, 'tg_' + f + '.o')
            run(['g++', '-O1', '-std=c++20', '-DLIBUNICODE_UCD_VERSION="15.1.0"', '-I' + self.src, '-c', os.path.join(self.lu, 'tablegen', f), '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, tg))
        exe = os.path.join(self.dir, 'tablegen')
        run(['g++'] + objs + ['-o', exe])
        run([exe, UCD, self.lu, 'unicode::precompiled'])
        open(os.path.join(self.dir, 'ok'), 'w').close()

    def _cached(self, tag, key, make):
        fn = os.path.join(self.dir, '%s-%s' % (tag, hashlib.sha256(key.encode()).hexdigest()[:16]))
        lk = open(fn + '.lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if not os.path.exists(fn):
                tmp = fn + '.tmp%d' % os.getpid()
                make(tmp); os.rename(tmp, fn)
        finally: fcntl.flock(lk, fcntl.LOCK_UN); lk.close()
        return fn

    def ir(self, tu, noinline=(), strip=(), flags=(), pipe=PIPE, keep=None):
        """tu: source text including repo files by <libunicode/...>; returns path of optimised textual IR.
        noinline / strip: regexes on mangled names (kept as calls / body dropped, handled by contract)"""
        key = '\0'.join([tu, '|'.join(noinline), '|'.join(strip), ' '.join(flags), pipe, harness_hash()])

        def make(out):
            with tempfile.TemporaryDirectory() as td:
                cpp = os.path.join(td, 'tu.cpp'); open(cpp, 'w').write(tu)
                ll = os.path.join(td, 'tu.ll')
                run(['clang++-18'] + DEFS + list(flags) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
                     '-fno-pic', '-Wno-everything', '-I' + self.src, '-I' + self.lu, '-I' + os.path.join(VERIF, 'harness'), '-S', '-emit-llvm', cpp, '-o', ll])
                t = open(ll).read()
                t = edit(t, noinline, strip)
                open(ll, 'w').write(t)
                run([OPT, '-S', '-passes=' + pipe, ll, '-o', out])
        return self._cached('ir', key, make)

    def so(self, tu, sources=(), flags=(), opt='-O2'):
        """native shared library of a harness TU plus repo sources compiled as the project compiles them (g++ -O2)"""
        key = '\0'.join([tu, ' '.join(sources), ' '.join(flags), opt, harness_hash()])

        def make(out):
            objs = self.objects(sources, flags, opt)
            with tempfile.TemporaryDirectory() as td:
                cpp = os.path.join(td, 'tu.cpp'); open(cpp, 'w').write(tu)
                run(['g++', '-g', '-fPIC', '-shared', opt] + DEFS + list(flags) + ['-w', '-I' + self.src, '-I' + self.lu, '-I' + os.path.join(VERIF, 'harness'), cpp] + objs + ['-o', out])
        return self._cached('so', key, make)

    def exe(self, tu, sources=(), flags=(), opt='-O1', tuflags=()):
        key = '\0'.join(['exe', tu, ' '.join(sources), ' '.join(flags), ' '.join(tuflags), opt, harness_hash()])

        def make(out):
            objs = self.objects(sources, flags, opt)
            with tempfile.TemporaryDirectory() as td:
                cpp = os.path.join(td, 'tu.cpp'); open(cpp, 'w').write(tu)
                run(['g++', '-g', '-fPIC', opt] + DEFS + list(flags) + list(tuflags) + ['-w', '-I' + self.src, '-I' + self.lu, '-I' + os.path.join(VERIF, 'harness'), cpp] + objs + ['-o', out])
        return self._cached('exe', key, make)

    def objects(self, sources, flags=(), opt='-O2'):
        def one(s):
            simd = {'convert.cpp': ['-msse4.1'], 'convert256.cpp': ['-mavx2'], 'scan256.cpp': ['-mavx2'],
                    'convert512.cpp': ['-mavx512f', '-mavx512bw'], 'scan512.cpp': ['-mavx512f', '-mavx512bw']}.get(s, [])
            o2 = '-O0' if s == 'codepoint_properties_names.cpp' else opt
            key = '\0'.join([s, ' '.join(flags), o2])

            def mk(out):
                run(['g++', '-g', '-fPIC', o2] + DEFS + list(flags) + simd + ['-w', '-I' + self.src, '-x', 'c++', '-c', os.path.join(self.lu, s), '-o', out])
            f = self._cached('o', key, mk)
            return f
        with ThreadPoolExecutor(8) as ex: fs = list(ex.map(one, sources))
        # g++ needs an object suffix
        out = []
        for f in fs:
            l = f + '.o'
            if not os.path.exists(l):
                try: os.link(f, l)
                except FileExistsError: pass
            out.append(l)
        return out


CORE = ['capi.cpp', 'case_mapping.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp', 'convert.cpp', 'convert256.cpp', 'convert512.cpp',
        'emoji_segmenter.cpp', 'grapheme_segmenter.cpp', 'normalization.cpp', 'scan.cpp', 'scan256.cpp', 'scan512.cpp',
        'script_segmenter.cpp', 'simd_detector.cpp', 'ucd.cpp', 'utf8.cpp', 'width.cpp', 'word_segmenter.cpp']

_hh = None


def harness_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        d = os.path.join(VERIF, 'harness')
        for f in sorted(os.listdir(d)): h.update(open(os.path.join(d, f), 'rb').read())
        h.update(open(__file__, 'rb').read())
        _hh = h.hexdigest()
    return _hh


def edit(t, noinline, strip):
    rn = [re.compile(x) for x in noinline]; rs = [re.compile(x) for x in strip]
    out = []; lines = t.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            n = m.group(1)
            if any(r.search(n) for r in rs):
                d = l[:l.rindex('{')].replace('define ', 'declare ', 1)
                d = re.sub(r'\b(linkonce_odr|weak_odr|internal|linkonce|dso_local|available_externally|hidden)\b ', '', d)
                d = re.sub(r' comdat(\([^)]*\))?', '', d); d = re.sub(r' personality ptr @\w+', '', d)
                d = re.sub(r' align 2$| align \d+ *$', '', d.strip())
                d = re.sub(r' !\w+ !\d+', '', d)
                out.append(d)
                while lines[i] != '}': i += 1
                i += 1; continue
            if any(r.search(n) for r in rn):
                l = re.sub(r'(\) (?:local_unnamed_addr |unnamed_addr )?)(#\d+)', r'\1noinline \2', l, count=1)
        out.append(l); i += 1
    return '\n'.join(out)
