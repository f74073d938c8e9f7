"""mkseed.py DEFS.py [ID...]: writes seeded/<id>/ from a definition file and validates each one against a private copy of /repo
(bind-mounted over /repo in a mount namespace of its own): clean demo = 0, build, stable tests pass, patched demo != 0."""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/seedwork'
PRE = '''#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace unicode;
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd /repo after build.sh
d=$(cd "$(dirname "$0")" && pwd)
L=/repo/_build/src/libunicode
g++ -std=c++20 -O1 -w -I/repo/src "$d/demo.cpp" -L$L -Wl,-rpath,$L -lunicode -lunicode_ucd -o /repo/_build/seed_demo || exit 2
timeout 120 /repo/_build/seed_demo
'''
def ns(copy, script):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def one(a):
    k, s, slot = a
    d = '%s/seeded/%s' % (V, k); os.makedirs(d, exist_ok=True)
    c = '%s/%s' % (W, k)
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    edits = s['edits']
    for f, old, new in edits:
        p = '%s/src/libunicode/%s' % (c, f); t = open(p).read()
        if t.count(old) != 1: return k, 'edit matches %d times in %s' % (t.count(old), f)
        open(p, 'w').write(t.replace(old, new))
    patch = subprocess.run(['git', '-C', c, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.cpp', 'w').write(PRE + s['demo']); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', c, 'checkout', '-q', '--', '.'], check=True)
    # the copy's build is that of the unchanged tree (touch nothing)
    r = ns(c, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
    if r.returncode: return k, 'clean demo fails %d: %s' % (r.returncode, r.stdout[-600:])
    subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], check=True)
    r = ns(c, 'bash /opt/vp/test.sh %s/o.json' % c)
    try: o = json.load(open(c + '/o.json'))
    except Exception: return k, 'no results: ' + r.stdout[-800:]
    b = json.load(open('/opt/vp/BASELINE.json')); st = b.get('stable') or b.get('tests') or b.get('passed') or b
    bad = [t for t in st if t not in o['passed']]
    if bad: return k, 'tests fail: %s %s' % (len(bad), bad[:5])
    r = ns(c, 'bash %s/demo.sh' % d)
    if not r.returncode: return k, 'demo passes with the patch'
    return k, 'ok (demo rc %d: %s)' % (r.returncode, r.stdout.strip()[-80:])
if __name__ == '__main__':
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(defs)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    with ThreadPoolExecutor(3) as ex:
        for k, m in ex.map(one, [(k, defs[k], i) for i, k in enumerate(ids)]):
            print(k, m, flush=True)
            if not m.startswith('ok'): shutil.rmtree('%s/seeded/%s' % (V, k), ignore_errors=True)
            shutil.rmtree('%s/%s' % (W, k), ignore_errors=True)
