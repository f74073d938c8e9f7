"""runseed.py [ID...]: applies each seeded patch to a private copy of /repo and runs its property's check against it"""
import sys, os, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + k; p = json.load(open(d + '/meta.json'))['property']
    c, b = '/tmp/w/rs/' + k, '/tmp/w/rs/' + k + '.b'
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(b, ignore_errors=True); os.makedirs('/tmp/w/rs', exist_ok=True)
    subprocess.run('git -C /repo worktree list >/dev/null; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff' % (c, c, c, d), shell=True, check=True)
    t = time.time()
    r = subprocess.run(['python3-vt', V + '/checks/run.py', p], env=dict(os.environ, VERIF_REPO=c, VERIF_BUILD=b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
    print(k, p, 'rc', r.returncode, '%.0fs' % (time.time() - t), l[:1] or r.stdout[-300:], flush=True)
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(b, ignore_errors=True)
