#!/usr/bin/env python3
# seed.py save ID "property" "needs" "breaks"   : current diff of /tmp/sr -> seeded/ID
# seed.py verify ID...       : build + stable tests + demo with the patch (in /tmp/sr), demo without (in /repo)
import json, os, shutil, subprocess as sp, sys, time
SR = '/tmp/sr'; V = '/verif/seeded'
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
def save(i, prop, needs, breaks):
    d = f'{V}/{i}'; os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {SR} diff').stdout
    assert diff.strip()
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    if not os.path.exists(f'{d}/demo.sh'):
        shutil.copy('/verif/tools/demo.sh', f'{d}/demo.sh')
    os.chmod(f'{d}/demo.sh', 0o755)
    sh(f'git -C {SR} checkout -- .')
    print(sh(f'git -C /repo apply --check {d}/patch.diff').stdout or 'applies')
def results():
    r = {}
    for l in open(f'{SR}/_build/reports/results.txt'):
        a, b = l.rstrip('\n').split(' ', 1); r[b] = a
    return r
def verify(ids):
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', CCACHE_DISABLE='1')
    for i in ids:
        d = f'{V}/{i}'; t = time.time(); sh(f'git -C {SR} checkout -- .')
        a = sh(f'bash {d}/demo.sh', cwd='/repo'); 
        print(i, 'demo clean rc', a.returncode, '' if a.returncode == 0 else a.stdout[-1500:], flush=True)
        print(sh(f'git -C {SR} apply {d}/patch.diff').stdout, end='')
        p = sh(f'cd {SR}/_build && /usr/bin/python3 /opt/vp/tachyon_build/gen.py {SR} {SR}/_build && ninja -k 0', env=env)
        if p.returncode: print(i, 'BUILD FAILED', p.stdout[-1500:]); sh(f'git -C {SR} checkout -- .'); continue
        sh(f'rm -rf {SR}/_build/reports; mkdir {SR}/_build/reports; /usr/bin/python3 /opt/vp/tachyon_build/run_tests.py {SR}/_build', env=env)
        r = results(); bad = [s for s in stable if r.get(s) != 'PASS']
        b = sh(f'bash {d}/demo.sh', cwd=SR)
        print(i, 'broken stable tests', len(bad), bad[:5], 'demo patched rc', b.returncode, b.stdout[-300:].strip(),
              'OK' if not bad and b.returncode not in (0, 2) and a.returncode == 0 else 'NOT-OK', f'{time.time()-t:.0f}s', flush=True)
        sh(f'git -C {SR} checkout -- .')
if sys.argv[1] == 'save': save(*sys.argv[2:6])
else: verify(sys.argv[2:])
