"""Builds what a check needs from /repo's current working tree, outside /repo:
generated headers (with the repository's own generators, through the sandbox's
gen.py + ninja), the LLVM IR of the harness (clang, no LLVM optimisation except
mem2reg/sroa) and a native shared object of the same harness with the project's own
compiler and flags (gcc -O2) for replay."""
import os, subprocess, sys, time, fcntl, hashlib, re, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TVC_REPO', '/repo')
B = os.environ.get('TVC_BUILD', os.path.join(VERIF, '.build', 'w'))
GEN = '/opt/vp/tachyon_build/gen.py'
INC = '-I. -Ibazel-out/k8-opt/bin -isystem /opt/vp/tachyon_build/include -isystem /opt/vp/tachyon_build/googletest/googletest/include -isystem /opt/vp/tachyon_build/googletest/googlemock/include'
CLANG = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
BASEOBJ = '''tachyon/base/buffer/_objs/buffer/buffer tachyon/base/buffer/_objs/read_only_buffer/read_only_buffer
tachyon/base/buffer/_objs/vector_buffer/vector_buffer tachyon/base/_objs/endian/endian
tachyon/base/_objs/logging/logging tachyon/base/_objs/random/random tachyon/base/json/_objs/rapidjson_util/rapidjson_util
tachyon/base/files/_objs/file_util/file_enumerator tachyon/base/files/_objs/file_util/file_util tachyon/base/files/_objs/file_util/file_enumerator_posix
tachyon/base/files/_objs/file_util/file_util_posix tachyon/base/files/_objs/file/file tachyon/base/files/_objs/file/file_posix
tachyon/base/files/_objs/file_path/file_path tachyon/base/strings/_objs/string_util/string_util tachyon/base/files/_objs/scoped_file/scoped_file
tachyon/base/files/_objs/scoped_file/scoped_file_linux tachyon/base/time/_objs/time/time tachyon/base/time/_objs/time/time_now_posix
tachyon/base/time/_objs/time/time_conversion_posix tachyon/base/_objs/bits/bits tachyon/base/_objs/environment/environment_posix
tachyon/math/base/_objs/big_int/big_int tachyon/math/base/gmp/_objs/gmp_util/gmp_util tachyon/math/base/_objs/sign/sign
tachyon/math/finite_fields/_objs/prime_field_util/prime_field_util
tachyon/base/strings/_objs/string_number_conversions/string_number_conversions'''.split()
BASEOBJ = ['bazel-out/k8-opt/bin/' + x + '.o' for x in BASEOBJ]

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout

class Harness:
    """name: harness/<name>.cc ; objs: extra repo objects (ninja outputs) for the native link;
    irflags / flags: extra compiler flags; native: build the .so ; ir: build the IR"""
    def __init__(s, name, objs=(), flags='', src=None, native=True, ir=True, linkopts='', irflags='', nflags='', passes=''):
        s.name = name; s.objs = list(objs); s.flags = flags; s.src = src or os.path.join(VERIF, 'harness', name + '.cc')
        s.native = native; s.ir = ir; s.linkopts = linkopts; s.irflags = irflags; s.nflags = nflags; s.passes = passes

def setup():
    os.makedirs(B, exist_ok=True)
    for d in ('tachyon', 'third_party', 'bazel'):
        p = os.path.join(B, d)
        if os.path.islink(p): os.unlink(p)
        os.symlink(os.path.join(REPO, d), p)
    env = dict(os.environ, GIT_CONFIG_COUNT='1', GIT_CONFIG_KEY_0='safe.directory', GIT_CONFIG_VALUE_0=REPO, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(['/usr/bin/python3', GEN, REPO, B], cwd=B, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('gen.py: ' + r.stdout[-2000:])

def targets():
    rc, out = sh('ninja -t targets all')
    return [l.split(':')[0] for l in out.split('\n') if l.startswith('bazel-out')]
def sources(h, seen=None):
    """non-header sources a harness includes for the IR (and links natively)"""
    out = []; seen = set() if seen is None else seen
    def scan(path):
        if path in seen or not os.path.exists(path): return
        seen.add(path)
        for m in re.finditer(r'#include "([^"]+)"', open(path).read()):
            i = m.group(1)
            if i.endswith('.cc'): out.append(i)
            elif not i.startswith('tachyon'): scan(os.path.join(VERIF, 'harness', i))
    scan(h.src)
    return out
def headers(hs):
    return [h for h in hs if h.endswith('.h') and not re.search(r'gpu|_x86|_fail|/node/|/py/', h)]

def build(hs, jobs=8):
    """build a list of Harness; returns {name: (ll or None, so or None, error or None)}"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(os.path.dirname(B), 'lock'), 'w') if os.path.isdir(os.path.dirname(B)) else None
    if lock: fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        setup()
        os.makedirs(os.path.join(B, 'tvc'), exist_ok=True)
        tg = targets(); hdr = headers(tg); tset = set(tg)
        objof = {}
        for t in tg:
            m = re.match(r'(.*)/_objs/[^/]+/([^/]+)\.o$', t)
            if m and '/test' not in t and 'unittest' not in t: objof.setdefault(m.group(1) + '/' + m.group(2) + '.cc', t)
        for h in hs:
            h.ccdeps = []
            for i in sources(h):
                g = 'bazel-out/k8-opt/bin/' + i
                if g in tset: h.ccdeps.append(g)
                o = objof.get(g)
                if o and o not in h.objs and o not in BASEOBJ: h.objs.append(o)
        link = None
        for L in open(os.path.join(B, 'build.ninja')):
            m = re.match(r'\s*command = (g\+\+ -pthread -o \$out @\$out.rsp \$extra .*)', L)
            if m: link = m.group(1)
        link = link.replace('g++ -pthread', 'g++ -pthread -rdynamic', 1)
        n = ['include build.ninja',
             'rule tvcir',
             '  command = %s -std=c++17 $fl -msse3 -fexceptions -fno-rtti -DNDEBUG -DTVC_IR -fPIC %s -w -O1 -Xclang -disable-llvm-passes -fno-threadsafe-statics -I%s -MD -MF $out.d -S -emit-llvm $in -o $out.raw && %s -S -passes="$passes" $out.raw -o $out && rm -f $out.raw' % (CLANG, INC, VERIF + '/harness', OPT),
             '  depfile = $out.d', '  deps = gcc',
             'rule tvcobj',
             '  command = g++ -std=c++17 $fl -msse3 -fexceptions -fno-rtti $common -I%s -MD -MF $out.d -c $in -o $out' % (VERIF + '/harness'),
             '  depfile = $out.d', '  deps = gcc',
             'rule tvclink', '  command = ' + link, '  rspfile = $out.rsp', '  rspfile_content = $in',
             'build tvc/server.o: tvcobj %s' % (VERIF + '/harness/server.cc'), '  fl =',
             'build tvc/headers: phony ' + ' '.join(hdr)]
        goals = []
        for h in hs:
            if h.ir:
                n += ['build tvc/%s.ll: tvcir %s || tvc/headers' % (h.name, h.src + (' | ' + ' '.join(h.ccdeps) if h.ccdeps else '')), '  fl = ' + h.flags + ' ' + h.irflags, '  passes = always-inline,function(sroa%s)' % (',' + h.passes if h.passes else '')]
                goals.append('tvc/%s.ll' % h.name)
            if h.native:
                objs = ' '.join(dict.fromkeys(BASEOBJ + ['bazel-out/k8-opt/bin/' + o if not o.startswith('bazel-out') else o for o in h.objs]))
                n += ['build tvc/%s.o: tvcobj %s || tvc/headers' % (h.name, h.src), '  fl = ' + h.flags + ' ' + h.nflags,
                      'build tvc/%s.exe: tvclink tvc/server.o tvc/%s.o %s' % (h.name, h.name, objs), '  extra = ', '  linkopts = -ldl -lgmpxx -lgmp ' + h.linkopts]
                goals.append('tvc/%s.exe' % h.name)
        nf = 'tvc_%d.ninja' % os.getpid()
        open(os.path.join(B, nf), 'w').write('\n'.join(n) + '\n')
        rc, out = sh('ninja -f %s -k 0 -j %d %s' % (nf, jobs, ' '.join(goals)), timeout=800)
        os.unlink(os.path.join(B, nf))
        res = {}
        full = out
        if rc:
            ls = out.split('\n')
            errs = [l[-500:] if len(l) >= 600 else l for l in ls if re.search(r'error|undefined reference|multiple definition|FAILED', l) and (len(l) < 600 or ': undefined' in l or ': multiple' in l)]
            out = '\n'.join(errs[:25]) or out[-2000:]
        ok = rc == 0
        dirty = set()
        if not ok:
            # which goals failed ?
            dirty = set(x for l in full.split('\n') if l.startswith('FAILED') for x in re.sub(r'FAILED: (\[[^\]]*\] )?', '', l).split())
        for h in hs:
            err = None
            ll = os.path.join(B, 'tvc/%s.ll' % h.name); so = os.path.join(B, 'tvc/%s.exe' % h.name)
            if not ok:
                gl = []
                if h.ir and ('tvc/%s.ll' % h.name) in dirty: gl.append('ir'); ll = None
                if h.native and (('tvc/%s.o' % h.name) in dirty or ('tvc/%s.exe' % h.name) in dirty or any(o in dirty for o in BASEOBJ + ['bazel-out/k8-opt/bin/' + x for x in h.objs])): gl.append('native'); so = None
                if any(d.endswith('.h') for d in dirty): gl.append('headers')
                if gl: err = ','.join(gl) + ': ' + out[-3000:]
            if h.ir and ll and not os.path.exists(ll): err = (err or '') + ' no IR: ' + out[-3000:]; ll = None
            if h.native and so and not os.path.exists(so): err = (err or '') + ' no native object: ' + out[-3000:]; so = None
            res[h.name] = (ll if h.ir else None, so if h.native else None, err)
        return res
    finally:
        if lock: fcntl.flock(lock, fcntl.LOCK_UN); lock.close()
