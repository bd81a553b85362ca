#!/usr/bin/env python3
"""Out-of-tree build of /repo's current sources plus the harness.

Every object is keyed by the content of the flags, its source and every header
its last compilation read, so a check always runs what /repo contains now."""
import hashlib, json, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(VERIF, 'build'))
CXX = 'g++'   # the compiler the repository builds with; clang rejects xmiwriter.cpp
JDK = '/usr/lib/jvm/java-17-openjdk-amd64/include'
INC = ['-I', REPO + '/src/framework', '-I', REPO + '/src/cas', '-I', REPO + '/src/jni',
       '-I', '/usr/include/apr-1.0', '-I', JDK, '-I', JDK + '/linux']
DEFS = ['-DNDEBUG', '-DTRACEOFF', '-DUIMA_PREFIX=/nonexistent-prefix', '-DUIMA_VERSION=2.4.0',
        '-D_REENTRANT', '-D_GNU_SOURCE', '-D_LARGEFILE64_SOURCE', '-DLINUX']
BASE = ['-std=gnu++17', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-O1', '-g1', '-fno-omit-frame-pointer', '-fPIC', '-w', '-fno-strict-aliasing']
LIBS = ['-lxerces-c', '-lapr-1', '-licuuc', '-licudata', '-licui18n', '-lpthread', '-ldl']
VARIANTS = {
    # Sanitised library, with coverage counters for the guided search.
    'asan': dict(lib=['-fsanitize=address', '-fsanitize-coverage=trace-pc'],
                 har=['-fsanitize=address'],
                 link=['-fsanitize=address']),
}


def sh(b):
    return hashlib.sha256(b).hexdigest()


_cache = {}


def fhash(p):
    h = _cache.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = sh(f.read())
        except OSError:
            h = 'missing'
        _cache[p] = h
    return h


def fail(msg):
    sys.stderr.write(msg + '\n')
    sys.exit(2)


def parse_deps(d):
    try:
        s = open(d).read()
    except OSError:
        return None
    s = s.replace('\\\n', ' ')
    return [x for x in s.split(':', 1)[1].split() if not x.startswith('/usr/')]


def compile_one(args):
    src, obj, cmd = args
    dep, stamp = obj + '.d', obj + '.key'
    deps = parse_deps(dep) if os.path.exists(obj) else None
    base = json.dumps(cmd)
    if deps is not None and os.path.exists(stamp):
        key = sh((base + ''.join(p + fhash(p) for p in deps)).encode())
        if open(stamp).read() == key:
            return key, None
    r = subprocess.run(cmd + ['-MD', '-MF', dep, '-c', src, '-o', obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if os.path.exists(stamp):
            os.unlink(stamp)
        return None, 'compiling %s failed:\n%s' % (src, r.stdout[-4000:])
    key = sh((base + ''.join(p + fhash(p) for p in parse_deps(dep))).encode())
    with open(stamp, 'w') as f:
        f.write(key)
    return key, None


def lib_sources():
    mk = open(REPO + '/src/framework/Makefile.am').read()
    s = re.findall(r'^libuima_la_SOURCES\s*\+?=\s*(\S+)', mk, re.M)
    return [os.path.normpath(os.path.join(REPO, 'src/framework', x)) for x in s]


def link(out, objs, keys, cmd):
    key = sh((json.dumps(cmd) + ''.join(keys)).encode())
    if os.path.exists(out) and os.path.exists(out + '.key') and open(out + '.key').read() == key:
        return False
    r = subprocess.run(cmd + ['-o', out + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        fail('linking %s failed:\n%s' % (out, r.stdout[-4000:]))
    os.replace(out + '.tmp', out)
    with open(out + '.key', 'w') as f:
        f.write(key)
    return True


def build(variant='asan', verbose=False):
    v = VARIANTS[variant]
    root = os.path.join(BUILD, variant)
    os.makedirs(root + '/lib', exist_ok=True)
    os.makedirs(root + '/har', exist_ok=True)
    os.makedirs(root + '/bin', exist_ok=True)
    lock = open(root + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    for s in lib_sources():
        o = root + '/lib/' + os.path.relpath(s, REPO + '/src').replace('/', '_') + '.o'
        jobs.append((s, o, [CXX] + BASE + DEFS + ['-D_UIMA_LIBRARY_'] + INC + v['lib']))
    nlib = len(jobs)
    H = VERIF + '/harness'
    for d in ('core', 'checks'):
        for f in sorted(os.listdir(H + '/' + d)):
            if f.endswith('.cpp'):
                jobs.append((H + '/' + d + '/' + f, root + '/har/' + d + '_' + f + '.o',
                             [CXX] + BASE + DEFS + ['-I', H + '/core'] + INC + v['har']))
    nhar = len(jobs)
    plug = []
    if os.path.isdir(H + '/plugins'):
        for f in sorted(os.listdir(H + '/plugins')):
            if f.endswith('.cpp'):
                plug.append((H + '/plugins/' + f, root + '/har/plugin_' + f + '.o',
                             [CXX] + BASE + DEFS + ['-I', H + '/core'] + INC + v['har']))
    jobs += plug
    # The executable runAECpp, from the same sources
    run = REPO + '/src/utils/runAECpp.cpp'
    jobs.append((run, root + '/har/runAECpp.o', [CXX] + BASE + DEFS + INC + v['har']))
    jobs.append((H + '/stub/cov_stub.cpp', root + '/har/cov_stub.o', [CXX] + BASE))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    errs = [e for k, e in res if e]
    if errs:
        fail('\n'.join(errs[:3]))
    keys = [k for k, e in res]
    objs = [j[1] for j in jobs]
    exe = root + '/bin/vt'
    link(exe, objs, keys[:nhar], [CXX] + v['link'] + ['-rdynamic'] + objs[:nhar] + LIBS)
    for i, p in enumerate(plug):
        n = os.path.basename(p[0])[:-4]
        link(root + '/bin/' + n + '.so', [p[1]], [keys[nhar + i]],
             [CXX, '-shared', p[1]])
    link(root + '/bin/runAECpp', [], keys[:nlib] + keys[-2:],
         [CXX] + v['link'] + ['-rdynamic'] + objs[:nlib] + objs[-2:] + LIBS)
    lock.close()
    return exe


if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['asan'])))
