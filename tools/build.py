#!/usr/bin/env python3
"""Builds the library from /repo's working tree plus one harness.

Objects are cached in /verif/build by a hash of everything they depend on (all
headers, the source file, the flags), so nothing stale is ever linked."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('F3D_REPO', '/repo')
BUILD = os.environ.get('F3D_BUILD', os.path.join(VERIF, 'build'))

BASE = ('-std=gnu++14 -w -O1 -gline-tables-only -fno-omit-frame-pointer '
        '-DBOOST_TIMER_ENABLE_DEPRECATED -DREQUIRE_IOSTREAM -pthread').split()
LIBS = ('-lhdf5_serial -lIex-3_1 -lIlmThread-3_1 -lImath-3_1 -lboost_regex -lboost_thread -lboost_program_options '
        '-lboost_system -lpthread -ldl -lz').split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode()); h.update(read(p))
    return h.hexdigest()

def lib_sources():
    # every library source of the working tree (the build globs nothing, so follow the
    # list in CMakeLists.txt, plus files src/ has that the list leaves out)
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
    order = ['MIPFieldIO.cpp', 'Field3DFile.cpp', 'SparseFieldIO.cpp', 'DenseFieldIO.cpp', 'Field3DFileHDF5.cpp']
    return [s for s in order if s in srcs] + [s for s in srcs if s not in order]

def build(harness_srcs, san='address', extra=(), libs=(), tools=(), want_lib=True, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(BUILD, 'inc')
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, 'Field3D')
    if os.path.islink(link) and os.readlink(link) != os.path.join(REPO, 'export'):
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(os.path.join(REPO, 'export'), link)
    incs = []
    for d in (inc, os.path.join(VERIF, 'harness', 'compat'), REPO, REPO + '/src', REPO + '/export', REPO + '/include',
              '/usr/include/hdf5/serial', '/usr/include/Imath', '/usr/include/OpenEXR'):
        incs += ['-I', d]
    flags = BASE + list(extra) + (['-fsanitize=' + san] if san else [])
    cxx = os.environ.get('F3D_CXX', 'clang++')
    hdr = tree_hash([REPO + '/export', REPO + '/include', os.path.join(VERIF, 'harness', 'compat')], ('.h', '.hpp'))
    hdr += tree_hash([REPO + '/src'], ('.h',))
    hh = tree_hash([os.path.join(VERIF, 'harness')], ('.h',))
    pch_src = os.path.join(VERIF, 'harness', 'pch.h')
    pch_key = digest(read(pch_src), os.stat(pch_src).st_mtime_ns, cxx, ' '.join(flags), inc)
    pch = os.path.join(BUILD, 'pch-%s.pch' % pch_key)
    if not os.path.exists(pch):
        r = sh([cxx] + flags + incs + ['-x', 'c++-header', pch_src, '-o', pch + '.tmp%d' % os.getpid()])
        if r.returncode:
            raise RuntimeError('pch:\n' + r.stdout)
        os.rename(pch + '.tmp%d' % os.getpid(), pch)
    jobs, objs, appobjs = [], [], {}
    def add(src, key_extra, out_list, xflags=()):
        key = digest(read(src), os.path.basename(src), hdr, key_extra, cxx, ' '.join(flags), ' '.join(xflags), pch_key)
        o = os.path.join(BUILD, '%s-%s.o' % (os.path.basename(src)[:-4], key))
        out_list.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, list(xflags)))
    libobjs, harnobjs = [], []
    srcs = lib_sources()
    if want_lib:
        for s in srcs[:5]:
            add(os.path.join(REPO, 'src', s), '', libobjs)
    for h in harness_srcs:
        add(h, hh, harnobjs)
    if want_lib:
        for s in srcs[5:]:
            add(os.path.join(REPO, 'src', s), '', libobjs)
    for t in tools:
        l = []
        add(os.path.join(REPO, 'apps', t, 'main.cpp'), '', l)
        appobjs[t] = l
    def comp(j):
        src, o, xf = j
        tmp = o + '.tmp%d' % os.getpid()
        r = sh([cxx] + flags + xf + ['-include-pch', pch] + incs + ['-c', src, '-o', tmp])
        if r.returncode == 0:
            os.rename(tmp, o)
        return src, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for src, rc, out in ex.map(comp, jobs):
            if rc:
                raise RuntimeError('compiling %s failed:\n%s' % (src, out[-6000:]))
    res = {}
    def ln(name, olist):
        key = digest(*(olist + [' '.join(flags), ' '.join(libs)]))
        exe = os.path.join(BUILD, '%s-%s' % (name, key))
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            r = sh([cxx] + flags + olist + ['-o', tmp] + list(libs) + LIBS)
            if r.returncode:
                raise RuntimeError('linking %s failed:\n%s' % (name, r.stdout[-6000:]))
            os.rename(tmp, exe)
        return exe
    if harnobjs:
        res['harness'] = ln(os.path.basename(harness_srcs[0])[:-4], harnobjs + libobjs)
    for t in tools:
        res[t] = ln('app_' + t, appobjs[t] + libobjs)
    return res

def prune(max_bytes=6 << 30):
    """Keeps the cache bounded."""
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in
              (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p)]
    except FileNotFoundError:
        return
    tot = sum(f[1] for f in fs)
    for m, sz, p in sorted(fs):
        if tot < max_bytes:
            break
        if time.time() - m > 3600:
            os.unlink(p); tot -= sz

if __name__ == '__main__':
    if '--setup' in sys.argv:
        for need in ('clang++',):
            if shutil.which(need) is None:
                sys.exit(need + ' is missing')
        print('ready: every check builds what it needs from ' + REPO)
