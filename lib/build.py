"""Builds /repo's current working tree with sanitizers, outside /repo.

Each object is cached under a key that covers the compiler flags, the .cc file's
content and the content of every header, so a build always reflects the tree.
"""
import hashlib, os, subprocess, sys, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

DEFS = ['-DHAVE_DECL_FGETC_UNLOCKED', '-DHAVE_DECL_FMEMOPEN',
        '-DHAVE_DECL_FPUTC_UNLOCKED', '-DHAVE_DECL_FPUTS_UNLOCKED',
        '-DHAVE_DECL_FREAD_UNLOCKED', '-DHAVE_DECL_FWRITE_UNLOCKED',
        '-DHAVE_GETOPT_LONG', '-DPACKAGE_VERSION="3.8.4"', '-D_GNU_SOURCE',
        '-D_POSIX_C_SOURCE=200112', '-DNDEBUG', '-DLTTOOLBOX_VERIF']
INCS = ['-I/usr/include/libxml2', '-I/usr/include/utf8cpp', '-I' + REPO,
        '-I' + REPO + '/lttoolbox']
COMMON = ['-std=c++20', '-w', '-fno-omit-frame-pointer', '-pthread']
VARIANTS = {
    'asan': ['clang++', '-O1', '-gline-tables-only', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['clang++', '-O1', '-gline-tables-only', '-fsanitize=thread'],
    'plain': ['clang++', '-O2', '-gline-tables-only', '-D_GLIBCXX_ASSERTIONS'],
}
LIBS = ['-lxml2', '-licuuc', '-licuio', '-licui18n', '-licudata', '-pthread', '-ldl']


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-6000:]))


def _compile(src, flags, key, objdir):
    obj = os.path.join(objdir, key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        _run(flags + ['-c', src, '-o', tmp])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def _prune(d, keep):
    fs = sorted(glob.glob(d + '/*'), key=os.path.getmtime)
    for f in fs[:-keep]:
        if os.path.isdir(f):
            shutil.rmtree(f, ignore_errors=True)
        else:
            os.unlink(f)


def build(variant='asan', harness=()):
    """Returns the directory that holds the tools (lt-proc, ...) and the harness
    programs asked for, built from REPO's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, harness)


def _build(variant, harness):
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    flags = VARIANTS[variant] + COMMON + DEFS + INCS
    headers = sorted(glob.glob(REPO + '/lttoolbox/*.h') + glob.glob(REPO + '/lttoolbox/*.hpp'))
    hkey = _sha(*[x for h in headers for x in (h, _read(h))])
    srcs = sorted(glob.glob(REPO + '/lttoolbox/*.cc'))
    mains, lib = [], []
    for s in srcs:
        b = os.path.basename(s)
        if b == 'check-cstdint.cc':
            continue
        if b.startswith('lt_') and b != 'lt_locale.cc':
            mains.append(s)
        else:
            lib.append(s)
    hs = [os.path.join(VERIF, 'harness', h + '.cc') for h in harness]
    hh = sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))
    hhkey = _sha(*[_read(h) for h in hh]) if hh else ''
    keys = {s: _sha(' '.join(flags), hkey, s, _read(s)) for s in lib + mains}
    keys.update({s: _sha(' '.join(flags), hkey, hhkey, s, _read(s)) for s in hs})
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # biggest first
        order = sorted(keys, key=lambda s: -os.path.getsize(s))
        objs = dict(zip(order, ex.map(lambda s: _compile(s, flags, keys[s], objdir), order)))
    libkey = _sha(variant, *[keys[s] for s in lib])
    outroot = os.path.join(BUILD, 'bin')
    out = os.path.join(outroot, variant + '-' + _sha(libkey, *[keys[s] for s in mains])[:24])
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    ar = os.path.join(out, 'liblt.a')
    if not os.path.exists(ar):
        tmp = ar + '.tmp'
        if os.path.exists(tmp):
            os.unlink(tmp)
        _run(['ar', 'rcs', tmp] + [objs[s] for s in lib])
        os.replace(tmp, ar)

    def link(s):
        b = os.path.basename(s)[:-3].replace('_', '-')
        exe = os.path.join(out, b)
        stamp = exe + '.' + keys[s][:12]
        if not (os.path.exists(exe) and os.path.exists(stamp)):
            tmp = exe + '.tmp'
            _run(VARIANTS[variant] + ['-pthread', objs[s], ar, '-o', tmp] + LIBS)
            os.replace(tmp, exe)
            open(stamp, 'w').close()
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(link, mains + hs))
    for alias in ('lsx-comp',):
        p = os.path.join(out, alias)
        if not os.path.lexists(p):
            os.symlink('lt-comp', p)
    _prune(objdir, 900)
    _prune(outroot, 8)
    return out


def binding():
    """Returns the directory of the SWIG Python module, built with sanitizers from REPO's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.binding'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _binding()


def _binding():
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    inc = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                         capture_output=True, text=True, check=True).stdout.strip()
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-shared-libasan']
    flags = ['clang++', '-O1', '-gline-tables-only', '-fPIC'] + san + COMMON + DEFS + INCS + ['-I' + inc]
    headers = sorted(glob.glob(REPO + '/lttoolbox/*.h') + glob.glob(REPO + '/lttoolbox/*.hpp'))
    iface = REPO + '/python/lttoolbox.i.in'
    hkey = _sha(' '.join(flags), *[x for h in headers for x in (h, _read(h))])
    srcs = [s for s in sorted(glob.glob(REPO + '/lttoolbox/*.cc'))
            if os.path.basename(s) == 'lt_locale.cc' or not os.path.basename(s).startswith(('lt_', 'check-cstdint'))]
    keys = {s: _sha(hkey, s, _read(s)) for s in srcs}
    key = _sha(hkey, _read(iface), *[keys[s] for s in srcs])[:24]
    out = os.path.join(BUILD, 'bin', 'binding-' + key)
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    so = os.path.join(out, '_lttoolbox.so')
    if not os.path.exists(so):
        with open(out + '/lttoolbox.i', 'wb') as f:
            f.write(_read(iface))       # configured without substitutions
        wrap = out + '/wrap.cpp'
        _run(['swig', '-c++', '-python', '-I' + REPO, '-outdir', out, '-o', wrap, out + '/lttoolbox.i'])
        keys[wrap] = _sha(hkey, key, 'wrap')
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda s: _compile(s, flags, keys[s], objdir), [wrap] + srcs))
        _run(['clang++', '-shared'] + san + objs + ['-o', so + '.tmp'] + LIBS)
        os.replace(so + '.tmp', so)
    with open(out + '/bind.tmp', 'w') as f:
        f.write('#!/bin/bash\nASAN_OPTIONS=$ASAN_OPTIONS:detect_leaks=0 PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 '
                'LD_PRELOAD=%s exec /usr/bin/python3 -I -S %s/harness/bind.py %s "$@"\n' % (asan_runtime(), VERIF, out))
    os.chmod(out + '/bind.tmp', 0o755)
    os.replace(out + '/bind.tmp', out + '/bind')
    return out


def asan_runtime():
    return subprocess.run(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True, check=True).stdout.strip()


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'asan', sys.argv[2:]))
