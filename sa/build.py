"""Builds the extractor and lowers /repo's current sources (plus /verif driver TUs) to JSON IR."""
import os, subprocess, sys, json, hashlib, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CXX = LLVM + '/clang++'


class Broken(Exception):
    """The analysis itself could not be carried out: neither a pass nor a violation."""


def workdir():
    d = os.environ.get('VERIF_WORK') or os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


def irx():
    src = os.path.join(VERIF, 'tools', 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(workdir(), 'irx-' + h)
    if os.path.exists(out):
        return out
    lock = open(os.path.join(workdir(), 'irx.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(out):
        flags = run([LLVM + '/llvm-config', '--cxxflags', '--ldflags', '--libs', '--system-libs']).stdout.split()
        p = run(['g++', '-std=c++17', '-O1', src, '-o', out + '.tmp'] + flags + ['-fno-rtti', '-w'])
        if p.returncode:
            raise Broken('cannot build irx: ' + p.stderr[-2000:])
        os.rename(out + '.tmp', out)
    return out


CFLAGS = ['-std=c++11', '-DHAVE_PTHREADS', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions',
          '-fno-threadsafe-statics', '-fno-discard-value-names', '-w', '-emit-llvm', '-c']


def includes():
    return ['-I' + REPO + '/rx', '-I' + REPO + '/include', '-I' + REPO + '/src']


def compile_bc(src, tmp, extra=()):
    out = os.path.join(tmp, os.path.basename(src) + '.' + hashlib.md5((src + repr(extra)).encode()).hexdigest()[:6] + '.bc')
    lang = ['-x', 'c++'] if src.endswith('.c') else []
    p = run([CXX] + CFLAGS + list(extra) + includes() + ['-I' + VERIF + '/drivers'] + lang + [src, '-o', out], cwd='/')
    if p.returncode:
        raise Broken('cannot compile %s:\n%s' % (src, p.stderr[-3000:]))
    return out


def lower(srcs, roots=(), keep=(), inline=True, passes=None, extra=(), internal=False):
    """srcs: driver file names (in /verif/drivers) or repo-relative paths. Returns parsed JSON."""
    from concurrent.futures import ThreadPoolExecutor
    tool = irx()
    with tempfile.TemporaryDirectory(prefix='vsa') as tmp:
        paths = [s if s.startswith('/') else (os.path.join(VERIF, 'drivers', s) if os.path.exists(os.path.join(VERIF, 'drivers', s))
                 else os.path.join(REPO, s)) for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda s: compile_bc(s, tmp, extra), paths))
        out = os.path.join(tmp, 'out.json')
        cmd = [tool, out] + ['--root=' + r for r in roots] + ['--keep=' + k for k in keep]
        if not inline:
            cmd.append('--no-inline')
        if internal:
            cmd.append('--internal')
        if passes:
            cmd.append('--passes=' + passes)
        p = run(cmd + bcs)
        if p.returncode:
            raise Broken('irx failed: ' + p.stderr[-2000:])
        with open(out) as f:
            return json.load(f)


LIBSRC = ['src/char_encoding.cpp', 'src/condition.cpp', 'src/lockfree.cpp', 'src/thread.cpp', 'src/variant.cpp']
RXSRC = ['rx/rxcompile.cpp', 'rx/rxmatch.cpp', 'rx/rxdump.cpp']
