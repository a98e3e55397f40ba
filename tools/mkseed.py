"""mkseed.py SPEC.py...: creates /verif/seeded/<id>/ from specs and validates each one.
A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks, flags='')].
Validation in a scratch copy of /repo: builds, the stable tests still pass, demo ok without / fails with the patch; then which checks catch it."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the property's demonstration holds
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
%s
'''
BODY = 'g++ -std=c++11 -w -g -DHAVE_PTHREADS %s-Iinclude -Irx -Isrc "$here/demo.cpp" %s -o "$d/demo" -lpthread || exit 98\n%stimeout 120 "$d/demo"'

def sh(cmd, cwd=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = os.path.join(w, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit matches %d times in %s: %s' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        # only original lines may be changed
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        for f in sorted({e[0] for e in s['edits']}):
            out = subprocess.check_output(['git', '-C', r, 'diff', '-U0', f], text=True)
            import re
            lines = []
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', out, re.M):
                n = int(m.group(2)) if m.group(2) is not None else 1
                lines += list(range(int(m.group(1)), int(m.group(1)) + n))
            orig = 0
            for l in lines:
                b = subprocess.check_output(['git', '-C', r, 'blame', '-L', '%d,%d' % (l, l), 'HEAD', '--', f], text=True)
                if b.startswith('^'): orig += 1
                else: print('   note: line %d of %s is from a fix commit' % (l, f))
            if not orig: return 'changes no original line in ' + f
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
        srcs = s.get('srcs', 'src/*.cpp')
        body = BODY % (s.get('flags', '') + ' ' if s.get('flags') else '', srcs, s.get('pre', ''))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % body)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        c, o = sh('bash %s/demo.sh' % d, cwd='/repo')
        if c: return 'demo fails on the unchanged tree: %d %s' % (c, o[-600:])
        c, o = sh('bash %s/demo.sh' % d, cwd=r)
        if c == 0: return 'demo passes with the patch'
        if c in (98, 99) and not s.get('nocompile'): return 'demo does not compile with the patch ' + o[-800:]
        if '--notest' not in sys.argv:
            try:
                subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
                c, o = sh('bash /opt/vp/test.sh %s/out.json' % w)
                if c: return 'build/test failed: ' + o[-800:]
                passed = set(json.load(open(w + '/out.json'))['passed'])
            finally:
                subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
            base = json.load(open('/opt/vp/BASELINE.json'))
            want = base.get('passed') or base.get('tests') or base.get('stable')
            missing = [t for t in want if t not in passed]
            if missing: return 'tests fail: %d, e.g. %s' % (len(missing), missing[:3])
        if '--nocheck' in sys.argv: return 'VALID'
        env = 'VERIF_REPO=%s VERIF_EVIDENCE=%s/ev ' % (r, w)
        c, o = sh(env + 'python3 %s/checks/check.py %s' % (V, s['property']), cwd=V)
        return ('CAUGHT ' if c == 1 and 'VIOLATION property=' + s['property'] in o else 'MISSED (%d) ' % c) + '\n     '.join(o.splitlines()[-4:])[:700]
    finally:
        shutil.rmtree(w)

only = [a[3:] for a in sys.argv[1:] if a.startswith('id=')]
for spec in [a for a in sys.argv[1:] if a.endswith('.py')]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        print(s['id'], '->', make(s), flush=True)
subprocess.call('bash /opt/vp/build.sh >/dev/null 2>&1', shell=True)
