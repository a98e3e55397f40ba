"""Everything declared can be used: the type-checked program decides.

Witness programs (drivers/use) instantiate every template and call every member; each header is compiled first of all
in its own translation unit; every function the headers declare must have a body in them or in the library; the
witnesses and the library are linked, as two translation units that include every header, without undefined or
duplicate symbols; what const values and the types forbid is stated as static assertions and as uses that must not
compile.  Nothing is run."""
import glob
import json
import os
import re
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import Broken

CXX = ['-std=c++11', '-DHAVE_PTHREADS', '-w', '-fPIC']
USE = os.path.join(build.VERIF, 'drivers', 'use')
INCL = {'strformat.h': ['variant.h']}		# included by what it is a part of
FUNCS = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}


def cc(args, src=None):
    return build.run([build.CXX] + CXX + build.includes() + args + ([src] if src else []))


def rel(p):
    p = os.path.normpath(p)
    return p[len(build.REPO) + 1:] if p.startswith(build.REPO + '/') else os.path.relpath(p, build.VERIF) if p.startswith(build.VERIF) else p


def first_error(err):
    """(file in the repository if any is named, function, message) of what the compiler says first"""
    msg, at = None, None
    for l in err.split('\n'):
        m = re.match(r'(?:In file included from )?(/[^:]*):(\d+)(?::\d+)?:(?: (fatal error|error|note): (.*))?', l)
        if not m:
            continue
        if m.group(3) in ('error', 'fatal error'):
            if msg is not None:
                break
            msg, at = m.group(4), rel(m.group(1))
    return at or '?', msg or err[-300:]


def headers():
    return sorted(glob.glob(build.REPO + '/include/*.h')) + [build.REPO + '/rx/strregex.h']


def everything():
    hs = [os.path.basename(h) for h in headers()]
    return ''.join('#include <%s>\n' % h for h in ['variant.h'] + [h for h in hs if h != 'variant.h'])


def include(rep, tmp):
    def one(h):
        b = os.path.basename(h)
        f = os.path.join(tmp, 'inc_%s.cpp' % b)
        with open(f, 'w') as o:
            o.write(''.join('#include <%s>\n' % x for x in INCL.get(b, []) + [b, b]))
        return h, cc(['-fsyntax-only'], f)
    with ThreadPoolExecutor(8) as ex:
        for h, p in ex.map(one, headers()):
            if p.returncode:
                at, msg = first_error(p.stderr)
                rep.bad('include', at, os.path.basename(h), 'a program that includes %s first does not compile: %s' % (rel(h), msg), p.stderr.split('\n')[:30])
            else:
                rep.ok('include', rel(h))


def instantiate(rep, tmp):
    objs = []

    def one(f):
        o = os.path.join(tmp, 'use_' + os.path.basename(f) + '.o')
        return f, o, cc(['-c', '-o', o, '-O0'], f)
    fs = sorted(glob.glob(USE + '/*.cpp'))
    with ThreadPoolExecutor(8) as ex:
        for f, o, p in ex.map(one, fs):
            if p.returncode:
                seen = set()
                for m in re.finditer(r'^(/[^:]*):(\d+):\d+: (?:fatal )?error: (.*)$', p.stderr, re.M):
                    k = (rel(m.group(1)), re.sub(r'\s+', ' ', m.group(3)))
                    if k in seen or len(seen) > 8:
                        continue
                    seen.add(k)
                    rep.bad('instantiate', '%s:%s' % (k[0], m.group(2)), '%s:%s' % k, 'the use of %s does not compile: %s' % (os.path.basename(f)[:-4], k[1]), p.stderr.split('\n')[:60])
                if not seen:
                    raise Broken('cannot compile %s: %s' % (f, p.stderr[-1500:]))
            else:
                objs.append(o)
                src = open(f).read()
                for m in re.finditer(r'^template (?:class|struct|void) [^;]*;', src, re.M):
                    rep.ok('instantiate', m.group(0))
                rep.ok('instantiate', os.path.basename(f), src.count(';'))
    return objs, len(objs) == len(fs)


def library(tmp):
    objs = []

    def one(s):
        o = os.path.join(tmp, 'lib_' + s.replace('/', '_') + '.o')
        return s, o, cc(['-c', '-o', o, '-O0'], os.path.join(build.REPO, s))
    with ThreadPoolExecutor(8) as ex:
        for s, o, p in ex.map(one, build.LIBSRC + build.RXSRC):
            if p.returncode:
                raise Broken('cannot compile %s: %s' % (s, p.stderr[-1500:]))
            objs.append(o)
    return objs


def link(rep, tmp, uses, libs):
    two = []
    for i in 1, 2:
        f = os.path.join(tmp, 'all%d.cpp' % i)
        with open(f, 'w') as o:
            o.write(everything())
        p = cc(['-c', '-O0', '-o', f + '.o'], f)
        if p.returncode:
            at, msg = first_error(p.stderr)
            rep.bad('link', at, 'all', 'a program that includes every header does not compile: %s' % msg, p.stderr.split('\n')[:30])
            return
        two.append(f + '.o')
    # one program for each witness: they may define the same names
    for us in [two] + [two[:1] + [u] for u in uses]:
        p = build.run([build.CXX, '-shared', '-Wl,-z,defs', '-o', os.path.join(tmp, 'all.so')] + us + libs + ['-lpthread'])
        what = os.path.basename(us[-1])[4:-6] if us is not two else 'all headers, twice'
        if p.returncode:
            seen = set()
            for m in re.finditer(r'(undefined reference to|multiple definition of) [`\'"](.*?)[\'"](;|$)', p.stderr, re.M):
                if m.group(2) in seen:
                    continue
                seen.add(m.group(2))
                und = m.group(1).startswith('undefined')
                rep.bad('link', m.group(2), '%s:%s' % (m.group(2), 'undefined' if und else 'multiple'), '%s is %s (linking the use of %s)' % (m.group(2), 'declared and used but defined nowhere' if und else 'defined by every source that includes its header', what), p.stderr.split('\n')[:30])
            if not seen:
                raise Broken('cannot link %s: %s' % (what, p.stderr[-1500:]))
        else:
            rep.ok('link', what)


class Tree:
    """The declarations of the headers, from the syntax tree"""

    def __init__(self, tmp):
        f = os.path.join(tmp, 'tree.cpp')
        with open(f, 'w') as o:
            o.write(everything())
        p = cc(['-fsyntax-only', '-Xclang', '-ast-dump=json'], f)
        if p.returncode:
            raise Broken('cannot read the headers: ' + p.stderr[-1500:])
        self.file = None
        self.line = None
        self.decls = []
        self.byid = {}
        self.walk(json.loads(p.stdout), (), None, 'public')

    def loc(self, l):
        if 'expansionLoc' in l:
            self.loc(l.get('spellingLoc', {}))
            l = l['expansionLoc']
        self.file = l.get('file', self.file)
        self.line = l.get('line', self.line)
        return self.file, self.line

    def walk(self, n, ctx, tmpl, access):
        k = n.get('kind')
        at = self.loc(n['loc']) if 'loc' in n else None
        if 'range' in n:
            self.loc(n['range'].get('begin', {}))
            self.loc(n['range'].get('end', {}))
        inner = n.get('inner', ())
        if (k in FUNCS or k == 'VarDecl') and at and at[0] and at[0].startswith(build.REPO + '/'):
            d = dict(kind=k, name=n.get('name'), id=n['id'], prev=n.get('previousDecl'), sym=n.get('mangledName'), at=at, ctx=ctx, tmpl=tmpl, access=access, storage=n.get('storageClass'), init='init' in n, const=n.get('constexpr'), type=n.get('type', {}).get('qualType', ''),
                     body=any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in inner), skip=any(n.get(x) for x in ('pure', 'explicitlyDeleted', 'explicitlyDefaulted', 'isImplicit')))
            self.decls.append(d)
            self.byid[n['id']] = d
        acc = 'private' if n.get('tagUsed') == 'class' else 'public'
        first = True
        for c in inner:
            ck = c.get('kind')
            if ck == 'AccessSpecDecl':
                acc = c['access']
            t = tmpl
            if k == 'ClassTemplateDecl' and t != 'spec':
                t = 'spec' if ck == 'ClassTemplateSpecializationDecl' else 'pattern'
            if k == 'FunctionTemplateDecl' and ck in FUNCS and t != 'spec':
                t = 'pattern' if first else 'spec'
                first = False
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl', 'NamespaceDecl'):
                self.walk(c, ctx + (n.get('name') or '?',), t, acc)
            elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
                self.walk(c, ctx, t, access)
            else:
                self.walk(c, ctx, t, 'local' if k in FUNCS else acc)

    def root(self, i):
        while i in self.byid and self.byid[i]['prev']:
            i = self.byid[i]['prev']
        return i


def defined(rep, tmp, libs):
    t = Tree(tmp)
    p = build.run(['nm', '--defined-only', '-j'] + libs)
    syms = set(p.stdout.split())
    for s in list(syms):			# constructors and destructors have variants
        syms.add(re.sub(r'([CD])2(?=E)', r'\g<1>1', s))
    have = {t.root(d['id']) for d in t.decls if d['body']}
    n = 0
    for d in t.decls:
        if d['kind'] == 'VarDecl' or d['prev'] or d['tmpl'] == 'spec' or d['skip'] or d['access'] in ('local',):
            continue
        name = '::'.join(d['ctx'] + (d['name'] or '?',))
        at = '%s:%s' % (rel(d['at'][0]), d['at'][1])
        n += 1
        if d['body'] or t.root(d['id']) in have or d['sym'] in syms:
            rep.ok('defined', name)
        elif d['access'] == 'private':
            continue				# declared so that nobody can use it
        else:
            rep.bad('defined', at, name, '%s is declared in %s and defined nowhere' % (name, rel(d['at'][0])))
    return n


# ---- what must not compile, and what must be so
FACTS = [
    # a const value gives no way to change it
    ('const array element', 'array.h', '!std::is_assignable<decltype(std::declval<const Array<int>&>()[0]), int>::value || !std::is_reference<decltype(std::declval<const Array<int>&>()[0])>::value'),
    ('const array elem_ref', 'array.h', '!std::is_assignable<decltype(std::declval<const Array<int>&>().elem_ref(0)), int>::value'),
    ('const array last_ref', 'array.h', '!std::is_assignable<decltype(std::declval<const Array<int>&>().last_ref()), int>::value'),
    ('const array asElements', 'array.h', '!std::is_assignable<decltype(*std::declval<const Array<int>&>().asElements()), int>::value'),
    ('array body', 'array.h', '!std::is_assignable<decltype((*std::declval<Array<int>&>())[0]), int>::value'),
    ('array body by arrow', 'array.h', '!std::is_assignable<decltype(std::declval<Array<int>&>()->operator[](0)), int>::value'),
    ('array element is a copy', 'array.h', '!std::is_assignable<decltype(std::declval<Array<int>&>()[0]), int>::value || !std::is_reference<decltype(std::declval<Array<int>&>()[0])>::value'),
    ('const map entry', 'cowmap.h', '!std::is_assignable<decltype((std::declval<const CowMap<int>&>().find("x")->second)), int>::value'),
    ('map entry', 'cowmap.h', '!std::is_assignable<decltype((std::declval<CowMap<int>&>().find("x")->second)), int>::value'),
    ('map begin', 'cowmap.h', '!std::is_assignable<decltype((std::declval<CowMap<int>&>().begin()->second)), int>::value'),
    ('map key', 'cowmap.h', '!std::is_assignable<decltype((std::declval<CowMap<int>&>().begin()->first)), StrVal>::value'),
    ('const map index', 'cowmap.h', '!std::is_reference<decltype(std::declval<const CowMap<int>&>()["x"])>::value'),
    ('string character', 'strval.h', '!std::is_assignable<decltype(std::declval<StrVal&>()[0]), char32_t>::value || !std::is_reference<decltype(std::declval<StrVal&>()[0])>::value'),
    ('string text', 'strval.h', '!std::is_assignable<decltype(*std::declval<StrVal&>().asUTF8()), char>::value'),
    ('string text and length', 'strval.h', '!std::is_assignable<decltype(*std::declval<const StrVal&>().asUTF8(std::declval<unsigned&>())), char>::value'),
    ('const variant number', 'variant.h', '!std::is_assignable<decltype(std::declval<const Variant&>().as_int()), int>::value && !std::is_assignable<decltype(std::declval<const Variant&>().as_long()), long>::value && !std::is_assignable<decltype(std::declval<const Variant&>().as_longlong()), long long>::value'),
    # bodies are never copied behind their count; what is counted can be held
    ('array body copies', 'array.h', '!std::is_copy_constructible<ArrayBody<int>>::value'),
    ('error numbers', 'error.h', 'sizeof(ErrNum) == sizeof(int32_t) && std::is_convertible<ErrNum, int32_t>::value'),
    ('thread is abstract', 'thread.h', 'std::is_abstract<Thread>::value && std::has_virtual_destructor<Thread>::value'),
    # values are values
    ('values copy and assign', 'variant.h', 'std::is_copy_constructible<StrVal>::value && std::is_copy_assignable<StrVal>::value && std::is_copy_constructible<Array<int>>::value && std::is_copy_assignable<Array<int>>::value && std::is_copy_constructible<StrVariantMap>::value && std::is_copy_assignable<StrVariantMap>::value && std::is_copy_constructible<Variant>::value && std::is_copy_assignable<Variant>::value && std::is_copy_constructible<StringArray>::value && std::is_copy_assignable<StringArray>::value'),
    ('counts are atomic', 'refcount.h', 'std::is_same<decltype(Probe::count()), std::atomic<int>&>::value'),
]
REFUSED = [
    # name, header, code that must not compile, the same code as it should be
    ('append to a const array', 'array.h', 'void f(const Array<int>& a) { a.append(1); }', 'void f(Array<int>& a) { a.append(1); }'),
    ('add to a const array', 'array.h', 'void f(const Array<int>& a) { a += 1; }', 'void f(Array<int>& a) { a += 1; }'),
    ('push onto a const array', 'array.h', 'void f(const Array<int>& a) { a << 1; }', 'void f(Array<int>& a) { a << 1; }'),
    ('pull from a const array', 'array.h', 'void f(const Array<int>& a) { a.pull(); }', 'void f(Array<int>& a) { a.pull(); }'),
    ('shift a const array', 'array.h', 'void f(const Array<int>& a) { a.shift(); }', 'void f(Array<int>& a) { a.shift(); }'),
    ('unshift a const array', 'array.h', 'void f(const Array<int>& a) { a.unshift(1); }', 'void f(Array<int>& a) { a.unshift(1); }'),
    ('insert into a const array', 'array.h', 'void f(const Array<int>& a) { a.insert(0, a); }', 'void f(Array<int>& a) { a.insert(0, a); }'),
    ('remove from a const array', 'array.h', 'void f(const Array<int>& a) { a.remove(0); }', 'void f(Array<int>& a) { a.remove(0); }'),
    ('delete from a const array', 'array.h', 'void f(const Array<int>& a) { a.delete_at(0); }', 'void f(Array<int>& a) { a.delete_at(0); }'),
    ('set an element of a const array', 'array.h', 'void f(const Array<int>& a) { a.set(0, 1); }', 'void f(Array<int>& a) { a.set(0, 1); }'),
    ('a mutable element of a const array', 'array.h', 'void f(const Array<int>& a) { a.elem_mut(0); }', 'void f(Array<int>& a) { a.elem_mut(0); }'),
    ('a mutable last element of a const array', 'array.h', 'void f(const Array<int>& a) { a.last_mut(); }', 'void f(Array<int>& a) { a.last_mut(); }'),
    ('reverse a const array', 'array.h', 'void f(const Array<int>& a) { a.reverse(); }', 'void f(Array<int>& a) { a.reverse(); }'),
    ('clear a const array', 'array.h', 'void f(const Array<int>& a) { a.clear(); }', 'void f(Array<int>& a) { a.clear(); }'),
    ('delete elements of a const array', 'array.h', 'void f(const Array<int>& a) { a.delete_if([](const int&) { return true; }); }', 'void f(Array<int>& a) { a.delete_if([](const int&) { return true; }); }'),
    ('assign to a const array', 'array.h', 'void f(const Array<int>& a) { a = Array<int>(); }', 'void f(Array<int>& a) { a = Array<int>(); }'),
    ('change elements in each', 'array.h', 'void f(Array<int>& a) { a.each([](int& i) { i++; }); }', 'void f(Array<int>& a) { a.each([](const int& i) { }); }'),
    ('insert into a const map', 'cowmap.h', 'void f(const CowMap<int>& a) { a.insert("x", 1); }', 'void f(CowMap<int>& a) { a.insert("x", 1); }'),
    ('put into a const map', 'cowmap.h', 'void f(const CowMap<int>& a) { a.put("x", 1); }', 'void f(CowMap<int>& a) { a.put("x", 1); }'),
    ('remove from a const map', 'cowmap.h', 'void f(const CowMap<int>& a) { a.remove("x"); }', 'void f(CowMap<int>& a) { a.remove("x"); }'),
    ('clear a const map', 'cowmap.h', 'void f(const CowMap<int>& a) { a.clear(); }', 'void f(CowMap<int>& a) { a.clear(); }'),
    ('change entries in each', 'cowmap.h', 'void f(CowMap<int>& a) { a.each([](const StrVal&, int& i) { i++; }); }', 'void f(CowMap<int>& a) { a.each([](const StrVal&, const int& i) { }); }'),
    ('the body of a map', 'cowmap.h', 'struct S : CowMap<int> { void f() { body->clear(); } };', 'struct S : CowMap<int> { void f() { clear(); } };'),
    ('the body of an array', 'array.h', 'struct S : Array<int> { void f() { body->data(); } };', 'struct S : Array<int> { void f() { clear(); } };'),
    ('copying the body of an array', 'array.h', 'ArrayBody<int>* f(ArrayBody<int>& b) { return new ArrayBody<int>(b); }', 'ArrayBody<int>* f(ArrayBody<int>& b) { return new ArrayBody<int>(); }'),
    ('append to a const string', 'strval.h', 'void f(const StrVal& s) { s.append("x"); }', 'void f(StrVal& s) { s.append("x"); }'),
    ('add to a const string', 'strval.h', 'void f(const StrVal& s) { s += "x"; }', 'void f(StrVal& s) { s += "x"; }'),
    ('add a character to a const string', 'strval.h', "void f(const StrVal& s) { s += UCS4('x'); }", "void f(StrVal& s) { s += UCS4('x'); }"),
    ('prepend to a const string', 'strval.h', 'void f(const StrVal& s) { s.prepend("x"); }', 'void f(StrVal& s) { s.prepend("x"); }'),
    ('insert into a const string', 'strval.h', 'void f(const StrVal& s) { s.insert(0, "x"); }', 'void f(StrVal& s) { s.insert(0, "x"); }'),
    ('change the case of a const string', 'strval.h', 'void f(const StrVal& s) { s.toLower(); }', 'void f(StrVal& s) { s.toLower(); }'),
    ('change the case of a const string (up)', 'strval.h', 'void f(const StrVal& s) { s.toUpper(); }', 'void f(StrVal& s) { s.toUpper(); }'),
    ('make JSON of a const string', 'strval.h', 'void f(const StrVal& s) { s.toJSON(); }', 'void f(StrVal& s) { s.toJSON(); }'),
    ('transform a const string', 'strval.h', 'void f(const StrVal& s) { s.transform([](const char*& cp, const char*) { return StrVal(UTF8Get(cp)); }); }', 'void f(StrVal& s) { s.transform([](const char*& cp, const char*) { return StrVal(UTF8Get(cp)); }); }'),
    ('the body of a string', 'strval.h', 'struct S : StrBodyI<unsigned> { void f() { insert(0, "x", 1); } };', 'struct S : StrBodyI<unsigned> { void f() { numChars(); } };'),
    ('coerce a const variant', 'variant.h', 'void f(const Variant& v) { v.as_int() = 1; }', 'void f(Variant& v) { v.as_int() = 1; }'),
    ('assign to a const variant', 'variant.h', 'void f(const Variant& v) { v = 1; }', 'void f(Variant& v) { v = 1; }'),
    ('coerce a variant from outside', 'variant.h', 'void f(Variant& v) { v.coerce(Variant::String); }', 'void f(Variant& v) { v.as_strval(); }'),
    ('the tag of a variant', 'variant.h', 'void f(Variant& v) { v._type = Variant::String; }', 'void f(Variant& v) { v = "x"; }'),
    ('the count', 'refcount.h', 'struct S : RefCounted {}; void f(S& s) { s.ref_count = 1; }', 'struct S : RefCounted {}; void f(S& s) { s.GetRefCount(); }'),
    ('a thread as such', 'thread.h', 'void f() { Thread t; }', 'void f(Thread& t) { t.join(); }'),
    ('the threads', 'thread.h', 'int f() { return Thread::threads.size(); }', 'Thread* f() { return Thread::joinAny(); }'),
    ('the number of an error', 'error.h', 'void f(ErrNum& e) { e.errnum = 1; }', 'void f(ErrNum& e) { e = ErrNum(1, 1); }'),
]
PROBE = '#include <type_traits>\n#include <utility>\n#include <atomic>\n'


def types(rep, tmp):
    """Each fact is a static assertion of its own; each refused use has a twin that compiles"""
    jobs = []
    for i, (name, h, fact) in enumerate(FACTS):
        probe = 'struct Probe : RefCounted { static std::atomic<int>& count() { Probe* p = 0; return p->ref_count; } };\n' if 'Probe' in fact else ''
        jobs.append((name, h, True, '%s#include <%s>\n%sstatic_assert(%s, "");\n' % (PROBE, h, probe, fact)))
    for i, (name, h, no, yes) in enumerate(REFUSED):
        jobs.append((name, h, False, '#include <%s>\n%s\n' % (h, no)))
        jobs.append((name, h, None, '#include <%s>\n%s\n' % (h, yes)))

    def one(k):
        f = os.path.join(tmp, 'type%d.cpp' % k)
        with open(f, 'w') as o:
            o.write(jobs[k][3])
        return jobs[k], cc(['-fsyntax-only'], f)
    with ThreadPoolExecutor(8) as ex:
        for (name, h, want, code), p in ex.map(one, range(len(jobs))):
            code = code.strip().split('\n')[-1]
            if want and p.returncode:
                if 'static assertion failed' in p.stderr or 'static_assert failed' in p.stderr:
                    rep.bad('types', 'include/' + h, name, '%s: it does not hold that %s' % (name, code), p.stderr.split('\n')[:12])
                else:
                    at, msg = first_error(p.stderr)
                    rep.bad('types', at, name, '%s: the operation is not there any more: %s' % (name, msg), p.stderr.split('\n')[:12])
            elif want is False and not p.returncode:
                rep.bad('types', 'include/' + h, name, 'it is possible to %s: %s' % (name, code) if not name.startswith(('the ', 'a ', 'copying')) else '%s can be reached: %s' % (name, code))
            elif want is None and p.returncode:
                at, msg = first_error(p.stderr)
                rep.bad('types', at, name + ':allowed', 'it is not possible any more: %s: %s' % (code, msg), p.stderr.split('\n')[:12])
            else:
                rep.ok('types', name)


def check_use(rep, tier='quick'):
    with tempfile.TemporaryDirectory(prefix='vsa') as tmp:
        include(rep, tmp)
        libs = library(tmp)
        uses, whole = instantiate(rep, tmp)
        link(rep, tmp, uses, libs)
        n = defined(rep, tmp, libs)
        types(rep, tmp)
    rep.paths = n
    rep.functions = {s for s in rep.sites.get('defined', ())}
    rep.require('include', 15)
    rep.require('instantiate', 30)
    rep.require('link', 10)
    rep.require('defined', 250)
    rep.require('types', 55)
    rep.assume.append('the compiler (clang, C++11 as in the Makefile) implements the language; pthreads configuration')
