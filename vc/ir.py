"""Extraction: /repo's current sources -> LLVM IR (clang -O0, mem2reg only) -> JSON -> Python.

What the extraction keeps: every instruction clang emits for the translation unit at -O0, after
mem2reg / simplifycfg / loop-simplify.  What it drops: debug intrinsics, alignment, attributes other
than noreturn/nounwind/byval/sret, fast-math flags (none are enabled), and volatile/atomic ordering.
"""
import json, os, subprocess, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CXXFLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-w',
            '-DENABLE_XML', '-DENABLE_YAML', '-DENABLE_CURL', '-I/usr/include/libxml2']
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-w']
PASSES = 'function(mem2reg,simplifycfg,loop-simplify)'
OPTFLAGS = ['-two-entry-phi-node-folding-threshold=20', '-phi-node-folding-threshold=20']


class ExtractError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def write_config(d):
    os.makedirs(os.path.join(d, 'Variant'), exist_ok=True)
    with open(os.path.join(d, 'Variant', 'Config.h'), 'w') as f:
        f.write('#pragma once\n#define HAVE_CXX11_SHAREDPTR 1\n')
    return d


def include_flags(scratch):
    cfg = write_config(os.path.join(scratch, 'cfg'))
    return ['-I' + os.path.join(REPO, 'include'), '-I' + cfg, '-I' + os.path.join(REPO, 'lib/json'), '-I' + os.path.join(REPO, 'src')]


def build_irdump(scratch):
    exe = os.path.join(scratch, 'irdump')
    if not os.path.exists(exe):
        run(['clang++-18', '-O1', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
             '-D__STDC_LIMIT_MACROS', '-std=c++17', '-fno-rtti', os.path.join(HERE, 'tools', 'irdump.cc'),
             '-o', exe, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    return exe


def extract_tu(scratch, rel):
    """rel: path under /repo, e.g. src/Base64.cc -> dict"""
    tag = os.path.basename(rel).rsplit('.', 1)[0]
    bc, o, js = [os.path.join(scratch, tag + s) for s in ('.bc', '.o.bc', '.json')]
    src = os.path.join(REPO, rel)
    inc = include_flags(scratch)
    if rel.endswith('.c'):
        run(['clang-18'] + CFLAGS + inc + ['-emit-llvm', '-c', src, '-o', bc])
    else:
        run(['clang++-18'] + CXXFLAGS + inc + ['-emit-llvm', '-c', src, '-o', bc])
    run(['opt-18', '-passes=' + PASSES] + OPTFLAGS + [bc, '-o', o])
    with open(js, 'w') as f:
        p = subprocess.run([os.path.join(scratch, 'irdump'), o], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError('irdump %s: %s' % (rel, p.stderr[-2000:]))
    with open(js) as f:
        m = json.load(f)
    for x in (bc, o, js):
        os.unlink(x)
    return m


class Fn:
    __slots__ = ('name', 'dem', 'args', 'blocks', 'decl', 'ret', 'file', 'line', 'tu', 'noreturn', 'nounwind', 'vararg',
                 'loops', 'loop_of', 'ninst', 'order')


class Program:
    """All extracted translation units, symbols merged the way the linker would."""

    def __init__(self):
        self.fns = {}      # mangled (or tu-qualified for internal) -> Fn
        self.bydem = {}    # demangled -> [name]
        self.globals = {}
        self.types = {}
        self.enums = {}
        self.aliases = {}

    def add(self, tu, m):
        loc = {}
        for n, g in m['globals'].items():
            if g.get('internal'):
                loc[n] = tu + '::' + n
        for n, f in m['functions'].items():
            if f.get('internal'):
                loc[n] = tu + '::' + n

        def fix(v):
            if isinstance(v, dict):
                if v.get('k') == 'g' and v['v'] in loc:
                    v['v'] = loc[v['v']]
                else:
                    for x in v.values():
                        if isinstance(x, (dict, list)):
                            fix(x)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, (dict, list)):
                        fix(x)
        for n, g in m['globals'].items():
            fix(g.get('init'))
            nn = loc.get(n, n)
            if nn not in self.globals or (self.globals[nn]['decl'] and not g['decl']):
                self.globals[nn] = g
        for n, t in m['types'].items():
            if n not in self.types or len(self.types[n]['members']) < len(t['members']):
                self.types[n] = t
        self.enums.update(m['enums'])
        self.aliases.update(m['aliases'])
        for n, f in m['functions'].items():
            nn = loc.get(n, n)
            old = self.fns.get(nn)
            if old is not None and not (old.decl and not f['decl']):
                continue
            F = Fn()
            F.name = nn
            F.dem = f['dem']
            F.args = f['args']
            F.decl = f['decl']
            F.ret = f['ret']
            F.file = f.get('file', '')
            F.line = f.get('line', 0)
            F.tu = tu
            F.noreturn = f['noreturn']
            F.nounwind = f['nounwind']
            F.vararg = f['vararg']
            F.loops = None
            if not F.decl:
                fix(f['blocks'])
                F.blocks = {b['id']: b for b in f['blocks']}
                F.order = [b['id'] for b in f['blocks']]
                F.ninst = sum(len(b['insts']) for b in f['blocks'])
            else:
                F.blocks = {}
                F.order = []
                F.ninst = 0
            self.fns[nn] = F
            if old is None:
                self.bydem.setdefault(F.dem, []).append(nn)

    def find(self, dem):
        """functions (with bodies first) by exact demangled name"""
        r = [self.fns[n] for n in self.bydem.get(dem, [])]
        return [f for f in r if not f.decl] or r

    def match(self, rx):
        import re
        r = re.compile(rx)
        return [self.fns[n] for d, ns in self.bydem.items() if r.search(d) for n in ns]

    def field(self, cls, name):
        for m in self.types[cls]['members']:
            if m[0] == name:
                return m
        raise ExtractError('class %s has no member %s' % (cls, name))

    def has_field(self, cls, name):
        return cls in self.types and any(m[0] == name for m in self.types[cls]['members'])

    def off(self, cls, name):
        return self.field(cls, name)[1]


def succs(block):
    t = block['insts'][-1]
    s = list(t.get('succ', []))
    if 'normal' in t:
        s += [t['normal'], t['unwind']]
    if t['op'] == 'switch':
        s += [t['default']] + [c[1] for c in t['cases']]
    return s


def analyse_loops(F):
    """natural loops: header -> set(blocks).  Raises on irreducible control flow."""
    if F.loops is not None:
        return F.loops
    sc = {b: succs(B) for b, B in F.blocks.items()}
    entry = F.order[0]
    # reverse postorder
    seen, post = set(), []
    st = [(entry, iter(sc[entry]))]
    seen.add(entry)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(sc[v])))
                break
        else:
            post.append(u)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for u in rpo:
        for v in sc[u]:
            preds[v].append(u)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for u in rpo:
        for v in sc[u]:
            if num[v] <= num[u]:
                if not dom(v, u):
                    raise ExtractError('irreducible loop in ' + F.dem)
                body = loops.setdefault(v, {v})
                wl = [u]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x)
                        wl.extend(preds[x])
    F.loops = loops
    return loops


def extract(rels, scratch):
    build_irdump(scratch)
    P = Program()
    with ThreadPoolExecutor(8) as ex:
        ms = list(ex.map(lambda r: extract_tu(scratch, r), rels))
    for r, m in zip(rels, ms):
        P.add(os.path.basename(r), m)
    return P
