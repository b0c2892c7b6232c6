"""Front end driver: generates the parser sources in a scratch directory, runs
the exporter over every translation unit of the build and loads the result."""
import time, hashlib, json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MONAA_REPO', '/repo')
UNITS = ['monaa/main.cc', 'monaa/tre2ta.cc', 'monaa/tre.cc', 'monaa/intermediate_tre.cc',
         'libmonaa/intersection.cc', 'libmonaa/ta2za.cc']


class FrontendError(Exception):
    pass


def _hash():
    h = hashlib.sha256()
    for d in ('libmonaa', 'monaa', 'utils'):
        for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                if f.endswith(('.hh', '.cc', '.c', '.l', '.yy', '.txt')):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in ('CMakeLists.txt',):
        p = os.path.join(REPO, p)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    for p in ['tools/astx.cc', 'tools/units/inst.cc', 'sa/frontend.py'] + ['spec/' + f for f in sorted(os.listdir(os.path.join(VERIF, 'spec')))]:
        h.update(open(os.path.join(VERIF, p), 'rb').read())
    return h.hexdigest()[:16]


def cmake_sources():
    """Sources listed in the CMake files; a source the analysis does not know is an error."""
    import re
    found = set()
    for cm in ('CMakeLists.txt', 'libmonaa/CMakeLists.txt'):
        p = os.path.join(REPO, cm)
        if not os.path.exists(p): continue
        txt = open(p).read()
        for m in re.finditer(r'[\w./${}-]+\.(?:cc|cpp|c)\b', txt):
            found.add(re.sub(r'\$\{[A-Za-z_]+\}/?', '', m.group(0)))
    return found


def extra_units():
    """further library/tool sources that appeared in the tree (helpers moved to a new file)"""
    have = set(UNITS)
    out = []
    for d in ('libmonaa', 'monaa'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(('.cc', '.cpp')) and d + '/' + f not in have:
                out.append(d + '/' + f)
    return out


def export():
    subprocess.run([os.path.join(VERIF, 'tools', 'build.sh')], check=True)
    out = os.path.join(VERIF, 'build', 'ast-' + _hash())
    done = os.path.join(out, 'done')
    if os.path.exists(done):
        return out
    bd = os.path.join(VERIF, 'build')
    def age(d):
        try: return time.time() - os.path.getmtime(os.path.join(bd, d))
        except OSError: return 0                   # another run removed it
    for t, d in sorted((age(d), d) for d in os.listdir(bd) if d.startswith('ast-'))[16:]:
        if t < 900: continue
        shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
    tmp = out + '.%d' % os.getpid()
    gen = os.path.join(tmp, 'gen')
    os.makedirs(gen, exist_ok=True)
    r = subprocess.run(['bison', '-o', gen + '/tre_parser.tab.cc', '--defines=' + gen + '/tre_parser.tab.hh',
                        REPO + '/monaa/tre_parser.yy'], capture_output=True, text=True)
    if r.returncode: raise FrontendError('bison: ' + r.stderr[-2000:])
    r = subprocess.run(['flex', '-o', gen + '/tre_lexer.yy.cc', REPO + '/monaa/tre_lexer.l'], capture_output=True, text=True)
    if r.returncode: raise FrontendError('flex: ' + r.stderr[-2000:])
    units = [REPO + '/' + u for u in UNITS + extra_units()] + [gen + '/tre_parser.tab.cc', gen + '/tre_lexer.yy.cc',
             os.path.join(VERIF, 'tools/units/inst.cc')]
    flags = ['-std=gnu++20', '-I' + REPO + '/monaa', '-I' + REPO + '/libmonaa', '-I' + gen, '-I' + REPO,
             '-I/usr/include/eigen3', '-DMONAA_VERSION="x"', '-DPROJECT_ROOT_DIR="' + REPO + '"', '-w',
             '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-ferror-limit=20', '-fno-access-control']

    nunits = len(units)
    units += [os.path.join(VERIF, 'spec', f) for f in sorted(os.listdir(os.path.join(VERIF, 'spec'))) if f.endswith('.cc')]
    failed = {}

    def one(i):
        u = units[i]
        o = os.path.join(tmp, 'tu%02d.json' % i)
        cmd = [os.path.join(VERIF, 'build', 'astx'), '--root=' + REPO + '/', '--root=' + gen, '--root=' + VERIF + '/spec/',
               '--genfn=' + gen + '=parse,yylex', '--out=' + o, u, '--'] + flags
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode or not os.path.exists(o):
            if i >= nunits:      # a reference definition that does not fit the tree any more
                failed[os.path.basename(u)] = r.stderr[-1500:]
                if os.path.exists(o): os.remove(o)
                return None
            raise FrontendError('%s: %s' % (u, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(units))))
    json.dump(failed, open(os.path.join(tmp, 'specfail'), 'w'))
    # text of the generated grammar is not needed further
    open(os.path.join(tmp, 'units'), 'w').write('\n'.join(units))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp)
    open(done, 'w').close()
    return out


class Program:
    def __init__(self):
        d = export()
        self.functions = {}     # fid -> fn
        self.records = {}       # qualified name -> record
        self.globals = {}       # qualified name -> var
        self.dglobals = {}
        self.units = [os.path.relpath(u, REPO) if u.startswith(REPO + '/') else os.path.basename(u)
                      for u in open(os.path.join(d, 'units')).read().split('\n')]
        self.specfail = json.load(open(os.path.join(d, 'specfail')))
        self.byname = {}
        i = 0
        for f in sorted(os.listdir(d)):
            if not f.startswith('tu'): continue
            tu = json.load(open(os.path.join(d, f)))
            self._fix(tu, i)
            i += 1
        for fn in self.functions.values():
            self.byname.setdefault(fn['q'], []).append(fn)

    def _fix(self, tu, i):
        types, files = tu['types'], tu['files']

        def walk(o):
            if isinstance(o, list):
                for x in o: walk(x)
                return
            if not isinstance(o, dict): return
            for k in ('t', 'ret', 'ot', 'at', 'ct', 'clst', 'base', 'bt'):
                v = o.get(k)
                if isinstance(v, int) and not isinstance(v, bool): o[k] = types[v]
            v = o.get('ta')
            if isinstance(v, list): o['ta'] = [types[x] for x in v]
            v = o.get('bases')
            if isinstance(v, list): o['bases'] = [types[x] for x in v]
            for k in ('l', 'el'):
                v = o.get(k)
                if isinstance(v, list) and len(v) == 3 and not isinstance(v[0], (dict, list)):
                    o[k] = (files[v[0]], v[1], v[2])
            v = o.get('d')
            if isinstance(v, int): o['d'] = '%d:%d' % (i, v)
            v = o.get('f')
            if isinstance(v, str) and (v[0] in 'L#'): o['f'] = '%d:%s' % (i, v)
            for kk, vv in o.items():
                if isinstance(vv, (dict, list)): walk(vv)
        from terms import ENUMS
        for q, es in tu.get('enums', {}).items(): ENUMS.setdefault(q, set()).update(es)
        walk(tu['functions']); walk(tu['records']); walk(tu['globals'])
        for fn in tu['functions']:
            fn['tu'] = i
            if fn['q'] == 'main': fn['f'] = '%d:%s' % (i, fn['f'])
            if 'insts' in fn: pass
            if self.functions.setdefault(fn['f'], fn) is fn and fn.get('body'): tails(fn['body'], fn.get('ret') in (None, 'void'))
        for r in tu['records']:
            self.records.setdefault(r['t'], r)
        for g in tu['globals']:
            self.globals.setdefault(g['q'], g)
            self.dglobals[g['d']] = g


LOOPS = ('while', 'do', 'for', 'rangefor')


def skeleton(x):
    """an expression without its place"""
    if isinstance(x, list): return tuple(skeleton(y) for y in x)
    if isinstance(x, dict): return tuple((k, skeleton(v)) for k, v in sorted(x.items()) if k not in ('l', 'el'))
    return x


def ownreturns(s, out, place=None, key=None):
    """the return statements of a loop body that are not in another loop or switch; None if there are others"""
    if isinstance(s, list):
        for i, x in enumerate(s): ownreturns(x, out, s, i)
        return
    if not isinstance(s, dict): return
    k = s.get('k')
    if k == 'return': out.append((place, key)); return
    if k in LOOPS + ('switch', 'try', 'lambda', 'expr', 'decl'): return
    for kk in ('b', 'th', 'el'):
        if isinstance(s.get(kk), (dict, list)): ownreturns(s[kk], out, s, kk)


def tails(body, void):
    """'return e' inside a loop that is directly followed by 'return e' leaves the loop; a helper's way of writing it does not matter"""
    b = body.get('b') if isinstance(body, dict) else None
    if not isinstance(b, list): return
    for i, s in enumerate(b):
        if not isinstance(s, dict) or s.get('k') not in LOOPS: continue
        rs = []
        ownreturns([s.get('b')] if not isinstance(s.get('b'), list) else s['b'], rs) if not isinstance(s.get('b'), dict) else ownreturns(s['b'], rs, s, 'b')
        if not rs: continue
        nxt = b[i + 1] if i + 1 < len(b) else None
        if nxt is None and void: want = skeleton(None)
        elif isinstance(nxt, dict) and nxt.get('k') == 'return': want = skeleton(nxt.get('e'))
        elif nxt is None and s['k'] == 'while' and isinstance(s.get('c'), dict) and s['c'].get('k') == 'bool' and s['c'].get('v') and len({skeleton(p[k].get('e')) for p, k in rs}) == 1 and all(x.get('k') != 'break' for x in every(s)):
            want = skeleton(rs[0][0][rs[0][1]].get('e'))
            if count(s, 'return') != len(rs): continue
            b.append(dict(rs[0][0][rs[0][1]]))
        else: continue
        for p, k in rs:
            if skeleton(p[k].get('e')) == want: p[k] = {'k': 'break', 'l': p[k].get('l')}


def every(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from every(v)
    elif isinstance(x, list):
        for v in x: yield from every(v)


def count(x, k): return sum(1 for y in every(x) if y.get('k') == k)


def rel(loc):
    if not loc: return '?'
    f = loc[0]
    if f.startswith(REPO + '/'): f = f[len(REPO) + 1:]
    return '%s:%d' % (f, loc[1])


if __name__ == '__main__':
    P = Program()
    print(len(P.functions), 'functions', len(P.records), 'records', len(P.globals), 'globals')
    for fn in sorted(P.functions.values(), key=lambda f: f['l'][:2]):
        print(rel(fn['l']), fn['q'], '(' + fn['sig'][:80] + ')')
