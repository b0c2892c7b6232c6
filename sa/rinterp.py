"""Random interpretation of value terms (Gulwani & Necula).

A term built by the analysis is mapped into a small concrete algebra: numbers, booleans,
records, sequences.  Every value the analysis knows nothing about (inputs, results of opaque
calls, values carried around a loop) is an uninterpreted function symbol whose value is drawn
from a typed domain by a seeded hash of its arguments, so congruence holds by construction.
Two terms with different images under one interpretation are different functions of the inputs;
two terms with equal images under all the interpretations tried are taken to be the same.
No code of the subject is executed: only terms extracted from the source are folded."""
import struct
import zlib
from fractions import Fraction
from terms import *
from terms import T
import engine
from engine import ENUMS, LOOPS, clean

M64 = (1 << 64) - 1


class Taint(Exception):
    """the value depends on something the analysis could not relate"""


class Unreached(Taint):
    """no such execution: the interpretation leaves out a path the program cannot take"""


def mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h ^= x & M64
        h = (h * 0xBF58476D1CE4E5B9) & M64
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & M64
        h ^= h >> 32
    return h


_sc = {}
def sh(s):
    r = _sc.get(s)
    if r is None: r = _sc[s] = mix(zlib.crc32(s.encode()), zlib.adler32(s.encode()), len(s))
    return r


class Tok:
    """an uninterpreted value"""
    __slots__ = ('h', 't')
    def __init__(s, h, t=None): s.h, s.t = h, t
    def __eq__(s, o): return isinstance(o, Tok) and s.h == o.h
    def __ne__(s, o): return not s == o
    def __hash__(s): return s.h & 0x7fffffff
    def __repr__(s): return '#%04x%s' % (s.h & 0xffff, ':' + s.t[:24] if s.t else '')


def vh(v):
    """hash of a value"""
    if v is True: return mix(1)
    if v is False: return mix(0)
    if isinstance(v, (int, float, Fraction)): return mix(struct.unpack('<Q', struct.pack('<d', v))[0], 7) if v not in (0, 1) else mix(int(v))
    if isinstance(v, Tok): return v.h
    if v is None: return mix(3, 5)
    if isinstance(v, str): return sh(v)
    if isinstance(v, tuple): return mix(11, *[vh(x) for x in v])
    if isinstance(v, dict): return mix(13, *sorted(mix(vh(k), vh(x)) for k, x in v.items()))
    if isinstance(v, Rec): return mix(17, vh(v.base), *[mix(sh(f), vh(x)) for f, x in sorted(v.d.items())])
    if isinstance(v, Map): return v.hash()
    if isinstance(v, Mat): return mix(23, v.nr, v.nc, *[vh(v(i, j)) for i in range(min(v.nr, 5)) for j in range(min(v.nc, 5))])
    return sh(repr(v))


class Rec:
    __slots__ = ('base', 'd')
    def __init__(s, base, d): s.base, s.d = base, d
    def __eq__(s, o): return isinstance(o, Rec) and s.base == o.base and s.d == o.d
    def __ne__(s, o): return not s == o
    def __repr__(s): return '{%s%s}' % (s.base if s.base is not None else '', ', '.join(' %s=%r' % kv for kv in sorted(s.d.items())))
    def __hash__(s): return vh(s) & 0x7fffffff


class Map:
    """map or set: base token plus updates; entries (key, value) in insertion order"""
    __slots__ = ('base', 'ups', 'dels')
    def __init__(s, base, ups=(), dels=()): s.base, s.ups, s.dels = base, dict(ups), frozenset(dels)
    def hash(s): return mix(19, vh(s.base), *sorted(mix(vh(k), vh(v)) for k, v in s.ups.items()), *sorted(vh(x) for x in s.dels)) if s.ups or s.dels else vh(s.base)
    def __eq__(s, o): return isinstance(o, Map) and s.hash() == o.hash()
    def __ne__(s, o): return not s == o
    def __hash__(s): return s.hash() & 0x7fffffff
    def __repr__(s): return '{%r%s%s}' % (s.base, ''.join(' %r->%r' % kv for kv in s.ups.items()), ''.join(' -%r' % x for x in s.dels))


class Mat:
    def __init__(s, f, nr, nc): s.f, s.nr, s.nc = f, max(0, nr), max(0, nc); s.m = {}
    def __call__(s, i, j):
        k = (i, j)
        if k not in s.m: s.m[k] = s.f(i, j)
        return s.m[k]
    def __eq__(s, o):
        return isinstance(o, Mat) and s.nr == o.nr and s.nc == o.nc and all(s(i, j) == o(i, j) for i in range(min(s.nr, 6)) for j in range(min(s.nc, 6)))
    def __ne__(s, o): return not s == o
    def __hash__(s): return 1
    def __repr__(s): return 'Mat' + repr([[s(i, j) for j in range(min(s.nc, 3))] for i in range(min(s.nr, 3))])


INTD = [0, 0, 0, 1, 1, 1, 2, 2, 3]
DBLD = [0, 0, 0, 1, 1, 2, 2, 3, -1, -1, -2, 0.5, 1.5, -0.5, 4, 5, float('inf')]
CHRD = [0, 0, 97, 97, 98, 36]


def norm(x):
    return x


def pointee(t):
    t = t[:-1].strip() if t.endswith('*') else targ(t, 0) or t
    return clean(t).replace('const ', '').strip()


NUMT = ('char', 'signed char', 'Alphabet', 'unsigned char', 'int', 'long', 'unsigned int', 'unsigned long', 'std::size_t', 'size_t')


class RI:
    def __init__(self, P, seed, side='A', loopmap=None, domain=None):
        self.P, self.seed, self.side = P, seed, side
        self.loopmap = loopmap or {}       # (side, uid) -> (canonical id, {name: canonical name})
        self.memo = {}
        self.ixv = {}                      # canonical loop id -> value of its index
        self.atoms = {}                    # for the witness
        self.domain = domain or {}
        self.newmap = {}                   # (side, site) -> canonical
        self.budget = 400000
        self.objects = (0, 3, 5)[seed % 3]
        self.salt = None                   # values drawn again to make a condition hold
        self.touch = None                  # records what is drawn
        self.consts, self.texts = (), ('', 'a')

    # -------------------------------------------------- drawing values
    def enumof(self, t):
        if t in ENUMS and len(ENUMS[t]) > 1: return sorted(ENUMS[t])
        for k in ENUMS:
            if k.split('::')[-1] == t.split('::')[-1]: return sorted(ENUMS[k])
        return None

    def draw(self, h, t, depth=0):
        if self.touch is not None: self.touch.append(h)
        if self.salt: h = self.salt.get(h, h)
        t = clean(t) if t else None
        if t is None: return Tok(h)
        if t in self.domain: return self.domain[t](h)
        if t == 'bool': return bool(h >> 7 & 1)
        if self.consts and h // 512 % 3 == 0 and t in NUMT: return self.consts[h // 2048 % len(self.consts)]
        if t in ('char', 'signed char', 'Alphabet'): return CHRD[h % len(CHRD)]
        if t in ('unsigned char', 'ClockVariables', 'unsigned int', 'unsigned long', 'unsigned short', 'std::size_t', 'size_t', 'uint8_t'):
            return INTD[h % len(INTD)]
        if t in ('int', 'long', 'short', 'long long', 'std::ptrdiff_t', 'Eigen::Index'): return (INTD + [-1])[h % (len(INTD) + 1)]
        if t in ('double', 'float', 'long double'): return DBLD[h % len(DBLD)]
        if t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
            if h % 29 == 0: return None
            # few objects of each type, so that pointers are sometimes the same
            return Tok(mix(self.seed, sh(pointee(t)), (h >> 11) % self.objects), t) if self.objects else Tok(h, t)
        if engine.isstr(t):
            ts = self.texts
            return ('str', ts[h % len(ts)]) if h // 64 % 4 else Tok(h, t)
        if t.startswith('std::pair<'):
            return ('pair', self.draw(mix(h, 1), targ(t, 0), depth), self.draw(mix(h, 2), targ(t, 1), depth))
        if engine.isseq(t) and depth < 4 and not t.startswith('std::array'):
            n = (1, 2, 0, 1, 2)[h % 5]
            et = elemtype(t) or targ(t, 0)
            return ('seq',) + tuple(self.draw(mix(h, 31 + i), et, depth + 1) for i in range(n))
        if t.startswith('Eigen::Matrix'):
            return Mat(lambda i, j, h=h: self.draw(mix(h, int(i), int(j), 77), 'std::pair<double, bool>'), self.dim(), self.dim())
        if engine.ismap(t) or engine.isset(t): return Map(Tok(h, t))
        e = self.enumof(t)
        if e: return e[h % len(e)]
        return Tok(h, t)

    def ftype(self, t, f, term=None):
        if term is not None and term in TY: return TY[term]
        if t:
            c = clean(t)
            if c.endswith('*'): c = c[:-1].strip()
            for k in (c, c.replace('struct ', '').replace('class ', '')):
                r = self.P.records.get(k)
                if r:
                    for x in r.get('fields', ()):
                        if x['n'] == f: return x['t']
        ts = FT(self.P).get(f)
        if ts and len(ts) == 1: return next(iter(ts))
        return None

    # -------------------------------------------------- coercions
    def num(self, v):
        if v is True: return 1
        if v is False: return 0
        if isinstance(v, (int, float)): return v
        if isinstance(v, Fraction): return int(v) if v.denominator == 1 else float(v)
        if v is None: return 0
        if isinstance(v, str): raise Taint('number of a name')
        return INTD[vh(v) % len(INTD)]

    def int(self, v):
        v = self.num(v)
        if v != v or v in (float('inf'), float('-inf')): raise Taint('infinite count')
        return int(v)

    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if v is None: return False
        if isinstance(v, Tok):
            if v.t and (v.t.rstrip().endswith('*') or '_ptr<' in v.t): return True
            return bool(v.h >> 9 & 1)
        return True

    def seq(self, v):
        if isinstance(v, tuple) and v and v[0] == 'seq': return v[1:]
        if isinstance(v, Map): return tuple(self.mkey(v, i) for i in range(self.msize(v)))
        if isinstance(v, Tok):
            x = self.draw(v.h, v.t) if v.t else None
            if isinstance(x, tuple) and x and x[0] == 'seq': return x[1:]
            return tuple(Tok(mix(v.h, 31 + i)) for i in range((1, 2, 0, 1, 2)[v.h % 5]))
        raise Taint('not a sequence')

    # maps: the entries of an unknown map are materialised
    def mbase(self, m):
        """entries of the base token: list of (key, value)"""
        b_ = m.base
        if b_ is None: return []
        t = b_.t
        n = (1, 2, 0, 2)[b_.h % 4]
        kt, vt = (targ(clean(t), 0), targ(clean(t), 1)) if t else (None, None)
        ks = []
        for i in range(n):
            k = self.draw(mix(b_.h, 51 + i), kt)
            if k not in [x[0] for x in ks]:
                v = self.draw(mix(b_.h, 71, vh(k)), vt)
                ks.append((k, Tok(mix(b_.h, 72, vh(k)), vt) if v is None else v))        # an entry leads to an object
        return ks

    def mitems(self, m):
        r = [(k, m.ups.get(k, v)) for k, v in self.mbase(m) if k not in m.dels or k in m.ups]
        have = [k for k, _ in r]
        r += [(k, v) for k, v in m.ups.items() if k not in have]
        return r

    def asmap(self, v):
        if isinstance(v, Map): return v
        if isinstance(v, Tok): return Map(v)
        if isinstance(v, tuple) and v and v[0] == 'seq': return Map(None, [(x, True) for x in v[1:]])
        raise Taint('not a map')

    def msize(self, m): return len(self.mitems(m))
    def mkey(self, m, i):
        it = self.mitems(m)
        return it[int(i)][0] if 0 <= i < len(it) else Tok(mix(vh(m), 91, int(i)))
    def mhas(self, m, k): return k in [x[0] for x in self.mitems(m)]
    def mat(self, m, k, vt):
        for kk, v in self.mitems(m):
            if kk == k: return v
        if m.base is None: return Tok(mix(5, 71, vh(k)))     # not in a completely known map
        t = m.base.t
        vt = (targ(clean(t), 1) if t else None) or vt
        c = clean(vt or '')
        # what the access itself makes for a new key
        if c == 'bool': return False
        if c in NUMT: return 0
        if c.endswith('*') or c.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')): return None
        if engine.isseq(c) and not c.startswith('std::array'): return ('seq',)
        return self.draw(mix(vh(m.base), 71, vh(k)), vt)

    # -------------------------------------------------- evaluation
    def ev(self, t, bv=None):
        bv = bv or {}
        f = [x for x in fv(t) if x.op == 'bv']
        if f:
            key = (t, tuple(sorted(((x.a, vh(bv[x.a])) for x in f if x.a in bv))))
        else: key = t
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Taint): raise r
            return r
        self.budget -= 1
        if self.budget < 0: raise Taint('interpretation budget')
        try:
            m = getattr(self, 'o_' + t.op, None)
            r = m(t, bv) if m else self.uninterp(t, bv)
        except Taint as x:
            self.memo[key] = x
            raise
        except RecursionError:
            raise Taint('depth')
        self.memo[key] = r
        return r

    def uninterp(self, t, bv):
        hs = [sh(t.op), self.seed]
        for x in t.a:
            hs.append(vh(self.ev(x, bv)) if isinstance(x, T) else sh(str(x)))
        n = self.items(t)
        if n is not None:
            lo, hi = n
            h = mix(*hs)
            if self.touch is not None: self.touch.append(h)
            return lo + mix((self.salt or {}).get(h, h), 77) % (hi - lo + 1)
        return self.draw(mix(*hs), TY.get(t))

    def items(self, t):
        """the numbers of items that the C library can say it has read"""
        f = t.a[0] if t.a and isinstance(t.a[0], str) else t.op
        if f == 'fread': 
            for x in reversed([x for x in t.a if isinstance(x, T)]):
                if x.op == 'num' and x.a[0].denominator == 1: return 0, int(x.a[0])
        if f in ('fscanf', 'scanf', 'sscanf'):
            for x in t.a:
                if isinstance(x, T) and x.op == 'str': return -1, str(x.a[0]).count('%')
        return None

    def atom(self, t, *ks):
        v = self.draw(mix(self.seed, *[sh(str(k)) for k in ks]), TY.get(t))
        if v is None and str(ks[-1]).split('::')[-1] in ('stdin', 'stdout', 'stderr'): v = Tok(mix(self.seed, sh(str(ks[-1]))), TY.get(t))
        self.atoms[t] = v
        return v

    def o_num(self, t, bv):
        x = t.a[0]
        return int(x) if x.denominator == 1 else float(x)
    def o_b(self, t, bv): return t.a[0]
    def o_inf(self, t, bv): return float('inf')
    def o_none(self, t, bv): return None
    def o_null(self, t, bv): return None
    def o_str(self, t, bv): return ('str', t.a[0])
    def o_enumc(self, t, bv): return t.a[0]
    def o_sym(self, t, bv):
        if t.a[0] == 'this': return Tok(mix(self.seed, sh('this')), TY.get(t))
        return self.atom(t, 'sym', t.a[0])
    def o_undef(self, t, bv): return Tok(mix(self.seed, sh('undef')))
    def o_opaque(self, t, bv): raise Taint('unmodelled expression')
    def o_lam(self, t, bv): raise Taint('function value')
    def o_inserter(self, t, bv): raise Taint('inserter')
    def o_badrange(self, t, bv): raise Taint('range over two containers')
    def o_addr(self, t, bv):
        if t.a[0] == 'v' and (t.a[0], t.a[1]) in engine.ROOTT:       # a local object, known by its type
            h = sh('local' + clean(engine.ROOTT[(t.a[0], t.a[1])] or ''))
            for x in t.a[2:]: h = mix(h, vh(self.ev(x, bv)) if isinstance(x, T) else sh(str(x)))
            return Tok(h, 'ptr*')
        if t.a[0] not in ('p', 'h'): raise Taint('address')
        h = sh('addr' + str(t.a[0]))
        for x in t.a[1:]: h = mix(h, vh(self.ev(x, bv)) if isinstance(x, T) else sh(str(x)))
        return Tok(h, 'ptr*')
    def o_fn(self, t, bv): return ('fn', str(t.a[1]))
    def o_memfn(self, t, bv): return ('memfn', str(t.a[0]))
    def o_bv(self, t, bv):
        if t.a not in bv: raise Taint('free binder')
        return bv[t.a]
    def loopid(self, uid):
        r = self.loopmap.get((self.side, uid))
        if r is None: raise Taint('loop %s not related' % uid)
        return r
    def o_ix(self, t, bv):
        uid = t.a[0]
        if str(uid).startswith('L'):
            c, _ = self.loopid(uid)
            if c in self.ixv: return self.ixv[c]
            L = LOOPS.get(uid)
            if L is not None and L.lo is not None:
                lo, hi = self.int(self.ev(L.lo)), self.int(self.ev(L.hi))
                if hi <= lo: raise Unreached('empty range')
                return lo + self.pick(c) % (hi - lo)
            return INTD[mix(self.seed, sh('ix'), sh(str(c))) % len(INTD)]
        return INTD[mix(self.seed, sh('ix'), sh(str(uid))) % len(INTD)]
    def pick(self, c):
        h = mix(self.seed, 99, c)
        if self.touch is not None: self.touch.append(h)
        return self.salt.get(h, h) if self.salt else h
    def canonvar(self, uid, name):
        c, names = self.loopid(uid)
        pre = ''
        n = name
        if n.startswith('exit?'):
            if ('exits', c) not in self.loopmap: raise Taint('exits of the loops not related')
            return c, n, n
        if n == 'ret': return c, n, n
        if n not in names: raise Taint('loop variable %s not related' % name)
        return c, pre + names[n][0], names[n]
    def o_lv(self, t, bv):
        c, n, x = self.canonvar(t.a[0], t.a[1])
        v = self.draw(mix(self.seed, sh('lv'), sh(str(c)), sh(n)), x[1] or TY.get(t))
        self.atoms[t] = v
        return v
    def o_out(self, t, bv):
        c, n, x = self.canonvar(t.a[0], t.a[1])
        if isinstance(x, tuple) and (self.side, t.a[0], 'closed') in self.loopmap and t.a[1] in self.loopmap[(self.side, t.a[0], 'closed')]:
            raise Taint('%s is closed on one side only' % t.a[1])
        if self.emptyrange(t.a[0]):
            if n.startswith('exit?'): return False
            for d in LOOPS[t.a[0]].vars.values():
                if d['name'] == t.a[1]: return self.ev(d['init'], bv)
        ty_ = x[1] if isinstance(x, tuple) else ('bool' if n.startswith('exit?') else None)
        v = self.draw(mix(self.seed, sh('out'), sh(str(c)), sh(n)), ty_ or TY.get(t))
        self.atoms[t] = v
        return v
    def emptyrange(self, uid):
        L = LOOPS.get(uid)
        if L is None or L.lo is None: return False
        return self.int(self.ev(L.hi)) <= self.int(self.ev(L.lo))
    def o_new(self, t, bv):
        c = self.newmap.get((self.side, t.a[0]))
        if c is None: raise Taint('allocation not related')
        return Tok(mix(sh('new'), sh(str(c)), *[vh(self.ev(x, bv)) for x in t.a[1:] if isinstance(x, T)]), TY.get(t) or 'ptr*')
    # numbers
    def o_lin(self, t, bv):
        s = self.n_(t.a[0])
        for i in range(1, len(t.a), 2):
            k, c = t.a[i], self.n_(t.a[i + 1])
            s = s + c * self.num(self.ev(k, bv))
        if s != s: raise Taint('nan')
        return s
    def n_(self, x):
        if isinstance(x, Fraction): return int(x) if x.denominator == 1 else float(x)
        return x
    def o_mul(self, t, bv):
        r = 1
        for x in t.a: r = r * self.num(self.ev(x, bv))
        if r != r: raise Taint('nan')
        return r
    def o_div(self, t, bv):
        x, y = self.num(self.ev(t.a[0], bv)), self.num(self.ev(t.a[1], bv))
        if y == 0 or x in (float('inf'),) : raise Taint('division')
        return x / y
    def o_min(self, t, bv):
        return min((self.ev(x, bv) for x in t.a), key=self.okey)
    def o_max(self, t, bv):
        return max((self.ev(x, bv) for x in t.a), key=self.okey)
    def okey(self, v):
        if isinstance(v, tuple) and v and v[0] == 'pair': return (self.okey(v[1]), self.okey(v[2]))
        if isinstance(v, Rec) and set(v.d) == {'first', 'second'}: return (self.okey(v.d['first']), self.okey(v.d['second']))
        if isinstance(v, Tok) and v.t and v.t.startswith('std::pair'): return self.okey(self.draw(v.h, v.t))
        return self.num(v) if not isinstance(v, str) else sh(v)
    # booleans
    def o_not(self, t, bv): return not self.truth(self.ev(t.a[0], bv))
    def o_nz(self, t, bv): return self.truth(self.ev(t.a[0], bv))
    def o_and(self, t, bv):
        tn = None
        for x in t.a:
            try:
                if not self.truth(self.ev(x, bv)): return False
            except Taint as e: tn = e
        if tn: raise tn
        return True
    def o_or(self, t, bv):
        tn = None
        for x in t.a:
            try:
                if self.truth(self.ev(x, bv)): return True
            except Taint as e: tn = e
        if tn: raise tn
        return False
    def o_lt0(self, t, bv): return self.num(self.ev(t.a[0], bv)) < 0
    def o_le0(self, t, bv): return self.num(self.ev(t.a[0], bv)) <= 0
    def o_eq0(self, t, bv): return self.num(self.ev(t.a[0], bv)) == 0
    def o_eq(self, t, bv): return self.eqv(self.ev(t.a[0], bv), self.ev(t.a[1], bv))
    def eqv(self, x, y):
        if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)): return x == y
        if isinstance(x, (int, float)) and isinstance(y, Tok): return x == self.num(y)
        if isinstance(y, (int, float)) and isinstance(x, Tok): return y == self.num(x)
        x, y = self.canon(x), self.canon(y)
        if isinstance(y, Rec) and y.base is None: x, y = y, x
        if isinstance(x, Rec) and x.base is None and isinstance(y, (Tok, Rec)) and (isinstance(y, Tok) or y.base is not None) and x.d:
            # built field by field on one side only
            return set(y.d if isinstance(y, Rec) else ()) <= set(x.d) and all(self.eqv(v, self.fld(y, f, None)) for f, v in x.d.items())
        return x == y
    def canon(self, v):
        if isinstance(v, Rec) and set(v.d) == {'first', 'second'} : return ('pair', v.d['first'], v.d['second'])
        if isinstance(v, Tok) and v.t and v.t.startswith('std::pair<'): return self.draw(v.h, v.t)
        return v
    o_mateq = o_eq
    def o_plt(self, t, bv): return self.okey(self.ev(t.a[0], bv)) < self.okey(self.ev(t.a[1], bv))
    def o_ite(self, t, bv): return self.ev(t.a[1] if self.truth(self.ev(t.a[0], bv)) else t.a[2], bv)
    # records
    def o_rec(self, t, bv):
        d = {t.a[i]: self.ev(t.a[i + 1], bv) for i in range(1, len(t.a), 2)}
        if t.a[0] is NONE:
            if set(d) == {'first', 'second'}: return ('pair', d['first'], d['second'])
            return Rec(None, d)
        base = self.ev(t.a[0], bv)
        if isinstance(base, Rec): return self.mkrec(base.base, {**base.d, **d})
        if isinstance(base, tuple) and base and base[0] == 'pair':
            return ('pair', d.get('first', base[1]), d.get('second', base[2]))
        return self.mkrec(base, d)
    def mkrec(self, base, d):
        d = {f: v for f, v in d.items() if base is None or not self.same(self.fld(base, f, None), v)}
        return Rec(base, d) if d or base is None else base
    def same(self, x, y):
        return type(x) == type(y) and x == y
    def fld(self, v, f, term):
        if isinstance(v, Rec):
            if f in v.d: return v.d[f]
            if v.base is None: raise Taint('missing field')
            v = v.base
        if isinstance(v, tuple) and v and v[0] == 'pair':
            if f == 'first': return v[1]
            if f == 'second': return v[2]
        if isinstance(v, Tok):
            if v.t and v.t.startswith('std::pair<'): return self.fld(self.draw(v.h, v.t), f, term)
            return self.draw(mix(v.h, sh(f), 41), self.ftype(v.t, f, term))
        if v is None: raise Unreached('field of null')
        return self.draw(mix(vh(v), sh(f), 41), self.ftype(None, f, term))
    def o_fld(self, t, bv): return self.fld(self.ev(t.a[0], bv), t.a[1], t)
    def o_deref(self, t, bv):
        p = self.ev(t.a[0], bv)
        if p is None: raise Unreached('deref null %s' % str(t.a[0])[:300])
        tt = TY.get(t)
        if tt is None and isinstance(p, Tok) and p.t:
            c = clean(p.t)
            tt = c[:-1].strip() if c.endswith('*') else targ(c, 0)
        return self.draw(mix(vh(p), 43), tt)
    # sequences
    def o_seq(self, t, bv): return ('seq',) + tuple(self.ev(x, bv) for x in t.a)
    def o_tup(self, t, bv): return ('tup',) + tuple(self.ev(x, bv) for x in t.a)
    def o_cat(self, t, bv):
        r = ('seq',)
        for x in t.a: r += self.seq(self.ev(x, bv))
        return r
    def o_opt(self, t, bv): return ('seq',) + self.seq(self.ev(t.a[1], bv)) if self.truth(self.ev(t.a[0], bv)) else ('seq',)
    def rng(self, t, bv):
        h, lo, hi = t.a[0], self.int(self.ev(t.a[1], bv)), self.int(self.ev(t.a[2], bv))
        r = range(lo, hi)
        if hi - lo > 8:
            # some members of a long range, the same ones however the range is written
            if t.op == 'fm' and t.a[3] is TRUE and t.a[4].op == 'seq': raise Taint('long range')
            r = sorted({x for x in (0, 1, 2, 36, 97, 98, lo if lo > 2 else 1, hi - 2, hi - 1) if lo <= x < hi})
        for i in r:
            b2 = dict(bv); b2[(h,)] = i
            yield i, b2
    def o_fm(self, t, bv):
        r = ('seq',)
        for i, b2 in self.rng(t, bv):
            if self.truth(self.ev(t.a[3], b2)): r += self.seq(self.ev(t.a[4], b2))
        return r
    def o_exists(self, t, bv):
        return any(self.truth(self.ev(t.a[3], b2)) for i, b2 in self.rng(t, bv))
    def o_maxover(self, t, bv):
        vs = [self.ev(t.a[3], b2) for i, b2 in self.rng(t, bv)]
        return max(vs, key=self.okey) if vs else float('-inf')
    def o_minover(self, t, bv):
        vs = [self.ev(t.a[3], b2) for i, b2 in self.rng(t, bv)]
        return min(vs, key=self.okey) if vs else float('inf')
    def o_sumover(self, t, bv): return sum(self.num(self.ev(t.a[3], b2)) for i, b2 in self.rng(t, bv))
    def o_lastwhere(self, t, bv):
        for i, b2 in reversed(list(self.rng(t, bv))):
            if self.truth(self.ev(t.a[3], b2)): return self.ev(t.a[4], b2)
        return Tok(mix(sh('nowhere')))
    def o_firstwhere(self, t, bv):
        for i, b2 in self.rng(t, bv):
            if self.truth(self.ev(t.a[3], b2)): return self.ev(t.a[4], b2)
        return Tok(mix(sh('nowhere')))
    def o_findidx(self, t, bv):
        for i, b2 in self.rng(t, bv):
            if self.truth(self.ev(t.a[3], b2)): return i
        return self.int(self.ev(t.a[2], bv))
    def o_size(self, t, bv):
        v = self.ev(t.a[0], bv)
        if isinstance(v, Map): return self.msize(v)
        return len(self.seq(v))
    def o_idx(self, t, bv):
        v, i = self.ev(t.a[0], bv), self.int(self.ev(t.a[1], bv))
        if isinstance(v, Map): return self.mkey(v, i)
        if isinstance(v, Tok) and not (v.t and engine.isseq(v.t) and not v.t.startswith('std::array')):
            return self.draw(mix(v.h, 31 + i), TY.get(t) or (elemtype(v.t) if v.t else None))
        if isinstance(v, Rec): return self.draw(mix(vh(v), 31 + i), TY.get(t))
        s = self.seq(v)
        if 0 <= i < len(s): return s[i]
        # outside: undefined, but the same element on both sides
        et = TY.get(t)
        if et is None or t.a[0].op not in ('sym', 'fld', 'lv', 'idx', 'deref'): raise Taint('index out of range')
        return self.draw(mix(vh(v), 31 + i, 7), et)
    def o_upd(self, t, bv):
        v, i, x = self.ev(t.a[0], bv), self.int(self.ev(t.a[1], bv)), self.ev(t.a[2], bv)
        if isinstance(v, Tok) and v.t and v.t.startswith('std::array'): return Rec(v, {'[%d]' % i: x})
        s = self.seq(v)
        if 0 <= i < len(s): return ('seq',) + s[:i] + (x,) + s[i + 1:]
        raise Taint('index out of range')
    def o_updall(self, t, bv):
        s = list(self.seq(self.ev(t.a[5], bv)))
        for i, b2 in self.rng(t, bv):
            k = self.int(self.ev(t.a[3], b2))
            if not 0 <= k < len(s): raise Taint('index out of range')
            s[k] = self.ev(t.a[4], b2)
        return ('seq',) + tuple(s)
    def o_mapi(self, t, bv):
        s = list(self.seq(self.ev(t.a[0], bv)))
        h, lo, hi = t.a[1], self.int(self.ev(t.a[2], bv)), self.int(self.ev(t.a[3], bv))
        for i in range(lo, min(hi, lo + 8)):
            if not 0 <= i < len(s): raise Taint('index out of range')
            b2 = dict(bv); b2[(h,)] = i
            s[i] = self.ev(t.a[4], b2)
        return ('seq',) + tuple(s)
    def o_fill(self, t, bv):
        n = self.int(self.ev(t.a[0], bv))
        if n < 0 or n > 300: raise Taint('size')
        return ('seq',) + (self.ev(t.a[1], bv),) * n
    def o_rsz(self, t, bv):
        s, n = self.seq(self.ev(t.a[0], bv)), self.int(self.ev(t.a[1], bv))
        if n < 0 or n > 300: raise Taint('size')
        return ('seq',) + (s + (self.ev(t.a[2], bv),) * max(0, n - len(s)))[:n]
    def o_slice(self, t, bv):
        s = self.seq(self.ev(t.a[0], bv))
        return ('seq',) + s[max(0, self.int(self.ev(t.a[1], bv))):max(0, self.int(self.ev(t.a[2], bv)))]
    def o_popb(self, t, bv):
        s = self.seq(self.ev(t.a[0], bv))
        if not s: raise Taint('pop of empty')
        return ('seq',) + s[:-1]
    def o_popf(self, t, bv):
        s = self.seq(self.ev(t.a[0], bv))
        if not s: raise Taint('pop of empty')
        return ('seq',) + s[1:]
    def o_ins(self, t, bv):
        s, i, x = self.seq(self.ev(t.a[0], bv)), self.int(self.ev(t.a[1], bv)), self.seq(self.ev(t.a[2], bv))
        if not 0 <= i <= len(s): raise Taint('position')
        return ('seq',) + s[:i] + x + s[i:]
    def o_erase(self, t, bv):
        s, i = self.seq(self.ev(t.a[0], bv)), self.int(self.ev(t.a[1], bv))
        if not 0 <= i < len(s): raise Taint('position')
        return ('seq',) + s[:i] + s[i + 1:]
    def o_eraserng(self, t, bv):
        s = self.seq(self.ev(t.a[0], bv)); i = self.int(self.ev(t.a[1], bv))
        j = len(s) if t.a[2] is NONE else self.int(self.ev(t.a[2], bv))
        return ('seq',) + s[:i] + s[j:]
    def o_sort(self, t, bv): return ('seq',) + tuple(sorted(self.seq(self.ev(t.a[0], bv)), key=lambda v: (str(type(v)), vh(v))))
    def o_uniq(self, t, bv):
        r = ()
        for x in self.seq(self.ev(t.a[0], bv)):
            if not r or r[-1] != x: r += (x,)
        return ('seq',) + r
    def o_removed(self, t, bv): return self.ev(t.a[1], bv)
    def o_newend(self, t, bv): return len(self.seq(self.ev(t.a[0], bv)))
    # maps and sets
    def o_emap0(self, t, bv): return Map(None)
    def o_has(self, t, bv):
        m = self.ev(t.a[0], bv)
        return self.mhas(self.asmap(m), self.ev(t.a[1], bv))
    def o_at(self, t, bv):
        m = self.asmap(self.ev(t.a[0], bv))
        return self.mat(m, self.ev(t.a[1], bv), TY.get(t))
    def o_mupd(self, t, bv):
        m, k, v = self.asmap(self.ev(t.a[0], bv)), self.ev(t.a[1], bv), self.ev(t.a[2], bv)
        return self.mput(m, k, v)
    def mput(self, m, k, v):
        for kk, vv in self.mbase(m):
            if kk == k and kk not in m.dels and self.same(vv, v):
                u = dict(m.ups); u.pop(k, None)
                return Map(m.base, u, m.dels)
        u = dict(m.ups); u[k] = v
        return Map(m.base, u, m.dels)
    def o_merase(self, t, bv):
        m, k = self.asmap(self.ev(t.a[0], bv)), self.ev(t.a[1], bv)
        u = dict(m.ups); u.pop(k, None)
        ks = [x for x, _ in self.mbase(m)]
        return Map(m.base, u, m.dels | ({k} if k in ks else set()))
    def o_sadd(self, t, bv):
        m = self.asmap(self.ev(t.a[0], bv))
        k = self.ev(t.a[1], bv)
        return m if self.mhas(m, k) else self.mput(m, k, True)
    def o_sunion(self, t, bv):
        m = self.asmap(self.ev(t.a[0], bv))
        for k, _ in self.mitems(self.asmap(self.ev(t.a[1], bv))):
            if not self.mhas(m, k): m = self.mput(m, k, True)
        return m
    def o_elems(self, t, bv): return ('seq',) + tuple(self.seq(self.ev(t.a[0], bv)))
    def o_setof(self, t, bv):
        m = Map(None)
        for k in self.seq(self.ev(t.a[0], bv)): m = self.mput(m, k, True)
        return m
    def o_keyat(self, t, bv):
        return self.mkey(self.asmap(self.ev(t.a[0], bv)), self.int(self.ev(t.a[1], bv)))
    def o_mfm(self, t, bv):
        m = self.asmap(self.ev(t.a[3], bv))
        for i, b2 in self.rng(t, bv):
            if self.truth(self.ev(t.a[4], b2)): m = self.mput(m, self.ev(t.a[5], b2), self.ev(t.a[6], b2))
        return m
    def o_mfilt(self, t, bv):
        m = self.asmap(self.ev(t.a[3], bv))
        for i, b2 in self.rng(t, bv):
            if not self.truth(self.ev(t.a[4], b2)):
                k = self.mkey(self.asmap(self.ev(t.a[3], bv)), i)
                u = dict(m.ups); u.pop(k, None)
                m = Map(m.base, u, m.dels | ({k} if k in [x for x, _ in self.mbase(m)] else set()))
        return m
    def o_sfm(self, t, bv):
        m = self.asmap(self.ev(t.a[3], bv))
        for i, b2 in self.rng(t, bv):
            if self.truth(self.ev(t.a[4], b2)):
                k = self.ev(t.a[5], b2)
                if not self.mhas(m, k): m = self.mput(m, k, True)
        return m
    def o_emap(self, t, bv):
        m = self.asmap(self.ev(t.a[5], bv))
        r = m
        for i, b2 in self.rng(t, bv): r = self.mput(r, self.ev(t.a[3], b2), self.ev(t.a[4], b2))
        return r
    # matrices
    def o_cell(self, t, bv):
        m = self.ev(t.a[0], bv)
        i, j = self.int(self.ev(t.a[1], bv)), self.int(self.ev(t.a[2], bv))
        if isinstance(m, Mat): return m(i, j)
        return self.draw(mix(vh(m), i, j, 77), 'std::pair<double, bool>')
    def o_cupd(self, t, bv):
        m = self.ev(t.a[0], bv)
        i, j, v = self.int(self.ev(t.a[1], bv)), self.int(self.ev(t.a[2], bv)), self.ev(t.a[3], bv)
        sz = (m.nr, m.nc) if isinstance(m, Mat) else (self.dim(), self.dim())
        return Mat(lambda a, b_: v if (a, b_) == (i, j) else m(a, b_) if isinstance(m, Mat) else self.draw(mix(vh(m), a, b_, 77), 'std::pair<double, bool>'), *sz)
    def o_mlam(self, t, bv):
        h, body = t.a[0], t.a[1]
        def f(i, j):
            b2 = dict(bv); b2[(h,)] = i; b2[(h, 'c')] = j
            return self.canon(self.ev(body, b2))
        return Mat(f, self.int(self.ev(t.a[2], bv)), self.int(self.ev(t.a[3], bv)))
    def extreme(self, t, bv, pick):
        m = self.ev(t.a[0], bv)
        if not isinstance(m, Mat): return self.uninterp(t, bv)
        c = [self.canon(m(i, j)) for i in range(m.nr) for j in range(m.nc)]
        if not c: raise Unreached('extreme of no entry')
        return pick(c, key=self.okey)
    def o_matminCoeff(self, t, bv): return self.extreme(t, bv, min)
    def o_matmaxCoeff(self, t, bv): return self.extreme(t, bv, max)
    def dim(self): return (3, 2, 3, 4)[mix(self.seed, sh('dim')) % 4]
    def o_rows(self, t, bv):
        m = self.ev(t.a[0], bv)
        return m.nr if isinstance(m, Mat) else self.dim()
    def o_cols(self, t, bv):
        m = self.ev(t.a[0], bv)
        return m.nc if isinstance(m, Mat) else self.dim()
    def o_lrow(self, t, bv): return self.int(self.ev(t.a[0], bv)) // 3
    def o_lcol(self, t, bv): return self.int(self.ev(t.a[0], bv)) % 3
    # iterators, variants
    def o_it(self, t, bv):
        i = t.a[1]
        if i.op == 'key': return ('itkey', self.ev(i.a[0], bv))
        return ('it', self.ev(i, bv))
    def o_key(self, t, bv): return ('itkey', self.ev(t.a[0], bv))
    def o_trunc(self, t, bv):
        v = self.num(self.ev(t.a[0], bv))
        if v in (float('inf'), float('-inf')): return Tok(mix(sh('trunc of infinity')))
        return int(v)


_ft = {}
def FT(P):
    k = id(P)
    if k not in _ft:
        d = _ft[k] = {}
        for r in P.records.values():
            for x in r.get('fields', ()): d.setdefault(x['n'], set()).add(x['t'])
    return _ft[k]
