"""Hash-consed value terms: the value numbers of the analysis.

Every value a function computes is described by a term over the values it was given.
Terms are built only through the smart constructors below, so that two expressions which
are the same by the algebra of numbers, booleans, conditionals, records and sequences get
the same value number.  Loops are described by comprehensions (one binder, canonical name).
"""
from fractions import Fraction
import itertools

class T:
    __slots__ = ('op', 'a', 'id', 'h', '_fv')
    def __repr__(self): return show(self)

_tab = {}
_ctr = itertools.count()
TY = {}            # term -> C++ type of the value, where known

def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_ctr)
        h = 0
        if op == 'bv': h = a[0]
        else:
            for x in a:
                if isinstance(x, T) and x.h > h: h = x.h
        if op in BIND and isinstance(a[0], int) and a[0] > h: h = a[0]
        t.h = h
        t._fv = None
        _tab[k] = t
    return t

# binder operations: first argument is the binder height; BIND[op] = positions of arguments under the binder
BIND = {'fm': (3, 4), 'exists': (3,), 'maxover': (3,), 'minover': (3,), 'sumover': (3,), 'lastwhere': (3, 4), 'firstwhere': (3, 4),
        'mapi': (4,), 'filt': (2,), 'findidx': (3,), 'mlam': (1,), 'mfm': (4, 5, 6), 'mfilt': (4,), 'sfm': (4, 5), 'sorted': (2,),
        'lam1': (1,), 'emap': (3, 4), 'updall': (3, 4)}

TRUE = mk('b', True); FALSE = mk('b', False)
NONE = mk('none')
INF = mk('inf')
_uid = itertools.count(1)
def fresh(): return next(_uid)

def ty(t, s):
    if s is not None and t not in TY: TY[t] = s
    return t

# ---------------------------------------------------------------- numbers
def num(x):
    if isinstance(x, float):
        if x == float('inf'): return INF
        x = Fraction(x).limit_denominator(10**9)
    elif not isinstance(x, Fraction): x = Fraction(x)
    return mk('num', x)

ZERO = num(0); ONE = num(1)

def lin_parts(t):
    if t.op == 'num': return t.a[0], {}
    if t.op == 'lin':
        d = {}
        for i in range(1, len(t.a), 2): d[t.a[i]] = t.a[i + 1]
        return t.a[0], d
    if t.op == 'b': return Fraction(int(t.a[0])), {}
    if t.op == 'enumc': pass
    return Fraction(0), {t: Fraction(1)}

def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if INF in d:
        s = d[INF]
        if s > 0: return INF
        return mk('lin', Fraction(0), INF, Fraction(-1))
    if not d: return num(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    a = [c]
    for k in sorted(d, key=lambda t: t.id): a += [k, d[k]]
    return mk('lin', *a)

def add(x, y):
    if x.op == 'ite' and y.op in ('num',): return ite(x.a[0], add(x.a[1], y), add(x.a[2], y))
    if y.op == 'ite' and x.op in ('num',): return ite(y.a[0], add(x, y.a[1]), add(x, y.a[2]))
    c1, d1 = lin_parts(x); c2, d2 = lin_parts(y)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return mklin(c1 + c2, d)

def neg(x):
    if x.op == 'ite': return ite(x.a[0], neg(x.a[1]), neg(x.a[2]))
    c, d = lin_parts(x)
    return mklin(-c, {k: -v for k, v in d.items()})

def sub(x, y): return add(x, neg(y))

def mul(x, y):
    if x.op == 'num' or y.op == 'num':
        if y.op == 'num': x, y = y, x
        c, d = lin_parts(y)
        return mklin(c * x.a[0], {k: v * x.a[0] for k, v in d.items()})
    if x.id > y.id: x, y = y, x
    return mk('mul', x, y)

def isnum(t): return t.op in ('num', 'lin', 'inf', 'mul', 'div', 'size', 'maxover', 'sumover')

# ---------------------------------------------------------------- booleans
def b(v): return TRUE if v else FALSE

_notm, _andm, _orm, _item = {}, {}, {}, {}
def not_(t):
    r = _notm.get(t)
    if r is None:
        r = _notm[t] = _not1(t)
    return r

def _not1(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    if t.op == 'lt0': return _le0(neg(t.a[0]))
    if t.op == 'le0': return _lt0(neg(t.a[0]))
    if t.op == 'and': return or_(*[not_(x) for x in t.a])
    if t.op == 'or': return and_(*[not_(x) for x in t.a])
    if t.op == 'ite': return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t)

def conj(t): return t.a if t.op == 'and' else (() if t is TRUE else (t,))
def disj(t): return t.a if t.op == 'or' else (() if t is FALSE else (t,))

def and_(*ts):
    k = tuple(t.id for t in ts)
    r = _andm.get(k)
    if r is None: r = _andm[k] = _and1(*ts)
    return r

def or_(*ts):
    k = tuple(t.id for t in ts)
    r = _orm.get(k)
    if r is None: r = _orm[k] = _or1(*ts)
    return r

def _and1(*ts):
    s = {}
    for t in ts:
        for x in conj(t): s[x] = 1
    if FALSE in s: return FALSE
    for x in list(s):
        if not_(x) in s: return FALSE
    # unit resolution of disjunctions and enum facts
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == 'or':
                ds = [d for d in x.a if not_(d) not in s and not (d.op == 'and' and any(not_(y) in s for y in d.a))]
                if any(d in s for d in x.a):
                    del s[x]; changed = True; break
                if len(ds) != len(x.a):
                    del s[x]
                    r = or_(*ds)
                    if r is FALSE: return FALSE
                    for y in conj(r): s[y] = 1
                    changed = True; break
    eqs = {}
    for x in s:
        if x.op == 'eq' and x.a[1].op == 'enumc':
            if eqs.setdefault(x.a[0], x.a[1]) is not x.a[1]: return FALSE
    if eqs:
        for x in list(s):
            if x.op == 'not' and x.a[0].op == 'eq' and x.a[0].a[0] in eqs and x.a[0].a[1].op == 'enumc':
                if eqs[x.a[0].a[0]] is x.a[0].a[1]: return FALSE
                del s[x]
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and', *sorted(s, key=lambda t: t.id))

def _or1(*ts):
    s = {}
    for t in ts:
        for x in disj(t): s[x] = 1
    if TRUE in s: return TRUE
    for x in list(s):
        if not_(x) in s: return TRUE
    # absorption, resolution with common parts
    changed = True
    while changed and len(s) > 1:
        changed = False
        L = list(s)
        for i in range(len(L)):
            for j in range(len(L)):
                if i == j: continue
                A, B = set(conj(L[i])), set(conj(L[j]))
                if A <= B:
                    del s[L[j]]; changed = True; break
                ra, rb = A - B, B - A
                if len(ra) == 1:
                    c = next(iter(ra))
                    if not_(c) in rb:
                        # (p & c) | (p & q & !c) = (p & c) | (p & q)
                        del s[L[j]]
                        n = and_(*(B - {not_(c)}))
                        if n is TRUE: return TRUE
                        for d in disj(n): s[d] = 1
                        changed = True; break
            if changed: break
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    # factor common conjuncts
    L = list(s)
    common = set(conj(L[0]))
    for x in L[1:]: common &= set(conj(x))
    if common:
        rest = [and_(*[y for y in conj(x) if y not in common]) for x in L]
        return and_(*common, or_(*rest))
    # all values of an enum covered
    for x in L:
        if x.op == 'eq' and x.a[1].op == 'enumc':
            en = x.a[1].a[0].rsplit('::', 1)[0]
            have = {y.a[1].a[0] for y in L if y.op == 'eq' and y.a[0] is x.a[0] and y.a[1].op == 'enumc'}
            dom = ENUMS.get(en)
            if dom and have >= dom: return TRUE
    return mk('or', *sorted(s, key=lambda t: t.id))

ENUMS = {}

def _lt0(x):
    if x.op == 'num': return b(x.a[0] < 0)
    if x is INF: return FALSE
    c, d = lin_parts(x)
    if INF in d: return b(d[INF] < 0)
    if d:
        # scale so that the first coefficient is +-1
        k0 = min(d, key=lambda t: t.id); s = abs(d[k0])
        if s != 1: x = mklin(c / s, {k: v / s for k, v in d.items()})
    return mk('lt0', x)

def _le0(x):
    if x.op == 'num': return b(x.a[0] <= 0)
    if x is INF: return FALSE
    c, d = lin_parts(x)
    if INF in d: return b(d[INF] < 0)
    if d:
        k0 = min(d, key=lambda t: t.id); s = abs(d[k0])
        if s != 1: x = mklin(c / s, {k: v / s for k, v in d.items()})
    return mk('le0', x)

PAIRISH = ('std::pair<double, bool>', 'pair<double, bool>', 'Bounds')
def ispair(t):
    if t.op == 'rec' and len(t.a) >= 5 and t.a[1] == 'first': return True
    if t.op in ('min', 'max'): return ispair(t.a[0])
    if t.op == 'ite': return ispair(t.a[1]) or ispair(t.a[2])
    s = TY.get(t)
    return bool(s) and s.replace('const ', '').startswith(PAIRISH)

def lt(x, y):
    if x is y: return FALSE
    if ispair(x) or ispair(y): return mk('plt', x, y)
    if x.op == 'tup' or y.op == 'tup': return mk('plt', x, y)
    return _lt0(sub(x, y))
def le(x, y):
    if x is y: return TRUE
    if ispair(x) or ispair(y): return not_(lt(y, x))
    return _le0(sub(x, y))

def eq(x, y):
    if x is y: return TRUE
    if x.op == 'ite' and y.op in ('num', 'enumc', 'b', 'null', 'str'): return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == 'ite' and x.op in ('num', 'enumc', 'b', 'null', 'str'): return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
    if x.op in ('b',) or y.op in ('b',):
        if x.op == 'b': x, y = y, x
        if x.op == 'num': x = b(x.a[0] != 0)
        if x.op == 'b': return b(x.a[0] == y.a[0])
        return truth(x) if y.a[0] else not_(truth(x))
    if x.op == 'enumc' or y.op == 'enumc':
        if x.op == 'enumc': x, y = y, x
        if x.op == 'enumc': return FALSE
        return mk('eq', x, y)
    if x.op == 'str' and y.op == 'str': return FALSE
    if {x.op, y.op} == {'new', 'null'} or {x.op, y.op} == {'addr', 'null'}: return FALSE
    if x.op == 'new' and y.op == 'new': return FALSE
    if ispair(x) or ispair(y):
        return and_(eq(getf(x, 'first'), getf(y, 'first')), eq(getf(x, 'second'), getf(y, 'second')))
    if x.op in ('num', 'lin', 'inf', 'mul') or y.op in ('num', 'lin', 'inf', 'mul'):
        z = sub(x, y)
        if z.op == 'num': return b(z.a[0] == 0)
        c, d = lin_parts(z)
        if INF in d:
            o = x if y is INF else y
            if o.op in ('num',): return FALSE
            if x is INF: x, y = y, x
            return mk('eq', x, y)
        k0 = min(d, key=lambda t: t.id); s = d[k0]
        if s != 1: z = mklin(c / s, {k: v / s for k, v in d.items()})
        return mk('eq0', z)
    if x.op == 'rec' and y.op == 'rec' and x.a[0] is NONE and y.a[0] is NONE and x.a[1::2] == y.a[1::2]:
        return and_(*[eq(p, q) for p, q in zip(x.a[2::2], y.a[2::2])])
    if x.id > y.id: x, y = y, x
    if y.op == 'null' : return mk('not', mk('nz', x)) if False else mk('eq', x, y)
    if x.op == 'null': x, y = y, x
    return mk('eq', x, y)

def ne(x, y): return not_(eq(x, y))

BOOLOPS = {'b', 'not', 'and', 'or', 'lt0', 'le0', 'eq', 'eq0', 'plt', 'has', 'exists', 'fetch', 'nz'}
def isbool(t):
    if t.op in BOOLOPS: return True
    if t.op == 'ite': return isbool(t.a[1]) and isbool(t.a[2])
    s = TY.get(t)
    return s in ('bool', 'const bool')

NULL = mk('null')
def truth(t):
    """value used as a condition"""
    if t.op == 'num': return b(t.a[0] != 0)
    if t is INF: return TRUE
    if t is NULL: return FALSE
    if t.op in ('addr', 'new', 'str'): return TRUE
    if isbool(t): return t
    if t.op == 'ite': return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    s = TY.get(t) or ''
    if s.endswith('*') or '_ptr<' in s: return not_(eq(t, NULL))
    if t.op == 'lin' or s in ('double', 'int', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char', 'const double', 'const int'):
        return not_(eq(t, ZERO))
    return mk('nz', t)

# ---------------------------------------------------------------- conditionals
def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if c.op == 'not': return ite(c.a[0], y, x)
    if c.op in ('le0',):     # canonical direction for comparisons
        n = not_(c)
        if n.op == 'lt0': return _ite(n, y, x)
    k = (c.id, x.id, y.id)
    r = _item.get(k)
    if r is None: r = _item[k] = _ite(c, x, y)
    return r

def _ite(c, x, y):
    x = assume(x, c, True); y = assume(y, c, False)
    if x is y: return x
    bx, by = isbool(x), isbool(y)
    if bx and by:
        if x is TRUE: return or_(c, y)
        if x is FALSE: return and_(not_(c), y)
        if y is TRUE: return or_(not_(c), x)
        if y is FALSE: return and_(c, x)
        return or_(and_(c, x), and_(not_(c), y))
    if x.op == 'ite' and x.a[2] is y: return ite(and_(c, x.a[0]), x.a[1], y)
    if x.op == 'ite' and x.a[1] is y: return ite(and_(c, not_(x.a[0])), x.a[2], y)
    if y.op == 'ite' and y.a[1] is x: return ite(or_(c, y.a[0]), x, y.a[2])
    if y.op == 'ite' and y.a[2] is x: return ite(and_(not_(c), y.a[0]), y.a[1], x)
    # records: move the conditional inwards when both share the base
    if x.op == 'rec' or y.op == 'rec':
        bx_, by_ = recbase(x), recbase(y)
        if bx_ is by_ or (x.op == 'rec' and x.a[0] is NONE and y.op != 'ite') or (y.op == 'rec' and y.a[0] is NONE and x.op != 'ite'):
            base = bx_ if bx_ is by_ else NONE
            fs = set()
            if x.op == 'rec': fs |= set(x.a[1::2])
            if y.op == 'rec': fs |= set(y.a[1::2])
            return rec(base, {f: ite(c, getf(x, f), getf(y, f)) for f in fs})
    # min / max
    if c.op == 'lt0' and not bx:
        z = c.a[0]
        if sub(x, y) is z: return min_(x, y)
        if sub(y, x) is z: return max_(x, y)
    if c.op == 'plt':
        if c.a[0] is x and c.a[1] is y: return min_(x, y)
        if c.a[0] is y and c.a[1] is x: return max_(x, y)
    # sequences
    sx, sy = seqparts(x), seqparts(y)
    if (sx is not None or sy is not None) and x.op != 'ite' and y.op != 'ite':
        sx = sx if sx is not None else [x]; sy = sy if sy is not None else [y]
        n = 0
        while n < len(sx) and n < len(sy) and sx[n] is sy[n]: n += 1
        # longest common literal prefix
        if n or (not sx or not sy):
            rx, ry = sx[n:], sy[n:]
            return cat(*sx[:n], opt(c, cat(*rx)), opt(not_(c), cat(*ry)))
    # map / matrix updates with the same base
    if x.op == 'cupd' and x.a[0] is y: return mk('cupd', y, x.a[1], x.a[2], ite(c, x.a[3], cell(y, x.a[1], x.a[2])))
    if y.op == 'cupd' and y.a[0] is x: return mk('cupd', x, y.a[1], y.a[2], ite(c, cell(x, y.a[1], y.a[2]), y.a[3]))
    if x.op == 'cupd' and y.op == 'cupd' and x.a[:3] == y.a[:3]: return mk('cupd', x.a[0], x.a[1], x.a[2], ite(c, x.a[3], y.a[3]))
    if x.op == 'upd' and x.a[0] is y: return upd(y, x.a[1], ite(c, x.a[2], idx(y, x.a[1])))
    if y.op == 'upd' and y.a[0] is x: return upd(x, y.a[1], ite(c, idx(x, y.a[1]), y.a[2]))
    if x.op == 'upd' and y.op == 'upd' and x.a[:2] == y.a[:2]: return upd(x.a[0], x.a[1], ite(c, x.a[2], y.a[2]))
    if x.op == 'mupd' and y.op == 'mupd' and x.a[:2] == y.a[:2]: return mk('mupd', x.a[0], x.a[1], ite(c, x.a[2], y.a[2]))
    if x.op == 'mupd' and x.a[0] is y and x.a[1].op == 'keyat' and x.a[1].a[0] is y: return mk('mupd', y, x.a[1], ite(c, x.a[2], at(y, x.a[1])))
    if y.op == 'mupd' and y.a[0] is x and y.a[1].op == 'keyat' and y.a[1].a[0] is x: return mk('mupd', x, y.a[1], ite(c, at(x, y.a[1]), y.a[2]))
    if x.op == 'it' and y.op == 'it' and x.a[0] == y.a[0]: return mk('it', x.a[0], ite(c, x.a[1], y.a[1]))
    r = mk('ite', c, x, y)
    if x in TY: ty(r, TY[x])
    elif y in TY: ty(r, TY[y])
    return r

_am = {}
def assume(t, c, v):
    """t simplified under the assumption that condition c is v"""
    if t.op in ('num', 'b', 'sym', 'enumc', 'null', 'none', 'str', 'ix', 'lv', 'out', 'inf', 'new', 'bv'):
        if t is c: return b(v)
        return t
    facts = {}
    if v:
        for x in conj(c): facts[x] = True
    else:
        for x in disj(c): facts[x] = False
    return assume_facts(t, facts)

def assume_facts(t, facts):
    f2 = {}
    for k, v in facts.items():
        f2[k] = v; f2[not_(k)] = not v
        # eq to an enum constant settles the others; strict/non strict pairs
        if v and k.op == 'lt0':
            f2[_le0(k.a[0])] = True; f2[_lt0(neg(k.a[0]))] = False; f2[mk('eq0', _norm0(k.a[0]))] = False
        if v and k.op == 'eq0':
            f2[_lt0(k.a[0])] = False; f2[_lt0(neg(k.a[0]))] = False; f2[_le0(k.a[0])] = True; f2[_le0(neg(k.a[0]))] = True
        if not v and k.op == 'le0':
            z = neg(k.a[0])
            f2[_le0(z)] = True; f2[_lt0(z)] = True; f2[mk('eq0', _norm0(k.a[0]))] = False
    enumeq = {k.a[0]: k.a[1] for k, v in facts.items() if v and k.op == 'eq' and k.a[1].op == 'enumc'}
    memo = {}
    ops = {k.op for k in f2}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x in f2: r = b(f2[x])
        elif enumeq and x.op == 'eq' and x.a[1].op == 'enumc' and x.a[0] in enumeq: r = b(enumeq[x.a[0]] is x.a[1])
        elif not x.a or not any(isinstance(y, T) for y in x.a): r = x
        else: r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def _norm0(z):
    c, d = lin_parts(z)
    if not d: return z
    k0 = min(d, key=lambda t: t.id); s = d[k0]
    return z if s == 1 else mklin(c / s, {k: v / s for k, v in d.items()})

def min_(*xs):
    s = {}
    for x in xs:
        for y in (x.a if x.op == 'min' else (x,)): s[y] = 1
    s.pop(INF, None) if len(s) > 1 else None
    nums = [x for x in s if x.op == 'num']
    if len(nums) > 1:
        m = min(nums, key=lambda t: t.a[0])
        for x in nums:
            if x is not m: del s[x]
    if len(s) == 1: return next(iter(s))
    r = mk('min', *sorted(s, key=lambda t: t.id))
    for x in s:
        if x in TY: ty(r, TY[x]); break
    return r

def max_(*xs):
    s = {}
    for x in xs:
        for y in (x.a if x.op == 'max' else (x,)): s[y] = 1
    if INF in s: return INF
    nums = [x for x in s if x.op == 'num']
    if len(nums) > 1:
        m = max(nums, key=lambda t: t.a[0])
        for x in nums:
            if x is not m: del s[x]
    if len(s) == 1: return next(iter(s))
    r = mk('max', *sorted(s, key=lambda t: t.id))
    for x in s:
        if x in TY: ty(r, TY[x]); break
    return r

# ---------------------------------------------------------------- records
def recbase(t): return t.a[0] if t.op == 'rec' else t

def rec(base, fields):
    if base is not NONE and base.op == 'rec':
        d = dict(zip(base.a[1::2], base.a[2::2])); d.update(fields); fields = d; base = base.a[0]
    if base is not NONE:
        fields = {f: v for f, v in fields.items() if not (v.op == 'fld' and v.a[0] is base and v.a[1] == f)}
        if not fields: return base
    if base is NONE and fields:
        # a record all of whose fields are selected from one value is that value
        srcs = {v.a[0] if v.op == 'fld' and v.a[1] == f else None for f, v in fields.items()}
        if len(srcs) == 1 and None not in srcs:
            s = next(iter(srcs))
            if set(fields) == {'first', 'second'}: return s
    a = [base]
    for f in sorted(fields): a += [f, fields[f]]
    return mk('rec', *a)

def getf(t, f, tstr=None):
    if t.op == 'rec':
        for i in range(1, len(t.a), 2):
            if t.a[i] == f: return t.a[i + 1]
        if t.a[0] is NONE: return ty(mk('fld', t, f), tstr)
        return getf(t.a[0], f, tstr)
    if t.op == 'ite': return ite(t.a[0], getf(t.a[1], f, tstr), getf(t.a[2], f, tstr))
    r = mk('fld', t, f)
    if tstr is None and f in ('first', 'second'):
        b_ = TY.get(t)
        if b_ and b_.replace('const ', '').startswith('std::pair<'): tstr = targ(b_, 0 if f == 'first' else 1)
    if tstr: ty(r, tstr)
    return r

def setf(t, f, v):
    if t.op == 'ite':
        return ite(t.a[0], setf(t.a[1], f, v), setf(t.a[2], f, v))
    if t.op == 'rec': return rec(t, {f: v})
    return rec(t, {f: v})

# ---------------------------------------------------------------- sequences
EMPTY = mk('seq')
def seqparts(t):
    if t.op == 'cat': return list(t.a)
    if t.op == 'seq': return [mk('seq', x) for x in t.a]
    if t.op in ('opt', 'fm'): return [t]
    return None

def cat(*ps):
    out = []
    for p in ps:
        for q in (p.a if p.op == 'cat' else (p,)):
            if q is EMPTY: continue
            if q.op == 'seq':
                out += [mk('seq', x) for x in q.a]
            else: out.append(q)
    # merge literal neighbours
    res = []
    for q in out:
        if q.op == 'seq' and res and res[-1].op == 'seq': res[-1] = mk('seq', *(res[-1].a + q.a))
        else: res.append(q)
    if not res: return EMPTY
    if len(res) == 1: return res[0]
    return mk('cat', *res)

def opt(c, s):
    if c is TRUE: return s
    if c is FALSE or s is EMPTY: return EMPTY
    if s.op in ('fm', 'lv', 'out', 'sym', 'fld', 'at', 'idx', 'cat'):
        # nothing is what remains of an empty sequence anyway
        ne = conj(not_(isempty(s))); cs = conj(c)
        if ne and all(x in cs for x in ne):
            rest = and_(*[x for x in cs if x not in ne])
            if rest is TRUE: return s
            return opt(rest, s)
    s = assume(s, c, True)
    if s.op == 'opt': return opt(and_(c, s.a[0]), s.a[1])
    if s.op == 'ite':
        return cat(opt(and_(c, s.a[0]), s.a[1]), opt(and_(c, not_(s.a[0])), s.a[2]))
    if s.op == 'cat': return cat(*[opt(c, p) for p in s.a])
    return mk('opt', c, s)

def size(t):
    if t.op == 'seq': return num(len(t.a))
    if t.op == 'cat':
        if all(p.op not in ('opt', 'fm') for p in t.a):
            r = ZERO
            for p in t.a: r = add(r, size(p))
            return r
        return ty(mk('size', t), 'unsigned long')
    if t.op == 'upd': return size(t.a[0])
    if t.op == 'rsz': return t.a[1]
    if t.op == 'mapi': return size(t.a[0])
    if t.op == 'sorted': return size(t.a[1])
    if t.op == 'fill': return t.a[0]
    if t.op == 'fm':
        h, lo, hi, g, s = t.a
        if g is TRUE and s.op == 'seq': return mul(num(len(s.a)), sub(hi, lo))
    if t.op == 'ite': return ite(t.a[0], size(t.a[1]), size(t.a[2]))
    return ty(mk('size', t), 'unsigned long')

def isempty(t):
    if t.op == 'seq': return b(not t.a)
    if t.op == 'cat':
        if any(p.op == 'seq' for p in t.a): return FALSE
        return and_(*[isempty(p) for p in t.a])
    if t.op == 'opt': return or_(not_(t.a[0]), isempty(t.a[1]))
    if t.op == 'fm':
        h, lo, hi, g, s = t.a
        return not_(exists_raw(h, lo, hi, and_(g, not_(isempty(s)))))
    if t.op == 'ite': return ite(t.a[0], isempty(t.a[1]), isempty(t.a[2]))
    return eq(size(t), ZERO)

def idx(s, i):
    if s.op == 'seq' and i.op == 'num' and 0 <= i.a[0] < len(s.a): return s.a[int(i.a[0])]
    if s.op == 'fill':
        return s.a[1]
    if s.op == 'upd':
        d = sub(i, s.a[1])
        if d is ZERO: return s.a[2]
        if d.op == 'num': return idx(s.a[0], i)
        if s.a[1].op == 'mark':  return idx(s.a[0], i)
        return ite(eq(i, s.a[1]), s.a[2], idx(s.a[0], i))
    if s.op == 'ite': return ite(s.a[0], idx(s.a[1], i), idx(s.a[2], i))
    if s.op == 'cat':
        if i.op == 'num' and s.a[0].op == 'seq' and 0 <= i.a[0] < len(s.a[0].a): return s.a[0].a[int(i.a[0])]
        if s.a[-1].op == 'seq':
            d = sub(i, size(cat(*s.a[:-1])))
            if d.op == 'num' and 0 <= d.a[0] < len(s.a[-1].a): return s.a[-1].a[int(d.a[0])]
    if s.op == 'fm':
        h, lo, hi, g, q = s.a
        if g is TRUE and q.op == 'seq' and len(q.a) == 1: return subst(q.a[0], {mk('bv', h): add(lo, i)})
    if s.op == 'mapi':
        bs, h, lo, hi, v = s.a
        inr = and_(le(lo, i), lt(i, hi))
        if lo is ZERO and hi is size(bs): inr = TRUE
        return ite(inr, subst(v, {mk('bv', h): i}), idx(bs, i))
    r = mk('idx', s, i)
    st = TY.get(s)
    if st: ty(r, elemtype(st))
    return r

def elemtype(s):
    s = s.replace('const ', '')
    for p in ('std::vector<', 'std::list<', 'std::array<', 'std::deque<', 'std::valarray<', 'std::unordered_set<', 'std::set<', 'std::initializer_list<'):
        if s.startswith(p):
            return targ(s, 0)
    return None

def targ(s, n):
    """n-th template argument of a type string"""
    i = s.find('<')
    if i < 0: return None
    d, cur, out = 0, '', []
    for ch in s[i + 1:]:
        if ch == '<' or ch == '(': d += 1
        if ch == '>' or ch == ')':
            if d == 0 and ch == '>':
                out.append(cur.strip()); break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''; continue
        cur += ch
    return out[n] if n < len(out) else None

def upd(s, i, v):
    if s.op == 'seq' and i.op == 'num' and 0 <= i.a[0] < len(s.a):
        a = list(s.a); a[int(i.a[0])] = v
        return mk('seq', *a)
    if s.op == 'upd' and s.a[1] is i: return upd(s.a[0], i, v)
    if v is idx(s, i): return s
    if s.op == 'ite': return ite(s.a[0], upd(s.a[1], i, v), upd(s.a[2], i, v))
    return mk('upd', s, i, v)

# ---------------------------------------------------------------- maps and sets
EMPTYMAP = mk('emap0')
def deflt(t): return t
def at(m, k, vt=None):
    if m.op == 'mupd':
        e = eq(m.a[1], k)
        if e is TRUE: return m.a[2]
        if e is FALSE: return at(m.a[0], k, vt)
        return ite(e, m.a[2], at(m.a[0], k, vt))
    if m.op == 'merase':
        e = eq(m.a[1], k)
        if e is FALSE: return at(m.a[0], k, vt)
        return ty(mk('at', m, k), vt)
    if m.op == 'ite': return ite(m.a[0], at(m.a[1], k, vt), at(m.a[2], k, vt))
    if m.op == 'mdflt': return at(m.a[0], k, vt)
    r = mk('at', m, k)
    return ty(r, vt)

def has(m, k):
    if m is EMPTYMAP or m is EMPTY: return FALSE
    if m.op == 'mupd': return or_(eq(m.a[1], k), has(m.a[0], k))
    if m.op == 'merase': return and_(not_(eq(m.a[1], k)), has(m.a[0], k))
    if m.op == 'sadd': return or_(eq(m.a[1], k), has(m.a[0], k))
    if m.op == 'sunion': return or_(has(m.a[0], k), has(m.a[1], k))
    if m.op == 'ite': return ite(m.a[0], has(m.a[1], k), has(m.a[2], k))
    return mk('has', m, k)

def mupd(m, k, v):
    if m.op == 'mupd' and m.a[1] is k: return mupd(m.a[0], k, v)
    if v.op == 'at' and v.a[0] is m and v.a[1] is k and False: return m
    return mk('mupd', m, k, v)

# ---------------------------------------------------------------- matrices
def cell(m, r, c):
    if m.op == 'cupd':
        e = and_(eq(m.a[1], r), eq(m.a[2], c))
        if e is TRUE: return m.a[3]
        if e is FALSE: return cell(m.a[0], r, c)
        return ite(e, m.a[3], cell(m.a[0], r, c))
    if m.op == 'mlam':
        h = m.a[0]
        return subst(m.a[1], {mk('bv', h): r, mk('bv', h, 'c'): c})
    if m.op == 'ite': return ite(m.a[0], cell(m.a[1], r, c), cell(m.a[2], r, c))
    return ty(mk('cell', m, r, c), 'std::pair<double, bool>')

SHAPE = {}
def rows(m):
    if m in SHAPE: return rows(SHAPE[m])
    if m.op == 'cupd': return rows(m.a[0])
    if m.op == 'mlam': return m.a[2]
    if m.op == 'ite': return ite(m.a[0], rows(m.a[1]), rows(m.a[2]))
    if m.op == 'mrsz': return m.a[1]
    return ty(mk('rows', m), 'unsigned long')

def cols(m):
    if m in SHAPE: return cols(SHAPE[m])
    if m.op == 'cupd': return cols(m.a[0])
    if m.op == 'mlam': return m.a[3]
    if m.op == 'ite': return ite(m.a[0], cols(m.a[1]), cols(m.a[2]))
    if m.op == 'mrsz': return m.a[2]
    return rows(m)      # zones are square

# ---------------------------------------------------------------- binders
def close(ix, *ts):
    """replace the loop index ix by the canonical binder; returns (height, terms)"""
    h = 1 + max([t.h for t in ts])
    bv = ty(mk('bv', h), 'unsigned long')
    return (h,) + tuple(subst(t, {ix: bv}) for t in ts)

def fm(ix, lo, hi, g, s):
    if g is FALSE or s is EMPTY: return EMPTY
    if s.op == 'opt': return fm(ix, lo, hi, and_(g, s.a[0]), s.a[1])
    h, g2, s2 = close(ix, g, s)
    # copying a whole sequence element by element
    if g2 is TRUE and s2.op == 'seq' and len(s2.a) == 1 and lo is ZERO:
        e = s2.a[0]
        if e.op == 'idx' and e.a[1] is mk('bv', h) and mk('bv', h) not in fv(e.a[0]) and hi is size(e.a[0]): return e.a[0]
    return mk('fm', h, lo, hi, g2, s2)

def exists(ix, lo, hi, g):
    if g is FALSE: return FALSE
    if g.op == 'or':
        return or_(*[exists(ix, lo, hi, x) for x in g.a])
    if ix not in fv(g):
        return and_(g, lt(lo, hi))
    # conjuncts that do not depend on the index move out
    cs = conj(g)
    outer = [c for c in cs if ix not in fv(c)]
    inner = [c for c in cs if ix in fv(c)]
    if outer: return and_(*outer, exists(ix, lo, hi, and_(*inner)))
    h, g2 = close(ix, g)
    return mk('exists', h, lo, hi, g2)

def exists_raw(h, lo, hi, g):
    ix = mk('ix', 'tmp%d' % h)
    return exists(ix, lo, hi, subst(g, {mk('bv', h): ix}))

# ---------------------------------------------------------------- generic traversal
def fv(t):
    """free atoms (ix, lv, bv) of a term"""
    if t._fv is None:
        s = set()
        if t.op in ('ix', 'lv', 'bv', 'out', 'new'): s.add(t)
        for x in t.a:
            if isinstance(x, T): s |= fv(x)
        if t.op in BIND:
            s.discard(mk('bv', t.a[0])); s.discard(mk('bv', t.a[0], 'c')); s.discard(mk('bv', t.a[0], 'l'))
        t._fv = frozenset(s)
    return t._fv

def subst(t, m):
    if not m: return t
    keys = set(m)
    memo = {}
    deep = any(k.op not in ('ix', 'lv', 'bv', 'out', 'new') for k in keys)
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x in m: r = m[x]
        elif not deep and not (fv(x) & keys): r = x
        else: r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def rebuild(t, f):
    a = tuple(f(x) if isinstance(x, T) else x for x in t.a)
    if a == t.a: return t
    return build(t.op, a, t)

def build(op, a, old=None):
    c = CONS.get(op)
    if c: return c(*a)
    r = mk(op, *a)
    if old is not None and old in TY: ty(r, TY[old])
    return r

def _lin(c, *kv):
    r = num(c)
    for i in range(0, len(kv), 2):
        k, v = kv[i], kv[i + 1]
        r = add(r, mul(num(v), k))
    return r

def _fmh(h, lo, hi, g, s):
    if g is FALSE or s is EMPTY: return EMPTY
    if s.op == 'opt': return _fmh(h, lo, hi, and_(g, s.a[0]), s.a[1])
    if g is TRUE and s.op == 'seq' and len(s.a) == 1 and lo is ZERO:
        e = s.a[0]
        if e.op == 'idx' and e.a[1] is mk('bv', h) and mk('bv', h) not in fv(e.a[0]) and hi is size(e.a[0]): return e.a[0]
    return mk('fm', h, lo, hi, g, s)

def _rec(base, *kv): return rec(base, dict(zip(kv[::2], kv[1::2])))
def _nz(x): return truth(x)
def _eq0(z): return eq(z, ZERO)
def _plt(x, y): return FALSE if x is y else mk('plt', x, y)
def _not(x): return not_(x)
def _it(key, i): return mk('it', key, i)

CONS = {'lin': _lin, 'not': _not, 'and': and_, 'or': or_, 'lt0': _lt0, 'le0': _le0, 'eq': eq, 'eq0': _eq0, 'plt': _plt,
        'ite': ite, 'min': min_, 'max': max_, 'rec': _rec, 'fld': getf, 'cat': cat, 'opt': opt, 'size': size,
        'idx': idx, 'upd': upd, 'at': at, 'has': has, 'cell': cell, 'rows': rows, 'cols': cols, 'nz': _nz, 'mul': mul,
        'exists': exists_raw, 'fm': _fmh}

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 14: return '…'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'num': return str(a[0])
    if o == 'b': return 'true' if a[0] else 'false'
    if o == 'inf': return 'inf'
    if o == 'enumc': return a[0].split('::')[-1]
    if o == 'sym': return str(a[0])
    if o == 'lin':
        r = ''
        for i in range(1, len(a), 2):
            k, v = a[i], a[i + 1]
            r += (' + ' if v > 0 else ' - ') + ('' if abs(v) == 1 else str(abs(v)) + '*') + s(k)
        if a[0]: r += (' + ' if a[0] > 0 else ' - ') + str(abs(a[0]))
        return '(' + r.strip(' +') + ')' if not r.startswith(' -') else '(' + r.strip() + ')'
    if o == 'fld': return s(a[0]) + '.' + a[1]
    if o == 'idx': return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'at': return '%s{%s}' % (s(a[0]), s(a[1]))
    if o == 'lt0': return '(%s < 0)' % s(a[0])
    if o == 'le0': return '(%s <= 0)' % s(a[0])
    if o == 'eq0': return '(%s == 0)' % s(a[0])
    if o == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'plt': return '(%s < %s)' % (s(a[0]), s(a[1]))
    if o == 'not': return '!' + s(a[0])
    if o == 'and': return '(' + ' && '.join(map(s, a)) + ')'
    if o == 'or': return '(' + ' || '.join(map(s, a)) + ')'
    if o == 'ite': return '(%s ? %s : %s)' % tuple(map(s, a))
    if o == 'rec':
        return ('' if a[0] is NONE else s(a[0]) + ' with ') + '{' + ', '.join('%s=%s' % (a[i], s(a[i + 1])) for i in range(1, len(a), 2)) + '}'
    if o == 'seq': return '[' + ', '.join(map(s, a)) + ']'
    if o == 'bv': return 'b%s%s' % (a[0], ''.join(map(str, a[1:])))
    if o == 'ix': return 'ix%s' % a[0]
    if o in ('lv', 'out'): return '%s<%s:%s>' % (o, a[0], a[1])
    if o == 'call': return '%s(%s)' % (a[0], ', '.join(map(s, a[1:])))
    return '%s(%s)' % (o, ', '.join(map(s, a)))
