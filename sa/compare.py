"""Compares the value summary of a function with the summary of its reference definition.

Observables: normal completion, return value, caller-visible stores, effects per channel, and
the equations of the loops that could not be closed (related by a bisimulation candidate:
initial values, continuation condition, next values, exit values, effects of the body).
Equal value numbers are equal; otherwise random interpretation separates 'differs' from
'not distinguished'; anything the analysis could not relate makes the observable undecided."""
import re, time, itertools
from terms import *
from terms import T
import engine
from engine import LOOPS, clean
from rinterp import RI, Taint, Unreached, vh, mix, sh, Tok, Rec, Map, Mat
import frontend

PURE = re.compile(r'^(Zone|IntermediateZone|Bounds|Constraint|ConstraintMaker|LazyDeque|Interval|std::|boost::|Eigen::|operator(?![-+*/%|&^]=)|SundaySkipValue|KMPSkipValue)')


class Finding:
    def __init__(s, what, loc, detail): s.what, s.loc, s.detail, s.vars, s.init, s.loop = what, loc, detail, set(), None, None


class Result:
    def __init__(s):
        s.findings, s.obligations, s.undecided, s.equal, s.agreed = [], [], [], 0, 0


def subterms(t, seen, out):
    if t in seen: return
    seen.add(t)
    if t.op in ('lv', 'out', 'new'): out.append(t)
    if t.op == 'ix' and str(t.a[0]).startswith('L'): out.append(t)
    for x in t.a:
        if isinstance(x, T): subterms(x, seen, out)


class Side:
    def __init__(s, S, name):
        s.S, s.name = S, name
        s.loops = {}       # uid -> Loop
        s.sites = {}       # site -> type
        seen, out = set(), []
        def t_(t):
            if isinstance(t, T): subterms(t, seen, out)
        def eff(es):
            for e in es:
                if e.kind == 'eff':
                    t_(e.guard)
                    for a in e.args: t_(a)
                else:
                    need(e.uid)
        def need(uid):
            if uid in s.loops or uid not in LOOPS: return
            L = LOOPS[uid]; s.loops[uid] = L
            if L.parent: need(L.parent)
            for d in L.vars.values():
                for k in ('init', 'next'): t_(d[k])
                for g, x in d['brk'] + d['ret']: t_(g); t_(x)
            for g in L.exits: t_(g)
            for x in (L.lo, L.hi, L.cond, L.guard, L.endlive): t_(x)
            for g in L.brks: t_(g)
            for r in L.rets:
                t_(r[0])
                if isinstance(r[2], T): t_(r[2])
            eff(L.effects)
        def drain():
            while out:
                t = out.pop()
                if t.op == 'new': s.sites.setdefault(t.a[0], TY.get(t))
                else: need(t.a[0])
        t_(S.ret); t_(S.live)
        for r, v in S.store.items():
            if r[0] in ('h', 'p', 'g') and S.entry.get(r) is not v:
                t_(v)
                if r[0] == 'h': t_(r[1])
        eff(S.effects)
        drain()
        n = -1
        while n != len(s.loops):
            n = len(s.loops); drain()
        s.order = sorted(s.loops, key=lambda u: int(u[1:]))
        s.escaping = s.escape()

    def escape(s):
        """sites of the objects somebody can still see when the function has returned (or something it called)"""
        S = s.S
        site = lambda r: r[1].a[0] if r[0] == 'h' and r[1].op == 'new' else None
        seen, work, later = set(), [], {}
        def t_(t, r=None):
            if not isinstance(t, T): return
            if r is not None and site(r) is not None: later.setdefault(site(r), []).append(t)
            else: work.append(t)
        t_(S.ret)
        for r, v in S.store.items():
            if r[0] in ('h', 'p', 'g') and S.entry.get(r) is not v: t_(v, r)
        def eff(es):
            for e in es:
                if e.kind == 'eff':
                    for a in e.args: t_(a)
                else: eff(e.effects)
        eff(S.effects)
        for L in s.loops.values():
            for p, d in L.vars.items():
                for x in [d['init'], d['next']] + [x for g, x in d['brk'] + d['ret']]: t_(x, p[0])
            for r in L.rets:
                if isinstance(r[2], T): t_(r[2])
            eff(L.effects)
        out = set()
        while work:
            t = work.pop()
            if t in seen: continue
            seen.add(t)
            if t.op == 'new' and t.a[0] not in out:
                out.add(t.a[0])
                work.extend(later.pop(t.a[0], ()))
            work.extend(x for x in t.a if isinstance(x, T))
        return out

    def hidden(s, r): return r[0] == 'h' and r[1].op == 'new' and r[1].a[0] not in s.escaping


def varkey(n):
    n = n.split('.')[-1] if n.startswith('this.') else n
    return n


def effops(es, acc=None):
    acc = set() if acc is None else acc
    for e in es:
        if e.kind == 'eff': acc.add(e.op)
        else: effops(e.effects, acc)
    return acc


def relate(A, B, P=None):
    """candidate relation between the loops of the two sides"""
    lm, pairs = {}, []
    usedB = set()
    pa = {u: A.loops[u].parent for u in A.order}
    pb = {u: B.loops[u].parent for u in B.order}
    mapped = {}
    from collections import Counter
    def depthfirst(parA, parB):
        la = [u for u in A.order if pa[u] == parA]
        lb = [u for u in B.order if pb[u] == parB]
        cand = []
        for i, u in enumerate(la):
            for j, w in enumerate(lb):
                x, y = A.loops[u], B.loops[w]
                nx = Counter((varkey(d['name']), TY.get(d['lv'])) for d in x.vars.values())
                ny = Counter((varkey(d['name']), TY.get(d['lv'])) for d in y.vars.values())
                sc = 3 * sum((nx & ny).values()) - abs(sum(nx.values()) - sum(ny.values()))
                if (x.lo is None) == (y.lo is None): sc += 2
                else: sc -= 3
                if x.lo is not None and x.lo is y.lo and x.hi is y.hi: sc += 3
                ox, oy = effops(x.effects), effops(y.effects)
                sc += 2 * len(ox & oy) - len(ox ^ oy)
                cand.append((sc - 0.5 * abs(i * max(1, len(lb)) / max(1, len(la)) - j), -i, -j, u, w))
        cand.sort(reverse=True)
        ua, ub = set(), set()
        for sc, _, _, u, w in cand:
            if u in ua or w in ub: continue
            ua.add(u); ub.add(w)
            mapped[u] = w
            pairs.append((u, w))
            depthfirst(u, w)
    depthfirst(None, None)
    pairs.sort(key=lambda p: int(p[0][1:]))      # outer loops and earlier loops first
    def semantic(n, sd):
        # the value a variable starts with, given the loops related so far
        def h(d):
            if P is None: return None
            out = []
            for k in range(3):
                e = RI(P, mix(n, k, 0x5E4), sd, lm)
                try: out.append(vh(e.canon(e.ev(d['init'].a[1] if d['init'].op == 'it' else d['init']))))
                except Taint: return None
                except RecursionError: return None
            return tuple(out)
        memo = {}
        def g(d):
            if d['lv'] not in memo: memo[d['lv']] = h(d)
            return memo[d['lv']]
        return g
    for n, (u, w) in enumerate(pairs):
        x, y = A.loops[u], B.loops[w]
        va = [(d['name'], d) for p, d in x.vars.items() if p not in x.counter]
        vb = [(d['name'], d) for p, d in y.vars.items() if p not in y.counter]
        na, nb = {}, {}
        def tie(p, q):
            t = TY.get(p[1]['lv']) or TY.get(q[1]['lv'])
            c = 'v%d' % len(na)
            if p[0] in na or q[0] in nb: return
            na[p[0]] = (c, t); nb[q[0]] = (c, t)
        def outer(side):
            # a variable that starts as a related variable of an enclosing loop
            def key(n, d):
                i = d['init']
                i = i.a[1] if i.op == 'it' else i
                if i.op == 'lv' and (side[d['lv']], i.a[0]) in lm and i.a[1] in lm[(side[d['lv']], i.a[0])][1]:
                    l = lm[(side[d['lv']], i.a[0])]
                    return (l[0], l[1][i.a[1]][0])
                return None
            return key
        side = {d['lv']: 'A' for _, d in va}; side.update({d['lv']: 'B' for _, d in vb})
        sa_, sb_ = semantic(n, 'A'), semantic(n, 'B')
        sem = lambda d: (sa_ if side[d['lv']] == 'A' else sb_)(d)
        def semkey(*parts):
            return lambda n, d: None if sem(d) is None else tuple(p(n, d) for p in parts) + (sem(d),)
        for key in (semkey(lambda n, d: varkey(n), lambda n, d: TY.get(d['lv'])), semkey(lambda n, d: TY.get(d['lv'])),
                    lambda n, d: (n, TY.get(d['lv'])), lambda n, d: (varkey(n), TY.get(d['lv'])), lambda n, d: varkey(n), outer(side),
                    lambda n, d: (TY.get(d['lv']), d['init'], d['next'].op), lambda n, d: (clean(TY.get(d['lv']) or ''), d['init']),
                    lambda n, d: TY.get(d['lv'])):
            ra = [p for p in va if p[0] not in na]; rb = [q for q in vb if q[0] not in nb]
            for p in ra:
                k = key(*p)
                if k is None: continue
                c = [q for q in rb if key(*q) == k and q[0] not in nb]
                if len(c) == 1 and sum(1 for p2 in ra if key(*p2) == k and p2[0] not in na) == 1: tie(p, c[0])
        ra = [p for p in va if p[0] not in na]; rb = [q for q in vb if q[0] not in nb]
        if len(ra) == 1 and len(rb) == 1 and (TY.get(ra[0][1]['lv']) == TY.get(rb[0][1]['lv'])): tie(ra[0], rb[0])
        # a variable the code has but the loop does not change
        kept = []
        if all(p[0] in na for p in va):
            types = {}
            for r, nm in A.S.I.rootname.items(): types.setdefault(nm, set()).add(r)
            for q in vb:
                if q[0] in nb: continue
                base = q[0].split('.')[0]
                if base == 'this' or base in types: kept.append(q[1])
        lm[('A', u)] = (n, na); lm[('B', w)] = (n, nb)
        oa = {na[v][0] for v in x.outs if v in na}; ob = {nb[v][0] for v in y.outs if v in nb}
        lm[('A', u, 'closed')] = {v for v in na if na[v][0] not in ob}
        lm[('B', w, 'closed')] = {v for v in nb if nb[v][0] not in oa}
        x.kept = kept
        x.fit = not [q for q in vb if q[0] not in nb and q[1] not in kept]
    return same_shape(A, B, lm, pairs)


def same_shape(A, B, lm, pairs):
    """relations are kept only between groups of loops with the same nesting, so that a
    loop that was split, fused or re-written beyond recognition is undecided, not different"""
    kids = lambda X, u: [v for v in X.order if X.loops[v].parent == u]
    m = dict(pairs)
    def ok(u):
        w = m.get(u)
        if w is None: return False
        x, y = A.loops[u], B.loops[w]
        if (x.lo is None) != (y.lo is None): return False
        ka, kb = kids(A, u), kids(B, w)
        return len(ka) == len(kb) and all(ok(k) for k in ka)
    good = set()
    def mark(u):
        good.add(u)
        for k in kids(A, u): mark(k)
    ra, rb = kids(A, None), kids(B, None)
    if len(ra) == len(rb):
        for u in ra:
            if ok(u): mark(u)
    bad = [p for p in pairs if p[0] not in good]
    for u, w in bad:
        lm.pop(('A', u), None); lm.pop(('B', w), None)
    return lm, [p for p in pairs if p[0] in good], [u for u in A.order if u not in good]


def constants(*S):
    """numbers and texts that something is compared with"""
    nums, texts, seen, todo = set(), {'', 'a'}, set(), list(S)
    while todo:
        x = todo.pop()
        if isinstance(x, (str, int, float, bool, type(None), type, frontend.Program)) or callable(x): continue
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, T):
            if x.op in ('eq0', 'lt0', 'le0') and x.a[0].op == 'lin':
                l = x.a[0].a
                if len(l) == 3 and abs(l[2]) == 1 and abs(l[0]) > 3 and l[0].denominator == 1: nums.add(int(-l[0] * l[2]))
            if x.op == 'eq': texts |= {y.a[0] for y in x.a if isinstance(y, T) and y.op == 'str'}
            todo += [y for y in x.a if isinstance(y, (T, tuple))]
        elif isinstance(x, dict): todo += list(x.keys()); todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)): todo += list(x)
        elif hasattr(x, '__dict__'): todo += [v for k, v in x.__dict__.items() if k not in ('P', 'I')]
    return sorted(nums), sorted(texts)


def relate_sites(A, B):
    """allocation sites by type, in order"""
    nm = {}
    by = {}
    for s, X in (('A', A), ('B', B)):
        for site in sorted(X.sites):
            by.setdefault(X.sites[site], {'A': [], 'B': []})[s].append(site)
    for t, d in by.items():
        if len(d['A']) == len(d['B']):
            for i, (x, y) in enumerate(zip(d['A'], d['B'])):
                nm[('A', x)] = nm[('B', y)] = '%s%d' % (t, i)
    return nm


def isctor(q):
    p = re.sub(r'<.*?>', '', q).split('::')
    return len(p) > 1 and p[-1] == p[-2]


CSTDOUT = ('printf', 'puts', 'putchar', 'std::printf', 'std::puts', 'std::putchar')
CONV = re.compile(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|L|q|j|z|t)?[a-zA-Z]|%%')

def text(out, e, env):
    """what a C output call writes, as literal text and conversions"""
    def lit(s):
        if not s: return
        if out and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + s)
        else: out.append(('text', s))
    op = e.op.split('::')[-1]
    a = [env.ev(x) for x in e.args]
    f = a[0]
    if op == 'putchar':
        if e.args[0].op == 'num': lit(chr(int(e.args[0].a[0])))
        else: out.append(('%c', env.canon(f)))
        return
    if isinstance(f, tuple) and f and f[0] == 'str': f = f[1]
    if not isinstance(f, str): raise Taint('format')
    if op == 'puts': lit(f + '\n'); return
    i, n = 0, 1
    for m in CONV.finditer(f):
        lit(f[i:m.start()]); i = m.end()
        if m.group(0) == '%%': lit('%'); continue
        out.append((m.group(0), env.canon(a[n]))); n += 1
    lit(f[i:])


class Comparer:
    def __init__(self, P, SA, SB, seeds=80, seed0=1, chan=None, ignore=(), stores=None, domain=None, skipret=False, retfields=None):
        self.P, self.SA, self.SB = P, SA, SB
        self.A, self.B = Side(SA, 'A'), Side(SB, 'B')
        self.lm, self.pairs, self.unrelated = relate(self.A, self.B, P)
        self.nm = relate_sites(self.A, self.B)
        self.seeds, self.seed0, self.limit = seeds, seed0, 8 if seeds <= 100 else 40
        self.chan = chan
        self.ignore = ignore
        self.domain = domain
        self.skipret = skipret
        self.retfields = retfields
        self.R = Result()
        self.at = None      # the loop that is compared
        self.canon_ = {}
        self.consts, self.texts = constants(SA, SB)
        self.pre = []
        def assumed(es, at):
            for e in es:
                if e.kind != 'eff': assumed(e.effects, e.uid)
                elif e.op == 'spec::assume': self.pre.append((at, e.guard, e.args[0]))
        assumed(SB.effects, None)
        self.partner = {u: w for u, w in self.pairs}

    def envs(self, k, tweak=None):
        s = mix(self.seed0, k, 0xABC)
        ea = RI(self.P, s, 'A', self.lm, self.domain); eb = RI(self.P, s, 'B', self.lm, self.domain)
        ea.newmap = eb.newmap = self.nm
        ea.consts = eb.consts = self.consts; ea.texts = eb.texts = self.texts
        return ea, eb

    # a condition is a list of (side, term) and of functions of the two interpretations; earlier ones are settled first
    def holds(self, c, ea, eb):
        if callable(c): return bool(c(ea, eb))
        e = ea if c[0] == 'A' else eb
        return e.truth(e.ev(c[1]))

    def meet(self, k, conds, tries=0):
        """an interpretation under which all the conditions hold: values they depend on are drawn again until they do"""
        ea, eb = self.envs(k)
        if not conds: return ea, eb
        salt = {}
        ea.salt = eb.salt = salt
        def run(stop=True):
            """the first condition that does not hold"""
            ea.memo.clear(); eb.memo.clear(); ea.atoms.clear(); ea.ixv.clear(); eb.ixv.clear()
            ea.budget = eb.budget = 400000
            for i, c in enumerate(conds):
                ea.touch = eb.touch = t = []
                try: v = self.holds(c, ea, eb)
                except Taint: v = False
                if not v:
                    # what it depends on: evaluate again without remembered values
                    ea.memo.clear(); eb.memo.clear()
                    del t[:]
                    try: self.holds(c, ea, eb)
                    except Taint: pass
                    ea.touch = eb.touch = None
                    return i, t
            ea.touch = eb.touch = None
            return len(conds), []
        at, t = run()
        rnd = mix(self.seed0, k, 0x7A17)
        for n in range(tries or 40 + 10 * len(conds)):
            if at == len(conds): return ea, eb
            if not t: return None
            saved = dict(salt)
            for j in range(1 + mix(rnd, n, 5) % 2):
                h = t[mix(rnd, n, j) % len(t)]
                salt[h] = mix(h, rnd, n, j)
            a2, t2 = run()
            if a2 >= at: at, t = a2, t2
            else:
                salt.clear(); salt.update(saved)
        return None

    # one observable: fa(envA) against fb(envB), under cond
    def check(self, what, loc, fa, fb, ta=None, tb=None, cond=None, prep=None, bothB=False, aims=(), init=None):
        R = self.R
        R.obligations.append(what)
        if ta is not None and ta is tb:
            R.equal += 1; return 'equal'
        inside, w = {None}, self.partner.get(self.at)
        while w is not None: inside.add(w); w = self.B.loops[w].parent
        pre = [lambda ea, eb, g=g, c=c: not eb.truth(eb.ev(g)) or eb.truth(eb.ev(c)) for at, g, c in self.pre if at in inside]
        conds = list(prep or ()) + list(cond or ()) + pre
        seen, taint, why = 0, 0, None
        t0 = time.time()
        if conds:
            # the same whatever the circumstances?
            for k in range(self.seeds * 4):
                ea, eb = self.envs(k)
                try:
                    for c in prep or ():
                        if not self.holds(c, ea, eb): ea.ixv.setdefault(c.c, 0); eb.ixv.setdefault(c.c, 0)
                    x = fa(eb if bothB else ea); y = fb(eb)
                    if not same(ea, x, y): seen = -1; break
                    seen += 1
                except Taint as e:
                    taint += not isinstance(e, Unreached); why = str(e)
                    if taint > self.seeds // 2: seen = -1; break
                if seen >= self.seeds * 2: break
                if time.time() - t0 > self.limit / 2: break
            if seen >= self.seeds * 2 and not aims:
                R.agreed += 1; return 'agrees'
            if seen < self.seeds * 2: seen, taint, t0 = 0, 0, time.time()
        def differs(ea, x, y):
            at = {str(t)[:60]: v for t, v in list(ea.atoms.items())}
            F = Finding(what, loc, 'code gives %s, required %s%s' % (short(x), short(y), witness(at)))
            for t in (ta, tb):
                if t is not None: F.vars |= {(z.a[0], z.a[1]) for z in fv(t) if z.op in ('lv', 'out')}
            F.init, F.loop = init, self.at
            R.findings.append(F)
            return 'differs'
        for k in range(self.seeds * 60):
            if seen >= self.seeds * 2 or taint >= self.seeds // 2: break
            if time.time() - t0 > self.limit: break
            es = self.meet(k, conds)
            if es is None: continue
            ea, eb = es
            try:
                x = fa(eb if bothB else ea); y = fb(eb)
                eqv = same(ea, x, y)
            except Taint as e:
                taint += not isinstance(e, Unreached); why = str(e); continue
            seen += 1
            if not eqv: return differs(ea, x, y)
        # the cases that are told apart on one side only
        t0 = time.time()
        tried = met = 0
        for n, aim in enumerate(aims[:40]):
            if taint >= self.seeds // 2 or seen == 0: break
            hit = k = 0
            for k in range(self.seeds // 3):
                if hit >= self.seeds // 8 or time.time() - t0 > self.limit: break
                es = self.meet(mix(k, n, 3) % (1 << 30), conds + aim)
                if es is None:
                    if k > 6 and not hit: break
                    continue
                ea, eb = es
                try:
                    x = fa(eb if bothB else ea); y = fb(eb)
                    eqv = same(ea, x, y)
                except Taint: continue
                hit += 1
                if not eqv: return differs(ea, x, y)
            tried += hit > 0 or k > 6; met += hit > 0
            R.aims = getattr(R, 'aims', []) + [(what, n, hit)]
        if tried > 5 and 5 * met < tried: seen, why = 0, 'most of the cases that only one side distinguishes were not reached'
        if seen >= max(4, self.seeds // 20):
            R.agreed += 1; return 'agrees'
        R.undecided.append('%s: %s' % (what, why or 'no case reached'))
        return 'undecided'

    def term(self, what, loc, ta, tb, cond=None, prep=None, init=None):
        if ta is None and tb is None: return
        if ta is None or tb is None:
            self.R.obligations.append(what); self.R.undecided.append(what + ': missing'); return
        return self.check(what, loc, lambda e: e.ev(ta), lambda e: e.ev(tb), self.same_as('A', ta), self.same_as('B', tb), cond, prep, aims=self.aims([ta], [tb]), init=init)

    def aims(self, tas, tbs):
        """the case distinctions that only one of the sides makes"""
        def cases(side, ts):
            seen, out, todo = set(), {}, list(ts)
            while todo:
                t = todo.pop()
                if t in seen: continue
                seen.add(t)
                if t.op in ('ite', 'opt') and not any(x.op == 'bv' for x in fv(t.a[0])): out.setdefault(self.same_as(side, t.a[0]), t.a[0])
                todo += [x for x in t.a if isinstance(x, T)]
            return out
        a, b_ = cases('A', tas), cases('B', tbs)
        out = []
        for side, x, y in (('A', a, b_), ('B', b_, a)):
            for k, c in x.items():
                if k in y: continue
                out.append([(side, z) for z in conj(c)])
                out.append([(side, z) for z in conj(not_(c))])
        # the values that only one of the sides has at the end of a case distinction
        def leaves(side, t, path):
            if t.op == 'ite':
                yield from leaves(side, t.a[1], path + list(conj(t.a[0])))
                yield from leaves(side, t.a[2], path + list(conj(not_(t.a[0]))))
            else: yield path, t
        la, lb = [{(frozenset(self.same_as(sd, c) for c in p), self.same_as(sd, t)): p for x in ts if x.op == 'ite' for p, t in itertools.islice(leaves(sd, x, []), 40)}
                  for sd, ts in (('A', tas), ('B', tbs))]
        for side, x, y in (('A', la, lb), ('B', lb, la)):
            out += [[(side, c) for c in p] for k, p in x.items() if k not in y and p]
        return out

    def same_as(self, side, t):
        """the term with loops, loop variables and allocations named after the relation between the two sides;
        two terms that become one are equal whatever the inputs are"""
        memo = self.canon_
        k = (side, t)
        if k in memo: return memo[k]
        try: r = self.rename(side, t)
        except Taint: r = mk('unrelated', side, t)
        memo[k] = r
        return r

    def rename(self, side, t):
        m = {}
        for x in fv(t):
            if x.op == 'bv': continue
            if x.op == 'ix':
                if not str(x.a[0]).startswith('L'): continue
                r = self.lm.get((side, x.a[0]))
                if r is None: raise Taint('loop')
                y = ty(mk('ix', 'c%s' % r[0]), TY.get(x))
            elif x.op in ('lv', 'out'):
                r = self.lm.get((side, x.a[0]))
                if r is None: raise Taint('loop')
                n = x.a[1]
                if n.startswith('exit?'):
                    if ('exits', r[0]) not in self.lm: raise Taint('exits')
                elif n != 'ret':
                    if n not in r[1]: raise Taint('variable')
                    if x.op == 'out' and n in self.lm.get((side, x.a[0], 'closed'), ()): raise Taint('closed')
                    n = r[1][n][0]
                y = ty(mk(x.op, 'c%s' % r[0], n), TY.get(x))
            elif x.op == 'new':
                c = self.nm.get((side, x.a[0]))
                if c is None: raise Taint('allocation')
                y = ty(mk('new', 'c' + str(c), *[self.rename(side, a) if isinstance(a, T) else a for a in x.a[1:]]), TY.get(x))
            m[x] = y
        return subst(t, m) if m else t

    def closed(self, t):
        return not any(x.op in ('lv', 'out', 'new') or (x.op == 'ix' and str(x.a[0]).startswith('L')) for x in fv(t))

    def run(self):
        SA, SB = self.SA, self.SB
        loc = SA.fn.get('l')
        for u, w in self.pairs: self.exits(u, w)
        live = self.term('normal completion', loc, SA.live, SB.live)
        lcond = [('A', c) for c in conj(SA.live)] + [('B', c) for c in conj(SB.live)] if live != 'undecided' else []
        if not self.skipret and SA.ret is not None and SB.ret is not None and isinstance(SA.ret, T) and isinstance(SB.ret, T):
            if self.retfields:
                for f in self.retfields: self.term('%s of the returned value' % f, loc, getf(SA.ret, f), getf(SB.ret, f), lcond)
            else: self.term('returned value', loc, SA.ret, SB.ret, lcond)
        self.stores(lcond)
        self.effects('', SA.effects, SB.effects, loc)
        for u in self.unrelated:
            x = self.A.loops[u]
            w = 'loop at %s: ' % frontend.rel(x.loc)
            self.R.obligations.append(w); self.R.undecided.append(w + 'not arranged as in the reference definition')
        for u, w in self.pairs:
            self.at = u
            self.loop(u, w)
        self.at = None
        self.rearranged()
        return self.R

    def rearranged(self):
        """differences that only say that a loop was arranged differently do not count"""
        A, B, R = self.A, self.B, self.R
        why = {}
        # another type of container
        retyped = {}
        for u, w in self.pairs:
            n, na = self.lm[('A', u)]
            ta = {na[d['name']][0]: TY.get(d['lv']) for d in A.loops[u].vars.values() if d['name'] in na}
            nb = self.lm[('B', w)][1]
            for d in B.loops[w].vars.values():
                if d['name'] not in nb: continue
                c = nb[d['name']][0]; x, y = clean(ta.get(c) or ''), clean(TY.get(d['lv']) or '')
                if x != y and x.split('<')[0] != y.split('<')[0] and '<' in x and '<' in y: retyped['c%d' % n, c] = d['name']
        for f in R.findings:
            for v in f.vars:
                if v in retyped: why[id(f)] = 'kept in another kind of container'
        # a variable with another meaning in the loop: it starts differently and is used differently
        for f in R.findings:
            if f.init is None: continue
            for g in R.findings:
                if g is f or f.init not in g.vars: continue
                why[id(f)] = why[id(g)] = 'a loop variable has another meaning'
        # the loop is left elsewhere
        for u, w in self.pairs:
            if bool(A.loops[u].rets) == bool(B.loops[w].rets): continue
            for f in R.findings:
                k = f.loop
                while k is not None and k != u: k = A.loops[k].parent
                if k == u and (f.what.endswith('reached') or f.what.endswith('continuation')): why[id(f)] = 'the loop is left elsewhere'
        # the loop goes over something else and changes something else
        for u, w in self.pairs:
            na, nb = self.lm[('A', u)][1], self.lm[('B', w)][1]
            def stray(L, n): return any(d['name'] not in n for p, d in L.vars.items() if p not in L.counter)
            if not stray(A.loops[u], na) and not stray(B.loops[w], nb): continue
            fs = [f for f in R.findings if f.loop == u and f.what.split(': ')[-1] in ('reached', 'first index', 'end index')]
            if not any(f.what.endswith('index') for f in fs): continue
            fs += [f for f in R.findings if f.loop == A.loops[u].parent and 'sequence of' in f.what and "'loop'" in f.detail]
            for f in fs: why[id(f)] = 'the loop is arranged differently'
        # the elements are selected beforehand on one side only
        def selected(L): 
            seen, todo = set(), [L.hi] if L.hi is not None else []
            while todo:
                t = todo.pop()
                if t in seen: continue
                seen.add(t)
                if t.op == 'fm' and t.a[3] is not TRUE: return True
                todo += [x for x in t.a if isinstance(x, T)]
            return False
        for u, w in self.pairs:
            if selected(A.loops[u]) == selected(B.loops[w]): continue
            for f in R.findings:
                k = f.loop
                while k is not None and k != u: k = A.loops[k].parent
                if k == u: why[id(f)] = 'the elements are selected elsewhere'
        for f in R.findings:
            if id(f) in why: R.undecided.append('%s: %s' % (f.what, why[id(f)]))
        R.findings = [f for f in R.findings if id(f) not in why]

    def exits(self, u, w):
        """the ways out of two related loops correspond if they are taken in the same iterations"""
        x, y = self.A.loops[u], self.B.loops[w]
        if len(x.exits) != len(y.exits): return
        c = self.lm[('A', u)][0]
        for ga, gb in zip(x.exits, y.exits):
            seen = 0
            for k in range(min(self.seeds, 40)):
                ea, eb = self.envs(k)
                try:
                    if ea.truth(ea.ev(ga)) != eb.truth(eb.ev(gb)): return
                    seen += 1
                except Taint: continue
            if not seen: return
        self.lm[('exits', c)] = True

    def prop(self, p, side):
        return any(re.search(i, p) for i in self.ignore)

    def stores(self, lcond):
        SA, SB = self.SA, self.SB
        roots = []
        for S in (SA, SB):
            for r, v in S.store.items():
                if r[0] not in ('h', 'p') or S.entry.get(r) is v: continue
                if r[0] == 'p':
                    t = S.params[r[1]][1].get('t') or ''
                    if not t.rstrip().endswith('&') or t.startswith('const '): continue
                if r not in roots: roots.append(r)
        ren = {}
        for r in roots:
            if r[0] == 'h' and not self.closed(r[1]):
                # related heap cells: by the value of the pointer
                ina, inb = r in SA.store and SA.entry.get(r) is not SA.store[r], r in SB.store and SB.entry.get(r) is not SB.store[r]
                if ina: ren.setdefault(self.ptrkey(r[1], 'A'), [None, None])[0] = r
                if inb: ren.setdefault(self.ptrkey(r[1], 'B'), [None, None])[1] = r
                continue
            a = SA.store.get(r); b_ = SB.store.get(r)
            if a is None: a = self.entry(SA, r)
            if b_ is None: b_ = self.entry(SB, r)
            self.value(r, a, b_, lcond)
        for k, (ra, rb) in ren.items():
            if k is None: continue
            if ra is not None and self.A.hidden(ra) or rb is not None and self.B.hidden(rb): continue
            if ra is None or rb is None:
                r = ra or rb
                isnew = (ra or rb)[1].op == 'new'
                if isnew: continue
                self.R.obligations.append('heap cell'); self.R.undecided.append('heap cell %s written on one side only' % str(r[1])[:80])
                continue
            self.value(ra, SA.store[ra], SB.store[rb], lcond)

    def ptrkey(self, t, side):
        try:
            e = RI(self.P, mix(self.seed0, 4242), side, self.lm, self.domain); e.newmap = self.nm
            return vh(e.ev(t))
        except Taint:
            return None

    def entry(self, S, r):
        if r in S.entry: return S.entry[r]
        if r[0] == 'h': return mk('deref', r[1])
        return None

    def alt(self, v, un, f):
        cls = next(c for c, k in engine.KINDS.items() if k is un)
        return or_(*[eq(getf(v, un[0]), mk('enumc', '%s::op::%s' % (cls, k))) for k in un[1][f]])

    def value(self, r, a, b_, cond):
        S = self.SA
        nm = S.I.rootname.get(r) or (str(r[1])[:60] if r[0] == 'h' else str(r[1]))
        locs = sorted(S.I.wrote.get(r, {}))
        if a is None or b_ is None: return
        # field by field, so that the finding names the field
        def fields(t, o):
            return set(t.a[1::2]) if t.op == 'rec' else set()
        fs = fields(a, b_) | fields(b_, a)
        if fs and (recbase(a) is recbase(b_) or (a.op == 'rec' and b_.op == 'rec')):
            un = next((k for k in engine.KINDS.values() if k[0] in fs and fs & set(k[1])), None)
            for f in sorted(fs):
                if f in ('', '$'): continue
                x, y = getf(a, f), getf(b_, f)
                if un and f in un[1]:
                    # only the alternative that the kind names is there to be seen
                    def live(v, w): return ite(self.alt(v, un, f), w, NONE)
                    x, y = live(a, x), live(b_, y)
                if isctor(S.fn['q']) and y.op in ('fld', 'dflt') and b_.op == 'rec' and f not in b_.a[1::2]: continue
                l = [w for w in locs] or [S.fn.get('l')]
                self.term('value of %s.%s on return' % (nm, f), l[-1], x, y, cond)
            return
        self.term('value of %s on return' % nm, (locs or [S.fn.get('l')])[-1], a, b_, cond)

    def channel(self, e):
        if e.op == 'spec::assume': return None
        if e.op == '<<' and 'literal text' in self.ignore and (e.args[0].op in ('str', 'fn')): return None
        if e.op in ('<<', '>>') or e.target in ('throw',): return ('stream', e.target) if e.op in ('<<', '>>') else 'throw'
        if e.op in CSTDOUT: return 'stdout'
        if e.op in ('exit', 'abort', 'std::exit'): return 'exit'
        if any(re.search(p, e.op) for p in self.ignore): return None
        if self.chan is not None:
            for p in self.chan:
                if re.search(p, e.op): return p
            return None
        if e.target == 'ctor' or PURE.match(e.op): return None
        return e.op

    def chans(self, es, acc):
        for e in es:
            if e.kind == 'eff':
                c = self.channel(e)
                if c is not None: acc.setdefault(c, e.loc)
            else: self.chans(e.effects, acc)
        return acc

    def trace(self, es, ch, env):
        out = []
        for e in es:
            if e.kind == 'eff':
                if self.channel(e) != ch: continue
                if env.truth(env.ev(e.guard)):
                    if ch == 'stdout':
                        text(out, e, env)
                        continue
                    if e.op == '<<' and e.args[0].op in ('str', 'fn'):
                        # how a text is cut into pieces is not seen
                        w = e.args[0].a[0] if e.args[0].op == 'str' else '\n' if str(e.args[0].a[1]).startswith('std::endl') else '' if str(e.args[0].a[1]).startswith('std::flush') else None
                        if w is not None:
                            if out and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + w)
                            else: out.append(('text', w))
                            continue
                    out.append((e.op,) + tuple(env.canon(env.ev(a)) if a.op != 'lam' else 'fn' for a in self.obsargs(e)))
            else:
                if ch not in self.chans(e.effects, {}): continue
                if not env.truth(env.ev(e.guard)) or env.emptyrange(e.uid): continue
                c, _ = env.loopid(e.uid)
                out.append(('loop', c))
        return out

    def traceterm(self, side, es, ch):
        out = []
        for e in es:
            if e.kind == 'eff':
                if self.channel(e) != ch: continue
                if any(a.op in ('lam', 'opaque') for a in e.args): return mk('unrelated', side, str(ch), str(e.loc))
                out.append(self.same_as(side, mk('eff', e.op, e.guard, *e.args)))
            elif ch in self.chans(e.effects, {}):
                r = self.lm.get((side, e.uid))
                if r is None: return mk('unrelated', side, str(ch), e.uid)
                L = engine.LOOPS.get(e.uid)
                out.append(mk('loopeff', 'c%s' % r[0], self.same_as(side, mk('reach', e.guard, L.lo or NONE, L.hi or NONE))))
        return mk('trace', *out)

    def obsargs(self, e):
        return e.args

    def effects(self, where, ea, eb, loc, cond=None, prep=None):
        ca, cb = self.chans(ea, {}), self.chans(eb, {})
        for ch in sorted(set(ca) | set(cb), key=str):
            name = ch if isinstance(ch, str) else '%s %s' % ch
            def fa(e): return self.trace(ea, ch, e)
            def fb(e): return self.trace(eb, ch, e)
            self.check('%ssequence of %s' % (where, name), ca.get(ch) or loc, fa, fb, self.traceterm('A', ea, ch), self.traceterm('B', eb, ch), cond, prep,
                       aims=[[(sd, c) for c in conj(e.guard)] for sd, es in (('A', ea), ('B', eb)) for e in es if e.guard is not TRUE
                             and (e.kind == 'eff' and self.channel(e) == ch or e.kind != 'eff' and ch in self.chans(e.effects, {}))])

    def loop(self, u, w):
        x, y = self.A.loops[u], self.B.loops[w]
        c = self.lm[('A', u)][0]
        where = 'loop at %s: ' % frontend.rel(x.loc)
        if (x.lo is None) != (y.lo is None):
            self.R.obligations.append(where); self.R.undecided.append(where + 'iteration schemes differ'); return
        class Index:
            """the index of a loop is one of its range"""
            def __init__(s, l, c): s.l, s.c = l, c
            def __call__(s, ea, eb):
                lo, hi = ea.int(ea.ev(s.l.lo)), ea.int(ea.ev(s.l.hi))
                if hi <= lo: return False
                i = lo + ea.pick(s.c) % (hi - lo)
                ea.ixv[s.c] = i; eb.ixv[s.c] = i
                return True
        def chain(L):
            out = []
            while L is not None:
                out.append(L); L = self.A.loops.get(L.parent) if L.parent else None
            return [Index(l, self.lm[('A', l.uid)][0]) for l in reversed(out) if l.lo is not None]
        outer = chain(self.A.loops.get(x.parent) if x.parent else None)
        prep = chain(x)
        # a loop over an empty range is as good as one that is not reached
        def at(L, e): return e.truth(e.ev(L.guard)) and not e.emptyrange(L.uid)
        def T_(sd, *ts): return [(sd, c) for t in ts if t is not None for c in conj(t)]
        def reachof(sd, L): return T_(sd, L.guard) + ([lambda ea, eb: not (ea if sd == 'A' else eb).emptyrange(L.uid)] if L.lo is not None else [])
        def enterof(sd, L): return T_(sd, L.condall) if L.lo is None and not L.do else []
        px, py = self.A.loops.get(x.parent), self.B.loops.get(y.parent)
        inside = reachof('A', px) + enterof('A', px) + reachof('B', py) + enterof('B', py) if px and py else []
        self.check(where + 'reached', x.loc, lambda e: at(x, e), lambda e: at(y, e), self.same_as('A', mk('reach', x.guard, x.lo or NONE, x.hi or NONE)),
                   self.same_as('B', mk('reach', y.guard, y.lo or NONE, y.hi or NONE)), inside, outer)
        reach = reachof('A', x) + reachof('B', y)
        if x.lo is not None:
            self.term(where + 'first index', x.loc, x.lo, y.lo, reach, outer)
            self.term(where + 'end index', x.loc, x.hi, y.hi, reach, outer)
        def goterm(L): return and_(L.condall if L.lo is None and not L.do and L.condall is not None else TRUE, L.endlive if L.endlive is not None else TRUE)
        def go(L, e): return e.truth(e.ev(goterm(L)))     # the body runs to the end and the loop goes on
        self.check(where + 'continuation', x.loc, lambda e: go(x, e), lambda e: go(y, e), self.same_as('A', goterm(x)), self.same_as('B', goterm(y)), reach, prep)
        cont = reach + T_('A', goterm(x)) + T_('B', goterm(y))
        inn = reach + enterof('A', x) + enterof('B', y)
        na, nb = self.lm[('A', u)][1], self.lm[('B', w)][1]
        inv = {c_[0]: n for n, c_ in nb.items()}
        db = {d['name']: d for d in y.vars.values()}
        for p, d in x.vars.items():
            n = d['name']
            if n not in na:
                continue
            q = db[inv[na[n][0]]]
            self.term('%sinitial %s' % (where, n), x.loc, d['init'], q['init'], reach, outer, ('c%d' % c, na[n][0]))
            l = sorted(self.SA.I.wrote.get(p[0], {}))
            l = [z for z in l if z[0] == x.loc[0] and z[1] >= x.loc[1]]
            self.term('%s%s after an iteration' % (where, n), l[0] if l else x.loc, d['next'], q['next'], cont, prep)
            if d['brk'] or q['brk'] or d['ret'] or q['ret']:
                def ex(L, dd):
                    def f(e):
                        for g, v in dd['brk'] + dd['ret']:
                            if e.truth(e.ev(g)): return e.ev(v)
                        return e.ev(dd['lv'])
                    return f
                def exterm(sd, dd): return self.same_as(sd, mk('leave', *[z for g, v in dd['brk'] + dd['ret'] for z in (g, v)], dd['lv']))
                self.check('%s%s on leaving' % (where, n), l[0] if l else x.loc, ex(x, d), ex(y, q), exterm('A', d), exterm('B', q),
                           reach + T_('A', not_(goterm(x))) + T_('B', not_(goterm(y))), prep)
        for q in x.kept:
            self.check('%s%s after an iteration' % (where, q['name']), x.loc, lambda e: e.ev(q['lv']), lambda e: e.ev(q['next']), None, None,
                       cont, prep, True)
        if x.rets or y.rets:
            def rt(L):
                def f(e):
                    for g, _, v, _ in L.rets:
                        if e.truth(e.ev(g)): return ('ret', e.ev(v) if isinstance(v, T) else None)
                    return None
                return f
            def rtterm(sd, L): return self.same_as(sd, mk('returns', *[z for g, _, v, _ in L.rets for z in (g, v if isinstance(v, T) else NONE)]))
            if not x.rets or not y.rets:
                # left by returning on one side only: what follows from it is compared where it shows
                self.R.obligations.append(where + 'returns'); self.R.undecided.append(where + 'left by returning on one side only')
            else: self.check(where + 'returns', x.loc, rt(x), rt(y), rtterm('A', x), rtterm('B', y), inn, prep)
        self.effects(where, x.effects, y.effects, x.loc, inn, prep)


def same(env, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(env, a, b_) for a, b_ in zip(x, y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(env, a, b_) for a, b_ in zip(x, y))
    return env.eqv(x, y)


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


def witness(at):
    w = ['%s=%s' % (k, short(v)[:50]) for k, v in at.items() if not isinstance(v, (Mat, Map))][:8]
    return ' when ' + ', '.join(w) if w else ''
