"""Structured dataflow over the exported syntax: computes, for a function, the gated value
of everything it returns or modifies and the list of its calls on opaque objects with the
condition under which each happens.  States are merged at joins; no path is enumerated.
Loops are summarised once (comprehension, accumulation, search) or kept as a loop record
with one value equation per modified location."""
from terms import *
from frontend import rel
import sys, re
sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


def condvar(s): return s['v'][0] if 'v' in s else s     # the variable declared by a condition


class LV:
    __slots__ = ('root', 'steps')
    def __init__(s, root, steps=()): s.root, s.steps = root, tuple(steps)
    def __add__(s, st): return LV(s.root, s.steps + (st,))
    def key(s): return (s.root, s.steps)


class State:
    __slots__ = ('store', 'live')
    def __init__(s, store, live): s.store, s.live = store, live
    def copy(s): return State(dict(s.store), s.live)


class Effect:
    kind = 'eff'
    def __init__(s, op, target, args, guard, loc, val=None):
        s.op, s.target, s.args, s.guard, s.loc, s.val = op, target, args, guard, loc, val
    def __repr__(s): return '%s: %s.%s(%s) if %s' % (rel(s.loc), s.target, s.op, ', '.join(map(str, s.args)), s.guard)


class Loop:
    kind = 'loop'
    def __init__(s, uid, loc, guard):
        s.uid, s.loc, s.guard = uid, loc, guard
        s.lo = s.hi = None; s.cond = None; s.ix = None
        s.vars = {}          # pathkey -> dict(init, lv, next, name, path)
        s.effects = []; s.exits = []     # (kind, guard)
        s.flags = []
    def __repr__(s): return 'loop %s' % rel(s.loc)


LOOPS = {}


class Frame:
    def __init__(s, fn, env, this):
        s.fn, s.env, s.this = fn, env, this
        s.rets = []; s.loops = []


SEQT = ('std::vector<', 'std::list<', 'std::deque<', 'std::array<', 'std::valarray<', 'std::initializer_list<', 'std::__cxx11::list<')
def isstr(t): return bool(t) and bool(re.match(r'(const )?std::(__cxx11::)?basic_string\b', t))
MAPT = ('std::unordered_map<', 'std::map<', 'boost::unordered::unordered_map<', 'boost::unordered_map<')
SETT = ('std::unordered_set<', 'std::set<')
PTRT = ('std::shared_ptr<', 'std::weak_ptr<', 'std::unique_ptr<', 'std::__shared_ptr')


def clean(t):
    t = (t or '').strip()
    while t.startswith('const '): t = t[6:]
    t = t.rstrip(' &')
    return t[:-5].rstrip() if t.endswith('*const') else t

def isseq(t): return clean(t).startswith(SEQT)
def ismap(t): return clean(t).startswith(MAPT)
def isset(t): return clean(t).startswith(SETT)
def isptrcls(t): return clean(t).startswith(PTRT)
def ismat(t): return clean(t).startswith('Eigen::')


PATHTY = {}
ROOTT = {}

def samesize(t, u):
    if t is u: return True
    if t.op in ('upd', 'mapi', 'sort'): return samesize(t.a[0], u)
    if t.op == 'ite': return samesize(t.a[1], u) and samesize(t.a[2], u)
    return False


# class -> (kind field, alternative -> kinds that have it, alternatives that need no destruction)
KINDS = {'AtomicTRE': ('tag', {'singleton': ('singleton',), 'expr': ('plus',), 'within': ('within',), 'list': ('concat',)}, ()),
         'TRE': ('tag', {'c': ('atom',), 'regExpr': ('plus',), 'regExprPair': ('concat', 'disjunction', 'conjunction'), 'regExprWithin': ('within',)}, ('c',))}


class Interp:
    def __init__(self, prog, opaque=(), inline=None, maxdepth=12, pure=None, keeps=None):
        self.pure, self.keeps = pure, keeps      # opaque calls without an effect; opaque calls that leave the object's value alone
        self.P = prog
        self.opaque = opaque            # predicate on function record / qualified name -> bool
        self.maxdepth = maxdepth
        self.sites = {}
        self.statinit = {}
        self.curloc = None; self.wrote = {}; self.nest = [None]
        self.notes = []
        self.lams = {}
        self.reset()

    def reset(self):
        self.st = State({}, TRUE)
        self.eff = []
        self.ctx = []
        self.stack = []
        self.tries = []
        self.mainframe, self.frs = None, []
        self.ixs = []
        self.frame = None
        self.syms = {}
        self.rootname = {}
        self.constroot = {}
        self.roott = {}
        self.callpath = ()

    def note(self, e, msg):
        s = '%s: %s' % (rel(e.get('l')) if isinstance(e, dict) else '?', msg)
        if s not in self.notes: self.notes.append(s)

    # ------------------------------------------------------------ store
    def rootval(self, root):
        v = self.st.store.get(root)
        if v is not None: return v
        if root in self.constroot: return self.constroot[root]
        if root[0] == 'h':
            p = root[1]
            for r in self.st.store:
                if r[0] == 'h' and r is not root:
                    m = match(r[1], p)
                    if m: return subst(self.st.store[r], m)
            if p.op == 'ite':
                return ite(p.a[0], self.rootval(('h', p.a[1])), self.rootval(('h', p.a[2])))
            if p.op == 'addr':
                return self.load(self.addrs[p])
            v = mk('deref', p)
            s = TY.get(p)
            if s:
                s = clean(s)
                if s.endswith('*'): ty(v, s[:-1].strip())
                elif isptrcls(s): ty(v, targ(s, 0))
            return v
        if root[0] == 'k':
            return mk('bytag', getf(self.load(LV(root[1], root[2])), KINDS[root[3]][0]))
        if root[0] == 'g':
            return ty(mk('sym', '::' + root[1]), self.roott.get(root))
        v = mk('undef', self.rootname.get(root, '?'))
        return ty(v, self.roott.get(root))

    addrs = {}
    def addr(self, lv):
        if lv.root[0] == 'h' and not lv.steps: return lv.root[1]
        ks = [lv.root[0], lv.root[1]]
        for s in lv.steps: ks += list(s)
        if lv.steps and lv.steps[-1][0] == 'vget':
            pass
        t = mk('addr', *ks)
        Interp.addrs[t] = lv
        return t

    def deref(self, p, t=None):
        if p.op == 'addr': return Interp.addrs[p]
        if p.op == 'it':
            return self.itlv(p)
        return LV(('h', p))

    def itlv(self, p):
        lv = Interp.itconts[p.a[0]]
        i = p.a[1]
        if i.op == 'key':
            return lv + ('e', i)
        k = Interp.itkind[p.a[0]]
        return lv + ('e' if k == 'map' else 'i', i)
    itconts = {}
    itkind = {}

    def mkit(self, lv, kind, i):
        ks = [lv.root[0], lv.root[1]]
        for s in lv.steps: ks += list(s)
        k = mk('cont', *ks)
        Interp.itconts[k] = lv; Interp.itkind[k] = kind
        return mk('it', k, i)

    def get(self, v, steps, tstr=None):
        for n, s in enumerate(steps):
            last = n == len(steps) - 1
            v = self.getstep(v, s, tstr if last else None)
        return v

    def entry(self, m, i):
        if i.op == 'key':
            k = i.a[0]
        elif isset(TY.get(m) or ''):
            return mk('keyat', m, i)
        else:
            k = mk('keyat', m, i)
            s = TY.get(m)
            if s: ty(k, targ(s, 0))
        s = TY.get(m)
        v = at(m, k, targ(s, 1) if s and ismap(s) else None)
        return mk('rec', NONE, 'first', k, 'second', v)

    def getstep(self, v, s, tstr=None):
        k = s[0]
        if k == 'f':
            return getf(v, s[1], tstr)
        if k == 'i':
            if s[1].op == 'key': return s[1].a[0]
            r = idx(v, s[1])
            return ty(r, tstr) if tstr and r.op == 'idx' else r
        if k == 'k':
            return at(v, s[1], tstr)
        if k == 'e': return self.entry(v, s[1])
        if k == 'c': return cell(v, s[1], s[2])
        if k == 'v':
            if v.op == 'var': return v.a[1]
            return ty(mk('vget', v, s[1]), s[1])
        raise Unsupported('step ' + str(k))

    def setstep(self, v, steps, nv):
        if not steps: return nv
        s, rest = steps[0], steps[1:]
        k = s[0]
        if k == 'e':
            if rest and rest[0] == ('f', 'second'):
                kk = s[1].a[0] if s[1].op == 'key' else getf(self.entry(v, s[1]), 'first')
                return self.setstep(v, (('k', kk),) + tuple(rest[1:]), nv)
            raise Unsupported('write to map entry')
        old = self.getstep(v, s) if rest else None
        x = self.setstep(old, rest, nv) if rest else nv
        if k == 'f': return setf(v, s[1], x)
        if k == 'i': return upd(v, s[1], x)
        if k == 'k': return mupd(v, s[1], x)
        if k == 'c':
            if v.op == 'cupd' and v.a[1] is s[1] and v.a[2] is s[2]: v = v.a[0]
            return mk('cupd', v, s[1], s[2], x)
        if k == 'v': return mk('var', s[1], x)
        raise Unsupported('write step')

    def load(self, lv, tstr=None):
        if lv.root[0] == 'val': v = lv.root[1]
        else: v = self.rootval(lv.root)
        if lv.steps: v = self.get(v, lv.steps, tstr)
        if tstr and v.op in ('sym', 'fld', 'idx', 'at', 'deref', 'vget', 'undef', 'cell', 'out', 'lv'): ty(v, tstr)
        return v

    # ---- which alternative of a union is alive: kept beside the store, by the kind field as long as nothing else is known
    kinds = None
    umode = 'read'
    def kindcls(self, lv):
        t = clean(self.objtype(lv) or '')
        return t if t in KINDS else None

    def objtype(self, lv):
        if not lv.steps and lv.root[0] == 'h':
            s = clean(TY.get(lv.root[1]) or '')
            if s.endswith('*'): return s[:-1].strip()
            if isptrcls(s): return targ(s, 0)
        return PATHTY.get(lv.key()) or self.roott.get(lv.root) or TY.get(self.load(lv))

    def alive(self, lv, cls):
        r = ('k', lv.root, lv.steps, cls)
        v = self.st.store.get(r)
        if v is None: v = self.st.store[r] = self.rootval(r)
        return r, v

    def alivecond(self, v, cls, f):
        if v.op == 'str': return b(v.a[0] == f)
        if v.op == 'bytag': return or_(*[eq(v.a[0], mk('enumc', '%s::op::%s' % (cls, k))) for k in KINDS[cls][1][f]])
        if v.op == 'ite': return ite(v.a[0], self.alivecond(v.a[1], cls, f), self.alivecond(v.a[2], cls, f))
        return ty(mk('alive', v, f), 'bool')

    def unionuse(self, e, lv, cls, f, how):
        if not lv.root[0] in 'hpv': return
        r, v = self.alive(lv, cls)
        if how == 'start':
            c = not_(or_(*[self.alivecond(v, cls, g) for g in KINDS[cls][1] if g != f and g not in KINDS[cls][2]]))
            self.st.store[r] = mk('str', f)
        else:
            c = self.alivecond(v, cls, f)
            if how == 'end': self.st.store[r] = mk('str', '-')
        self.kinds.append((how, f, cls, e.get('l') or self.curloc, self.guard(), c, v))

    def put(self, lv, val):
        if self.curloc: self.wrote.setdefault(lv.root, {})[self.curloc] = 1
        root = lv.root
        if root[0] == 'val': return
        if self.kinds is not None:
            if lv.steps and lv.steps[-1] == ('f', 'tag'):
                o = LV(lv.root, lv.steps[:-1]); cls = self.kindcls(o)
                if cls: self.alive(o, cls)
            elif not lv.steps and root[0] == 'h':
                for r in list(self.st.store):
                    if r[0] == 'k' and r[1] == root: del self.st.store[r]
        if root[0] == 'h' and root[1].op == 'ite':
            c, p, q = root[1].a
            for g, x in ((c, p), (not_(c), q)):
                l2 = LV(self.deref(x).root, self.deref(x).steps + lv.steps)
                old = self.load(l2)
                self.put(l2, ite(g, val, old))
            return
        if root[0] == 'h' and root[1].op == 'null': return
        base = self.rootval(root)
        self.st.store[root] = self.setstep(base, lv.steps, val)

    def newroot(self, name, t=None):
        r = ('v', fresh())
        self.rootname[r] = name
        self.roott[r] = t; ROOTT[r] = t
        return r

    def temp(self, val, t=None):
        r = self.newroot('tmp', t)
        self.st.store[r] = val
        return LV(r)

    def guard(self):
        return and_(*self.ctx, self.st.live)

    def effect(self, op, target, args, e, val=None):
        g = self.guard()
        if g is FALSE: return
        self.eff.append(Effect(op, target, args, g, e.get('l'), val))

    # ------------------------------------------------------------ joins
    def branch(self, c, f, g):
        """run f under c and g under not c, merge; returns merged values"""
        c = self.simp(c)
        if c is TRUE: return f()
        if c is FALSE: return g()
        s0 = self.st
        s1 = s0.copy(); s1.live = and_(s0.live, c)
        s2 = s0.copy(); s2.live = and_(s0.live, not_(c))
        self.st = s1; r1 = f(); s1 = self.st
        self.st = s2; r2 = g(); s2 = self.st
        self.st = self.join(c, s1, s2)
        if isinstance(r1, LV) or isinstance(r2, LV):
            if r1.key() == r2.key(): return r1
            a = self.addr(r1); b_ = self.addr(r2)
            return self.deref(ite(c, a, b_))
        if r1 is None or r2 is None: return r1 if r2 is None else r2
        return ite(c, r1, r2)

    def simp(self, c):
        """condition simplified by what is already known to hold here"""
        c = truth(c)
        if self.st.live is TRUE: return c
        return assume(c, self.st.live, True) if c not in (TRUE, FALSE) else c

    def join(self, c, s1, s2):
        if s1.live is FALSE: return s2
        if s2.live is FALSE: return s1
        st = {}
        saved = self.st
        for r in list(s1.store) + [r for r in s2.store if r not in s1.store]:
            v1, v2 = s1.store.get(r), s2.store.get(r)
            if v1 is v2: st[r] = v1; continue
            if v1 is None:
                if r[0] == 'v': st[r] = v2; continue
                self.st = s1; v1 = self.rootval(r)
            if v2 is None:
                if r[0] == 'v': st[r] = v1; continue
                self.st = s2; v2 = self.rootval(r)
            st[r] = ite(c, v1, v2)
        self.st = saved
        return State(st, or_(s1.live, s2.live))

    # ------------------------------------------------------------ statements
    def run(self, s):
        if s and s.get('l'): self.curloc = s['l']
        if s is None or self.st.live is FALSE: return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.note(s, 'statement ' + k)
            return
        m(s)

    def s_block(self, s):
        for x in s['b']:
            if self.st.live is FALSE: break
            self.run(x)

    def s_null(self, s): pass
    def s_label(self, s): self.run(s.get('b'))
    def s_other(self, s): self.note(s, 'statement not modelled')
    def s_goto(self, s): raise Unsupported('goto')

    def s_expr(self, s): self.ev(s['e'], discard=True)

    def s_decl(self, s):
        for v in s['v']: self.declare(v)

    def declare(self, v):
        env = self.frame.env
        t = v.get('t')
        if v.get('bind'):
            # structured binding: the fields of the value in order
            init = v.get('init')
            lv = self.evl(init) if v.get('ref') or v.get('rref') else self.temp(self.ev(init), t)
            for n, bnd in enumerate(v['bind']):
                env[bnd['d']] = lv + ('f', ('first', 'second')[n] if n < 2 else str(n))
            return
        if v.get('ref') or v.get('rref'):
            if v.get('init') is not None:
                env[v['d']] = self.evl(v['init'])
                return
        if v.get('static'):
            r = ('g', 'static ' + v['n'] + '@' + (self.frame.fn['q'] if self.frame.fn else ''))
            self.roott[r] = t; ROOTT[r] = t
            env[v['d']] = LV(r)
            if not v.get('const'):
                # the value at the first call
                keep, self.eff = self.eff, []
                self.statinit[r] = self.ev(v['init']) if v.get('init') is not None else self.dflt(t)
                self.eff = keep
            if v.get('const') and v.get('init') is not None:
                # a constant initialised from constants only
                val = self.ev(v['init'])
                if not fv(val) and not hassym(val): self.constroot[r] = val
                else:
                    # initialised once, from the first call
                    self.statinit[r] = val
                    self.st.store[r] = ty(mk('sym', '::' + r[1]), t)
            return
        r = self.newroot(v['n'], t)
        env[v['d']] = LV(r)
        if v.get('init') is not None:
            self.st.store[r] = self.conv(self.ev(v['init'], lvroot=r), t)
        else:
            self.st.store[r] = ty(mk('undef', v['n']), t)

    def conv(self, v, t): return v

    def s_if(self, s):
        if s.get('init'): self.run(s['init'])
        if s.get('cv'):
            v = condvar(s['cv'])
            self.declare(v)
            c = truth(self.load(self.frame.env[v['d']]))
        else:
            if s.get('cexpr') is not None and s['c'].get('k') in ('bool', 'int') : pass
            c = truth(self.ev(s['c']))
        self.branch(c, lambda: self.run(s.get('th')), lambda: self.run(s.get('el')))

    def s_return(self, s):
        e = s.get('e')
        v = None
        if e is not None:
            if self.frame.fn and (self.frame.fn.get('retref')):
                v = self.evl(e)
            else:
                v = self.ev(e)
        self.frame.rets.append((self.st.live, self.st, v, len(self.frame.loops)))
        self.st = State(self.st.store, FALSE)

    def s_break(self, s):
        self.frame.loops[-1]['brk'].append((self.st.live, self.st))
        self.st = State(self.st.store, FALSE)

    def s_continue(self, s):
        for L in reversed(self.frame.loops):
            if L['kind'] == 'loop':
                L['cnt'].append((self.st.live, self.st)); break
        self.st = State(self.st.store, FALSE)

    def s_try(self, s):
        self.tries.append((len(self.ctx), self.frame, len(self.frame.loops), []))
        self.run(s['b'])
        outs, norm = self.tries.pop()[3], self.st
        if not outs: return
        ends = [(norm.live, norm)]
        for h in s.get('h') or []:
            t = clean(h.get('ct') or '')
            mine, rest = [], []
            for g, st, x in outs:
                # what is thrown here is derived from these
                sure = h.get('all') or t in ('std::exception', 'boost::program_options::error', 'boost::program_options::error *')
                c = TRUE if sure else ty(mk('call', 'is thrown', mk('str', t), x), 'bool')
                if c is not TRUE: rest.append((and_(g, not_(c)), st, x))
                mine.append((and_(g, c), st, x))
            outs = rest
            ms = []
            for g, st, x in mine:
                st = st.copy(); st.live = g
                if h.get('v'):
                    r = self.newroot(h['v'].get('n') or 'exception', h['v'].get('t'))
                    self.frame.env[h['v']['d']] = LV(r)
                    st.store[r] = mk('call', 'exception', x)
                ms.append((g, st))
            self.st = self.merge(ms, norm)
            self.run(h['b'])
            ends.append((self.st.live, self.st))
        for g, st, x in outs:
            if self.tries: self.tries[-1][3].append((and_(*self.ctx[self.tries[-1][0]:], g), st, x))
            else:
                self.st = State(st.store, g)
                self.effect('terminate', 'terminate', [x], s)
        self.st = self.merge(ends, norm)

    def maythrow(self, what, *args):
        """a call inside a try block may end it here"""
        if not self.tries or self.st.live is FALSE: return
        k, fr, nl, outs = self.tries[-1]
        if len(self.frame.loops) > (nl if self.frame is fr else 0): return
        x = mk('call', 'thrown by ' + what, *args)
        c = ty(mk('call', 'throws', x), 'bool')
        g = and_(*self.ctx[k:], self.st.live, c)
        st = self.st.copy(); st.live = g
        outs.append((g, st, x))
        self.st = State(self.st.store, and_(self.st.live, not_(c)))

    def s_switch(self, s):
        v = self.ev(s['c'])
        body = s['b']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten nested case labels
        flat = []
        def add_(x):
            if x['k'] == 'case': flat.append(('case', x['v'])); add_(x['b']) if x.get('b') else None
            elif x['k'] == 'default': flat.append(('default', None)); add_(x['b']) if x.get('b') else None
            else: flat.append(('stmt', x))
        for x in items: add_(x)
        conds = []
        for k, x in flat:
            if k == 'case': conds.append(eq(v, self.ev(x)))
        anycase = or_(*conds)
        hasdef = any(k == 'default' for k, _ in flat)
        allenum = s.get('allenum') and not hasdef
        ci = 0
        ctx = {'kind': 'switch', 'brk': [], 'cnt': []}
        self.frame.loops.append(ctx)
        start = self.st
        entry_live = start.live
        cur = State(dict(start.store), FALSE)      # fallthrough state
        ncase = sum(1 for k, _ in flat if k == 'case')
        seen = []
        for k, x in flat:
            if k in ('case', 'default'):
                if k == 'case':
                    ci += 1
                    c = conds[ci - 1]
                    if allenum and ci == ncase: c = not_(or_(*seen)) if seen else TRUE
                    seen.append(c)
                else: c = not_(anycase)
                ent = State(dict(start.store), and_(entry_live, c))
                if ent.live is FALSE: continue
                if cur.live is FALSE: cur = ent
                else: cur = self.join(c, ent, cur)
            else:
                self.st = cur
                if cur.live is not FALSE: self.run(x)
                cur = self.st
        self.frame.loops.pop()
        outs = list(ctx['brk'])
        if cur.live is not FALSE: outs.append((cur.live, cur))
        if not hasdef and not allenum:
            g = and_(entry_live, not_(anycase))
            if g is not FALSE: outs.append((g, State(dict(start.store), g)))
        self.st = self.merge(outs, start)

    def merge(self, outs, start):
        outs = [(g, s) for g, s in outs if g is not FALSE]
        if not outs: return State(start.store, FALSE)
        g, s = outs[-1]
        cur = State(s.store, g)
        for g, s in reversed(outs[:-1]):
            s1 = State(s.store, g)
            cur = self.join(g, s1, cur)
        return cur

    # ------------------------------------------------------------ loops
    def s_while(self, s): self.loop(s, None, s['c'], None, s['b'], cv=s.get('cv'))
    def s_do(self, s): self.loop(s, None, s['c'], None, s['b'], do=True)
    def s_for(self, s):
        if s.get('init'): self.run(s['init'])
        self.loop(s, None, s.get('c'), s.get('inc'), s['b'], cv=s.get('cv'))

    def s_rangefor(self, s):
        if s.get('init'): self.run(s['init'])
        rng = s['r']
        t = rng.get('t') or ''
        try: lv = self.evl(rng)
        except Unsupported: lv = self.temp(self.ev(rng), t)
        ctn = self.load(lv, t)
        kind = 'map' if ismap(t) else 'seq'
        v = s['v']
        def bind(ixt):
            el = lv + ('e' if kind == 'map' else 'i', ixt) if not isset(t) else LV(('val', ty(mk('keyat', self.load(lv), ixt), targ(t, 0))))
            if v.get('bind'):
                base = el if (v.get('ref') or v.get('rref')) else self.temp(self.load(el), v.get('t'))
                for n, bnd in enumerate(v['bind']): self.frame.env[bnd['d']] = base + ('f', ('first', 'second')[n] if n < 2 else str(n))
            elif v.get('ref') or v.get('rref'):
                self.frame.env[v['d']] = el
            else:
                r = self.newroot(v['n'], v.get('t'))
                self.st.store[r] = self.load(el, v.get('t'))
                self.frame.env[v['d']] = LV(r)
        self.loop(s, bind, None, None, s['b'], rng=(ZERO, size(ctn)), contlv=lv)

    def loop(self, s, bind, cond, inc, body, rng=None, do=False, cv=None, contlv=None):
        if self.st.live is FALSE: return
        site = self.site(s)
        uid = 'L%s' % site
        ixt = ty(mk('ix', uid), 'unsigned long')
        entry = self.st
        outer_live = entry.live
        self.ctx.append(outer_live)
        self.ixs.append(ixt)
        saved_eff = self.eff
        self.nest.append(uid)
        modset = {}      # path -> (name,type)
        elem = set()     # element-wise modified paths
        rangevar = None
        filt = None
        result = None
        k0 = len(self.kinds) if self.kinds is not None else 0
        steady = {}      # flags that have their initial value whenever the body is entered
        for rnd in range(14):
            st = State(dict(entry.store), TRUE)
            if self.kinds is not None: del self.kinds[k0:]
            lvs = {}
            for p in modset:
                lvt = self.lvterm(uid, p, entry)
                lvs[p] = lvt
                self.st = st
                if filt and p == filt[1] or p in steady: pass
                elif rangevar and p == rangevar[0]:
                    self.put(LV(*p), self.rangeval(rangevar, ixt, entry))
                else:
                    self.put(LV(*p), lvt)
                st = self.st
            self.st = State(dict(st.store), TRUE)
            self.eff = []
            self.frame.loops.append({'kind': 'loop', 'brk': [], 'cnt': []})
            L = self.frame.loops[-1]
            nret = len(self.frame.rets)
            c = TRUE
            condst = None
            if bind: bind(ixt)
            if not do and (cond is not None or cv is not None):
                if rangevar: c = TRUE
                else:
                    if cv is not None:
                        cv = condvar(cv)
                        self.declare(cv); c = truth(self.load(self.frame.env[cv['d']]))
                    else: c = truth(self.ev(cond))
                condst = self.st
                if c is not TRUE:
                    self.st = State(dict(self.st.store), c)
            if c is FALSE:
                self.frame.loops.pop(); self.eff = saved_eff
                self.ctx.pop(); self.ixs.pop(); self.nest.pop(); self.st = State(condst.store, outer_live)
                return
            self.run(body)
            outs = list(L['cnt'])
            if self.st.live is not FALSE: outs.append((self.st.live, self.st))
            self.st = self.merge(outs, st)
            endlive = self.st.live
            if inc is not None and self.st.live is not FALSE:
                sv = self.st.live
                self.st.live = TRUE
                self.ev(inc, discard=True)
                self.st.live = sv
            c_end = None
            if do and self.st.live is not FALSE:
                c_end = truth(self.ev(cond))
                if c_end is not TRUE and self.st.live is not FALSE:
                    L['brk'].append((and_(self.st.live, not_(c_end)), State(dict(self.st.store), TRUE)))
                    self.st.live = and_(self.st.live, c_end)
                endlive = self.st.live
            endst = self.st
            self.frame.loops.pop()
            rets = self.frame.rets[nret:]
            del self.frame.rets[nret:]
            # which locations changed?
            newmods = {}
            newelem = set()
            for es in [endst] + [x[1] for x in L['brk']] + [x[1] for x in rets]:
                if es is None: continue
                if es is endst and endst.live is FALSE: continue
                for r in es.store:
                    v1 = es.store[r]
                    v0 = st.store.get(r)
                    if v0 is v1: continue
                    if v0 is None:
                        if r[0] == 'v' : continue             # local to the body
                        h = r[1] if r[0] == 'k' else r
                        if h[0] == 'h' and ixt in fv(h[1]): continue
                        if h[0] == 'h' and any(x.op == 'ix' and str(x.a[0]).startswith('L') and x not in self.ixs for x in fv(h[1])): continue      # an object of one iteration of a loop that is over
                        self.st = st; v0 = self.rootval(r)
                        if v0 is v1: continue
                    for p in self.diff((r, ()), v0, v1, ixt, newelem, lvs):
                        newmods[p] = 1
            add = {}
            for p in newmods:
                if p in modset: continue
                if filt and p[0] in (filt[0][0], filt[1][0]): continue
                if any(q[0] == p[0] and p[1][:len(q[1])] == q[1] for q in modset): continue
                add[p] = 1
            found = False
            if endst.live is not TRUE and endst.live is not FALSE:
                for p, lvt in lvs.items():
                    if p in steady or lvt.op != 'lv': continue
                    self.st = entry; i0 = self.load(LV(*p))
                    if i0 is not TRUE and i0 is not FALSE: continue
                    self.st = endst; nx = self.load(LV(*p))
                    if not isbool(nx) or nx is lvt: continue
                    if assume(subst(nx, {lvt: i0}), subst(endst.live, {lvt: i0}), True) is i0: steady[p] = i0; found = True
            if found and not add: continue
            if add:
                # a changed prefix subsumes deeper ones
                for p in add:
                    for q in list(modset):
                        if q[0] == p[0] and q[1][:len(p[1])] == p[1]: del modset[q]
                modset.update(add)
                continue
            elem = newelem
            # counting loops
            if rng is None and not do and rangevar is None and cond is not None and cv is None:
                rangevar = self.counting(c, modset, lvs, endst, entry, elem)
                if rangevar:
                    modset = {rangevar[0]: 1}
                    continue
                if filt is None and not [g for g, x in L['brk'] if g is not FALSE] and not rets:
                    filt = self.filterloop(c, lvs, endst, entry, ixt)
                    if filt:
                        # every element is looked at once, in the container as it was
                        rangevar = (filt[0], ZERO, size(filt[2]), lvs[filt[0]])
                        modset = {filt[0]: 1, filt[1]: 1}
                        continue
            break
        self.ixs.pop()
        self.ctx.pop()
        self.nest.pop()
        bodyeff = self.eff
        self.eff = saved_eff
        counter = (rangevar[0],) if rangevar else ()
        if filt: counter += (filt[1],)
        if rangevar: lo, hi = rangevar[1], rangevar[2]
        elif rng: lo, hi = rng
        else: lo = hi = None
        rec_ = Loop(uid, s.get('l'), and_(*self.ctx, outer_live))
        rec_.lo, rec_.hi, rec_.cond, rec_.ix = lo, hi, (c if lo is None else None), ixt
        rec_.do = do
        rec_.counter = counter
        rec_.effects = bodyeff
        rec_.contlv = contlv
        rec_.endlive = endlive
        rec_.parent = self.nest[-1]
        rec_.fn = self.frame.fn.get('q')
        rec_.brks = [g for g, x in L['brk'] if g is not FALSE]
        rec_.condall = c
        rec_.rets = rets
        rec_.n = len(LOOPS); LOOPS[uid] = rec_
        # ---- exit store
        brks = [(g, x) for g, x in L['brk'] if g is not FALSE]
        brkg = or_(*[g for g, _ in brks]) if brks else FALSE
        retg = or_(*[g for g, *_ in rets]) if rets else FALSE
        anyexit = or_(brkg, retg)
        lvset = set()
        for p, t in lvs.items(): lvset |= fv(t) if t.op != 'it' else fv(t.a[1])
        lvset = {x for x in lvset if x.op == 'lv' and x.a[0] == uid}
        out = State(dict(entry.store), outer_live)
        if endst.live is FALSE and not outs:      # body never completes an iteration
            pass
        exits_free = not (fv(anyexit) & lvset)
        def closedexists(g):
            if g is FALSE: return FALSE
            if lo is not None and not (fv(g) & lvset): return exists(ixt, lo, hi, g)
            t = ty(mk('out', uid, 'exit?' + str(len(rec_.exits))), 'bool')
            rec_.exits.append(g)
            return t
        E = closedexists(brkg) if brks else FALSE
        vals = {}
        for p, lvt in lvs.items():
            self.st = entry
            init = self.load(LV(*p))
            self.st = endst
            nxt = self.load(LV(*p)) if endst.live is not FALSE and p not in steady else lvt
            bv = []
            for g, bs in brks:
                self.st = bs
                x = self.load(LV(*p))
                bv.append((g, assume(x, g, True) if p in steady else x))
            rv = []
            for g, rs, *_ in rets:
                if g is FALSE: continue
                self.st = rs
                rv.append((g, self.load(LV(*p))))
            name = self.rootname.get(p[0], str(p[0][1])) + ''.join('.' + str(x[1]) for x in p[1])
            rec_.vars[p] = dict(init=init, lv=lvt, next=nxt, name=name, brk=bv, ret=rv)
        hoist = self.unswitch(rec_, bodyeff, lvset, ixt) if lo is not None and not brks and not rets and not elem and endst.live is TRUE else TRUE
        self.st = out
        for p, d in rec_.vars.items():
            if filt and p in filt[:2]: vals[p] = filt[3] if p == filt[1] else filt[4]; continue
            if rangevar and p == rangevar[0]: 
                vals[p] = self.rangeexit(rangevar, entry, brkg, E, uid, d)
                continue
            vals[p] = self.summarise(rec_, p, d, lo, hi, ixt, lvset, brkg, E, retg)
            if hoist is not TRUE: vals[p] = ite(hoist, vals[p], d['init'])
        rec_.outs = set()
        for p, v in vals.items():
            rec_.outs |= {x.a[1] for x in fv(v) if x.op == 'out' and x.a[0] == uid}
            self.st = out
            self.put(LV(*p), v)
        # element-wise modified containers and per-element heap objects
        if lo is not None:
            for es in ([endst] if endst.live is not FALSE else []):
                for r, v1 in es.store.items():
                    if r[0] == 'h' and r not in entry.store and (ixt in fv(r[1])):
                        out.store[r] = v1
                        continue
            for p in elem:
                self.st = endst; v1 = self.load(LV(*p))
                self.st = entry; v0 = self.load(LV(*p))
                self.st = out
                nv = self.elemwise(v0, v1, ixt, lo, hi)
                if brks: nv = ty(mk('partly', uid, nv), TY.get(v0))
                self.put(LV(*p), nv)
        # returns inside the loop
        if rets:
            # a loop without a condition is left by returning
            Rl = TRUE if lo is None and not do and c is TRUE and not brks and len(rets) == 1 else closedexists(retg)
            for g, rs, v, _ in rets:
                gg = closedexists(g) if len(rets) > 1 else Rl
                if isinstance(v, T):
                    if lo is not None and (fv(v) & {ixt}) and not (fv(v) & lvset) and not (fv(g) & lvset):
                        h, g2, v2 = close(ixt, g, v)
                        v = mk('firstwhere', h, lo, hi, g2, v2)
                    elif fv(v) & (lvset | {ixt}):
                        v = ty(mk('out', uid, 'ret'), TY.get(v))
                rs2 = State(dict(out.store), and_(outer_live, gg))
                for p, d in rec_.vars.items():
                    if p[0][0] == 'v' and p[0] not in rs.store: continue
                    self.st = rs
                    x = self.load(LV(*p))
                    if not (fv(x) & (lvset | {ixt})): nv = x
                    elif x is d['lv'] and d['next'] is x: nv = d['init']
                    elif lo is not None and not (fv(x) & lvset) and not (fv(g) & lvset):
                        h, g2, x2 = close(ixt, g, x)
                        nv = ty(mk('firstwhere', h, lo, hi, g2, x2), TY.get(d['lv']))
                    elif d['lv'].op == 'it':
                        nv = mk('it', d['lv'].a[0], ty(mk('out', uid, d['name']), 'unsigned long'))
                    else:
                        nv = mk('out', uid, d['name'])
                        if d['lv'] in SHAPE: SHAPE[nv] = SHAPE[d['lv']]
                        ty(nv, TY.get(d['lv']) or TY.get(d['init']) or ('bool' if isbool(d['init']) else None))
                    rec_.outs |= {x.a[1] for x in fv(nv) if x.op == 'out' and x.a[0] == uid}
                    self.st = rs2
                    self.put(LV(*p), nv)
                for p in elem:
                    self.st = out
                    v0 = self.load(LV(*p))
                    self.st = rs2
                    self.put(LV(*p), ty(mk('partly', uid, v0), TY.get(v0)))
                self.frame.rets.append((rs2.live, rs2, v, 0))
            out.live = and_(out.live, not_(Rl))
            rec_.rets = rets
        if lo is None and not do and c is not TRUE and not brks and not rets:
            # the loop condition is false on exit
            self.st = out
            m = {}
            for p, d in rec_.vars.items():
                if d['lv'].op == 'lv': m[d['lv']] = vals[p]
            cexit = subst(c, m)
            if not (fv(cexit) & lvset): rec_.exitcond = cexit
        if endst.live is FALSE and not brks and not rets and cond is None and lo is None:
            out.live = FALSE
        if lo is None and c is TRUE and not brks and not do:
            out.live = FALSE
        if bodyeff or True:
            if bodyeff: self.eff.append(rec_)
        self.st = out

    def unswitch(self, L, effs, lvset, ixt):
        """a condition that does not change during the loop and without which the body does nothing becomes a condition of the loop"""
        outer = set(conj(L.guard))
        bad = set(lvset) | {ixt}
        def inv(t): return t not in outer and not any(x in bad or (x.op in ('lv', 'out', 'new') and x.a[0] not in self.nest) for x in fv(t))
        cands = None
        def meet(cs):
            nonlocal cands
            cs = {c for c in cs if inv(c)}
            cands = cs if cands is None else cands & cs
        for e in effs: meet(conj(e.guard))
        for d in L.vars.values():
            n, v = d['next'], d['lv']
            if n is v: continue
            if n.op == 'ite' and n.a[2] is v: meet(conj(n.a[0]))
            elif n.op == 'ite' and n.a[1] is v: meet(conj(not_(n.a[0])))
            else: return TRUE
        if not cands: return TRUE
        cands = sorted(cands, key=str)
        m = {c: TRUE for c in cands}
        for d in L.vars.values():
            d['next'] = subst(d['next'], m)
        h = and_(*cands)
        L.guard = and_(L.guard, h)
        return h

    def lvterm(self, uid, p, entry):
        self.st = entry
        v0 = self.load(LV(*p))
        name = self.rootname.get(p[0], str(p[0][1])) + ''.join('.' + str(x[1]) for x in p[1])
        if v0.op == 'it':
            return mk('it', v0.a[0], ty(mk('lv', uid, name), 'unsigned long'))
        t = mk('lv', uid, name)
        s = TY.get(v0)
        if not p[1] and p[0][0] == 'v' and (isseq(self.roott.get(p[0]) or '') or isset(self.roott.get(p[0]) or '')): s = clean(self.roott[p[0]])
        if v0.op in ('mlam', 'cupd') or (s and clean(s).startswith('Eigen::Matrix')):
            SHAPE[t] = v0; s = s or 'Eigen::Matrix<Bounds>'
        if s is None: s = self.pathtype(p)
        if s is None and isbool(v0): s = 'bool'
        if s and clean(s).startswith('Eigen::Matrix'): SHAPE[t] = v0
        return ty(t, s)

    def pathtype(self, p):
        if p in PATHTY: return PATHTY[p]
        if not p[1]: return self.roott.get(p[0])

    def diff(self, p, v0, v1, ixt, elem, lvs):
        if v0 is v1: return
        if v1.op == 'rec' and (v0.op == 'rec' or recbase(v1) is v0):
            b0, b1 = recbase(v0), recbase(v1)
            if b0 is b1:
                fs = set(v1.a[1::2]) | (set(v0.a[1::2]) if v0.op == 'rec' else set())
                if fs <= {'first', 'second'}: yield p; return      # a pair is one variable
                for f in sorted(fs):
                    x0, x1 = getf(v0, f), getf(v1, f)
                    if x0 is not x1: yield from self.diff((p[0], p[1] + (('f', f),)), x0, x1, ixt, elem, lvs)
                return
        if v1.op == 'upd' and v1.a[0] is v0 and v1.a[1] is ixt:
            elem.add(p); return
        if v1.op == 'mupd' and v1.a[0] is v0 and v1.a[1].op == 'keyat' and v1.a[1].a == (v0, ixt):
            elem.add(p); return
        if v1.op == 'it' and v0.op == 'it' and v1.a[0] is v0.a[0]:
            yield p; return
        yield p

    def elemwise(self, v0, v1, ixt, lo, hi):
        if v1.op == 'upd':
            h, v = close(ixt, v1.a[2])
            return ty(mk('mapi', v0, h, lo, hi, v), TY.get(v0))
        if v1.op == 'mupd':
            h, k, v = close(ixt, v1.a[1], v1.a[2])
            return ty(mk('emap', h, lo, hi, k, v, v0), TY.get(v0))
        return v1

    def counting(self, c, modset, lvs, endst, entry, elem):
        """recognise 'v from lo, step +1, while v < N'"""
        if endst.live is FALSE: return None
        cs = conj(c)
        if len(cs) != 1: return None
        c = cs[0]
        for p, t in lvs.items():
            base = t.a[1] if t.op == 'it' else t
            if base.op != 'lv': continue
            self.st = endst
            nxt = self.load(LV(*p))
            if t.op == 'it':
                if nxt.op != 'it' or nxt.a[0] is not t.a[0]: continue
                nxt = nxt.a[1]
            if sub(nxt, base) is not ONE: continue
            self.st = entry
            init = self.load(LV(*p))
            if init.op == 'it': init = init.a[1]
            N = None
            if c.op == 'lt0':
                k, d = lin_parts(c.a[0])
                if d.get(base) == 1: N = neg(sub(c.a[0], base))
            elif c.op == 'not' and c.a[0].op == 'eq0':
                k, d = lin_parts(c.a[0].a[0])
                if abs(d.get(base, 0)) == 1:
                    z = c.a[0].a[0] if d[base] == 1 else neg(c.a[0].a[0])
                    N = neg(sub(z, base))
            elif c.op == 'not' and c.a[0].op == 'eq' and base in c.a[0].a:
                N = c.a[0].a[1] if c.a[0].a[0] is base else c.a[0].a[0]
            elif c.op == 'le0':
                k, d = lin_parts(c.a[0])
                if d.get(base) == 1: N = add(neg(sub(c.a[0], base)), ONE)
            if N is None: continue
            others = set()
            for q, u in lvs.items():
                others |= {x for x in fv(u) if x.op == 'lv' and x.a[0] == base.a[0]}
            if fv(N) & others:
                # the size of a container whose elements are only overwritten
                m = {}
                for q, u in lvs.items():
                    if u.op != 'lv' or u not in fv(N): continue
                    self.st = endst; nx = self.load(LV(*q))
                    if not samesize(nx, u): break
                    self.st = entry
                    m[size(u)] = size(self.load(LV(*q)))
                N = subst(N, m)
                if fv(N) & others: continue
            return (p, init, N, t)
        return None

    def filterloop(self, c, lvs, endst, entry, ixt):
        """recognise 'it from begin; while it != end: if g(*it) it = erase(it) else ++it': what is left is the filtered container"""
        if endst.live is not TRUE and endst.live is not c: return None
        val = {}
        for st, n in ((entry, 'init'), (endst, 'next')):
            self.st = st
            for p in lvs: val[p, n] = self.load(LV(*p))
        for pi, ti in lvs.items():
            if ti.op != 'it' or ti.a[1].op != 'lv': continue
            for pc, C in lvs.items():
                if C.op != 'lv' or not (isseq(TY.get(C)) or ismap(TY.get(C)) or isset(TY.get(C))): continue
                b_, nc, ni, init = ti.a[1], val[pc, 'next'], val[pi, 'next'], val[pc, 'init']
                if ni.op != 'it' or ni.a[0] is not ti.a[0] or val[pi, 'init'].op != 'it' or val[pi, 'init'].a[1] is not ZERO: continue
                if c is not not_(eq(b_, size(C))) or nc.op != 'ite': continue
                isq = isseq(TY.get(C))
                el = idx(C, b_) if isq else None
                key = None if isq else mk('keyat', C, b_)
                er = mk('erase', C, b_) if isq else mk('merase', C, key)
                if nc.a[1] is er and nc.a[2] is C: g = nc.a[0]
                elif nc.a[2] is er and nc.a[1] is C: g = not_(nc.a[0])
                else: continue
                if ni.a[1] is not ite(g, b_, add(b_, ONE)) and ni.a[1] is not ite(not_(g), add(b_, ONE), b_): continue
                h = mk('sym', '#el'); h2 = mk('sym', '#val')
                if isq: g1 = subst(g, {el: h})
                else: g1 = subst(subst(g, {at(C, key): h2}), {key: h})
                if any(x.op == 'lv' and x.a[0] == b_.a[0] for x in fv(g1)): continue
                if any(x.op == 'out' and self.inside(x.a[0], b_.a[0]) for x in fv(g1)): continue
                g2 = subst(g, {C: init, b_: ixt})
                self.st = entry
                m = {}
                todo, seen = [g2], set()
                while todo:
                    x = todo.pop()
                    if x in seen: continue
                    seen.add(x)
                    if x.op == 'deref': m[x] = self.rootval(('h', x.a[0]))
                    todo += [y for y in x.a if isinstance(y, T)]
                g2 = subst(g2, {k: v for k, v in m.items() if k is not v})
                if isq: v = fm(ixt, ZERO, size(init), not_(g2), mk('seq', idx(init, ixt)))
                else:
                    hh, gg = close(ixt, not_(g2))
                    v = ty(mk('mfilt', hh, ZERO, size(init), init, gg), TY.get(C) or TY.get(init))
                return (pi, pc, init, v, mk('it', ni.a[0], size(v)))
        return None

    def inside(self, uid, outer):
        while uid in LOOPS:
            uid = LOOPS[uid].parent
            if uid == outer: return True
        return False

    def rangeval(self, rv, ixt, entry):
        t = rv[3]
        return mk('it', t.a[0], ixt) if t.op == 'it' else ixt

    def rangeexit(self, rv, entry, brkg, E, uid, d):
        t = rv[3]
        v = max_(rv[1], rv[2]) if rv[1] is not ZERO else rv[2]
        if brkg is not FALSE:
            if E.op == 'exists':
                v = ite(E, mk('findidx', *E.a), v)
            else:
                v = ty(mk('out', uid, d['name']), 'unsigned long')
        return mk('it', t.a[0], v) if t.op == 'it' else v

    def summarise(self, L, p, d, lo, hi, ixt, lvset, brkg, E, retg):
        init, lv, nxt = d['init'], d['lv'], d['next']
        uid = L.uid
        if lv.op == 'it':
            # an iterator moved by the body
            isame = nxt.op == 'it' and nxt.a[0] is lv.a[0]
            return mk('it', lv.a[0], ty(mk('out', uid, d['name']), 'unsigned long'))
        def out():
            if lv in SHAPE: SHAPE[mk('out', uid, d['name'])] = SHAPE[lv]
            return ty(mk('out', uid, d['name']), TY.get(lv) or TY.get(init) or ('bool' if isbool(init) else None))
        stype = TY.get(lv)
        v = None
        if lo is not None:
            nb = set(lvset)
            free = lambda t: not (fv(t) & nb)
            if nxt is lv: v = init
            elif lv in SHAPE and brkg is FALSE and retg is FALSE:
                import stdlib
                v = stdlib.matloop(init, lv, nxt, ixt, lo, hi, nb - {lv})
            else:
                sp = seqparts(nxt)
                if sp and sp[0] is lv and all(free(x) for x in sp[1:]):
                    v = cat(init, fm(ixt, lo, hi, TRUE, cat(*sp[1:])))
                elif nxt.op == 'ite' and nxt.a[2] is lv and free(nxt.a[0]) and free(nxt.a[1]):
                    g, x = nxt.a[0], nxt.a[1]
                    if ixt not in fv(x): v = ite(exists(ixt, lo, hi, g), x, init)
                    else:
                        h, g2, x2 = close(ixt, g, x)
                        v = ite(exists(ixt, lo, hi, g), ty(mk('lastwhere', h, lo, hi, g2, x2), TY.get(lv)), init)
                elif nxt.op == 'ite' and nxt.a[1] is lv and free(nxt.a[0]) and free(nxt.a[2]):
                    g, x = not_(nxt.a[0]), nxt.a[2]
                    if ixt not in fv(x): v = ite(exists(ixt, lo, hi, g), x, init)
                elif free(nxt) and isbool(nxt) is False and ixt not in fv(nxt):
                    v = ite(lt(lo, hi), nxt, init)
                elif nxt.op == 'or' and lv in nxt.a and free(or_(*[x for x in nxt.a if x is not lv])):
                    v = or_(init, exists(ixt, lo, hi, or_(*[x for x in nxt.a if x is not lv])))
                elif nxt.op == 'and' and lv in nxt.a and free(and_(*[x for x in nxt.a if x is not lv])):
                    v = and_(init, not_(exists(ixt, lo, hi, not_(and_(*[x for x in nxt.a if x is not lv])))))
                elif nxt.op == 'max' and lv in nxt.a and free(max_(*[x for x in nxt.a if x is not lv])):
                    h, e = close(ixt, max_(*[x for x in nxt.a if x is not lv]))
                    v = max_(init, ty(mk('maxover', h, lo, hi, e), TY.get(lv)))
                elif nxt.op == 'min' and lv in nxt.a and free(min_(*[x for x in nxt.a if x is not lv])):
                    h, e = close(ixt, min_(*[x for x in nxt.a if x is not lv]))
                    v = min_(init, ty(mk('minover', h, lo, hi, e), TY.get(lv)))
                elif nxt.op == 'lin' and lin_parts(nxt)[1].get(lv) == 1 and free(sub(nxt, lv)):
                    e = sub(nxt, lv)
                    if ixt not in fv(e): v = add(init, mul(sub(hi, lo), e))
                    else:
                        h, e = close(ixt, e)
                        v = add(init, mk('sumover', h, lo, hi, e))
                elif nxt.op == 'upd' and nxt.a[0] is lv and free(nxt.a[1]) and free(nxt.a[2]):
                    h, k, x = close(ixt, nxt.a[1], nxt.a[2])
                    v = ty(mk('updall', h, lo, hi, k, x, init), TY.get(lv) or TY.get(init))
                elif nxt.op == 'mupd' and nxt.a[0] is lv and free(nxt.a[1]) and free(nxt.a[2]):
                    h, g, k, x = close(ixt, TRUE, nxt.a[1], nxt.a[2])
                    v = ty(mk('mfm', h, lo, hi, init, g, k, x), TY.get(lv) or TY.get(init))
                elif nxt.op == 'sadd' and nxt.a[0] is lv and free(nxt.a[1]):
                    h, g, k = close(ixt, TRUE, nxt.a[1])
                    v = ty(mk('sfm', h, lo, hi, init, g, k), TY.get(lv) or TY.get(init))
                elif nxt.op == 'ite' and nxt.a[2] is lv and nxt.a[1].op in ('sadd', 'mupd') and nxt.a[1].a[0] is lv and free(nxt.a[0]) and all(free(x) for x in nxt.a[1].a[1:]):
                    o = nxt.a[1]
                    if o.op == 'sadd':
                        h, g, k = close(ixt, nxt.a[0], o.a[1])
                        v = ty(mk('sfm', h, lo, hi, init, g, k), TY.get(lv) or TY.get(init))
                    else:
                        h, g, k, x = close(ixt, nxt.a[0], o.a[1], o.a[2])
                        v = ty(mk('mfm', h, lo, hi, init, g, k, x), TY.get(lv) or TY.get(init))
            if v is None: v = out()
            if brkg is not FALSE or retg is not FALSE:
                if v is init and all(x is lv for _, x in d['brk']): return init
                bvs = [x for g, x in d['brk']]
                if E is not FALSE and bvs and E.op != 'out' :
                    const = [x for x in bvs]
                    if all(not (fv(x) & (nb | {ixt})) for x in bvs) and all(x is bvs[0] for x in bvs):
                        return ite(E, bvs[0], v)
                    if all(not (fv(x) & nb) for x in bvs) and len(bvs) == 1 and v is init:
                        g = d['brk'][0][0]
                        h, g2, x2 = close(ixt, g, bvs[0])
                        return ite(E, ty(mk('firstwhere', h, lo, hi, g2, x2), TY.get(lv)), v)
                    return ite(E, out(), v)
                if E.op == 'out' or E is FALSE and bvs: return out()
            return v
        # no range: keep as loop equation
        if nxt is lv and all(x is lv for _, x in d['brk']): return init
        return out()

    # ------------------------------------------------------------ expressions
    def site(self, e):
        k = (self.callpath, id(e))
        n = self.sites.get(k)
        if n is None: n = self.sites[k] = fresh()
        return n

    def ev(self, e, discard=False, lvroot=None):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note(e, 'expression ' + k)
            return ty(mk('opaque', self.site(e)), e.get('t'))
        r = m(e)
        if isinstance(r, LV): r = self.load(r, e.get('t'))
        if r is None: r = NONE
        return r

    def evl(self, e):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note(e, 'expression ' + k)
            return self.temp(ty(mk('opaque', self.site(e)), e.get('t')), e.get('t'))
        r = m(e)
        if isinstance(r, LV): return r
        if r is None: r = NONE
        return self.temp(r, e.get('t'))

    def e_int(self, e): return num(int(e['v']))
    def e_char(self, e): return num(int(e['v']))
    def e_bool(self, e): return b(e['v'])
    def e_float(self, e): return num(float(e['v']))
    def e_str(self, e): return mk('str', e['v'])
    def e_null(self, e): return NULL
    def e_this(self, e): return self.addr(self.frame.this)
    def e_enum(self, e):
        return ty(mk('enumc', e['q']), e.get('t'))
    def e_fref(self, e): return mk('fn', e.get('f'), e.get('q'))
    def e_zeroinit(self, e): return self.dflt(e.get('t'))

    def dflt(self, t):
        t = clean(t)
        if isseq(t):
            return ty(EMPTY, None)
        if ismap(t): return EMPTYMAP
        if isset(t): return EMPTYMAP
        if t.endswith('*') or isptrcls(t): return NULL
        if t == 'bool': return FALSE
        if t in ('int', 'double', 'float', 'char', 'unsigned char', 'unsigned int', 'long', 'unsigned long', 'short', 'size_t', 'signed char'): return ZERO
        if t.startswith('std::pair<'):
            return rec(NONE, {'first': self.dflt(targ(t, 0)), 'second': self.dflt(targ(t, 1))})
        if isstr(t): return mk('str', '')
        return ty(mk('dflt', t), t)

    def e_ref(self, e):
        d = e['d']
        lv = self.frame.env.get(d)
        if lv is not None: return lv
        g = self.P.dglobals.get(d)
        q = (g or {}).get('q') or e.get('q') or e['n']
        r = ('g', q)
        self.roott[r] = e.get('t')
        if g and g.get('const') and g.get('init') is not None and r not in self.st.store:
            try:
                v = self.ev(g['init'])
                if not hassym(v): self.st.store[r] = v
            except Unsupported: pass
        return LV(r)

    def e_mem(self, e):
        if e.get('arrow'):
            r = self.deref(self.ev(e['b'])) + ('f', e['n'])
        else:
            r = self.evl(e['b']) + ('f', e['n'])
        if e.get('t'): PATHTY[r.key()] = e['t']
        if e.get('union') and self.kinds is not None:
            cls = (e.get('rc') or '').split('::(')[0]
            if cls in KINDS and e['n'] in KINDS[cls][1]: self.unionuse(e, LV(r.root, r.steps[:-1]), cls, e['n'], self.umode)
        return r

    def e_cast(self, e):
        c = e.get('c')
        x = e['e']
        if c == 'StdBase':
            bt = e.get('bt') or ''
            if not (isseq(bt) or ismap(bt) or isset(bt)): return self.evl_or_v(x)
            if e.get('ptr'): return self.addr(self.deref(self.ev(x)) + ('f', '$base'))
            r = self.evl(x) + ('f', '$base')
            PATHTY[r.key()] = bt
            return r
        r = self.ev(x) if c not in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') else None
        if r is None:
            q = self.evl_or_v(x)
            return q
        if c in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return truth(r)
        if c == 'FloatingToIntegral':
            if r.op == 'num' and r.a[0].denominator == 1: return r
            return ty(mk('trunc', r), e.get('t'))
        if c == 'NullToPointer': return NULL
        if c in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            if isbool(r) and clean(e.get('t')) != 'bool':
                return ite(r, ONE, ZERO)
            return r
        if c == 'ToVoid': return NONE
        return r

    def evl_or_v(self, x):
        k = x['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note(x, 'expression ' + k)
            return ty(mk('opaque', self.site(x)), x.get('t'))
        return m(x)

    def e_un(self, e):
        op = e['op']
        x = e['e']
        if op == '*':
            return self.deref(self.ev(x))
        if op == '&':
            if x['k'] == 'fref': return self.ev(x)
            return self.addr(self.evl(x))
        if op == '!': return not_(truth(self.ev(x)))
        if op == '-': return neg(self.ev(x))
        if op == '+': return self.ev(x)
        if op in ('++', '--'):
            lv = self.evl(x)
            old = self.load(lv, x.get('t'))
            new = self.step(old, ONE if op == '++' else num(-1))
            self.put(lv, new)
            return old if e.get('post') else lv
        return ty(mk('un' + op, self.ev(x)), e.get('t'))

    def step(self, v, n):
        if v.op == 'it': return mk('it', v.a[0], add(v.a[1], n))
        if v.op == 'ite': return ite(v.a[0], self.step(v.a[1], n), self.step(v.a[2], n))
        return add(v, n)

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'][0], discard=True); return self.evl_or_v(e['a'][1])
        if op in ('&&', '||'):
            x = truth(self.ev(e['a'][0]))
            if op == '&&':
                return self.branch(x, lambda: truth(self.ev(e['a'][1])), lambda: FALSE)
            return self.branch(x, lambda: TRUE, lambda: truth(self.ev(e['a'][1])))
        x = self.ev(e['a'][0]); y = self.ev(e['a'][1])
        return self.binop(op, x, y, e)

    def binop(self, op, x, y, e):
        t = e.get('t')
        if x.op == 'it' or y.op == 'it':
            if op in ('==', '!='):
                r = self.iteq(x, y)
                return r if op == '==' else not_(r)
            if op == '+': return self.step(x, y) if x.op == 'it' else self.step(y, x)
            if op == '-':
                if y.op == 'it' and x.op == 'it' and x.a[0] is y.a[0]: return sub(x.a[1], y.a[1])
                if x.op == 'it': return self.step(x, neg(y))
            if op in ('<', '<=', '>', '>=') and x.op == 'it' and y.op == 'it': x, y = x.a[1], y.a[1]
        if op == '==': return eq(x, y)
        if op == '!=': return ne(x, y)
        if op == '<': return lt(x, y)
        if op == '>': return lt(y, x)
        if op == '<=': return le(x, y)
        if op == '>=': return le(y, x)
        if op in ('|', '&') and clean(t) == 'bool' or (op in ('|', '&') and isbool(x) and isbool(y)):
            return or_(truth(x), truth(y)) if op == '|' else and_(truth(x), truth(y))
        if op == '+': return ty_if(add(self.n(x), self.n(y)), t)
        if op == '-': return ty_if(sub(self.n(x), self.n(y)), t)
        if op == '*': return ty_if(mul(self.n(x), self.n(y)), t)
        if op == '/' and x.op == 'num' and y.op == 'num' and y.a[0] != 0 and t in ('double', 'float'): return mul(x, num(Fraction(1) / y.a[0]))
        return ty(mk('bin' + op, x, y), t)

    def n(self, x):
        if isbool(x): return ite(x, ONE, ZERO)
        return x

    def iteq(self, x, y):
        if x.op == 'ite': return ite(x.a[0], self.iteq(x.a[1], y), self.iteq(x.a[2], y))
        if y.op == 'ite': return ite(y.a[0], self.iteq(x, y.a[1]), self.iteq(x, y.a[2]))
        if x.op == 'it' and y.op == 'it' and x.a[0] is y.a[0]:
            i, j = x.a[1], y.a[1]
            if i.op == 'key' or j.op == 'key':
                if i.op == 'key' and j.op == 'key': return eq(i.a[0], j.a[0])
                k = i if i.op == 'key' else j
                o = j if i.op == 'key' else i
                m = self.load(Interp.itconts[x.a[0]])
                if o is size(m) or o.op == 'size': return not_(has(m, k.a[0]))
            if i.op == 'findidx' or j.op == 'findidx':
                f = i if i.op == 'findidx' else j
                o = j if i.op == 'findidx' else i
                if o is f.a[2]: return not_(exists_raw(*f.a))
            return eq(i, j)
        return eq(x, y)

    def e_assign(self, e):
        op = e.get('op', '=')
        if op == '=':
            lhs, rhs = e['a']
            v = self.ev(rhs)
            lv = self.evl(lhs)
            self.put(lv, v)
            return lv
        return self.e_cassign(e)

    def e_cassign(self, e):
        lhs, rhs = e['a']
        y = self.ev(rhs)
        lv = self.evl(lhs)
        x = self.load(lv, lhs.get('t'))
        op = e['op'].rstrip('=')
        t = lhs.get('t')
        if op in ('|', '&') and clean(t) == 'bool':
            v = or_(truth(x), truth(y)) if op == '|' else and_(truth(x), truth(y))
        else: v = self.binop(op, x, y, {'t': t, 'k': 'bin'})
        self.put(lv, v)
        return lv

    def e_cond(self, e):
        c = truth(self.ev(e['c']))
        return self.branch(c, lambda: self.evl_or_v2(e['a'][0]), lambda: self.evl_or_v2(e['a'][1]))

    def evl_or_v2(self, x):
        r = self.evl_or_v(x)
        if isinstance(r, LV): r = self.load(r, x.get('t'))
        return r if r is not None else NONE

    def e_sub(self, e):
        bse = self.ev(e['a'][0]) if e['a'][0].get('t', '').endswith('*') else None
        i = self.ev(e['a'][1])
        if bse is not None:
            return self.deref(bse) + ('i', i)
        return self.evl(e['a'][0]) + ('i', i)

    def e_stmtexpr(self, e): raise Unsupported('statement expression')
    def e_other(self, e):
        self.note(e, 'expression %s' % e.get('cls'))
        for c in e.get('ch', []): self.ev(c)
        return ty(mk('opaque', self.site(e)), e.get('t'))
    def e_pdtor(self, e): return NONE
    def e_delete(self, e): self.ev(e['e']) if e.get('e') else None; return NONE
    def e_throw(self, e):
        v = self.ev(e['e']) if e.get('e') else NONE
        self.effect('throw', 'throw', [mk('exc', clean((e.get('e') or {}).get('t')))], e)
        self.st = State(self.st.store, FALSE)
        return NONE

    def e_lambda(self, e):
        n = self.site(e)
        key = ('lam', n) + tuple(self.ixs)
        t = mk('lam', n, *self.ixs)
        env = dict(self.frame.env)
        # by-copy captures are frozen
        for c in e.get('caps') or []:
            if c.get('byref') or c.get('this'): continue
            d = c.get('d')
            if d in env and not c.get('init'):
                r = self.newroot(c.get('n') or 'cap'); self.st.store[r] = self.load(env[d])
                env[d] = LV(r)
            elif c.get('init') is not None and d is not None:
                r = self.newroot(c.get('n') or 'cap'); self.st.store[r] = self.ev(c['init'])
                env[d] = LV(r)
        self.lams[t] = (e, env, self.frame.this)
        return t

    def e_new(self, e):
        at_ = e.get('place') or []
        v = self.ev(e['init']) if e.get('init') else self.dflt(e.get('at') or e.get('t'))
        if at_ and at_[0] is not None:
            self.umode = 'start'
            p = self.ev(at_[0] if isinstance(at_, list) else at_)
            self.umode = 'read'
            self.put(self.deref(p), v)
            return p
        p = ty(mk('new', self.site(e), *self.ixs), e.get('t'))
        self.st.store[('h', p)] = v
        return p

    def e_initlist(self, e):
        t = clean(e.get('t'))
        a = e.get('a', [])
        if e.get('std') and len(a) == 1 and a[0].get('k') == 'initlist' and clean(a[0].get('t')).rstrip().endswith(']'): a = a[0].get('a', [])
        vals = [self.ev(x) for x in a]
        if e.get('fields'):
            return rec(NONE, dict(zip(e['fields'], vals)))
        if t.startswith('std::initializer_list') or isseq(t) or e.get('std'):
            return mk('seq', *vals)
        if len(vals) == 1 and not t.startswith('std::'): return vals[0]
        return mk('seq', *vals)

    # ---------------------------------------------------------------- calls
    import_done = False

    def bindargs(self, fn, args, env):
        """args: list of expressions or LV/T"""
        for n, p in enumerate(fn['ps']):
            a = args[n] if n < len(args) else None
            if a is None:
                if p.get('dflt') is not None: a = p['dflt']
                else:
                    env[p['d']] = self.temp(ty(mk('undef', p['n']), p.get('t')), p.get('t')); continue
            if p.get('ref') or p.get('rref'):
                if isinstance(a, dict):
                    a = self.evl(a)
                if isinstance(a, T): a = self.temp(a, p.get('t'))
                env[p['d']] = a
            else:
                if isinstance(a, dict): a = self.ev(a)
                if isinstance(a, LV): a = self.load(a, p.get('t'))
                r = self.newroot(p['n'], p.get('t'))
                self.st.store[r] = a
                env[p['d']] = LV(r)

    def callfn(self, fn, args, this, e, env0=None):
        """inline a function with a body"""
        env = dict(env0) if env0 else {}
        self.bindargs(fn, args, env)
        return self.enter(fn, env, this, e)

    def enter(self, fn, env, this, e):
        fr = Frame(fn, env, this)
        outer = self.frame, self.st.live, self.callpath
        self.callpath = self.callpath + (id(e),)
        self.ctx.append(self.st.live)
        self.frame = fr
        self.frs.append(fr)
        self.stack.append(fn['f'])
        st = self.st
        st.live = TRUE
        try:
            if fn.get('isctor'): self.ctorinits(fn, this, e)
            if fn.get('body'): self.run(fn['body'])
        finally:
            self.stack.pop(); self.frs.pop()
            self.frame, live0, self.callpath = outer
            self.ctx.pop()
        rets = [(g, s, v) for g, s, v, _ in fr.rets if g is not FALSE]
        outs = rets
        if self.st.live is not FALSE: outs = rets + [(self.st.live, self.st, None)]
        if not outs:
            self.st = State(self.st.store, FALSE)
            return NONE
        val = None
        cur = State(outs[-1][1].store, outs[-1][0]); val = outs[-1][2]
        for g, s, v in reversed(outs[:-1]):
            if val is None: val = v
            elif v is not None:
                if isinstance(v, LV) and isinstance(val, LV) and v.key() == val.key(): pass
                else:
                    sv = self.st
                    if isinstance(v, LV) and isinstance(val, LV):
                        val = self.deref(ite(g, self.addr(v), self.addr(val)))
                    else:
                        val = ite(g, v, val)
                    self.st = sv
            cur = self.join(g, State(s.store, g), cur)
        self.st = cur
        self.st.live = and_(live0, cur.live)
        return val if val is not None else NONE

    def ctorinits(self, fn, this, e):
        cls = fn.get('clst') or fn.get('cls')
        if self.kinds is not None and cls in KINDS: self.st.store[('k', this.root, this.steps, cls)] = mk('str', '-')
        for i in fn.get('inits') or []:
            if i.get('delegating'):
                self.put(this, self.ev(i['e'])); continue
            if i.get('base'):
                v = self.ev(i['e'])
                if isseq(i['base']) or ismap(i['base']) or isset(i['base']):
                    self.put(this + ('f', '$base'), v); continue
                if v is not NONE and v.op == 'rec':
                    for f, x in zip(v.a[1::2], v.a[2::2]): self.put(this + ('f', f), x)
                continue
            if i.get('e') is None: continue
            v = self.ev(i['e'])
            self.put(this + ('f', i['n']), v)
            if self.kinds is not None and cls in KINDS and i['n'] in KINDS[cls][1]: self.st.store[('k', this.root, this.steps, cls)] = mk('str', i['n'])

    def isopaque(self, fn, q):
        return bool(self.opaque and self.opaque(fn, q))

    def e_call(self, e):
        q = e.get('q') or ''
        if q.startswith('boost::program_options::'):
            import progopt
            r = progopt.call(self, e, q)
            if r is not None: return r
        import stdlib
        fn = self.P.functions.get(e.get('f'))
        if fn is None and q in self.P.byname and not q.startswith('std::'):
            c = [x for x in self.P.byname[q] if len(x['ps']) == len(e['a']) and x.get('body')]
            if len(c) == 1: fn = c[0]
        if fn is not None and fn.get('body') and not self.isopaque(fn, q) and fn['f'] not in self.stack and len(self.stack) < self.maxdepth:
            return self.callfn(fn, e['a'], None, e)
        r = stdlib.call(self, e, q)
        if r is not None: return r
        return self.opaquecall(e, q, None, e['a'], e.get('pk') or [], fn)

    def opaquecall(self, e, q, olv, args, pk, fn, const=False, head=()):
        vals = list(head)
        outs = []
        for n, a in enumerate(args):
            k = pk[n] if n < len(pk) else 0
            if k == 2:
                lv = self.evl(a); vals.append(self.load(lv, a.get('t'))); outs.append((len(vals) - 1 - len(head), lv))
            elif k in (4,):
                v = self.ev(a)
                vals.append(v)
                if v.op not in ('null', 'str', 'fn'):
                    # what the pointer leads to is read and may be changed
                    lv = self.deref(v)
                    if v.op == 'ite': continue
                    vals.append(self.load(lv))
                    outs.append((len(vals) - 1 - len(head), lv))
            else: vals.append(self.ev(a))
        t = e.get('t')
        qn = q
        if olv is not None:
            o = self.load(olv)
            if self.pure and self.pure(qn): return ty(mk('call', qn, o, *vals), t)
            if self.keeps and self.keeps(qn):
                self.effect(qn, olvname(self, olv), [o] + vals, e)
                return ty(mk('call', qn, o, *vals), t)
            if const:
                r = ty(mk('call', qn, o, *vals), t)
                self.effect(qn, 'call', [o] + vals, e)
                for n, lv in outs: self.put(lv, ty(mk('outarg', qn, num(n + 1), o, *vals), TY.get(vals[n])))
                return r
            r = ty(mk('call', qn, o, *vals), t)
            self.effect(qn, olvname(self, olv), [o] + vals, e)
            self.put(olv, ty(mk('after', qn, o, *vals), TY.get(o)))
            for n, lv in outs: self.put(lv, ty(mk('outarg', qn, num(n + 1), o, *vals), TY.get(vals[n])))
            return r
        if self.mainframe and q in ('exit', 'std::exit') and not any(f.loops for f in self.frs):
            # ending the program is returning from main
            self.mainframe.rets.append((and_(*self.ctx, self.st.live), self.st, vals[0], 0))
            self.st = State(self.st.store, FALSE)
            return NONE
        self.effect(qn, 'call', vals, e)
        for n, lv in outs:
            self.put(lv, ty(mk('outarg', qn, num(n), *vals), TY.get(vals[n + len(head)])))
        self.maythrow(qn, *vals)
        if fn is None and q in ('exit', 'abort', 'std::exit', 'std::abort', 'std::terminate', '_exit', 'std::quick_exit'):
            self.st = State(self.st.store, FALSE)
            return NONE
        if q.split('::')[-1] in ('operator<<', 'operator>>') and outs and outs[0][0] == 0 and 'stream' in (t or ''):
            return outs[0][1]                      # by convention the stream itself
        return ty(mk('call', qn, *vals), t)

    def e_mcall(self, e):
        import stdlib
        q = e.get('q') or ''
        if q.startswith('boost::program_options::'):
            import progopt
            r = progopt.mcall(self, e, q)
            if r is not None: return r
        oo = e['o']
        while oo.get('k') == 'cast' and 'variables_map' not in (oo.get('t') or ''): oo = oo['e']
        if e.get('m') in ('count', 'contains') and 'program_options::variables_map' in (oo.get('t') or ''):
            import progopt
            r = progopt.vmapcall(self, e, oo)
            if r is not None: return r
        uo = e['o'] if self.kinds is not None else {}
        while uo.get('k') == 'cast': uo = uo['e']
        if uo.get('union') and ((e.get('m') or '').startswith('~') or e.get('m') == 'reset' and not e['a']):
            self.umode = 'end'
            o = self.evl(uo)
            self.umode = 'read'
            if (e.get('m') or '').startswith('~'): return NONE
            self.put(o, NULL)
            return NONE
        fn = self.P.functions.get(e.get('f'))
        if fn is not None and fn.get('body') and not self.isopaque(fn, q) and fn['f'] not in self.stack and len(self.stack) < self.maxdepth:
            if fn.get('static'): return self.callfn(fn, e['a'], None, e)
            this = self.deref(self.ev(e['o'])) if e.get('arrow') else self.evl(e['o'])
            return self.callfn(fn, e['a'], this, e)
        if fn is None or not fn.get('body') or True:
            r = stdlib.mcall(self, e, q) if not (fn is not None and fn.get('body')) else None
            if r is not None: return r
        this = self.deref(self.ev(e['o'])) if e.get('arrow') else self.evl(e['o'])
        return self.opaquecall(e, q, this, e['a'], e.get('pk') or [], fn, const=bool(e.get('mconst')))

    def e_ocall(self, e):
        import stdlib
        q = e.get('q') or ''
        if q.startswith('boost::program_options::'):
            import progopt
            r = progopt.ocall(self, e, q)
            if r is not None: return r
        fn = self.P.functions.get(e.get('f'))
        if fn is not None and fn.get('lambda') and e['op'] == '()':
            lt_ = self.ev(e['a'][0])
            return self.calllam(lt_, e['a'][1:], e)
        if fn is not None and fn.get('body') and not self.isopaque(fn, q) and fn['f'] not in self.stack and len(self.stack) < self.maxdepth:
            if e.get('mem'):
                this = self.evl(e['a'][0])
                return self.callfn(fn, e['a'][1:], this, e)
            return self.callfn(fn, e['a'], None, e)
        if not (fn is not None and fn.get('body')):
            r = stdlib.ocall(self, e, q)
            if r is not None: return r
        if e.get('mem'):
            this = self.evl(e['a'][0])
            return self.opaquecall(e, q, this, e['a'][1:], e.get('pk') or [], fn, const=bool(e.get('mconst')))
        return self.opaquecall(e, q, None, e['a'], e.get('pk') or [], fn)

    def calllam(self, t, args, e):
        """call a function value"""
        if t.op == 'lam' and t in self.lams:
            le, env, this = self.lams[t]
            fns = [self.P.functions[f] for f in (le.get('insts') or [le.get('f')]) if f in self.P.functions]
            fn = fns[0] if fns else None
            if fn is None and le.get('f') in self.P.functions: fn = self.P.functions[le['f']]
            if fn is None: raise Unsupported('lambda body')
            if len(fns) > 1 and e is not None and e.get('f') in self.P.functions: fn = self.P.functions[e['f']]
            if fn['f'] in self.stack: raise Unsupported('recursive lambda')
            return self.callfn(fn, args, this, e or le, env0=env)
        if t.op == 'fn':
            fn = self.P.functions.get(t.a[0])
            if fn and fn.get('body'): return self.callfn(fn, args, None, e)
        if t.op == 'memfn':
            obj = args[0]
            lv = obj if isinstance(obj, LV) else self.temp(obj)
            return lv + ('f', t.a[0])
        vals = [a if isinstance(a, T) else self.load(a) if isinstance(a, LV) else self.ev(a) for a in args]
        return mk('apply', t, *vals)

    def e_icall(self, e):
        return self.icall(self.ev(e['fn']), e)

    def icall(self, f, e):
        if f.op == 'ite':
            return self.branch(f.a[0], lambda: self.icallv(f.a[1], e), lambda: self.icallv(f.a[2], e))
        if f.op in ('lam', 'memfn'): return self.calllam(f, e['a'], e)
        if f.op == 'fn':
            fn = self.P.functions.get(f.a[0])
            q = f.a[1] or ''
            if fn is not None and fn.get('body') and not self.isopaque(fn, q) and fn['f'] not in self.stack and len(self.stack) < self.maxdepth:
                return self.callfn(fn, e['a'], None, e)
            return self.opaquecall(e, q, None, e['a'], e.get('pk') or [], fn)
        # an unknown function: the pointer is part of what is called
        return self.opaquecall(e, '(*)', None, e['a'], e.get('pk') or [], None, head=[f])

    def icallv(self, f, e):
        r = self.icall(f, e)
        return self.load(r, e.get('t')) if isinstance(r, LV) else r

    def e_ctor(self, e):
        import stdlib
        q = e.get('q') or ''
        if q.startswith('boost::program_options::'):
            import progopt
            r = progopt.ctor(self, e, q)
            if r is not None: return r
        t = e.get('t')
        if e.get('copy') or e.get('move'):
            if len(e['a']) >= 1:
                fn = self.P.functions.get(e.get('f'))
                if fn is None or not fn.get('body') or fn.get('implicit') or e.get('implicit') or True:
                    if fn is not None and fn.get('body') and fn.get('inits') is not None and not fn.get('defaulted') and (fn['body'].get('b') or any(True for _ in fn.get('inits') or [])):
                        pass
                    else:
                        v = self.ev(e['a'][0])
                        if e.get('move'): stdlib.movedfrom(self, e['a'][0], None)
                        return v
        fn = self.P.functions.get(e.get('f'))
        if fn is not None and fn.get('isctor') and (fn.get('body') is not None or fn.get('inits')) and not self.isopaque(fn, q) and fn['f'] not in self.stack:
            r = self.newroot('tmp', t)
            self.st.store[r] = ty(mk('rec', NONE), t)
            env = {}
            self.bindargs(fn, e['a'], env)
            self.enter(fn, env, LV(r), e)
            v = self.rootval(r)
            return v
        r = stdlib.ctor(self, e, q)
        if r is not None: return r
        # defaulted constructors: aggregate copy or default members
        if (e.get('copy') or e.get('move')) and e['a']: return self.ev(e['a'][0])
        recd = self.P.records.get(clean(t))
        if not e['a'] and recd is not None:
            d = {}
            for f in recd.get('fields', []):
                if f.get('init') is not None: d[f['n']] = self.ev(f['init'])
                elif e.get('zero'): d[f['n']] = self.dflt(f.get('t'))
                else:
                    ft = clean(f.get('t'))
                    d[f['n']] = self.dflt(f.get('t')) if (ft.startswith(('std::', 'boost::'))) else ty(mk('undef', f['n']), f.get('t'))
            return rec(NONE, d)
        vals = [self.ev(a) for a in e['a']]
        self.effect(q, 'ctor', vals, e)
        return ty(mk('call', q, *vals), t)


def olvname(I, lv):
    n = 'arg%d' % lv.root[1] if lv.root[0] == 'p' else I.rootname.get(lv.root) or str(lv.root[1])
    return n + ''.join('.' + str(s[1]) for s in lv.steps)


def ty_if(t, s):
    if t.op in ('lin', 'mul') and s: ty(t, s)
    return t


def hassym(t):
    if t.op in ('sym', 'undef', 'deref', 'call', 'opaque', 'lv', 'ix', 'out', 'fld'): return True
    return any(hassym(x) for x in t.a if isinstance(x, T))


def match(pat, t):
    """substitution of loop indices making pat equal to t"""
    m = {}
    def go(p, q):
        if p is q: return True
        if p.op == 'ix':
            if p in m: return m[p] is q
            m[p] = q; return True
        if p.op != q.op or len(p.a) != len(q.a): return False
        if not any(x.op == 'ix' for x in fv(p)): return False
        for x, y in zip(p.a, q.a):
            if isinstance(x, T):
                if not isinstance(y, T) or not go(x, y): return False
            elif x != y: return False
        return True
    if not any(x.op == 'ix' for x in fv(pat)): return None
    return m if go(pat, t) and m else None


def freshfields(P, I, t):
    d = {}
    recd = P.records.get(t) or {}
    for bt in recd.get('bases') or []:
        bt = clean(bt)
        if isseq(bt) or ismap(bt) or isset(bt): d['$base'] = I.dflt(bt)
        elif bt in P.records: d.update(freshfields(P, I, bt))
    for f in recd.get('fields') or []:
        ft = clean(f.get('t'))
        if ft.startswith('std::'): d[f['n']] = I.dflt(f.get('t'))
        elif ft in P.records: d[f['n']] = ty(rec(NONE, freshfields(P, I, ft)), ft)
    return d


class Summary:
    pass


def summarise_function(P, fn, opaque, names=None, maxdepth=12, fresh_self=False, pure=None, keeps=None, kinds=False):
    """run one function on symbolic inputs"""
    I = Interp(P, opaque, maxdepth=maxdepth, pure=pure, keeps=keeps)
    if kinds: I.kinds = []
    env = {}
    this = None
    S = Summary()
    S.params = []
    if fn.get('cls') and not fn.get('static') and not fn.get('lambda'):
        p = ty(mk('sym', 'this', fn.get('clst', fn['cls'])), fn.get('clst', fn['cls']) + ' *')
        this = LV(('h', p))
        if fn.get('isctor'):
            I.st.store[('h', p)] = ty(mk('rec', NONE), fn.get('clst'))
    off = 0
    for n, p in enumerate(fn['ps']):
        if p['n'] == 'self' and n == 0:
            # a reference definition written as a free function: the first parameter is the object
            sp = ty(mk('sym', 'this', clean(p.get('t'))), clean(p.get('t')) + ' *')
            env[p['d']] = LV(('h', sp)); off = 1
            if fresh_self:
                # the reference of a constructor: the object does not exist before
                d = freshfields(P, I, clean(p.get('t')))
                I.st.store[('h', sp)] = ty(rec(NONE, d), clean(p.get('t')))
            continue
        n -= off
        r = ('p', n)
        I.rootname[r] = p['n'] or 'arg%d' % n
        I.roott[r] = p.get('t')
        nm = names[n] if names else 'arg%d' % n
        I.st.store[r] = ty(mk('sym', nm, clean(p.get('t'))), clean(p.get('t')))
        env[p['d']] = LV(r)
        S.params.append((nm, p))
    fr = Frame(fn, env, this)
    I.frame = fr
    I.frs = [fr]
    if fn['q'] == 'main' or fn['q'].startswith('spec::main'): I.mainframe = fr
    I.stack.append(fn['f'])
    st0 = dict(I.st.store)
    if fn.get('isctor'): I.ctorinits(fn, this, fn)
    if fn.get('body'): I.run(fn['body'])
    outs = [(g, s, v) for g, s, v, _ in fr.rets if g is not FALSE]
    if I.st.live is not FALSE: outs.append((I.st.live, I.st, None))
    S.entry = st0
    S.I = I
    S.effects = I.eff
    S.fn = fn
    S.outs = outs
    if outs:
        cur = State(outs[-1][1].store, outs[-1][0]); val = outs[-1][2]
        if isinstance(val, LV):
            I.st = outs[-1][1]; val = I.load(val)
        for g, s, v in reversed(outs[:-1]):
            if isinstance(v, LV):
                I.st = s; v = I.load(v)
            if val is None: val = v
            elif v is not None: val = ite(g, v, val)
            cur = I.join(g, State(s.store, g), cur)
        S.store, S.live, S.ret = cur.store, cur.live, val
    else:
        S.store, S.live, S.ret = I.st.store, FALSE, None
    if kinds:
        I.ctx = []; I.st = State(S.store, S.live)
        if not fn.get('isdtor') and S.live is not FALSE:
            for r in [r for r in S.store if r[0] == 'k' and r[1][0] in 'hp']:
                tag = getf(I.load(LV(r[1], r[2])), KINDS[r[3]][0])
                for f, ks in KINDS[r[3]][1].items():
                    has = or_(*[eq(tag, mk('enumc', '%s::op::%s' % (r[3], k))) for k in ks])
                    al = I.alivecond(S.store[r], r[3], f)
                    I.kinds.append(('left', f, r[3], fn['l'], S.live, or_(and_(has, al), and_(not_(has), not_(al))), S.store[r]))
        S.kinds = I.kinds
    S.notes = I.notes
    S.statinit = I.statinit
    return S
