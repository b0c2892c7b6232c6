import re, time, sys, copy
from terms import mk, ty, subst, TY
import frontend, engine, stdlib, compare
from compare import Comparer

sys.setrecursionlimit(20000)


def find(P, q, sig=None, spec=False, at=None):
    fs = [f for f in P.byname.get(q, []) if f.get('body') and (not at or f['l'][0].endswith('/' + at))]
    seen = {}
    for f in fs: seen.setdefault((f['l'][0], f['l'][1], f['sig']), f)
    fs = list(seen.values())
    if sig is not None and not spec:
        ex = [f for f in fs if f['sig'].strip() == sig]
        fs = ex or [f for f in fs if sig and (sig in f['sig'] or re.search(sig, f['sig']))]
    return fs


_sum = {}
def summary(P, fn, opaque, fresh_self=False, pure=(), keeps=()):
    k = (fn['f'], opaque, fresh_self, pure, keeps)
    if k not in _sum:
        rx = lambda os: [re.compile(o) for o in os]
        pr, pp, pk = rx(opaque), rx(pure), rx(keeps)
        _sum[k] = engine.summarise_function(P, fn, lambda f, q: any(p.search(q) for p in pr), fresh_self=fresh_self,
                                            pure=lambda q: any(p.search(q) for p in pp), keeps=lambda q: any(p.search(q) for p in pk))
    return _sum[k]


def statics(A):
    """a function with remembered state is decided at its first call and after one arbitrary earlier call
    (the remembered state has the same form after any number of calls)"""
    rs = [r for r, v in A.store.items() if r[0] == 'g' and r in A.statinit]
    if not rs: return [A]
    cur = {}
    I = A.I
    for r in rs:
        cur[r] = mk('sym', '::' + r[1])
    ren = {}
    for n, p in A.params:
        for t in syms(A): 
            if t.op == 'sym' and t.a[0] == n: ren[t] = ty(mk('sym', n + "'", *t.a[1:]), TY.get(t))
    out = []
    first = {cur[r]: A.statinit[r] for r in rs}
    post = {cur[r]: subst(subst(A.store[r], first), ren) for r in rs}
    for m in (first, post):
        S = copy.copy(A)
        f = lambda t: subst(t, m) if isinstance(t, engine.T) else t
        S.ret = f(A.ret); S.live = f(A.live)
        S.store = {r: f(v) for r, v in A.store.items() if r not in rs}
        S.effects = [f_eff(e, f) for e in A.effects]
        out.append(S)
    return out


def f_eff(e, f):
    if e.kind != 'eff': return e
    return engine.Effect(e.op, e.target, [f(a) for a in e.args], f(e.guard), e.loc, e.val)


def syms(A):
    seen, out = set(), set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'sym': out.add(t)
        for x in t.a:
            if isinstance(x, engine.T): go(x)
    for v in list(A.store.values()) + [A.ret]:
        if isinstance(v, engine.T): go(v)
    return out


class Outcome:
    """what one comparison decided"""
    def __init__(s, job): s.job, s.status, s.why, s.R, s.loc, s.time, s.spec = job, None, None, None, None, 0, None


def run(P, job, seeds=80, seed0=1):
    o = Outcome(job)
    t = time.time()
    code = find(P, job.code, job.sig, at=job.at)
    spec = find(P, job.spec, None, True)
    if not code: o.status, o.why = 'absent', 'no function %s' % job.name; return o
    if not spec: o.status, o.why = 'absent', 'reference definition not available for this tree'; return o
    if len(code) > 1: o.status, o.why = 'absent', '%s is ambiguous: %s' % (job.name, [f['sig'] for f in code]); return o
    o.loc = code[0]['l']
    A = summary(P, code[0], job.opaque, False, job.pure, job.keeps)
    B = summary(P, spec[0], job.opaque, bool(code[0].get("isctor")), job.pure, job.keeps)
    As, Bs = statics(A), statics(B)
    for n, X in enumerate(As):
        C = Comparer(P, X, Bs[n] if len(As) == len(Bs) else B, **dict(dict(seeds=seeds, seed0=seed0, chan=job.chan, ignore=job.ignore), **job.kw))
        r = C.run()
        if o.R is None: o.R = r
        else:
            o.R.findings += r.findings; o.R.obligations += r.obligations; o.R.undecided += r.undecided
            o.R.equal += r.equal; o.R.agreed += r.agreed
    o.notes = [str(n) for n in A.notes]
    o.status = 'differs' if o.R.findings else 'undecided' if o.R.undecided else 'holds'
    o.time = time.time() - t
    return o


if __name__ == '__main__':
    import jobs
    P = frontend.Program()
    for f, e in P.specfail.items(): print('SPEC', f, e[-600:])
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    for j in jobs.J:
        if not re.search(pat, j.name + ' ' + j.spec + ' ' + ' '.join(j.props)): continue
        try: o = run(P, j)
        except Exception as e:
            import traceback
            print('EXC', j.name, type(e).__name__, str(e)[:200], traceback.format_exc()[-300:] if '-v' in sys.argv else ''); continue
        print(o.status, j.name, '%.1fs' % o.time, o.why or '', ('eq %d agree %d' % (o.R.equal, o.R.agreed)) if o.R else '', 'NOTES' if o.R and o.notes else '')
        if o.R:
            for f in o.R.findings: print('    FIND', f.what, frontend.rel(f.loc), f.detail[:400])
            for u in o.R.undecided[:6 if '-v' not in sys.argv else 99]: print('    und', u[:200])
