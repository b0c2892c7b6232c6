import re
"""Models of the library operations the code uses (containers, algorithms, smart pointers,
matrix expressions).  A model gives the resulting value and the stores it performs."""
from terms import *
import engine
from engine import LV, clean, isseq, ismap, isset, isptrcls, ismat, targ


def padd(x, y):
    return rec(NONE, {'first': add(getf(x, 'first'), getf(y, 'first')),
                      'second': and_(truth(getf(x, 'second')), truth(getf(y, 'second')))})

PASS = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::__addressof', 'std::move_if_noexcept',
        'std::launder', 'std::make_move_iterator', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast'}


def lastq(q):
    # name without the class/namespace and template arguments
    d = 0
    for i in range(len(q) - 1, -1, -1):
        if q[i] == '>' and q[i - 1] not in '-=': d += 1
        elif q[i] == '<' and q[max(0, i - 8):i] != 'operator' and q[max(0, i - 9):i] != 'operator<': d -= 1
        elif q[i] == ':' and d <= 0: return q[i + 1:]
    return q


def mlam(f, nr, nc):
    r = ty(mk('ix', 'mr%d' % fresh()), 'long'); c = ty(mk('ix', 'mc%d' % fresh()), 'long')
    body = f(r, c)
    h = 1 + body.h
    return mk('mlam', h, subst(body, {r: ty(mk('bv', h), 'long'), c: ty(mk('bv', h, 'c'), 'long')}), nr, nc)


def construct(I, t, args, e):
    """construct a value of type t from evaluated arguments"""
    t = clean(t)
    if len(args) == 1:
        a = args[0]
        at_ = clean(TY.get(a) or '')
        if not at_ and isinstance(e, dict) and len(e.get('a') or ()) == 1:
            x = e['a'][0]
            at_ = clean(x.get('t') or '') if isinstance(x, dict) else ''
            if at_.endswith('&'): at_ = clean(at_.rstrip('& '))
            if at_.startswith('const '): at_ = at_[6:]
        if at_ in ('double', 'float') and t in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char'):
            if a.op == 'num' and a.a[0].denominator == 1: return a
            return ty(mk('trunc', a), t)
        if at_ == t or a.op == 'rec' and t.startswith('std::pair<') : return a
    if t.startswith('std::pair<'):
        if len(args) == 2: return rec(NONE, {'first': args[0], 'second': args[1]})
        if not args: return I.dflt(t)
    if isseq(t) or ismap(t) or isset(t): return seqctor(I, t, args, e)
    cands = [f for f in I.P.functions.values() if f.get('isctor') and f.get('clst') == t and len(f['ps']) == len(args)]
    cands = [f for f in cands if not (len(args) == 1 and clean(f['ps'][0].get('t')) == t)]
    if len(cands) > 1:
        def score(f):
            s = 0
            for p, a in zip(f['ps'], args):
                pt, tt = clean(p.get('t')), clean(TY.get(a) or '')
                if pt == tt: s += 2
                elif a.op == 'rec' and pt.startswith('std::pair'): s += 2
                elif (pt.startswith('std::vector') or pt.startswith('std::shared')) and tt and tt != pt: s -= 2
            return s
        cands.sort(key=score, reverse=True)
    if cands and not I.isopaque(cands[0], cands[0]['q']):
        fn = cands[0]
        r = I.newroot('tmp', t)
        I.st.store[r] = ty(mk('rec', NONE), t)
        env = {}
        I.bindargs(fn, list(args), env)
        I.enter(fn, env, LV(r), e)
        return I.rootval(r)
    recd = I.P.records.get(t)
    if recd is not None and not cands:
        fs = recd.get('fields', [])
        if not args or len(args) <= len(fs) and (len(args) > 1 or clean(TY.get(args[0]) or '') != t):
            d = {}
            for n, f in enumerate(fs):
                if n < len(args): d[f['n']] = args[n]
                elif f.get('init') is not None: d[f['n']] = I.ev(f['init'])
                else:
                    ft = clean(f.get('t'))
                    d[f['n']] = I.dflt(ft) if ft.startswith(('std::', 'boost::')) else ty(mk('undef', f['n']), f.get('t'))
            return rec(NONE, d)
        if len(args) == 1: return args[0]
    if len(args) == 1 and (t.endswith('*') or isptrcls(t) or t in ('int', 'double', 'bool', 'char', 'unsigned char', 'unsigned int', 'long', 'unsigned long')): return args[0]
    if not args: return I.dflt(t)
    if cands: q = cands[0]['q']
    else: q = t + '::' + t
    I.effect(q, 'ctor', list(args), e)
    return ty(mk('call', q, *args), t)


def seqctor(I, t, args, e):
    if not args: return I.dflt(t)
    a = args
    if a[-1] is NONE or TY.get(a[-1], '').startswith('std::allocator'): a = a[:-1]
    if not a: return I.dflt(t)
    if isset(t) and a[0].op == 'seq': a = a[:1]       # the number of buckets does not matter
    if isset(t) and a[0].op == 'it' and len(a) > 2: a = a[:2]
    if len(a) == 1:
        x = a[0]
        if isseq(t) and (engine.ismap(TY.get(x) or '') is False) and (x.op in ('num',) or clean(TY.get(x) or '') in ('unsigned long', 'int', 'long', 'unsigned int', 'size_t') or x.op in ('size', 'lin')):
            et = targ(t, 0)
            return ty(mk('fill', x, I.dflt(et)), t)
        if isset(t) and x.op == 'seq': return setof(x)
        return x
    if a[0].op == 'it' and a[1].op == 'it':
        s = rangeseq(I, a[0], a[1])
        return setof(s) if isset(t) else elems(s, t)
    if isseq(t) and len(a) == 2:
        return ty(mk('fill', a[0], a[1]), t)
    return ty(mk('call', clean(t), *a), t)


def elems(s, t):
    """the elements of a set, as a sequence"""
    return ty(mk('elems', s), t) if isset(TY.get(s) or '') and isseq(t) else s


def setof(s):
    if s.op == 'elems': return s.a[0]
    m = EMPTYMAP
    if s.op == 'seq':
        for x in s.a: m = sadd(m, x)
        return m
    return mk('setof', s)

def sadd(m, x):
    if m.op == 'sadd' and m.a[1] is x: return m
    return mk('sadd', m, x)


def rangeseq(I, x, y):
    """the elements between two iterators"""
    lv = I.itconts[x.a[0]]
    c = I.load(lv)
    i, j = x.a[1], y.a[1]
    if i is ZERO and (j is size(c)): return c
    if y.a[0] is not x.a[0]: return mk('badrange', x, y)
    return ty(mk('slice', c, i, j), TY.get(c))


def rngof(I, x, y):
    lv = I.itconts[x.a[0]]
    c = I.load(lv)
    return lv, c, x.a[1], y.a[1]


def elemof(I, it, ix):
    return I.itlv(mk('it', it.a[0], ix))


def predicate(I, e, it1, it2, f, argf=None):
    """condition of a predicate applied at a generic position of a range; side-effect free predicates"""
    ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long')
    el = elemof(I, it1, ix)
    sv = I.st
    I.st = sv.copy(); I.st.live = TRUE
    I.ixs.append(ix); se = I.eff; I.eff = []
    I.ctx.append(sv.live)
    g = I.calllam(f, [el], e)
    if isinstance(g, LV): g = I.load(g)
    I.ctx.pop()
    eff = I.eff; I.eff = se; I.ixs.pop()
    st1 = I.st
    I.st = sv
    return ix, truth(g), eff


def loopcall(I, e, it1, it2, f, what):
    """for_each / generate / transform as an ordinary loop over positions"""
    body = {'k': 'pyblock', 'l': e.get('l'), 'f': what}
    node = I.pynodes.setdefault(I.site(e), {'k': 'for', 'l': e.get('l'), 'b': None})
    holder = {}
    I.s_pyblock = lambda s: holder['f'](holder['ix'])
    def bind(ix): holder['ix'] = ix
    holder['f'] = what
    saved = getattr(I, 's_pyblock', None)
    lo, hi = it1.a[1], it2.a[1]
    node['b'] = {'k': 'pyblock', 'l': e.get('l'), 'h': holder}
    I.loop(node, bind, None, None, node['b'], rng=(lo, hi))


engine.Interp.pynodes = {}
def _s_pyblock(self, s): s['h']['f'](s['h']['ix'])
engine.Interp.s_pyblock = _s_pyblock


def movedfrom(I, x, dst, steals=True):
    """a container whose contents were taken over is left empty"""
    while x.get('k') in ('paren', 'mat', 'cast', 'icast', 'bindtmp') and x.get('e'): x = x['e']
    if not steals or x.get('k') != 'call' or x.get('q') not in ('std::move', 'std::forward'): return
    t = clean(x['a'][0].get('t'))
    if not (isseq(t) or ismap(t) or isset(t)) or t.startswith('std::array'): return
    src = I.evl_or_v(x['a'][0])
    if isinstance(src, engine.LV) and (dst is None or src.key() != dst.key()): I.put(src, I.dflt(t))


def newshared(I, e, t, pt, args):
    p = ty(mk('new', I.site(e), *I.ixs), pt)
    v = construct(I, t, args, e)
    I.st.store[('h', p)] = v
    I.newtypes[p] = (clean(t), args, e)
    return p


def call(I, e, q):
    a = e['a']
    if q in PASS or q.startswith('std::move'):
        r = I.evl_or_v(a[0])
        return r
    n = lastq(q)
    if n.startswith('operator'):
        return None
    if q in ('std::min', 'std::max'):
        f = min_ if q == 'std::min' else max_
        if len(a) == 1:
            s = I.ev(a[0])
            if s.op == 'seq': return f(*s.a)
            return None
        if len(a) == 2:
            x, y = I.ev(a[0]), I.ev(a[1])
            return f(x, y)
        if len(a) == 3:
            x, y = I.ev(a[0]), I.ev(a[1])
            g = I.calllam(I.ev(a[2]), [x, y] if q == 'std::max' else [y, x], e)
            return ite(g, y, x)
        return None
    if q == 'std::clamp' and len(a) == 3:
        x, lo, hi = I.ev(a[0]), I.ev(a[1]), I.ev(a[2])
        return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
    if q in ('std::make_pair',):
        return rec(NONE, {'first': I.ev(a[0]), 'second': I.ev(a[1])})
    if q in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
        return mk('tup', *[I.ev(x) for x in a])
    if q in ('std::make_shared', 'std::make_unique', 'boost::make_shared'):
        return newshared(I, e, (e.get('ta') or [targ(e.get('t'), 0)])[0], e.get('t'), [I.ev(x) for x in a])
    if q in ('std::next', 'std::prev'):
        it = I.ev(a[0]); d = I.ev(a[1]) if len(a) > 1 else ONE
        return I.step(it, d if q == 'std::next' else neg(d))
    if q in ('std::advance',):
        lv = I.evl(a[0]); I.put(lv, I.step(I.load(lv), I.ev(a[1]))); return NONE
    if q == 'std::distance':
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op == 'it' and y.op == 'it': return sub(y.a[1], x.a[1])
        return None
    if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend'):
        return mcont(I, I.evl(a[0]), clean(a[0].get('t')), n.lstrip('c'), [], e)
    if q in ('std::size', 'std::empty'):
        return mcont(I, I.evl(a[0]), clean(a[0].get('t')), n, [], e)
    if q.endswith('::infinity') and 'numeric_limits' in q: return INF
    if q.endswith('::max') and 'numeric_limits' in q: return ty(mk('sym', 'max:' + q), e.get('t'))
    if q.endswith('::min') or q.endswith('::lowest') and 'numeric_limits' in q: return ty(mk('sym', 'min:' + q), e.get('t'))
    if q in ('std::isinf', 'isinf', '__builtin_isinf'):
        x = I.ev(a[0]); return eq(x, INF)
    if q in ('__assert_fail', '__assert', '__builtin_unreachable'):
        I.st = engine.State(I.st.store, FALSE); return NONE
    if q in ('__builtin_expect', '__builtin_expect_with_probability'): return I.ev(a[0])
    if q in ('ceil', 'floor', 'std::ceil', 'std::floor', 'std::round', 'round', 'std::trunc', 'trunc'):
        return ty(mk('call', n, I.ev(a[0])), 'double')
    if q in ('std::abs', 'abs', 'fabs', 'std::fabs'):
        x = I.ev(a[0]); return max_(x, neg(x))
    if q == 'std::swap' or q == 'std::iter_swap' and False:
        x, y = I.evl(a[0]), I.evl(a[1])
        vx, vy = I.load(x), I.load(y)
        I.put(x, vy); I.put(y, vx); return NONE
    if q == 'std::get':
        lv = I.evl(a[0])
        v = I.load(lv)
        k = (e.get('ta') or ['0'])[0]
        if 'pair<' in (a[0].get('t') or ''):
            import re
            idxs = {'0': 'first', '1': 'second'}
            if str(k) in idxs: return lv + ('f', idxs[str(k)])
        if v.op == 'tup' and str(k).isdigit(): return v.a[int(k)]
        return ty(mk('call', 'std::get', mk('str', str(k)), v), e.get('t'))
    if q.startswith('boost::') and q.split('::')[1].split('<')[0] in ('vertices', 'num_vertices', 'out_edges', 'in_edges', 'edges', 'source', 'target', 'get'):
        import graph
        r = graph.call(I, e, q)
        if r is not None: return r
    if q == 'boost::get' or q == 'std::get_if' or q == 'boost::relaxed_get':
        k = clean((e.get('ta') or ['?'])[0])
        x = a[0]
        if (x.get('t') or '').endswith('*') or e.get('t', '').endswith('*'):
            p = I.ev(x)
            lv = I.deref(p)
            v = I.load(lv)
            return ite(isvar(v, k), I.addr(lv + ('v', k)), NULL)
        lv = I.evl(x)
        return lv + ('v', k)
    if q == 'std::mem_fn':
        x = I.ev(a[0])
        x0 = a[0]
        while x0['k'] in ('cast', 'un'): x0 = x0['e']
        nm = x0.get('n') or (x0.get('q') or '?').split('::')[-1]
        return mk('memfn', nm)
    if q in ('std::inserter', 'std::back_inserter'):
        lv = I.evl(a[0])
        t = I.mkit(lv, 'ins', ZERO)
        return mk('inserter', t.a[0])
    # ------------------------------------------------------ algorithms
    if q in ('std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', 'std::remove_if', 'std::find', 'std::count', 'std::remove'):
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it' or y.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        if n in ('find', 'count', 'remove'):
            val = I.ev(a[2])
            ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long')
            g = eq(I.load(elemof(I, x, ix)), val)
        else:
            f = I.ev(a[2])
            ix, g, eff = predicate(I, e, x, y, f)
        if n in ('all_of', 'find_if_not'): g = not_(g)
        if n in ('any_of',): return exists(ix, lo, hi, g)
        if n in ('all_of', 'none_of'): return not_(exists(ix, lo, hi, g))
        if n in ('find_if', 'find_if_not', 'find'):
            h, g2 = close(ix, g)
            return mk('it', x.a[0], ty(mk('findidx', h, lo, hi, g2), 'unsigned long'))
        if n.startswith('count'):
            h, g2 = close(ix, ite(g, ONE, ZERO))
            return ty(mk('sumover', h, lo, hi, g2), 'long')
        # remove_if: kept elements first, the rest unspecified
        el = I.load(elemof(I, x, ix))
        kept = fm(ix, lo, hi, not_(g), mk('seq', el))
        if lo is ZERO and hi is size(c):
            I.put(lv, ty(mk('removed', c, kept), TY.get(c)))
            return mk('it', x.a[0], ty(mk('newend', kept), 'unsigned long'))
        return None
    if q == 'std::for_each':
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it' or y.op != 'it': return None
        f = I.ev(a[2])
        loopcall(I, e, x, y, f, lambda ix: I.calllam(f, [elemof(I, x, ix)], e))
        return f
    if q in ('std::generate',):
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it' or y.op != 'it': return None
        f = I.ev(a[2])
        def body(ix):
            if f.op == 'fn' and f.a[1] in ('std::make_shared', 'std::make_unique'):
                pt = clean(targ(clean(a[0].get('t')), 0)).rstrip('*').strip()
                v = newshared(I, e, targ(pt, 0), pt, [])
            else: v = I.calllam(f, [], e)
            if isinstance(v, LV): v = I.load(v)
            I.put(elemof(I, x, ix), v)
        loopcall(I, e, x, y, f, body)
        return NONE
    if q in ('std::transform', 'std::copy', 'std::copy_if') and len(a) == (3 if q == 'std::copy' else 4):
        x, y, o = I.ev(a[0]), I.ev(a[1]), I.ev(a[2])
        if x.op != 'it' or y.op != 'it': return None
        f = I.ev(a[3]) if q != 'std::copy' else None
        def body(ix):
            v = I.load(elemof(I, x, ix))
            if q == 'std::transform':
                v = I.calllam(f, [elemof(I, x, ix)], e)
                if isinstance(v, LV): v = I.load(v)
            def emit():
                if o.op == 'inserter':
                    lv = I.itconts[o.a[0]]
                    t = I.load(lv)
                    I.put(lv, cat(t, mk('seq', v)))
                elif o.op == 'it':
                    I.put(elemof(I, o, add(o.a[1], sub(ix, x.a[1]))), v)
            if q == 'std::copy_if':
                g = I.calllam(f, [elemof(I, x, ix)], e)
                if isinstance(g, LV): g = I.load(g)
                I.branch(truth(g), lambda: emit(), lambda: None)
            else: emit()
        loopcall(I, e, x, y, f, body)
        return NONE
    if q == 'std::transform' and len(a) == 5:
        x, y, z, o = [I.ev(w) for w in a[:4]]
        if x.op != 'it' or y.op != 'it' or z.op != 'it': return None
        f = I.ev(a[4])
        def body(ix):
            v = I.calllam(f, [elemof(I, x, ix), elemof(I, z, add(z.a[1], sub(ix, x.a[1])))], e)
            if isinstance(v, LV): v = I.load(v)
            if o.op == 'inserter':
                lv = I.itconts[o.a[0]]
                I.put(lv, cat(I.load(lv), mk('seq', v)))
            elif o.op == 'it': I.put(elemof(I, o, add(o.a[1], sub(ix, x.a[1]))), v)
        loopcall(I, e, x, y, f, body)
        return NONE
    if q in ('std::fill',):
        x, y = I.ev(a[0]), I.ev(a[1]); v = I.ev(a[2])
        if x.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        if lo is ZERO and hi is size(c): I.put(lv, ty(mk('fill', size(c), v), TY.get(c)))
        else: I.put(lv, ty(mk('mapi', c, 1 + max(c.h, v.h), lo, hi, v), TY.get(c)))
        return NONE
    if q == 'std::iota':
        x, y = I.ev(a[0]), I.ev(a[1]); v = I.ev(a[2])
        if x.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long')
        if lo is ZERO and hi is size(c):
            I.put(lv, ty(fm(ix, lo, hi, TRUE, mk('seq', add(v, ix))), TY.get(c)))
            return NONE
        return None
    if q in ('std::sort', 'std::stable_sort'):
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        less = TRUE if len(a) < 3 else I.ev(a[2])
        if lo is ZERO and hi is size(c): I.put(lv, ty(mk('sort', c), TY.get(c))); return NONE
        return None
    if q == 'std::unique':
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        I.put(lv, ty(mk('removed', c, mk('uniq', c)), TY.get(c)))
        return mk('it', x.a[0], ty(mk('newend', mk('uniq', c)), 'unsigned long'))
    if q in ('std::max_element', 'std::min_element'):
        x, y = I.ev(a[0]), I.ev(a[1])
        if x.op != 'it': return None
        lv, c, lo, hi = rngof(I, x, y)
        if len(a) > 2: return None
        return mk('it', x.a[0], ty(mk('arg' + n[:3], c, lo, hi), 'unsigned long'))
    if q == 'std::accumulate' and len(a) == 3:
        x, y = I.ev(a[0]), I.ev(a[1]); v = I.ev(a[2])
        if x.op != 'it': return None
        ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long')
        h, g = close(ix, I.load(elemof(I, x, ix)))
        return add(v, ty(mk('sumover', h, x.a[1], y.a[1], g), e.get('t')))
    if q == 'std::binary_search':
        x, y = I.ev(a[0]), I.ev(a[1]); v = I.ev(a[2])
        if x.op != 'it': return None
        ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long')
        return exists(ix, x.a[1], y.a[1], eq(I.load(elemof(I, x, ix)), v))
    if q in ('std::set_union', 'std::set_intersection', 'std::set_difference'):
        x, y, u, v = [I.ev(z) for z in a[:4]]; o = I.ev(a[4])
        if x.op != 'it' or u.op != 'it' : return None
        r = ty(mk(n, rangeseq(I, x, y), rangeseq(I, u, v)), None)
        if o.op == 'inserter':
            lv = I.itconts[o.a[0]]
            I.put(lv, cat(I.load(lv), r))
        elif o.op == 'it':
            return None
        return NONE
    if q in ('std::erase_if',):
        lv = I.evl(a[0]); c = I.load(lv); f = I.ev(a[1])
        t = clean(a[0].get('t'))
        it = I.mkit(lv, 'map' if ismap(t) else 'seq', ZERO)
        ix, g, eff = predicate(I, e, it, None, f)
        I.put(lv, fm(ix, ZERO, size(c), not_(g), mk('seq', I.load(I.itlv(mk('it', it.a[0], ix))))))
        return NONE
    return None


engine.Interp.newtypes = {}


def isvar(v, k):
    if v.op == 'var': return b(v.a[0] == k)
    if v.op == 'ite': return ite(v.a[0], isvar(v.a[1], k), isvar(v.a[2], k))
    t = TY.get(v)
    if t and clean(t).startswith('boost::variant<') and targ(clean(t), 2) is None:
        k0, k1 = targ(clean(t), 0), targ(clean(t), 1)
        if k == k1 and k0 and k0 != k1: return not_(isvar(v, k0))
    return mk('eq', ty(mk('vwhich', v), 'enum'), mk('enumc', 'variant::' + k))


def ctor(I, e, q):
    t = clean(e.get('t'))
    a = e['a']
    if t.startswith('std::pair<'):
        if not a: return I.dflt(t)
        if len(a) == 2: return rec(NONE, {'first': I.ev(a[0]), 'second': I.ev(a[1])})
        return I.ev(a[0])
    if isseq(t) or ismap(t) or isset(t):
        vals = [I.ev(x) for x in a if not (x['k'] == 'ctor' and 'allocator' in (x.get('t') or ''))]
        vals2 = [v for v, x in zip(vals, [x for x in a if not (x['k'] == 'ctor' and 'allocator' in (x.get('t') or ''))])
                 if not clean(x.get('t')).startswith(('std::hash<', 'std::equal_to<', 'boost::hash<', 'std::allocator'))]
        if ismap(t) and vals2 and clean(a[0].get('t')) in ('unsigned long', 'int', 'long'): return EMPTYMAP
        return seqctor(I, t, vals2, e)
    if isptrcls(t):
        if not a: return NULL
        v = I.ev(a[0])
        return v
    if t.startswith(('__gnu_cxx::__normal_iterator', 'std::_List_', 'std::__detail::_Node', 'boost::unordered::', 'std::move_iterator')):
        return I.ev(a[0]) if a else ty(mk('undef', 'it'), t)
    if engine.isstr(t):
        if not a: return mk('str', '')
        return I.ev(a[0])
    if re.match(r'std::(__cxx11::)?(basic_)?[io]?stringstream', t):
        vals = [I.ev(x) for x in a]
        return ty(mk('sstream', *glue([v for v, x in zip(vals, a) if 'penmode' not in clean(x.get('t') or '')])), t)
    if t.startswith('std::function<') or t.startswith('std::tuple<'):
        vals = [I.ev(x) for x in a]
        if t.startswith('std::tuple<'): return mk('tup', *vals)
        return vals[0] if vals else NULL
    if t.startswith('boost::variant<'):
        if not a: return ty(mk('dflt', t), t)
        v = I.ev(a[0])
        st = clean(TY.get(v) or a[0].get('t'))
        k = clean(a[0].get('t'))
        return mk('var', k, v)
    if t.startswith('std::allocator') or t.startswith(('std::hash', 'std::equal_to', 'boost::hash')): return NONE
    if t.startswith('Eigen::Matrix'):
        if not a: return ty(mlam(lambda r, c: mk('undef', 'cell'), ZERO, ZERO), t)
        vals = [I.ev(x) for x in a]
        if len(vals) == 2: return ty(mlam(lambda r, c: mk('undef', 'cell'), vals[0], vals[1]), t)
        return vals[0]
    if t in ('std::allocator_arg_t',): return NONE
    if t.startswith(('std::__cmp_cat', 'std::partial_ordering', 'std::strong_ordering')): return ZERO
    return None


# ---------------------------------------------------------------- containers
def mcont(I, lv, t, m, a, e):
    """method of a sequence, map or set; a: argument expressions (or terms)"""
    ev = lambda x: x if isinstance(x, T) else I.ev(x)
    kind = 'map' if ismap(t) else 'set' if isset(t) else 'seq'
    ik = 'map' if kind == 'map' else 'seq' if kind == 'seq' else 'set'
    c = I.load(lv, t)
    if m in ('begin', 'cbegin'): return I.mkit(lv, ik, ZERO)
    if m in ('end', 'cend'): return I.mkit(lv, ik, size(c))
    if m in ('size', 'length'): return size(c)
    if m == 'empty': return isempty(c)
    if m in ('reserve', 'shrink_to_fit', 'rehash'):
        for x in a: ev(x)
        return NONE
    if m == 'clear':
        I.put(lv, EMPTY if kind == 'seq' else EMPTYMAP); return NONE
    if m == 'swap':
        o = I.evl(a[0]); v = I.load(o); I.put(o, c); I.put(lv, v); return NONE
    if kind == 'seq':
        et = targ(t, 0)
        if m in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            args = [ev(x) for x in a]
            if m.startswith('emplace'): v = construct(I, et, args, e)
            else: v = args[0]
            c = I.load(lv, t)
            if 'back' in m:
                I.put(lv, cat(c, mk('seq', v)))
                if m.startswith('emplace'): return lv + ('i', size(c))
            else: I.put(lv, cat(mk('seq', v), c))
            return NONE
        if m == 'pop_back': I.put(lv, ty(mk('popb', c), TY.get(c))); return NONE
        if m == 'pop_front': I.put(lv, ty(mk('popf', c), TY.get(c))); return NONE
        if m == 'front': return lv + ('i', ZERO)
        if m == 'back':
            n = size(c)
            return lv + ('i', sub(n, ONE))
        if m in ('at', 'operator[]'):
            return lv + ('i', ev(a[0]))
        if m == 'data': return I.mkit(lv, ik, ZERO)
        if m == 'resize':
            n = ev(a[0]); v = ev(a[1]) if len(a) > 1 else I.dflt(et)
            if c is EMPTY: I.put(lv, ty(mk('fill', n, v), t)); return NONE
            I.put(lv, ty(mk('rsz', c, n, v), t)); return NONE
        if m == 'assign':
            v = [ev(x) for x in a]
            I.put(lv, seqctor(I, t, v, e)); return NONE
        if m in ('insert', 'emplace'):
            pos = ev(a[0]); v = [ev(x) for x in a[1:]]
            c = I.load(lv, t)
            if pos.op != 'it': return None
            p = pos.a[1]
            if m == 'insert' and len(v) == 2 and v[0].op == 'it': s = rangeseq(I, v[0], v[1])
            elif m == 'insert' and len(v) == 2: s = mk('fill', v[0], v[1])
            elif m == 'insert' and v[0].op == 'seq' and 'initializer_list' in (a[1].get('t') if isinstance(a[1], dict) else ''): s = v[0]
            else: s = mk('seq', v[0] if m == 'insert' else construct(I, et, v, e))
            if p is size(c): I.put(lv, cat(c, s))
            elif p is ZERO: I.put(lv, cat(s, c))
            else: I.put(lv, ty(mk('ins', c, p, s), TY.get(c)))
            return pos
        if m == 'erase':
            pos = ev(a[0])
            if pos.op != 'it': return None
            if len(a) == 2:
                q = ev(a[1])
                c = I.load(lv, t)
                i, j = pos.a[1], q.a[1] if q.op == 'it' else None
                if i.op == 'newend' and c.op == 'removed' and c.a[1] is i.a[0] and (j is size(c) or j.op == 'size' and (j.a[0] is c or j.a[0] is c.a[0])):
                    I.put(lv, i.a[0]); return I.mkit(lv, ik, size(i.a[0]))
                I.put(lv, ty(mk('eraserng', c, i, j if j is not None else NONE), TY.get(c)))
                return pos
            I.put(lv, ty(mk('erase', c, pos.a[1]), TY.get(c)))
            return pos
        if m == 'splice':
            pos = ev(a[0]); o = I.evl(a[1])
            v = I.load(o)
            if pos.op == 'it':
                if pos.a[1] is size(c): I.put(lv, cat(c, v))
                elif pos.a[1] is ZERO: I.put(lv, cat(v, c))
                else: I.put(lv, ty(mk('ins', c, pos.a[1], v), TY.get(c)))
                I.put(o, EMPTY)
                return NONE
        if m in ('remove_if', 'remove'):
            f = ev(a[0])
            it = I.mkit(lv, 'seq', ZERO)
            if m == 'remove_if': ix, g, eff = predicate(I, e, it, None, f)
            else:
                ix = ty(mk('ix', 'P%d' % I.site(e)), 'unsigned long'); g = eq(I.load(lv + ('i', ix)), f)
            I.put(lv, fm(ix, ZERO, size(c), not_(g), mk('seq', I.load(lv + ('i', ix)))))
            return NONE
        if m in ('sort',): I.put(lv, ty(mk('sort', c), TY.get(c))); return NONE
        if m in ('unique',): I.put(lv, ty(mk('uniq', c), TY.get(c))); return NONE
        if m == 'fill':
            v = ev(a[0])
            n = targ(clean(t), 1) if clean(t or '').startswith('std::array<') else None
            I.put(lv, ty(mk('fill', num(int(re.sub(r'\D', '', n))) if n and re.match(r'\d+', n) else size(c), v), t)); return NONE
        if m in ('capacity', 'max_size'): return ty(mk('call', m, c), 'unsigned long')
        return None
    if kind == 'map':
        vt = targ(t, 1)
        if m == 'at': return lv + ('k', ev(a[0]))
        if m == 'operator[]':
            k = ev(a[0])
            return mapref(I, lv, t, k)
        if m == 'find':
            return I.mkit(lv, 'map', mk('key', ev(a[0])))
        if m in ('count', 'contains'):
            h = has(c, ev(a[0]))
            return h if m == 'contains' else ite(h, ONE, ZERO)
        if m == 'erase':
            k = ev(a[0])
            if k.op == 'it':
                i = k.a[1]
                if i.op == 'key': I.put(lv, ty(mk('merase', c, i.a[0]), TY.get(c))); return k
                kk = getf(I.entry(c, i), 'first')
                I.put(lv, ty(mk('merase', c, kk), TY.get(c))); return k
            I.put(lv, ty(mk('merase', c, k), TY.get(c)))
            return ty(mk('call', 'erase', c, k), 'unsigned long')
        if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            v = [ev(x) for x in a]
            if len(v) == 1:
                k, x = getf(v[0], 'first'), getf(v[0], 'second')
            elif m == 'insert' and len(v) == 2 and v[0].op == 'it':
                return None
            elif len(v) >= 2: k, x = v[0], (v[1] if len(v) == 2 else construct(I, vt, v[1:], e))
            else: return None
            h = has(c, k)
            if m != 'insert_or_assign': x = ite(h, at(c, k, vt), x)
            I.put(lv, mupd(c, k, x))
            return rec(NONE, {'first': I.mkit(lv, 'map', mk('key', k)), 'second': not_(h)})
        return None
    # sets
    if m in ('insert', 'emplace'):
        v = [ev(x) for x in a]
        if len(v) == 1:
            I.put(lv, sadd(c, v[0])); return rec(NONE, {'first': I.mkit(lv, 'set', mk('key', v[0])), 'second': not_(has(c, v[0]))})
        if len(v) == 2 and v[0].op == 'it':
            I.put(lv, ty(mk('sunion', c, setrng(I, v[0], v[1])), TY.get(c))); return NONE
        return None
    if m == 'find': return I.mkit(lv, 'set', mk('key', ev(a[0])))
    if m in ('count', 'contains'):
        h = has(c, ev(a[0]))
        return h if m == 'contains' else ite(h, ONE, ZERO)
    if m == 'erase':
        k = ev(a[0])
        if k.op == 'it': k = k.a[1].a[0] if k.a[1].op == 'key' else mk('keyat', c, k.a[1])
        I.put(lv, ty(mk('merase', c, k), TY.get(c))); return NONE
    return None


def setrng(I, x, y):
    c = I.load(I.itconts[x.a[0]])
    return rangeseq(I, x, y) if I.itkind[x.a[0]] == 'seq' else c


def mapref(I, lv, t, k):
    c = I.load(lv, t)
    vt = targ(t, 1)
    h = has(c, k)
    h = I.simp(h) if h not in (TRUE, FALSE) else h
    if c is EMPTYMAP or h is FALSE and knownabsent(c, k):
        I.put(lv, mupd(c, k, I.dflt(vt)))
    return lv + ('k', k)


def knownabsent(c, k):
    while c.op in ('mupd', 'merase'):
        if eq(c.a[1], k) is not FALSE: return False
        c = c.a[0]
    return c is EMPTYMAP


def mcall(I, e, q):
    o = e['o']
    ot = clean(e.get('ot') or o.get('t'))
    m = e['m']
    if m.startswith('operator bool') or m == 'operator bool':
        v = I.ev(o)
        t = clean(o.get('t'))
        if v.op == 'sstream': return TRUE
        if isptrcls(t) or v.op in ('new', 'addr', 'null'): return truth(v) if v.op in ('new', 'addr', 'null', 'ite') else not_(eq(v, NULL))
        return mk('nz', v)
    ot2 = clean(o.get('t')) if not e.get('arrow') else clean((o.get('t') or '').rstrip('*'))
    for tt in (ot2, ot):
        if e.get('arrow') and isptrcls(ot2) and m in ('get', 'lock', 'expired'):
            v = I.load(I.deref(I.ev(o)))
            return eq(v, NULL) if m == 'expired' else v
        if isptrcls(tt) and not e.get('arrow'):
            if m == 'get' or m == 'lock': return I.ev(o)
            if m == 'expired': return eq(I.ev(o), NULL)
            if m == 'reset':
                lv = I.evl(o)
                I.put(lv, I.ev(e['a'][0]) if e['a'] else NULL); return NONE
            if m == 'use_count': return ty(mk('call', 'use_count', I.ev(o)), 'long')
            if m == 'unique': return mk('nz', mk('call', 'unique', I.ev(o)))
            if m == 'swap':
                x, y = I.evl(o), I.evl(e['a'][0]); vx, vy = I.load(x), I.load(y)
                I.put(x, vy); I.put(y, vx); return NONE
            if m == 'release':
                lv = I.evl(o); v = I.load(lv); I.put(lv, NULL); return v
            if m in ('operator*', 'operator->'): return I.deref(I.ev(o))
        if isseq(tt) or ismap(tt) or isset(tt):
            lv = I.deref(I.ev(o)) if e.get('arrow') else I.evl(o)
            t = tt
            if tt is not ot2 and (isseq(ot2) or ismap(ot2) or isset(ot2)): t = ot2
            r = mcont(I, lv, t, m, e['a'], e)
            if r is not None: return r
            return None
    if engine.isstr(ot2) or engine.isstr(ot):
        v = I.ev(o)
        if m in ('c_str', 'data', 'str'): return v
        if m == 'empty': return eq(v, mk('str', ''))
        if m in ('size', 'length') and v.op == 'str': return num(len(v.a[0]))
        if m in ('size', 'length'): return ite(eq(v, mk('str', '')), ZERO, ty(mk('call', 'string::size', v), 'unsigned long'))
        return ty(mk('call', 'string::' + m, v, *[I.ev(x) for x in e['a']]), e.get('t')) if e.get('mconst') else None
    if m == 'swap' and not e.get('arrow') and ot2.startswith('std::'):
        x, y = I.evl(o), I.evl(e['a'][0]); vx, vy = I.load(x), I.load(y)
        I.put(x, vy); I.put(y, vx); return NONE
    if 'Eigen::' in ot or 'Eigen::' in ot2:
        return eigen(I, e, m)
    if 'stream' in ot or 'stream' in ot2 or 'basic_ios' in ot or 'basic_ios' in ot2:
        if m in ('fail', 'good', 'is_open', 'str'):
            v = I.deref(I.ev(o)) if e.get('arrow') else I.evl(o)
            v = I.load(v)
            if v.op == 'sstream' and m == 'str' and not e['a']: return v.a[0] if len(v.a) == 1 else mk('call', 'text', *v.a)
            if m == 'fail': return not_(truthobj(I, v))
            # a stream that was just opened is good when it could be opened
            if m in ('good', 'is_open') and v.op == 'call': return truthobj(I, v)
        if m == 'get' and not e['a'] or m == 'setstate':
            s = I.deref(I.ev(o)) if e.get('arrow') else I.evl(o)
            st = I.load(s)
            if m == 'get':
                I.effect('>>', engine.olvname(I, s), [st], e)
                I.put(s, ty(mk('after', '>>', st, mk('str', 'get')), TY.get(st)))
                return ty(mk('read', st, mk('str', 'get')), 'int')
            if any(x.get('n') == 'failbit' for x in walkast(e['a'][0])):
                I.put(s, st if st.op == 'failed' else ty(mk('failed', st), TY.get(st)))
                return NONE
    if m == 'what' and not e['a'] and ('exception' in ot or 'error' in ot):
        return mk('call', 'what', I.ev(o) if not e.get('arrow') else I.load(I.deref(I.ev(o))))
    return None


def ocall(I, e, q):
    op = e['op']
    a = e['a']
    t0 = clean(a[0].get('t')) if a else ''
    if op == '=':
        if 'Eigen::' in t0:
            v = I.ev(a[1]); lv = I.evl(a[0]); I.put(lv, v); return lv
        v = I.ev(a[1]); lv = I.evl(a[0])
        movedfrom(I, a[1], lv, (e.get('pk') or [0])[-1] == 3)
        if v is NULL and (isseq(t0) or ismap(t0)): v = I.dflt(t0)
        if t0.startswith('boost::variant<') and v.op != 'var' and not clean(a[1].get('t')).startswith('boost::variant'):
            v = mk('var', clean(a[1].get('t')), v)
        if v.op == 'seq' and isset(t0): v = setof(v)
        I.put(lv, v); return lv
    if op == '->':
        p = I.ev(a[0])
        if p.op == 'it': return I.addr(I.itlv(p))
        if isptrcls(t0) or 'shared_ptr' in t0[:40] or 'unique_ptr' in t0[:40]: return p
        if p.op == 'ite': return p
        return p
    if op == '*' and len(a) == 1:
        p = I.ev(a[0])
        if p.op == 'it': return I.itlv(p)
        if p.op == 'ite' and p.a[1].op == 'it' and p.a[2].op == 'it':
            return I.deref(ite(p.a[0], I.addr(I.itlv(p.a[1])), I.addr(I.itlv(p.a[2]))))
        return I.deref(p)
    if op in ('++', '--'):
        lv = I.evl(a[0]); old = I.load(lv)
        if old.op not in ('it', 'ite', 'num', 'lin', 'ix', 'lv', 'sym'):
            return None
        I.put(lv, I.step(old, ONE if op == '++' else num(-1)))
        return old if len(a) > 1 else lv
    if op == '[]':
        if t0.startswith('boost::adjacency_list<'):
            import graph
            return graph.index(I, e)
        if ismap(t0):
            lv = I.evl(a[0])
            return mapref(I, lv, t0, I.ev(a[1]))
        if isseq(t0) or t0.startswith('std::unique_ptr'):
            return I.evl(a[0]) + ('i', I.ev(a[1]))
        if engine.isstr(t0): return ty(mk('idx', I.ev(a[0]), I.ev(a[1])), 'char')
        if 'Eigen::' in t0: return matidx(I, a, e)
        if t0.startswith(('__gnu_cxx::__normal_iterator',)):
            p = I.ev(a[0])
            if p.op == 'it': return I.itlv(I.step(p, I.ev(a[1])))
        return None
    if op == '()':
        if 'Eigen::' in t0: return matidx(I, a, e)
        if t0.startswith('std::function<'):
            f = I.ev(a[0])
            return I.calllam(f, a[1:], e)
        f = I.ev(a[0])
        if f.op in ('lam', 'memfn', 'fn'): return I.calllam(f, a[1:], e)
        return None
    if op in ('==', '!=', '<', '>', '<=', '>='):
        x, y = I.ev(a[0]), I.ev(a[1]) if len(a) > 1 else NULL
        if x.op == '3way' or x.op == 'cmp3':
            return I.binop(op, *three(x), e) if y is ZERO or y.op in ('call', 'dflt', 'opaque', 'null', 'none', 'num') else None
        if y.op == 'cmp3': return I.binop(op, *reversed(three(y)), e)
        if 'Eigen::' in t0:
            r = mk('mateq', x, y) if x.id < y.id else mk('mateq', y, x)
            return r if op == '==' else not_(r)
        if x.op == 'it' or y.op == 'it' or t0.startswith('std::pair') or isptrcls(t0) or t0.endswith('*') or 'iterator' in t0 \
           or engine.isstr(t0) or x.op in ('ite',) or isseq(t0) or isset(t0) or t0.startswith('std::nullptr') or ismap(t0) or '_ptr<' in t0[:40]:
            if (t0.startswith('std::pair<double') or t0 == 'Bounds') or (x.op == 'rec' and y.op == 'rec'):
                TY.setdefault(x, t0); TY.setdefault(y, t0)
            if op in ('==', '!='):
                r = I.iteq(x, y)
                return r if op == '==' else not_(r)
            return I.binop(op, x, y, e)
        return None
    if op == '<=>':
        x, y = I.ev(a[0]), I.ev(a[1])
        return mk('cmp3', x, y)
    if op in ('+', '-') and len(a) == 2:
        if 'iterator' in t0 or t0.startswith(('__gnu_cxx', 'std::_List')):
            x, y = I.ev(a[0]), I.ev(a[1])
            return I.binop(op, x, y, e)
        if 'Eigen::' in t0 or 'Eigen::' in clean(a[1].get('t')):
            return eigenbin(I, op, I.ev(a[0]), I.ev(a[1]))
        if engine.isstr(clean(e.get('t') or '')):
            return mk('strcat', I.ev(a[0]), I.ev(a[1]))
    if op == '-' and len(a) == 1 and 'iterator' not in t0: return None
    if op in ('+=', '-=') and 'iterator' in t0:
        lv = I.evl(a[0]); v = I.ev(a[1])
        I.put(lv, I.step(I.load(lv), v if op == '+=' else neg(v))); return lv
    if op == '+=' and t0.startswith('std::valarray'):
        lv = I.evl(a[0]); v = I.ev(a[1]); c = I.load(lv)
        I.put(lv, ty(mk('vadd', c, v), TY.get(c))); return lv
    if op == '!':
        return not_(truthobj(I, I.ev(a[0])))
    if op == '<<' and 'Eigen::' in t0:
        lv = I.evl(a[0]); x = I.ev(a[1])
        l2 = matidx_lv(lv, ZERO, ZERO)
        I.put(l2, x); return lv
    if op in ('<<', '>>') and ('stream' in t0 or 'stream' in (e.get('t') or '')):
        return stream(I, e, op)
    return None


def walkast(x):
    if isinstance(x, dict):
        yield x
        for y in x.values(): yield from walkast(y)
    elif isinstance(x, (list, tuple)):
        for y in x: yield from walkast(y)


def three(x): return (x.a[0], x.a[1])


def truthobj(I, v):
    if v.op in ('null', 'new', 'addr'): return truth(v)
    if v.op == 'failed': return FALSE
    return mk('nz', v)


def glue(ps):
    out = []
    for p in ps:
        if p.op == 'str' and out and out[-1].op == 'str': out[-1] = mk('str', out[-1].a[0] + p.a[0])
        elif p.op != 'str' or p.a[0]: out.append(p)
    return out


def stream(I, e, op):
    a = e['a']
    s = I.evl(a[0])
    if op == '<<':
        v = I.ev(a[1])
        if v.op == 'num' and clean(a[1].get('t')) == 'char' and 0 < v.a[0] < 127: v = mk('str', chr(int(v.a[0])))
        if v.op == 'cliopts':
            import progopt
            v = mk('call', 'description of the options', *progopt.names(v))
        o = I.load(s)
        if o.op == 'sstream':
            I.put(s, ty(mk('sstream', *glue(o.a + (v,))), TY.get(o))); return s
        I.effect('<<', engine.olvname(I, s), [v], e)
        o = I.load(s)
        return s
    lv = I.evl(a[1])
    o = I.load(s)
    v = ty(mk('read', o, mk('str', clean(a[1].get('t')))), a[1].get('t'))
    I.effect('>>', engine.olvname(I, s), [o], e)
    I.put(s, ty(mk('after', '>>', o, mk('str', clean(a[1].get('t')))), TY.get(o)))
    I.put(lv, v)
    return s


# ---------------------------------------------------------------- matrices
def matidx(I, a, e):
    lv = I.evl(a[0])
    ix = [I.ev(x) for x in a[1:]]
    if lv.root[0] == 'v' and not lv.steps:
        v = I.load(lv)
        if v.op == 'mlam' and len(ix) == 1:
            # vector expression
            r = ZERO if v.a[2] is ONE else ix[0]
            c = ix[0] if v.a[2] is ONE else ZERO
            return cell(v, r, c)
    if lv.steps and lv.steps[-1][0] == 'blk':
        _, r0, c0, nr, nc = lv.steps[-1]
        base = LV(lv.root, lv.steps[:-1])
        if len(ix) == 1:
            if nr is ONE: return base + ('c', r0, add(c0, ix[0]))
            return base + ('c', add(r0, ix[0]), c0)
        return base + ('c', add(r0, ix[0]), add(c0, ix[1]))
    if len(ix) == 2: return lv + ('c', ix[0], ix[1])
    return None


def matidx_lv(lv, r, c):
    if lv.steps and lv.steps[-1][0] == 'blk':
        _, r0, c0, nr, nc = lv.steps[-1]
        return LV(lv.root, lv.steps[:-1]) + ('c', add(r0, r), add(c0, c))
    return lv + ('c', r, c)


def blkget(v, s):
    _, r0, c0, nr, nc = s
    return mlam(lambda r, c: cell(v, add(r0, r) if nr is not ONE else r0, add(c0, c) if nc is not ONE else c0), nr, nc)


def blkset(v, s, nv):
    _, r0, c0, nr, nc = s
    def f(r, c):
        g = []
        if nr is ONE: g.append(eq(r, r0))
        elif not (r0 is ZERO and nr is rows(v)):
            if r0 is not ZERO: g.append(le(r0, r))
            if add(r0, nr) is not rows(v): g.append(lt(r, add(r0, nr)))
        if nc is ONE: g.append(eq(c, c0))
        elif not (c0 is ZERO and nc is cols(v)):
            if c0 is not ZERO: g.append(le(c0, c))
            if add(c0, nc) is not cols(v): g.append(lt(c, add(c0, nc)))
        g = and_(*g)
        if nv.op in ('mlam',):
            x = cell(nv, ZERO if nr is ONE else sub(r, r0), ZERO if nc is ONE else sub(c, c0))
        else: x = cell(nv, ZERO if nr is ONE else sub(r, r0), ZERO if nc is ONE else sub(c, c0))
        return ite(g, x, cell(v, r, c))
    return mlam(f, rows(v), cols(v))


_g0, _s0 = engine.Interp.getstep, engine.Interp.setstep
def _getstep(self, v, s, tstr=None):
    if s[0] == 'blk': return blkget(v, s)
    return _g0(self, v, s, tstr)
def _setstep(self, v, steps, nv):
    if steps and steps[0][0] == 'blk':
        s = steps[0]
        if len(steps) > 1:
            nv = self.setstep(blkget(v, s), steps[1:], nv)
        return blkset(v, s, nv)
    return _s0(self, v, steps, nv)
engine.Interp.getstep = _getstep
engine.Interp.setstep = _setstep


def eigenbin(I, op, x, y):
    mx, my = ismatv(x), ismatv(y)
    if mx and my:
        return mlam(lambda r, c: padd(cell(x, r, c), cell(y, r, c)), rows(x), cols(x))
    if mx: return mlam(lambda r, c: padd(cell(x, r, c), y), rows(x), cols(x))
    return mlam(lambda r, c: padd(x, cell(y, r, c)), rows(y), cols(y))


def ismatv(x):
    if x.op in ('mlam', 'cupd'): return True
    if x.op == 'ite': return ismatv(x.a[1])
    return 'Eigen::' in (TY.get(x) or '')[:8]


def eigen(I, e, m):
    o = e['o']
    a = e['a']
    def L(): return I.deref(I.ev(o)) if e.get('arrow') else I.evl(o)
    if m in ('row', 'col', 'block', 'tail', 'head', 'topRows', 'segment', 'topLeftCorner', 'bottomRightCorner', 'leftCols'):
        lv = L()
        ix = [I.ev(x) for x in a]
        v = I.load(lv)
        last = lv.steps[-1] if lv.steps and lv.steps[-1][0] == 'blk' else None
        base = LV(lv.root, lv.steps[:-1]) if last else lv
        r0, c0, nr, nc = last[1:] if last else (ZERO, ZERO, rows(v), cols(v))
        if m == 'row': return base + ('blk', add(r0, ix[0]), c0, ONE, nc)
        if m == 'col': return base + ('blk', r0, add(c0, ix[0]), nr, ONE)
        if m == 'block' and len(ix) == 4: return base + ('blk', add(r0, ix[0]), add(c0, ix[1]), ix[2], ix[3])
        if m == 'topRows': return base + ('blk', r0, c0, ix[0], nc)
        if m in ('tail', 'head', 'segment'):
            n = ix[-1]
            off = {'tail': lambda t: sub(t, n), 'head': lambda t: ZERO, 'segment': lambda t: ix[0]}[m]
            if nr is ONE: return base + ('blk', r0, add(c0, off(nc)), ONE, n)
            return base + ('blk', add(r0, off(nr)), c0, n, ONE)
        return None
    if m in ('array', 'matrix', 'eval', 'derived', 'noalias'): return L()
    if m == 'transpose':
        v = I.load(L())
        return mlam(lambda r, c: cell(v, c, r), cols(v), rows(v))
    if m in ('min', 'cwiseMin', 'max', 'cwiseMax') and len(a) == 1:
        x = I.load(L()); y = I.ev(a[0])
        f = min_ if 'in' in m else max_
        def g(r, c):
            p, q_ = cell(x, r, c), (cell(y, r, c) if ismatv(y) else y)
            return f(p, q_)
        return mlam(g, rows(x), cols(x))
    if m in ('minCoeff', 'maxCoeff') and not a:
        x = I.load(L())
        return ty(mk('mat' + m, x), 'std::pair<double, bool>')
    if m in ('rows', 'cols', 'size'):
        lv = L()
        if lv.steps and lv.steps[-1][0] == 'blk':
            _, r0, c0, nr, nc = lv.steps[-1]
            return nr if m == 'rows' else nc if m == 'cols' else (nc if nr is ONE else nr if nc is ONE else mul(nr, nc))
        v = I.load(lv)
        return rows(v) if m == 'rows' else cols(v) if m == 'cols' else mul(rows(v), cols(v))
    if m in ('fill', 'setConstant') and len(a) == 1:
        lv = L(); x = I.ev(a[0]); v = I.load(lv)
        I.put(lv, mlam(lambda r, c: x, rows(v), cols(v))); return NONE
    if m in ('resize', 'conservativeResize') and len(a) == 2:
        lv = L(); nr, nc = I.ev(a[0]), I.ev(a[1]); v = I.load(lv)
        if m == 'resize': I.put(lv, mlam(lambda r, c: mk('undef', 'cell'), nr, nc))
        else: I.put(lv, mlam(lambda r, c: cell(v, r, c), nr, nc))
        return NONE
    if m == 'data':
        lv = L()
        return I.mkit(lv, 'mat', ZERO)
    if m in ('swap',): return None
    return None


_itlv0 = engine.Interp.itlv
def _itlv(self, p):
    if engine.Interp.itkind.get(p.a[0]) == 'mat':
        lv = engine.Interp.itconts[p.a[0]]
        v = self.load(lv)
        # linear position k <-> (row, column); which of the two is immaterial for uniform updates
        k = p.a[1]
        return lv + ('c', mk('lrow', k), mk('lcol', k))
    return _itlv0(self, p)
engine.Interp.itlv = _itlv


def matloop(init, lv, nxt, ix, lo, hi, others):
    """a loop in which every position is rewritten at most once: the comprehension over all cells.
    (other cells are read as they were before the loop)"""
    r = ty(mk('ix', 'mr%d' % fresh()), 'long'); c = ty(mk('ix', 'mc%d' % fresh()), 'long')
    body = cell(nxt, r, c)
    old = cell(lv, r, c)
    if body is old: return init
    if fv(body) & others: return None
    # rows that the equation leaves alone
    sols = []
    def scan(t, depth=0):
        if t.op in ('eq0',):
            k, d = lin_parts(t.a[0])
            if ix in d and abs(d[ix]) == 1 and set(d) <= {ix, r, c} and len(d) == 2:
                z = t.a[0] if d[ix] == -1 else neg(t.a[0])
                sols.append(add(z, ix))       # value of ix
        if t.op == 'eq' and ix in t.a:
            o = t.a[0] if t.a[1] is ix else t.a[1]
            if o in (r, c): sols.append(o)
        if t.op == 'eq' and {x.op for x in t.a} & {'lrow', 'lcol'}:
            sols.append('lin')
        for x in t.a:
            if isinstance(x, T): scan(x)
    scan(body)
    if not sols: return None
    if 'lin' in sols:
        if lo is not ZERO: return None
        lr, lc = mk('lrow', ix), mk('lcol', ix)
        b2 = subst2(body, {lr: r, lc: c})
        if ix in fv(b2): return None
        rng = TRUE if hi is mul(rows(init), cols(init)) else and_(lt(add(mul(r, cols(init)), c), hi))
        b2 = subst(b2, {lv: init})
        b2 = ite(rng, b2, cell(init, r, c))
    else:
        first = sols[0]
        if any(x is not first for x in sols): return None
        rng = []
        z = lo
        if sub(first, lo).op == 'num' and sub(first, lo).a[0] < 0: rng.append(FALSE)
        lo_abs = add(lo, sub(ZERO, ZERO))
        # position corresponding to the range ends
        off = sub(r if r in lin_parts(first)[1] else c, first)     # r = ix + off
        pos = r if r in lin_parts(first)[1] else c
        if add(lo, off) is not ZERO: rng.append(le(add(lo, off), pos))
        end = rows(init) if pos is r else cols(init)
        if add(hi, off) is not end: rng.append(lt(pos, add(hi, off)))
        g = and_(*rng)
        b2 = subst(body, {ix: first})
        b2 = subst(b2, {lv: init})
        b2 = ite(g, b2, cell(init, r, c))
    h = 1 + b2.h
    return mk('mlam', h, subst(b2, {r: ty(mk('bv', h), 'long'), c: ty(mk('bv', h, 'c'), 'long')}), rows(init), cols(init))


def subst2(t, m):
    memo = {}
    def go(x):
        if x in memo: return memo[x]
        r = m[x] if x in m else rebuild(x, go)
        memo[x] = r
        return r
    return go(t)
