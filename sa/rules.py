"""Dataflow rules that are not comparisons with a reference definition."""

class Rule:
    def __init__(s, name, props, fn, text): s.name, s.props, s.fn, s.text = name, props.split(), fn, text
    def run(s, P, pid):
        r = s.fn(P, pid)
        r.setdefault('rule', s.text)
        r.setdefault('status', 'differs' if r.get('findings') else 'undecided' if r.get('undecided') else 'holds')
        return r

RULES = []
def rule(name, props, text):
    def deco(f):
        RULES.append(Rule(name, props, f, text)); return f
    return deco


import re, time
import engine, frontend
from engine import clean
from terms import *


def walk(x):
    """every node of a syntax tree"""
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            yield n
            todo.extend(v for k, v in n.items() if k not in ('l', 't') and isinstance(v, (dict, list)))
        elif isinstance(n, list): todo.extend(n)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); yield x
        todo.extend(y for y in x.a if isinstance(y, T))


VERBOSE = False
def ENUM(P, en): return sorted(ENUMS.get(en, ()))
def KT(cls): return engine.KINDS[cls][0]


def exhaust(P, g):
    """a kind that is none of the others is the one that is left"""
    no = {}
    for x in conj(g):
        for y in conj(not_(x)):
            if y.op == 'eq' and y.a[1].op == 'enumc' and x is not_(y): no.setdefault(y.a[0], set()).add(y.a[1].a[0])
    for t, vs in no.items():
        en = next(iter(vs)).rsplit('::', 1)[0]
        if not all(v.startswith(en + '::') for v in vs): continue
        rest = [v for v in ENUM(P, en) if v not in vs]
        if len(rest) == 1: g = and_(g, eq(t, mk('enumc', rest[0])))
    return g


def own(P):
    """the functions of the repository (not of the reference definitions), each once"""
    seen = {}
    for f in P.functions.values():
        if not f.get('body') and not f.get('inits') or (f.get('q') or '').startswith('spec::'): continue
        l = f.get('l')
        if not l or not str(l[0]).startswith(frontend.REPO): continue
        k = (l[0], l[1], l[2] if len(l) > 2 else 0, f.get('sig'))
        if k not in seen or len(f.get('q') or '') < len(seen[k].get('q') or ''): seen[k] = f
    return list(seen.values())


KIND_ROOTS = {'TRE::TRE', 'TRE::~TRE', 'TRE::toEventTA', 'DNFTRE::DNFTRE', 'AtomicTRE::AtomicTRE', 'AtomicTRE::~AtomicTRE', 'AtomicTRE::toNormalForm', 'AtomicTRE::makeSNF',
              'AtomicTRE::toSignalTA', 'DNFTRE::toNormalForm', 'DNFTRE::makeSNF', 'DNFTRE::toSignalTA'}


@rule('kinds of expression nodes', 'P20', 'every access to a union member of an expression node happens where the kind of the node (or the alternative constructed last) is the one that has this member; '
      'destruction and construction alternate; when a function returns, the kind names the alternative that is alive')
def kinds(P, pid):
    import compare
    uses = {}
    for f in own(P):
        n = [x for x in walk([f.get('body'), f.get('inits')]) if x.get('k') == 'mem' and x.get('union')]
        if n or f['q'] in KIND_ROOTS and (f.get('isctor') or f.get('isdtor')): uses[f['f']] = f
    called = {}
    for f in own(P):
        for x in walk([f.get('body'), f.get('inits')]):
            if x.get('f') in uses and x['f'] != f['f']: called.setdefault(x['f'], set()).add(f['f'])
    roots = [f for k, f in uses.items() if f['q'] in KIND_ROOTS or f['q'].startswith('operator') or not called.get(k)]
    obl = eqn = 0
    out, und, an, promised = [], [], [], []
    for f in roots:
        rootf = {g['f'] for g in roots}
        S = engine.summarise_function(P, f, lambda g, q: g is None or g['f'] in rootf or g['f'] not in uses and not g.get('lambda'), kinds=True)
        C = compare.Comparer(P, S, S, seeds=60)
        asked = set()
        for k in S.kinds: asked |= {x.a[0] for x in subterms(k[4]) if x.op == 'eq'}
        for how, m, cls, loc, g, c, v in S.kinds:
            obl += 1
            g = exhaust(P, g)
            if g is FALSE or c is TRUE or assume(c, g, True) is TRUE: eqn += 1; continue
            what = dict(read='%s::%s used', start='%s::%s constructed', end='%s::%s destroyed', left='%s::%s left')[how] % (cls, m)
            if how == 'read' and v.op == 'bytag' and v.a[0] not in asked:
                # the kind is what a function called before has answered
                if not any('sym' == x.op and x.a[0] == 'this' and v.a[0] is getf(mk('deref', x), KT(cls)) for x in fv(v.a[0])):
                    promised.append('%s::%s in %s at %s' % (cls, m, f['q'], frontend.rel(loc))); eqn += 1; continue
            t0 = time.time()
            yield_ = C.term(what, loc, c, TRUE, [('A', x) for x in conj(g)])
            if VERBOSE: print('   %.1f' % (time.time() - t0), yield_, what, frontend.rel(loc), str(g)[:80], '|', str(c)[:80])
            if yield_ == 'undecided': und.append('%s in %s at %s' % (what, f['q'], frontend.rel(loc)))
            elif yield_ == 'differs':
                out.append(dict(key='kinds|%s|%s' % (f['q'], what), what='%s in %s where the node may be of another kind' % (what, f['q']) if how != 'left' else '%s in %s: kind and live alternative disagree' % (what, f['q']),
                                loc=frontend.rel(loc), detail=C.R.findings[-1].detail))
            else: eqn += 1
        an.append(dict(function=f['q'], at=frontend.rel(f['l']), accesses=len(S.kinds)))
    return dict(obligations=obl, equal=eqn, findings=out, undecided=und, nund=len(und), analysed=an + [dict(kind_answered_by_a_callee=p) for p in promised])


TESTS = {'find', 'count', 'contains', 'find_if', 'find_if_not', 'any_of', 'none_of', 'binary_search', 'lower_bound', 'equal_range', 'equal', 'set_difference', 'unique', 'remove_if', 'erase_if',
         'includes', 'is_permutation', 'try_emplace', 'first', 'second', 'insert_or_assign'}
GROW = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'push', 'merge', 'splice', 'append_range'}


def strip(x):
    while isinstance(x, dict) and x.get('k') in ('cast', 'paren', 'temp', 'bind'): x = x.get('e')
    return x or {}


def waiting(c):
    """the container of a loop that goes on for as long as something is in it"""
    c = strip(c)
    if c.get('k') == 'un' and c.get('op') == '!':
        e = strip(c.get('e'))
        if e.get('k') == 'mcall' and e.get('m') == 'empty': return strip(e['o'])
    if c.get('k') == 'bin' and c.get('op') in ('!=', '>', '<'):
        for e in (strip(y) for y in (c.get('a') or [c.get('x'), c.get('y'), c.get('lhs'), c.get('rhs')]) if isinstance(y, dict)):
            if e.get('k') == 'mcall' and e.get('m') == 'size': return strip(e['o'])
    if c.get('k') == 'mcall' and c.get('m') == 'size': return strip(c['o'])
    return None


@rule('worklists', 'P30', 'a loop that goes on for as long as a container holds configurations, and that adds the configurations its edges lead to, asks somewhere whether a configuration has been met before; '
      'otherwise it does not end when the edges form a cycle')
def worklists(P, pid):
    fns = {f['f']: f for f in P.functions.values() if f.get('body')}
    seen, out, an, obl = set(), [], [], 0

    def reach(x):
        """the nodes of a piece of code and of the functions of the repository it calls"""
        todo, done = [x], set()
        while todo:
            y = todo.pop()
            for n in walk(y):
                yield n
                g = fns.get(n.get('f'))
                if g is not None and g['f'] not in done and str((g.get('l') or [''])[0]).startswith(frontend.REPO):
                    done.add(g['f']); todo.append(g.get('body'))

    for f in own(P):
        for x in walk(f.get('body')):
            if x.get('k') not in ('while', 'for', 'do') or not x.get('c'): continue
            w = waiting(x['c'])
            if w is None or tuple(x.get('l') or ()) in seen: continue
            ns = list(reach([x.get('b'), x.get('inc')]))
            edges = any(n.get('k') == 'mem' and n.get('n', n.get('m')) in ('next', 'target', 'edges') for n in ns) or any(n.get('m') == 'lock' for n in ns)
            if not edges: continue
            T = clean(w.get('t') or '-')
            inits = {}
            for n in ns:
                if n.get('k') == 'decl':
                    for v in n.get('v') or []:
                        if v.get('init') is not None: inits[v.get('d')] = v['init']

            def asks(c, deep=6):
                """whether the value of a condition comes from a look into what is known"""
                for n in reach(c):
                    q = (n.get('m') or n.get('q') or n.get('n') or '').split('::')[-1]
                    if n.get('k') == 'mcall' and q in TESTS:
                        o = strip(n.get('o'))
                        if not (o.get('k') == 'mem' and o.get('n', o.get('m')) == 'next'): return True     # a look into the transitions says nothing
                    elif n.get('k') == 'call' and q in TESTS: return True
                    elif n.get('k') == 'mem' and q == 'second' and any(y.get('m') in ('insert', 'emplace', 'try_emplace') for y in walk(n)): return True
                    elif n.get('k') in ('idx', 'ocall') and clean(n.get('t') or '').endswith(('bool', 'std::_Bit_reference', 'vector<bool>::reference')) and (n.get('k') == 'idx' or n.get('op') == '[]'): return True
                    elif n.get('k') == 'ref' and deep and n.get('d') in inits:
                        i = inits[n['d']]
                        if i is not c and asks(i, deep - 1): return True
                    elif n.get('k') == 'mem' and clean(n.get('t') or '') == 'bool' and n.get('n', n.get('m')) not in ('isMatch', 'second', 'first', 'zeroDuration') and strip(n.get('b')).get('k') != 'this' and n.get('arrow'): return True   # a mark on the state
                return False

            grown = []

            def go(y, g, done):
                """the additions to the waiting configurations, each with the conditions it is under"""
                if isinstance(y, list):
                    h = list(g)
                    for z in y:
                        go(z, h, done)
                        if isinstance(z, dict) and z.get('k') == 'if' and any(n.get('k') in ('continue', 'break', 'return') for n in walk(z)): h.append(z.get('c'))
                    return
                if not isinstance(y, dict): return
                k = y.get('k')
                if k == 'mcall' and y.get('m') in GROW and clean(strip(y['o']).get('t') or '') == T: grown.append((y, list(g)))
                if k == 'if':
                    go(y.get('init'), g, done); go(y.get('c'), g, done)
                    h = g + [y.get('c')] + ([y['cv']] if y.get('cv') else [])
                    go(y.get('th'), h, done); go(y.get('el'), h, done); return
                if k == 'cond' or k == 'bin' and y.get('op') in ('&&', '||'):
                    go(y.get('c') or y['a'][0], g, done)
                    for z in y['a']: go(z, g + [y.get('c') or y['a'][0]], done)
                    return
                f2 = fns.get(y.get('f'))
                if f2 is not None and f2['f'] not in done and str((f2.get('l') or [''])[0]).startswith(frontend.REPO): go(f2.get('body'), g, done | {f2['f']})
                for kk, z in y.items():
                    if isinstance(z, (dict, list)): go(z, g, done)

            go(x.get('b'), [], frozenset())
            feeds = {w.get('n') or w.get('m')}
            for _ in range(4):
                for n in ns:
                    ts = n.get('a') or [] if n.get('k') in ('assign', 'cassign', 'ocall') and n.get('op') == '=' else [n.get('o')] + (n.get('a') or []) if n.get('k') == 'mcall' and n.get('m') in GROW | {'swap', 'assign'} else \
                        (n.get('a') or []) if n.get('k') == 'call' and str(n.get('q') or n.get('n')).endswith('swap') else []
                    ns2 = [{z.get('n') for z in walk(t) if isinstance(z, dict) and z.get('k') in ('ref', 'mem') and clean(z.get('t') or '') == T} for t in ts]
                    if ns2 and ns2[0] & feeds:
                        for z in ns2: feeds |= z
            grown = [(y, g) for y, g in grown if (strip(y['o']).get('n') or strip(y['o']).get('m')) in feeds or strip(y['o']).get('k') not in ('ref', 'mem') or not any(strip(z['o']).get('n') in feeds for z, _ in grown)]
            if not grown: continue
            seen.add(tuple(x['l'])); obl += 1
            sets = any(n.get('k') == 'call' and (n.get('q') or n.get('n') or '').split('::')[-1] in ('set_difference', 'unique', 'remove_if', 'erase_if', 'copy_if', 'remove_copy_if') for n in ns)
            bad = [y for y, g in grown if not any(asks(c) for c in g)]
            an.append(dict(function=f['q'], at=frontend.rel(x['l']), waiting=w.get('n') or w.get('m'), additions=len(grown), under_a_look_into_what_is_known=len(grown) - len(bad), reduced_to_what_is_new=sets))
            if bad and not sets:
                out.append(dict(key='%s|worklists|met before' % ','.join(re.findall(r'\b[A-Z]\w*State\b', T)[:1] or [T]), what='the loop over %s in %s follows edges without asking whether a configuration was met before' % (w.get('n') or 'a container', f['q']),
                                loc=frontend.rel(x['l']), detail='on a cycle of these edges it does not end; the addition is at ' + ', '.join(frontend.rel(y['l']) for y in bad)))
    return dict(obligations=obl, equal=obl - len(out), findings=out, undecided=[], nund=0, analysed=an)


@rule('conjunctions', 'P28', 'the parts of a conjunction are never put in sequence with the parts of another one by one: (x & y)r is not (xr) & (yr), because the two sequences may be cut at different times')
def conjunctions(P, pid):
    out, an, obl = [], [], 0
    CONJ = re.compile(r'^(const )?std::list<std::shared_ptr<AtomicTRE>.*> ?&?$')
    for f in own(P):
        parts = {}
        for x in walk(f.get('body')):
            if x.get('k') == 'rangefor' and CONJ.match(clean(strip(x.get('r')).get('t') or '')): parts[x['v'].get('d')] = x
        for x in walk(f.get('body')):
            if x.get('k') not in ('call', 'ctor', 'construct') or 'AtomicTRE' not in str(x.get('t')): continue
            a = [strip(y) for y in x.get('a') or []]
            if len(a) != 2: continue
            obl += 1
            two = [y.get('d') for y in a if y.get('k') == 'ref' and y.get('d') in parts]
            an.append(dict(function=f['q'], at=frontend.rel(x['l']), parts_of_conjunctions=len(two)))
            if len(two) == 2 and two[0] != two[1]:
                out.append(dict(key='conjunction|conjunctions|sequence of parts', what='%s puts every part of one conjunction in sequence with every part of another' % f['q'], loc=frontend.rel(x['l']),
                                detail='the sequences of the parts may be cut at different times'))
    return dict(obligations=obl, equal=obl - len(out), findings=out, undecided=[], nund=0, analysed=an)


import grammar
