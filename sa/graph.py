"""model of boost::adjacency_list: vertices and edges in a fixed order, and what is attached to each of them"""
from terms import *
from terms import T
import engine


def value(I, t, type_):
    """an unnamed object that has this value"""
    ty(t, type_)
    r = ('h', t)
    I.st.store.setdefault(r, t)
    return engine.LV(r)


def span(I, t, elem):
    lv = value(I, t, 'std::vector<%s>' % elem)
    return rec(NONE, {'first': I.mkit(lv, 'seq', ZERO), 'second': I.mkit(lv, 'seq', size(t))})


def attribute(I, g, x, type_):
    return value(I, mk('call', 'attributes', g, x), type_)


def isgraph(t): return 'boost::adjacency_list<' in (t or '')[:40]


def call(I, e, q):
    a = e['a']
    n = q.split('::')[-1].split('<')[0]
    if not a or not any(isgraph(x.get('t')) for x in a): return None
    if n == 'vertices': return span(I, mk('call', 'vertices', I.ev(a[0])), 'unsigned long')
    if n == 'num_vertices': return size(I.load(value(I, mk('call', 'vertices', I.ev(a[0])), 'std::vector<unsigned long>')))
    if n in ('out_edges', 'in_edges'):
        x = I.ev(a[0]); g = I.ev(a[1])
        return span(I, mk('call', n, x, g), 'edge')
    if n == 'edges': return span(I, mk('call', n, I.ev(a[0])), 'edge')
    if n in ('source', 'target'):
        x = I.ev(a[0]); g = I.ev(a[1])
        return ty(mk('call', n, x, g), 'unsigned long')
    if n == 'get' and len(a) == 3 and a[0].get('k') == 'un' and '::*' in (a[0].get('t') or ''):
        g = I.ev(a[1]); x = I.ev(a[2])
        return attribute(I, g, x, a[0]['t'].split('::*')[0].split(' ')[-1]) + ('f', a[0]['e']['n'])
    return None


def index(I, e):
    a = e['a']
    g = I.ev(a[0]); x = I.ev(a[1])
    return attribute(I, g, x, engine.clean(e.get('t')))
