"""boost::program_options: which options exist, what they are set to, what the parsed command line answers"""
from terms import *

PO = 'boost::program_options::'


def text(t): return t.a[0] if t.op == 'str' else None
def cliopts(v): return v.a if v.op == 'cliopts' else ()


def names(v):
    return [mk('str', n) for n in sorted('%s,%s,%s' % (o.a[0].a[0], o.a[1].a[0], '=' if o.a[2] is not NONE else '') for o in cliopts(v))]


def cmd(parser):
    """the parsed command line, as a value: arguments and the options looked for"""
    return mk('call', 'commandline', parser.a[0], parser.a[1], *names(parser.a[2]))


def entry(name, sem):
    n = text(name) or '?'
    l, _, s = n.partition(',')
    return mk('cliopt', mk('str', l), mk('str', s), sem.a[0] if sem is not None and sem.op == 'optvalue' else NONE, sem.a[1] if sem is not None and sem.op == 'optvalue' else NONE)


def optvalue(c, o):
    return ty(mk('call', 'option', c, o.a[0], o.a[3]), 'std::basic_string<char>' if o.a[3].op == 'str' else None)


def call(I, e, q):
    n = q[len(PO):].split('<')[0]
    a = e['a']
    if n == 'value':
        return mk('optvalue', I.ev(a[0]) if a else mk('str', '-'), NONE)
    if n == 'bool_switch':
        return mk('optvalue', I.ev(a[0]) if a else mk('str', '-'), FALSE)
    if n in ('store', 'notify'):
        vm = I.evl(a[1] if n == 'store' else a[0])
        if n == 'store':
            p = I.ev(a[0])
            I.put(vm, mk('vmap', p))
            I.maythrow('store', p.a[0] if p.op == 'parsed' else p)
            return NONE
        v = I.load(vm)
        p = v.a[0] if v.op == 'vmap' else NONE
        I.maythrow('notify', p.a[0] if p.op == 'parsed' else v)
        if p.op == 'parsed':
            for o in cliopts(p.a[1]):
                if o.a[2].op == 'addr': I.put(I.deref(o.a[2]), optvalue(p.a[0], o))
        return NONE
    if n == 'parse_command_line':
        p = mk('cmdparser', I.ev(a[0]), I.ev(a[1]), I.ev(a[2]))
        c = cmd(p)
        I.maythrow('run', c)
        return mk('parsed', c, p.a[2])
    if n == 'collect_unrecognized':
        v = I.ev(a[0])
        if v.op == 'fld' and v.a[0].op == 'parsed': v = v.a[0].a[0]
        return ty(mk('call', 'positional', v, I.ev(a[1])), 'std::vector<std::basic_string<char>>')


def vmapcall(I, e, oo):
    v = I.load(I.evl(oo)) if not e.get('arrow') else I.load(I.deref(I.ev(oo)))
    if v.op == 'vmap' and v.a[0].op == 'parsed':
        w = text(I.ev(e['a'][0]))
        c, os = v.a[0].a
        o = next((o for o in cliopts(os) if o.a[0].a[0] == w), None)
        if o is None: return ZERO
        if o.a[3] is not NONE: return ONE
        return ite(ty(mk('call', 'given', c, mk('str', w)), 'bool'), ONE, ZERO)


def mcall(I, e, q):
    n = q.split('::')[-1]
    cls = q[len(PO):].split('<')[0].split('::')[0]
    a = e['a']
    if cls == 'options_description':
        lv = I.evl(e['o'])
        if n == 'add_options': return mk('optinit', I.addr(lv))
        if n == 'add':
            I.put(lv, mk('cliopts', *(cliopts(I.load(lv)) + cliopts(I.ev(a[0])))))
            return lv
    if cls == 'typed_value':
        v = I.ev(e['o'])
        if v.op == 'optvalue':
            if n == 'default_value': return mk('optvalue', v.a[0], I.ev(a[0]))
            return mk('optvalue', v.a[0], mk('call', 'value.' + n, v.a[1], *[I.ev(x) for x in a]))
    if cls == 'basic_command_line_parser':
        lv = I.evl(e['o'])
        v = I.load(lv)
        if v.op == 'cmdparser':
            if n == 'options':
                I.put(lv, mk('cmdparser', v.a[0], v.a[1], I.ev(a[0])))
                return lv
            if n == 'run':
                c = cmd(v)
                I.maythrow('run', c)
                return mk('parsed', c, v.a[2])
            I.put(lv, mk('cmdparser', mk('call', 'cmdline.' + n, v.a[0], *[I.ev(x) for x in a]), v.a[1], v.a[2]))
            return lv


def ocall(I, e, q):
    if e['op'] == '()':
        v = I.ev(e['a'][0])
        if v.op != 'optinit': return
        lv = I.deref(v.a[0])
        a = [I.ev(x) for x in e['a'][1:]]
        sem = next((x for x in a if x.op == 'optvalue'), None)
        I.put(lv, mk('cliopts', *(cliopts(I.load(lv)) + (entry(a[0], sem),))))
        return v
    if e['op'] == '[]':
        v = I.ev(e['a'][0])
        if v.op == 'vmap' and v.a[0].op == 'parsed':
            w = text(I.ev(e['a'][1]))
            o = next((o for o in cliopts(v.a[0].a[1]) if o.a[0].a[0] == w), None)
            if o: return optvalue(v.a[0].a[0], o)


def ctor(I, e, q):
    n = q[len(PO):].split('<')[0].split('::')[0]
    a = e['a']
    if e.get('copy') or e.get('move'): return I.ev(a[0])
    if n == 'options_description': return ty(mk('cliopts'), e.get('t'))
    if n == 'variables_map': return ty(mk('vmap', NONE), e.get('t'))
    if n == 'basic_command_line_parser': return ty(mk('cmdparser', I.ev(a[0]), I.ev(a[1]) if len(a) > 1 else NONE, mk('cliopts')), e.get('t'))
