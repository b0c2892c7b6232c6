"""The lexer and the grammar: which texts are which tokens, which productions there are, what each of them builds and how ambiguities are settled."""
import re, os, subprocess, tempfile, copy, collections
import xml.etree.ElementTree as ET
import frontend, engine, compare
from rules import rule, walk, RULES


# ---------------------------------------------------------------- regular expressions of flex
POSIX = {'alpha': lambda c: chr(c).isalpha(), 'digit': lambda c: 48 <= c <= 57, 'alnum': lambda c: chr(c).isalnum(), 'blank': lambda c: c in (32, 9), 'space': lambda c: c in (32, 9, 10, 11, 12, 13),
         'upper': lambda c: 65 <= c <= 90, 'lower': lambda c: 97 <= c <= 122, 'punct': lambda c: 33 <= c <= 126 and not chr(c).isalnum(), 'xdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
         'print': lambda c: 32 <= c <= 126, 'graph': lambda c: 33 <= c <= 126, 'cntrl': lambda c: c < 32 or c == 127}
ESC = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7, 'b': 8, '0': 0}
class BadRegex(Exception): pass


class NFA:
    def __init__(s): s.n, s.eps, s.tr = 0, collections.defaultdict(list), collections.defaultdict(list)
    def new(s): s.n += 1; return s.n - 1


class Regex:
    """a flex pattern as an automaton"""
    def __init__(s, text, defs, nfa): s.t, s.i, s.defs, s.m = text, 0, defs, nfa
    def parse(s):
        r = s.alt()
        if s.i != len(s.t): raise BadRegex(s.t)
        return r
    def peek(s): return s.t[s.i] if s.i < len(s.t) else ''
    def alt(s):
        a = s.cat()
        while s.peek() == '|':
            s.i += 1
            b = s.cat()
            x, y = s.m.new(), s.m.new()
            s.m.eps[x] += [a[0], b[0]]; s.m.eps[a[1]].append(y); s.m.eps[b[1]].append(y)
            a = (x, y)
        return a
    def cat(s):
        a = None
        while s.peek() and s.peek() not in '|)':
            b = s.rep()
            if a is None: a = b
            else: s.m.eps[a[1]].append(b[0]); a = (a[0], b[1])
        if a is None: x = s.m.new(); a = (x, x)
        return a
    def rep(s):
        start = s.i
        a = s.atom()
        while s.peek() and (s.peek() in '*+?' or re.match(r'\{\d', s.t[s.i:])):
            c = s.peek()
            if c == '{':
                m = re.match(r'\{(\d+)(,(\d*))?\}', s.t[s.i:])
                if not m: raise BadRegex(s.t)
                body = s.t[start:s.i]
                s.i += m.end()
                lo = int(m.group(1)); hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
                parts = [body] * lo + (['(%s)*' % body] if hi is None else ['(%s)?' % body] * (hi - lo))
                a = Regex(''.join('(%s)' % p for p in parts), s.defs, s.m).parse()
                continue
            s.i += 1
            x, y = s.m.new(), s.m.new()
            s.m.eps[x].append(a[0]); s.m.eps[a[1]].append(y)
            if c in '*?': s.m.eps[x].append(y)
            if c in '*+': s.m.eps[a[1]].append(a[0])
            a = (x, y)
        return a
    def chars(s, cs):
        x, y = s.m.new(), s.m.new()
        s.m.tr[x].append((frozenset(cs), y))
        return x, y
    def escape(s):
        s.i += 1
        c = s.t[s.i]; s.i += 1
        if c == 'x':
            m = re.match(r'[0-9a-fA-F]{1,2}', s.t[s.i:]); s.i += m.end(); return int(m.group(), 16)
        return ESC.get(c, ord(c))
    def atom(s):
        c = s.peek()
        if c == '(':
            s.i += 1
            a = s.alt()
            if s.peek() != ')': raise BadRegex(s.t)
            s.i += 1
            return a
        if c == '"':
            s.i += 1
            x = s.m.new(); a = (x, x)
            while s.peek() != '"':
                if not s.peek(): raise BadRegex(s.t)
                if s.peek() == '\\': k = s.escape()
                else: k = ord(s.peek()); s.i += 1
                b = s.chars([k])
                s.m.eps[a[1]].append(b[0]); a = (a[0], b[1])
            s.i += 1
            return a
        if c == '[': return s.cls()
        if c == '{':
            m = re.match(r'\{([A-Za-z_][\w-]*)\}', s.t[s.i:])
            if not m or m.group(1) not in s.defs: raise BadRegex(s.t)
            s.i += m.end()
            return Regex(s.defs[m.group(1)], s.defs, s.m).parse()
        if c == '.': s.i += 1; return s.chars(set(range(256)) - {10})
        if c == '\\': return s.chars([s.escape()])
        if c in '^$/<': raise BadRegex(s.t)
        s.i += 1
        return s.chars([ord(c)])
    def cls(s):
        s.i += 1
        neg = s.peek() == '^'
        if neg: s.i += 1
        out, first = set(), True
        while first or s.peek() != ']':
            first = False
            if not s.peek(): raise BadRegex(s.t)
            m = re.match(r'\[:(\w+):\]', s.t[s.i:])
            if m:
                out |= {c for c in range(128) if POSIX[m.group(1)](c)}; s.i += m.end(); continue
            if s.peek() == '\\': a = s.escape()
            else: a = ord(s.peek()); s.i += 1
            if s.peek() == '-' and s.t[s.i + 1:s.i + 2] not in (']', ''):
                s.i += 1
                if s.peek() == '\\': b = s.escape()
                else: b = ord(s.peek()); s.i += 1
                out |= set(range(a, b + 1))
            else: out.add(a)
        s.i += 1
        return s.chars(set(range(256)) - out if neg else out)


class Lexer:
    """the patterns in order of precedence; the label of a set of states is that of the first pattern it completes"""
    def __init__(s, pats, defs=()):
        s.m = NFA(); s.start, s.end = [], {}
        for n, (p, label) in enumerate(pats):
            a, b = Regex(p, dict(defs), s.m).parse()
            s.start.append(a); s.end[b] = (n, label)
    def close(s, xs):
        out, todo = set(xs), list(xs)
        while todo:
            for y in s.m.eps[todo.pop()]:
                if y not in out: out.add(y); todo.append(y)
        return frozenset(out)
    def first(s): return s.close(s.start)
    def step(s, st, c): return s.close({y for x in st for cs, y in s.m.tr[x] if c in cs})
    def label(s, st):
        ls = [s.end[x] for x in st if x in s.end]
        return min(ls)[1] if ls else None


def differ(a, b):
    """a shortest text that the two read differently, and how many pairs of state sets there are"""
    todo, seen = collections.deque([(a.first(), b.first(), '')]), set()
    while todo:
        x, y, w = todo.popleft()
        if (x, y) in seen: continue
        seen.add((x, y))
        if a.label(x) != b.label(y): return w, a.label(x), b.label(y), len(seen)
        # letters that behave alike
        cls = collections.OrderedDict()
        for c in range(256):
            k = (a.step(x, c), b.step(y, c))
            if k[0] or k[1]: cls.setdefault(k, c)
        for (p, q), c in cls.items(): todo.append((p, q, w + chr(c)))
    return None, None, None, len(seen)


def readlexer(path):
    """definitions and patterns, in order"""
    secs, cur = [[]], 0
    for l in open(path).read().split('\n'):
        if l.strip() == '%%' and l.startswith('%%'): secs.append([]); continue
        secs[-1].append(l)
    defs, pats = {}, []
    inc = False
    for l in secs[0]:
        if l.startswith('%{'): inc = True
        if not inc:
            m = re.match(r'([A-Za-z_][\w-]*)[ \t]+(\S.*?)\s*$', l)
            if m: defs[m.group(1)] = '(' + m.group(2) + ')'
        if l.startswith('%}'): inc = False
    inc, depth = False, 0
    for n, l in enumerate(secs[1] if len(secs) > 1 else []):
        if l.startswith('%{'): inc = True
        if inc:
            if l.startswith('%}'): inc = False
            continue
        if depth == 0:
            if not l or l[0] in ' \t': continue
            i, q, c = 0, False, False
            while i < len(l):
                ch = l[i]
                if ch == '\\': i += 2; continue
                if not c and ch == '"': q = not q
                elif not q and ch == '[' : c = True if not l[i:].startswith('[:') or not c else c
                elif c and l[i:].startswith(':]'): i += 2; continue
                elif c and ch == ']': c = False
                elif not q and not c and ch in ' \t': break
                i += 1
            if l[:1] == '<' and re.match(r'<[\w*,]+>', l): raise BadRegex('start condition')
            pats.append((l[:i], len(secs[0]) + 2 + n))
            act = l[i:]
        else: act = l
        act = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', '', act)
        depth += act.count('{') - act.count('}')
    return defs, pats


# what the language of the patterns is: letters are atoms, numbers are bounds, blanks separate, a line end ends the pattern
REFERENCE = [(r'"|"', '"|"'), (r'"&"', '"&"'), (r'"*"', '"*"'), (r'"+"', '"+"'), (r'"%"', '"%"'), (r'"("', '"("'), (r'")"', '")"'), (r'"["', '"["'), (r'"]"', '"]"'), (r'","', '","'),
             (r'"<"', '"<"'), (r'">"', '">"'), (r'"<="', '"<="'), (r'">="', '">="'), (r'"="', '"="'), (r'[a-zA-Z$]', 'ATOM'), (r'[0-9]+', 'INT'), (r'[ \t]+', 'nothing'), (r'\n', '"end of file"')]


def switchof(fn, least):
    """the actions of a generated function: case number -> statements"""
    best = None
    for x in walk(fn['body']):
        if x.get('k') == 'switch':
            cs = [y for y in walk(x['b']) if y.get('k') == 'case']
            if best is None or len(cs) > best[0]: best = (len(cs), x)
    if best is None or best[0] < least: return {}
    out, cur = {}, None
    def add(s):
        nonlocal cur
        while s is not None and s.get('k') in ('case', 'default'):
            if s['k'] == 'default': cur = None
            else:
                v = s['v']
                while v.get('k') == 'cast': v = v['e']
                cur = v.get('v'); out[cur] = []
            s = s.get('b')
        if s is not None and cur is not None: out[cur].append(s)
    for s in best[1]['b']['b']: add(s)
    return {int(k): v for k, v in out.items() if k is not None and str(k).isdigit()}


def report():
    with tempfile.TemporaryDirectory() as d:
        subprocess.run(['bison', '--xml=' + d + '/g.xml', '-o', d + '/g.cc', '--defines=' + d + '/g.hh', frontend.REPO + '/monaa/tre_parser.yy'], capture_output=True, check=True)
        return ET.parse(d + '/g.xml').getroot(), open(d + '/g.hh').read()


def compared(P, name, code, spec, ignore=(), opaque=()):
    """one action against its reference definition"""
    op = lambda g, q: any(re.search(o, q) for o in opaque)
    A = engine.summarise_function(P, code, op)
    B = engine.summarise_function(P, spec, op)
    return compare.Comparer(P, A, B, seeds=80, ignore=ignore).run()


def specfn(P, n):
    fs = [f for f in P.byname.get('spec::' + n, []) if f.get('body')]
    return fs[0] if fs else None


@rule('tokens', 'P29', 'the patterns of the lexer, as one automaton with longest match and precedence, give every text the token of the reference table; '
      'each action returns the token that the grammar knows by that name, with the value written')
def tokens(P, pid):
    out, und, an = [], [], []
    root, hh = report()
    numbers = {int(t.get('token-number')): t.get('name') for t in root.iter('terminal')}
    enum = {m.group(1): int(m.group(2)) for m in re.finditer(r'^\s*(\w+) = (-?\d+)', hh, re.M)}
    alias = lambda c: numbers.get(enum.get(c.split('::')[-1], -99))
    fn = next((f for f in P.functions.values() if f['q'] == 'TREScanner::yylex' and f.get('body')), None)
    path = frontend.REPO + '/monaa/tre_lexer.l'
    if fn is None: return dict(undecided=['no TREScanner::yylex'], nund=1)
    defs, pats = readlexer(path)
    acts = switchof(fn, 10)
    obl = eqn = 0
    labelled = []
    end = any(m.group(1) == 'END' for m in re.finditer(r'#define yyterminate\(\) return\( *token::(\w+)', open(path).read()))
    for n, (p, line) in enumerate(pats, 1):
        body = acts.get(n)
        if body is None: und.append('action of %s' % p); continue
        toks = [x.get('n') or x.get('q') or '' for s in body for x in walk(s) if x.get('k') == 'enum' or x.get('k') == 'ref' and 'token' in str(x.get('q'))]
        toks = [str(t) for t in toks if alias(str(t))]
        lab = alias(toks[0]) if len(set(toks)) == 1 else 'nothing' if not toks and not any(x.get('k') == 'return' for s in body for x in walk(s)) else None
        if lab is None: und.append('the token of %s' % p); continue
        labelled.append((p, lab))
        an.append(dict(pattern=p, token=lab, line=line))
        ref = {'ATOM': 'lexLetter', 'INT': 'lexNumber'}.get(lab)
        if ref:
            obl += 1
            code = dict(fn); code['body'] = {'k': 'block', 'b': [s for s in body if s.get('k') != 'break' and not any(re.search(r'\blocation::(step|columns|lines)$', str(x.get('q'))) for x in walk(s))]}; code['q'] = 'action of ' + p
            sp = specfn(P, ref)
            if sp is None: und.append('value of %s' % lab); continue
            r = compared(P, p, code, sp, ignore=('location::',), opaque=('::build', 'location::'))
            if r.findings:
                f = r.findings[0]
                out.append(dict(key='tokens|%s|%s' % (lab, re.sub(r'\d+', '', f.what)), what='value of the token %s: %s' % (lab, f.what), loc='monaa/tre_lexer.l:%d' % line, detail=f.detail))
            elif r.undecided: und.append('value of %s: %s' % (lab, r.undecided[0]))
            else: eqn += 1
    obl += 1
    if len(labelled) == len(pats):
        try:
            w, a, b, n = differ(Lexer(labelled, defs), Lexer(REFERENCE))
            if w is None: eqn += 1
            else:
                l = next((x['line'] for x in an if x['token'] == a), 0)
                out.append(dict(key='tokens|%r' % w, what='the text %r is read as %s, required %s' % (w, a, b), loc='monaa/tre_lexer.l:%d' % l, detail='shortest text of %d state pairs' % n))
            an.append(dict(state_pairs=n))
        except BadRegex as e: und.append('pattern %s' % e)
    else: und.append('tokens of all texts')
    return dict(obligations=obl, equal=eqn, findings=out, undecided=und, nund=len(und), analysed=an)


# production -> reference definition of what it builds
PRODUCTIONS = {
    'unit: expr "end of file"': 'grUnit', 'expr: ATOM': 'grLetter', 'expr: "(" expr ")"': 'grSame', 'expr: expr "+"': 'grPlus', 'expr: expr "*"': 'grStar', 'expr: expr expr': 'grConcat',
    'expr: expr "|" expr': 'grOr', 'expr: expr "&" expr': 'grAnd', 'expr: expr "%" interval': 'grWithin',
    'interval: "(" INT "," INT ")"': 'grOpenOpen', 'interval: "[" INT "," INT ")"': 'grClosedOpen', 'interval: "(" INT "," INT "]"': 'grOpenClosed', 'interval: "[" INT "," INT "]"': 'grClosedClosed',
    'interval: "<" INT': 'grLess', 'interval: "<=" INT': 'grLessEq', 'interval: "=" INT': 'grEqual', 'interval: ">=" INT': 'grGreaterEq', 'interval: ">" INT': 'grGreater', 'interval: "(" interval ")"': 'grSame2'}
TYPES = {'expr': 'std::shared_ptr<TRE>', 'interval': 'std::shared_ptr<Interval>', 'ATOM': 'char', 'INT': 'int'}
BINARY = ['expr: expr expr', 'expr: expr "|" expr', 'expr: expr "&" expr']
AFTER = ['ATOM', '"|"', '"&"', '"*"', '"+"', '"%"', '"("']


def rewrite(x, n, vars):
    """$$ and $1, $2, ... in place of the accesses to the stack of the parser"""
    if isinstance(x, list): return [rewrite(y, n, vars) for y in x]
    if not isinstance(x, dict): return x
    if x.get('k') == 'mcall' and x.get('m') in ('as', 'emplace', 'build') and (x.get('q') or '').find('value_type') >= 0:
        refs = [y for y in walk(x['o']) if y.get('k') == 'ref' and y.get('n') == 'yylhs']
        if refs: return {'k': 'ref', 'd': '$$', 'n': '$$', 't': x.get('t'), 'l': x.get('l')}
        st = [y for y in walk(x['o']) if y.get('k') == 'ocall' and y.get('op') == '[]' and any(z.get('n') == 'yystack_' for z in walk(y))]
        if st:
            k = next((int(z['v']) for z in walk(st[0]['a'][1]) if z.get('k') == 'int'), None)
            if k is not None:
                d = '$%d' % (n - k); vars[d] = x.get('t')
                return {'k': 'ref', 'd': d, 'n': d, 't': x.get('t'), 'l': x.get('l')}
    return {k: rewrite(v, n, vars) if k not in ('l', 't') else v for k, v in x.items()}


@rule('productions', 'P14 P29', 'the grammar has exactly the productions of the reference table; the action of each builds, from the values of its own parts, what the reference definition builds')
def productions(P, pid):
    out, und, an = [], [], []
    root, hh = report()
    fn = next((f for f in P.functions.values() if f['q'].endswith('TREParser::parse') and f.get('body')), None)
    if fn is None: return dict(undecided=['no parser'], nund=1)
    acts = switchof(fn, 5)
    rules_ = {}
    for r in root.find('grammar').find('rules'):
        rhs = [s.text for s in r.find('rhs').findall('symbol')]
        rules_[int(r.get('number'))] = (r.find('lhs').text, rhs)
    names = {n: '%s: %s' % (l, ' '.join(r)) for n, (l, r) in rules_.items() if n}
    obl = eqn = 0
    extra = [x for x in names.values() if x not in PRODUCTIONS]
    only = (lambda n: n.startswith('interval')) if pid == 'P14' else (lambda n: True)
    for p in PRODUCTIONS:
        if p in names.values() or not only(p): continue
        obl += 1
        if extra: und.append('production %s (there are others: %s)' % (p, '; '.join(extra)[:200]))
        else: out.append(dict(key='productions|' + p, what='there is no production %s' % p, loc='monaa/tre_parser.yy:59', detail='the grammar has no such production and no other one'))
    und += ['production ' + x for x in extra]
    for n, name in sorted(names.items()):
        if name not in PRODUCTIONS or not only(name): continue
        obl += 1
        lhs, rhs = rules_[n]
        body = acts.get(n + 1, [])
        vars = {}
        body = rewrite(copy.deepcopy([s for s in body if s.get('k') != 'break']), len(rhs), vars)
        line = next((x['l'][1] for s in body for x in walk(s) if x.get('l') and x['l'][0].endswith('.yy')), 0)
        ps = [] if lhs == 'unit' else [{'n': '$$', 'd': '$$', 't': TYPES[lhs]}]
        ps += [{'n': '$%d' % (i + 1), 'd': '$%d' % (i + 1), 't': TYPES[s]} for i, s in enumerate(rhs) if s in TYPES]
        if lhs != 'unit' and body: body.append({'k': 'return', 'e': {'k': 'ref', 'd': '$$', 'n': '$$', 't': TYPES[lhs], 'l': fn['l']}, 'l': fn['l']})
        if not body and rhs and rhs[0] == lhs:       # the default action
            body = [{'k': 'return', 'e': {'k': 'ref', 'd': '$1', 'n': '$1', 't': TYPES[lhs], 'l': fn['l']}, 'l': fn['l']}]
        code = dict(fn); code.update(body={'k': 'block', 'b': body}, q='action of ' + name, ps=ps, f='action %d' % n)
        sp = specfn(P, PRODUCTIONS[name])
        if sp is None: und.append(name); continue
        try: r = compared(P, name, code, sp)
        except Exception as e: und.append('%s: %s' % (name, e)); continue
        an.append(dict(production=name, line=line, obligations=len(r.obligations)))
        if r.findings:
            f = r.findings[0]
            out.append(dict(key='productions|' + name, what='%s: %s' % (name, re.sub(r'new\(\d+\)', 'new', f.what)), loc='monaa/tre_parser.yy:%d' % line, detail=f.detail))
        elif r.undecided: und.append('%s: %s' % (name, r.undecided[0]))
        else: eqn += 1
    return dict(obligations=obl, equal=eqn, findings=out, undecided=und, nund=len(und), analysed=an)


@rule('grouping', 'P29', 'wherever the grammar leaves it open whether an operand ends, the parser table goes on reading: every conflict between a completed binary operator and a following token is settled by shifting')
def grouping(P, pid):
    out, und, an = [], [], []
    root, hh = report()
    rules_ = {}
    for r in root.find('grammar').find('rules'):
        rules_[r.get('number')] = '%s: %s' % (r.find('lhs').text, ' '.join(s.text for s in r.find('rhs').findall('symbol')))
    seen = {}
    for st in root.find('automaton'):
        done = {rules_[i.get('rule-number')] for i in st.find('itemset') if int(i.get('dot')) == len(rules_[i.get('rule-number')].split(': ', 1)[1].split(' ')) or i.get('dot') == '3' and rules_[i.get('rule-number')] in BINARY}
        a = st.find('actions')
        shifts = {t.get('symbol') for t in a.find('transitions') if t.get('type') == 'shift'}
        red = {r.get('symbol'): rules_.get(r.get('rule')) for r in a.find('reductions') if r.get('enabled') == 'true'}
        errs = {e.get('symbol') for e in a.find('errors')} if a.find('errors') is not None else set()
        for b in BINARY:
            k = len(b.split(': ')[1].split(' '))
            if not any(rules_[i.get('rule-number')] == b and int(i.get('dot')) == k for i in st.find('itemset')): continue
            for t in AFTER:
                how = 'shift' if t in shifts else 'error' if t in errs else 'reduce' if red.get(t, red.get('$default')) == b else 'other'
                seen.setdefault((b, t), set()).add((how, st.get('number')))
    obl = eqn = 0
    for b in BINARY:
        for t in AFTER:
            obl += 1
            hs = seen.get((b, t))
            if not hs: und.append('%s before %s' % (b, t)); continue
            bad = [(h, s) for h, s in hs if h != 'shift']
            if bad: out.append(dict(key='grouping|%s|%s' % (b, t), what='after %s the token %s makes the parser %s, required: read on' % (b, t, bad[0][0]), loc='monaa/tre_parser.yy:62', detail='state %s of the parser table' % bad[0][1]))
            else: eqn += 1
            an.append(dict(after=b, token=t, states=[s for _, s in hs]))
    return dict(obligations=obl, equal=eqn, findings=out, undecided=und, nund=len(und), analysed=an)
