"""check.py <property>: decides one property from the source of /repo and writes evidence/<property>.json"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, re, signal, subprocess, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import frontend

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
JOBTIME = 420 if TIER == 'quick' else 700


class TimeOut(Exception): pass
def _alarm(*a): raise TimeOut()


def norm(what):
    """stable name of an observable: no line numbers, no allocation numbers"""
    w = re.sub(r'(\.(?:hh|cc|yy|l)):\d+', r'\1', what)
    w = re.sub(r'new\(\d+\)', 'new', w)
    w = re.sub(r'ix[LP]\d+', 'ix', w)
    return re.sub(r'\bL\d+:', 'L:', w)


def task(t):
    kind, i = t
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOBTIME)
    try:
        if kind == 'job':
            import jobs, runjobs
            j = jobs.J[i]
            o = runjobs.run(PROG, j, seeds=80 if TIER == 'quick' else 600, seed0=SEED)
            r = dict(name=j.name, spec=j.spec, status=o.status, why=o.why, loc=frontend.rel(o.loc) if o.loc else None)
            if o.R:
                r.update(obligations=len(o.R.obligations), equal=o.R.equal, agreed=o.R.agreed, undecided=o.R.undecided[:40], nund=len(o.R.undecided),
                         findings=[dict(key='%s|%s|%s' % (j.code, j.spec, norm(f.what)), what='%s: %s' % (j.name, f.what),
                                        loc=frontend.rel(f.loc) if f.loc else None, detail=f.detail) for f in o.R.findings])
        else:
            import rules
            r = rules.RULES[i].run(PROG, PID)
            r['name'] = rules.RULES[i].name
    except TimeOut:
        r = dict(name=name(t), status='undecided', why='time bound of %d s' % JOBTIME)
    except RecursionError:
        r = dict(name=name(t), status='undecided', why='term depth')
    except Exception as e:
        r = dict(name=name(t), status='undecided', why='%s: %s' % (type(e).__name__, str(e)[:200]), trace=traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
    r['kind'] = kind
    r['s'] = round(time.time() - t0, 2)
    return r


def name(t):
    if t[0] == 'job':
        import jobs
        return jobs.J[t[1]].name
    import rules
    return rules.RULES[t[1]].name


def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\]\s*(.*)', l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def knows(kn, key):
    if (PID, key) in kn: return kn[(PID, key)]
    return kn.get((PID, '|'.join(key.split('|')[:2]) + '|*'))


def main():
    global PROG, PID
    PID = sys.argv[1]
    t0 = time.time()
    r = subprocess.run(['bash', os.path.join(VERIF, 'tools/build.sh')], capture_output=True, text=True)
    if r.returncode:
        print('the exporter does not build:', r.stderr[-2000:]); sys.exit(2)
    import engine, stdlib, compare, runjobs, jobs, rules
    props = {}
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        l = l.strip()
        if l: props[json.loads(l)['id']] = json.loads(l)
    PROG = frontend.Program()
    todo = [('job', i) for i, j in enumerate(jobs.J) if PID in j.props] + [('rule', i) for i, x in enumerate(rules.RULES) if PID in x.props]
    # the slow ones first
    todo.sort(key=lambda t: -(jobs.J[t[1]].cost if t[0] == 'job' else 2))
    res = []
    ctx = mp.get_context('fork')
    with ProcessPoolExecutor(8, mp_context=ctx) as ex:
        fs = {ex.submit(task, t): t for t in todo}
        for f in as_completed(fs):
            try: res.append(f.result())
            except Exception as e: res.append(dict(name=name(fs[f]), kind=fs[f][0], status='undecided', why='worker: %s' % str(e)[:100]))
    res.sort(key=lambda r: (r['kind'], r['name'], r.get('spec') or ''))
    kn = known()
    new, old = [], []
    for r in res:
        for f in r.get('findings', []):
            (old if knows(kn, f['key']) else new).append(f)
    obl = sum(r.get('obligations', 0) for r in res)
    dis = sum(r.get('equal', 0) + r.get('agreed', 0) for r in res)
    for f in old: f['known'] = knows(kn, f['key'])
    ev = dict(property=PID, tier=TIER, seed=SEED, level='other', wall_s=round(time.time() - t0, 2), violations=len(new),
              coverage=dict(
                  explanation='Static analysis of the source of /repo as it is now (clang syntax trees of every translation unit of libmonaa, monaa and tre2ta, '
                              'generated grammar code included). Functions are summarised as value graphs and compared, observable by observable, '
                              'with the reference definitions in /verif/spec; dedicated dataflow rules inspect every function of the call graph. '
                              'No code of /repo is executed.',
                  units=PROG.units, functions_in_program=len(PROG.functions),
                  functions_compared=[dict(function=r['name'], at=r.get('loc'), reference=r.get('spec'), status=r['status'], why=r.get('why'),
                                           obligations=r.get('obligations', 0), same_value_number=r.get('equal', 0), agreed_by_random_interpretation=r.get('agreed', 0),
                                           not_decided=r.get('undecided', []), s=r['s']) for r in res if r['kind'] == 'job'],
                  rules_applied=[dict(rule=r['name'], status=r['status'], what=r.get('rule'), why=r.get('why'), sites=r.get('obligations', 0), discharged=r.get('equal', 0),
                                      analysed=r.get('analysed', [])[:400], not_decided=r.get('undecided', []), s=r['s']) for r in res if r['kind'] == 'rule'],
                  obligations=obl, discharged=dis, not_decided=sum(r.get('nund', 1 if r['status'] == 'undecided' else 0) for r in res),
                  reference_definitions_not_fitting=PROG.specfail,
                  samples=(new + old)[:5] or [dict(function=r['name'], at=r.get('loc'), status=r['status']) for r in res[:5]]),
              assumptions=['clang 18 front end and the exporter render the program faithfully', 'the reference definitions in /verif/spec state the property',
                           'an observable listed as not decided is not covered'],
              known_findings=[f['key'] for f in old])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'), indent=1)
    print('%s: %d functions against their reference definitions, %d rules, %d obligations, %d discharged, %d findings (%d known), %.0f s'
          % (PID, sum(r['kind'] == 'job' for r in res), sum(r['kind'] == 'rule' for r in res), obl, dis, len(new) + len(old), len(old), time.time() - t0))
    for r in res:
        if r['status'] in ('undecided', 'absent'):
            print('  not decided: %s %s' % (r['name'], r.get('why') or ('%d of %d observables' % (r.get('nund', 0), r.get('obligations', 0)))))
    seen = set()
    for f in old:
        if f['known'] in seen: continue
        seen.add(f['known'])
        print('KNOWN-FINDING: property=%s %s' % (PID, f['known']))
    if new:
        rp = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rp, exist_ok=True)
        p = os.path.join(rp, PID + '.json')
        json.dump(new, open(p, 'w'), indent=1)
        for f in new:
            print('  %s at %s: %s' % (f['what'], f['loc'], f['detail'][:500]))
        print('VIOLATION property=%s replay=%s' % (PID, p))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
