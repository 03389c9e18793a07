#!/usr/bin/env python3
"""Decides one property: extracts /repo's headers, compiles every contract unit of the property against the
symbolic Blitz shim, runs the VC generator, discharges the remaining obligations with SMT solvers and reports.
usage: run.py PROPERTY [--tier quick|thorough] [--repo DIR] [--unit NAME] [--keep]"""
import sys, os, json, subprocess, time, shutil, tempfile, hashlib, argparse, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS

ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--repo', default='/repo'); ap.add_argument('--unit'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--conc', action='store_true'); ap.add_argument('--list', action='store_true')
a = ap.parse_args()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1); TIER = a.tier if a.tier in ('quick', 'thorough') else 'quick'
T0 = time.time(); PROP = a.prop; spec = PROPS[PROP]
BUDGET = 840 if TIER == 'quick' else 6 * 3600          # seconds for the whole check
units = [u for u in spec['units'] if (TIER == 'thorough' or u.get('tier', 'quick') == 'quick') and (not a.unit or u['name'] == a.unit)]
if a.list:
    for u in units: print(u['name'], u.get('flags', ''))
    sys.exit(0)
W = tempfile.mkdtemp(prefix='vck_')
LIBS = ['-lz3', '-lgmpxx', '-lgmp', '-lboost_timer', '-lboost_thread', '-lboost_system', '-pthread']
def left(): return BUDGET - (time.time() - T0)
def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    t = time.time()
    try:
        pre = (lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (mem, mem))) if mem else None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, preexec_fn=pre)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace'), time.time() - t
ext = os.path.join(W, 'ext')
rc, out, err, _ = sh([sys.executable, os.path.join(HERE, 'extract.py'), a.repo, ext])
if rc: print('extraction failed', err); 
extract_line = out.strip()
print(extract_line)
CXX = ['g++', '-fno-access-control', '-std=c++17', '-w', '-pthread', '-fmax-errors=5']

def build_engine():
    return sh(CXX + ['-O2', '-c', os.path.join(HERE, 'engine.cpp'), '-I' + HERE, '-o', W + '/engine.o'], timeout=300)
def flags(u): return [x for x in u.get('flags', '').split(' ') if x]
def comp_sym(u):
    src = os.path.join(VERIF, 'harness', u['file'])
    return sh(CXX + ['-O0', '-DNDEBUG'] + flags(u) + ['-I' + HERE, '-I' + HERE + '/shim', '-I' + VERIF + '/harness', '-I' + ext, '-DUNITNAME="%s"' % u['name'], '-c', src, '-o', '%s/%s.o' % (W, u['name'])], timeout=600, mem=6 << 30)
def comp_conc(u):
    src = os.path.join(VERIF, 'harness', u['file'])
    return sh(CXX + ['-O1', '-DCONC', '-DBZ_DEBUG'] + flags(u) + ['-I' + VERIF + '/harness', '-I' + a.repo, '-DUNITNAME="%s"' % u['name'], src, '-o', '%s/%s.conc' % (W, u['name']), '-lblitz', '-lboost_timer', '-lboost_thread', '-lboost_system', '-pthread'], timeout=900, mem=8 << 30)
SOLVERS = [['z3-new', '-T:%d'], ['cvc5', '--tlimit=%d000', '--nl-ext-tplanes']]
import threading, signal
CPU = threading.Semaphore(8)
def smt(path):
    """unsat = obligation discharged. z3 and cvc5 race; the first definite answer wins."""
    lim = 60 if TIER == 'quick' else 600
    t0 = time.time(); ans = 'unknown'; who = ''
    with CPU:
        ps = []
        for s in SOLVERS[:2]:
            l = int(max(1, min(lim, left() - 20)))
            ps.append((s[0], subprocess.Popen([s[0]] + [x % l if '%' in x else x for x in s[1:]] + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
        live = list(ps); d = .002
        while live and ans == 'unknown' and time.time() - t0 < lim + 5:
            for s, p in list(live):
                if p.poll() is not None:
                    live.remove((s, p)); o = p.stdout.read().decode(errors='replace').strip().split('\n')[0]
                    if o in ('sat', 'unsat') and ans == 'unknown': ans, who = o, s
            if ans == 'unknown' and live: time.sleep(d); d = min(.05, d * 1.5)
        for s, p in ps:
            if p.poll() is None: p.kill()
            p.wait(); p.stdout.close()
    return ans, who, time.time() - t0
def smt_model(path):
    txt = open(path).read() + '\n(get-model)\n'; q = path + '.m'; open(q, 'w').write(txt)
    return sh(['z3-new', '-T:20', q], timeout=25)[1][:4000]

def run_sym(u):
    out = os.path.join(W, 'out_' + u['name']); os.makedirs(out, exist_ok=True)
    env = dict(os.environ, SYM_OUT=out, SYM_TMAX=str(min(u.get('tmax', 300 if TIER == 'quick' else 3600), max(5, left() - 60))))
    rc, o, e, t = sh([W + '/' + u['name']], timeout=min(u.get('tmax', 300 if TIER == 'quick' else 3600) + 60, max(10, left() - 30)), env=env, mem=8 << 30)
    fs = glob.glob(out + '/*.json')
    if rc != 0 or not fs: return {'unit': u['name'], 'unsupported': 'VC generator ended with code %d: %s' % (rc, e[-400:]), 'open': [], 'proved': {}, 'counters': {}, 'kinds': {}, 'obligations': 0, 'paths': 0, 'wall': t, 'lia_time': 0, 'lia_queries': 0}
    return json.load(open(fs[0]))

def process(u):
    r = {'name': u['name'], 'flags': u.get('flags', ''), 'file': u['file'], 'status': None, 'smt': {}, 'smt_time': 0, 'undecided': [], 'refuted': []}
    rc, o, e, t = comp_sym(u); r['compile_s'] = round(t, 1)
    if rc: r['status'] = 'unsupported'; r['why'] = 'does not compile against the symbolic shim: ' + ' / '.join([l for l in e.split('\n') if 'error' in l][:3])[:600]; return r
    eng.result()
    rc, o, e, t = sh(['g++', '%s/%s.o' % (W, u['name']), W + '/engine.o', '-o', W + '/' + u['name']] + LIBS, timeout=120)
    if rc: r['status'] = 'unsupported'; r['why'] = 'link: ' + e[-300:]; return r
    j = run_sym(u)
    r['json'] = {k: j[k] for k in ('paths', 'obligations', 'wall', 'lia_time', 'lia_queries', 'proved', 'kinds', 'counters', 'rejected', 'infeasible') if k in j}
    if j['unsupported']: r['status'] = 'unsupported'; r['why'] = j['unsupported']
    pend = {}
    for ob in j['open']:
        if ob['status'] == 'pending': pend.setdefault(ob['file'], []).append(ob)
        else: (r['refuted'] if ob['kind'] in ('int', 'race', 'real-const', 'fail', 'exception') or 'uninitialised' in ob['detail'] else r['undecided']).append(ob)
    with ThreadPoolExecutor(4) as sx: answers = list(sx.map(smt, pend))
    for (f, obs_), (res, who, t) in zip(pend.items(), answers):
        r['smt_time'] += t
        if res == 'unsat': r['smt'][who] = r['smt'].get(who, 0) + sum(o.get('count', 1) for o in obs_)
        elif res == 'sat': ob = dict(obs_[0]); ob['model'] = smt_model(f); ob['smt2'] = open(f).read()[:20000]; r['refuted'].append(ob)
        else: r['undecided'].append(obs_[0])
    nsmt = sum(r['smt'].values())
    r['obligations'] = j['obligations']; r['discharged'] = sum(j['proved'].values()) + nsmt
    miss = [c for c in u.get('covers', ['end']) if not j['counters'].get('cover:' + c)]
    if r['status'] is None:
        if r['refuted']: r['status'] = 'refuted'
        elif r['undecided']: r['status'] = 'undecided'
        elif miss: r['status'] = 'vacuous'; r['why'] = 'never reached: ' + ','.join(miss)
        elif r['discharged'] != r['obligations']: r['status'] = 'undecided'; r['why'] = 'obligations lost'
        elif j['obligations'] == 0: r['status'] = 'vacuous'; r['why'] = 'no obligation'
        else: r['status'] = 'proved'
    if r['status'] == 'unsupported' and r['refuted']: r['status'] = 'refuted'
    return r

def conc(u, trials, tmax):
    if not os.path.exists('%s/%s.conc' % (W, u['name'])):
        rc, o, e, t = comp_conc(u)
        if rc: return 'nocompile', ' / '.join([l for l in e.split('\n') if 'error' in l][:3])[:600]
    env = dict(os.environ, CONC_TMAX=str(tmax), VERIF_SEED=str(SEED))
    d = W + '/run_' + u['name']; os.makedirs(d, exist_ok=True)
    rc, o, e, t = sh([W + '/' + u['name'] + '.conc', str(trials)], timeout=tmax + 60, env=env, cwd=d)
    line = [l for l in o.split('\n') if l.startswith('CONC-')]
    if rc == 0 and line: return 'ok', line[-1]
    if rc == 1 and line: return 'fail', line[-1]
    if rc == 124: return 'timeout', 'no end within %d s' % (tmax + 60)
    return 'crash', 'ended with code %d: %s' % (rc, (o + e)[-800:])

known = {}   # unit -> finding
kf = os.path.join(VERIF, 'known-findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        m = __import__('re').match(r'KNOWN: property=(\S+) unit=(\S+) (.*)', l)
        if m and m.group(1) == PROP: known[m.group(2)] = m.group(3).strip()
results = []
with ThreadPoolExecutor(8) as ex:
    eng = ex.submit(build_engine)
    if not a.conc: results = list(ex.map(process, units))
    else:
        for u, r in zip(units, ex.map(lambda u: conc(u, 300, 30), units)): print(u['name'], r)
        shutil.rmtree(W, ignore_errors=True); sys.exit(0)

bad = [r for r in results if r['status'] != 'proved']
violations = []; bounded = []
byname = {u['name']: u for u in units}
repdir = os.path.join(VERIF, 'evidence', 'replay', PROP)
shutil.rmtree(repdir, ignore_errors=True)
if bad:
    order = {'refuted': 0, 'undecided': 1, 'vacuous': 2, 'unsupported': 3}
    bad = [r for r in bad if r['name'] in known] + [r for r in bad if r['name'] not in known]
    bad.sort(key=lambda r: (order[r['status']], byname[r['name']].get('cost', 1)))
    for r in bad: print('NOT-PROVED unit=%s status=%s %s' % (r['name'], r['status'], (r.get('why') or (r['refuted'] + r['undecided'])[0]['label'] + ': ' + (r['refuted'] + r['undecided'])[0]['detail'])[:300]))
    from concurrent.futures import as_completed
    sel = bad[:16] if TIER == 'quick' else bad
    with ThreadPoolExecutor(8) as ex:
        per = max(10, min(60 if TIER == 'quick' else 600, (left() - 150) / max(1, (len(sel) + 7) // 8)))
        def one(r): return r, conc(byname[r['name']], 100000, per)
        for r, c in ex.map(one, sel): r['conc'] = c; print('CONCRETE unit=%s %s %s' % (r['name'], c[0], c[1][:300]))
    for r in bad:
        c = r.get('conc')
        if r['name'] in known and c and c[0] in ('fail', 'crash'): r['known'] = True; continue
        if c and c[0] in ('fail', 'crash'): violations.append((r, True))
        elif r['status'] == 'refuted': violations.append((r, False))
        else: bounded.append(r)
rcode = 0; vlines = []
for i, (r, found) in enumerate(violations):
    os.makedirs(repdir, exist_ok=True); p = os.path.join(repdir, r['name'] + '.json')
    json.dump({'property': PROP, 'unit': r['name'], 'harness': 'harness/' + r['file'], 'flags': r['flags'], 'status': r['status'], 'failed_obligations': r['refuted'][:20] + r['undecided'][:20],
               'concrete': r.get('conc'), 'how_to_replay': 'python3 engine/run.py %s --unit %s' % (PROP, r['name']), 'verifier': 'engine/engine.cpp + z3/cvc5'}, open(p, 'w'), indent=1)
    vlines.append('VIOLATION property=%s replay=%s%s' % (PROP, p, '' if found else ' no-failing-input-found'))
vlines.sort(key=lambda l: l.endswith('found'))
if vlines and not any(not l.endswith('found') for l in vlines): print(vlines[0]); rcode = 1
elif vlines: print(vlines[0]); rcode = 1
for r in results:
    if r.get('known'): print('KNOWN-FINDING: property=%s unit=%s %s' % (PROP, r['name'], known[r['name']]))

tot = sum(r.get('obligations', 0) for r in results); dis = sum(r.get('discharged', 0) for r in results)
backs = {'z3 LIA (in process)': sum(r.get('json', {}).get('kinds', {}).get('int', 0) for r in results), 'ring normal form / congruence / summation re-indexing': sum(v for r in results for k, v in r.get('json', {}).get('kinds', {}).items() if k.startswith(('eq', 'sum', 'real-const')))}
for r in results:
    for k, v in r['smt'].items(): backs[k] = backs.get(k, 0) + v
fns = sorted({k[3:] for r in results for k in r.get('json', {}).get('counters', {}) if k.startswith('fn:')})
ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': spec.get('level', 'proof'), 'wall_s': round(time.time() - T0, 1),
 'coverage': {'obligations': tot, 'discharged': dis, 'checker_cmd': 'python3 engine/run.py %s --tier %s' % (PROP, TIER),
   'trusted_base': ['engine/engine.cpp (VC generator, ring normal form)', 'engine/extract.py (int->vint, double->vreal token substitution)', 'engine/shim/blitz (contract of the Blitz++ dependency)', 'z3 / cvc5', 'g++'],
   'units': [{'unit': r['name'], 'config': r['flags'], 'status': r['status'], 'obligations': r.get('obligations', 0), 'discharged': r.get('discharged', 0), 'paths': r.get('json', {}).get('paths'), 'rejected_paths': r.get('json', {}).get('rejected'), 'seconds': round(r.get('json', {}).get('wall', 0), 2), 'labels': len(r.get('json', {}).get('proved', {})), **({'why': r['why']} if r.get('why') else {}), **({'bounded_stand_in': r['conc']} if r.get('conc') else {})} for r in results],
   'back_ends': backs, 'solver_seconds': round(sum(r['smt_time'] + r.get('json', {}).get('lia_time', 0) for r in results), 1), 'functions_under_contract': fns,
   'loops_summarised_with_frame': sum(r.get('json', {}).get('counters', {}).get('loops_summarised', 0) for r in results),
   'bounded_units': [r['name'] for r in bounded], 'known_findings': [r['name'] for r in results if r.get('known')], 'extraction': extract_line},
 'assumptions': ['real arithmetic is exact (no rounding, no overflow, no NaN)', 'machine int treated as mathematical integer', 'Blitz++ arrays/expressions behave as in engine/shim (element-wise maps, no allocation failure)', 'asserts compiled out (NDEBUG)'] + spec.get('assumptions', []),
 'violations': len(violations), 'violation_details': [{'unit': r['name'], 'status': r['status'], 'concrete': r.get('conc')} for r, f in violations]}
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w'), indent=1)
print('%s: %d units, %d/%d obligations discharged, %d proved, %d bounded, %d violated, %.0f s' % (PROP, len(results), dis, tot, sum(r['status'] == 'proved' for r in results), len(bounded), len(violations), time.time() - T0))
for b in bounded: print('BOUNDED unit=%s (%s) stand-in: %s' % (b['name'], b['status'], b.get('conc')))
if a.keep: print('kept', W)
else: shutil.rmtree(W, ignore_errors=True)
sys.exit(rcode)
