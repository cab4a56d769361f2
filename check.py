import re
#!/usr/bin/env python3
"""check.py ID  -- decide one property of /repo's current tree by static analysis.
exit 0: no obligation is violated; exit 1: VIOLATION line printed; exit 2: the analysis itself is broken."""
import sys, os, json, time, shutil, signal, tempfile, traceback, multiprocessing as mp
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)
import build, interp, props, known

TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def run_driver(job):
    path, drv, limits = job
    sys.setrecursionlimit(20000)
    left = max(2, min(limits['time'], limits['deadline'] - time.time())); limits = dict(limits, time=left)
    def late(*a): raise TimeoutError('analysis time')
    signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, left + 30)
    try:
        p = run_driver.cache.get(path)
        if p is None: p = run_driver.cache[path] = interp.Program(path)
        I = interp.Interp(p, limits)
        I.stop_first = False
        I.run(drv)
        repo = build.REPO.rstrip('/') + '/'
        fns = sorted({p.fns[n].dem for n in I.functions if (p.fns[n].file or '').startswith(repo)})
        ids = {i for i, f in enumerate(p.files) if f.startswith(repo)}; lines = set()
        for n in I.functions:
            for blk in p.fns[n].code:
                for x in blk:
                    if x[1] and x[1] // 1000000 in ids: lines.add((p.files[x[1] // 1000000][len(repo):], x[1] % 1000000))
        return drv, {'stats': I.stats, 'asserts': I.asserts, 'undecided': I.undecided, 'violations': I.violations, 'reached': I.reached, 'functions': fns, 'lines': lines, 'nfun': len(I.functions), 'uncut': I.uncut}
    except Exception:
        return drv, {'error': traceback.format_exc()[-3000:]}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
run_driver.cache = {}

def say(s): print(s, flush=True)

def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try: return go(pid, P, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def go(pid, P, work, t0):
    build.tool('irdump')
    violations = []; undecided = {}; broken = []; failed = []; decided = 0; cov = {'drivers': {}, 'units': []}
    tot = {'partitions': 0, 'steps': 0, 'obligations': 0, 'discharged': 0, 'splits': 0, 'joins': 0, 'infeasible': 0}
    functions = set(); lines = set(); jobs = []; nfun = 0
    depth = ['VP_THOROUGH=1'] if TIER == 'thorough' else []
    for u in P.get('units', ()):
        try:
            js = build.lower(u['name'], u['drivers'] + ['rt.cpp'], u.get('sources', []), work, defs=list(u.get('defs', ())) + depth, extra=u.get('extra', ()))
        except build.BuildError as e:
            broken.append('unit %s: %s' % (u['name'], str(e)[-2500:])); continue
        names = sorted(n for n in json.load(open(js))['fns'] if n.startswith('drv_' + u.get('prefix', pid.lower()) + '_'))
        names = [n for n in names if not n.startswith('drv_%s_deep' % pid.lower()) or TIER == 'thorough']
        if not names: broken.append('unit %s defines no obligation' % u['name']); continue
        lim = {'deadline': t0 + (3000 if TIER == 'thorough' else 700), 'time': 700 if TIER == 'thorough' else 200, 'steps': 4000000, 'paths': 400000}
        lim.update(u.get('limits', {}))
        cov['units'].append({'unit': u['name'], 'sources': u.get('sources', []), 'definitions': list(u.get('defs', ())), 'entry points': len(names)})
        # drivers over short inputs take far fewer steps than the limit (at most 60000): reaching it is a loop without end
        jobs += [(js, n, lim if re.search('size|long|deep|loop|large|many', n) else dict(lim, hang=True), u['name']) for n in names]
    if jobs:
        with mp.Pool(min(8, len(jobs)), maxtasksperchild=20) as pool:
            rs = pool.imap_unordered(run_driver_named, jobs, chunksize=1)
            for unit, drv, r in rs:
                key = drv[4:] if len(P['units']) == 1 else '%s[%s]' % (drv[4:], unit)
                if 'error' in r: failed.append('%s: %s' % (key, r['error'])); continue
                decided += 1
                for k in tot: tot[k] += r['stats'].get(k, 0)
                functions.update(r['functions']); lines |= r['lines']; nfun = max(nfun, r['nfun'])
                cov['drivers'][key] = {'obligations': r['stats']['obligations'], 'discharged': r['stats']['discharged'], 'partitions': r['stats']['partitions'], 'joins': r['stats']['joins'], 'longest': r['stats']['longest'], 'undecided': sum(r['undecided'].values()), 'complete': r['uncut']}
                for w, n in r['undecided'].items(): undecided['%s: %s' % (key, w)] = n
                for v in r['violations']: v['driver'] = key; violations.append(v)
                if r['stats']['obligations'] == 0 and not r['undecided'] and not r['violations']: failed.append('%s: no obligation was reached' % key)
    # an entry point the analysis gave up on is undecided as long as the others were analysed
    if failed and decided >= len(failed):
        for b in failed: undecided['%s: the analysis gave up (%s)' % (b.split(':')[0], b.strip().splitlines()[-1][:160])] = 1
    else: broken += failed
    # syntactic / type-level rules
    for rule in P.get('rules', ()):
        try: res = rule(build.REPO, work, TIER)
        except build.BuildError as e: broken.append('rule %s: %s' % (rule.__name__, str(e)[-2500:])); continue
        cov.setdefault('rules', {})[res['rule']] = {'instances': res['instances'], 'sample': res.get('sample', [])[:6]}
        tot['obligations'] += res['instances']; tot['discharged'] += res['instances'] - len(res['violations'])
        if res['instances'] < res.get('min', 1): broken.append('rule %s matches only %d sites (expected at least %d)' % (res['rule'], res['instances'], res.get('min', 1)))
        for v in res['violations']: violations.append(dict(v, driver=res['rule']))
        for w in res.get('undecided', ()): undecided[w] = undecided.get(w, 0) + 1
    # known findings
    kn = known.load(pid); fresh = []; seen = {}
    for v in violations:
        k = known.match(kn, v)
        if k: seen[k['what']] = seen.get(k['what'], 0) + 1
        else: fresh.append(v)
    for w in seen: say('KNOWN-FINDING: property=%s %s' % (pid, w))
    rep = os.path.join(ROOT, 'build', 'reports'); os.makedirs(rep, exist_ok=True)
    repf = os.path.join(rep, pid + '.json')
    wall = time.time() - t0
    cov.update({'obligations': tot['obligations'], 'discharged': tot['discharged'], 'partitions': tot['partitions'], 'joins': tot['joins'], 'divisions': tot['splits'], 'abstract_steps': tot['steps'],
                'repository_functions_analysed': len(functions), 'functions': sorted(functions)[:60], 'repository_lines_analysed': len(lines), 'repository_files_analysed': sorted({f for f, l in lines}), 'undecided': dict(list(undecided.items())[:40]), 'undecided_total': sum(undecided.values()),
                'checker_cmd': 'python3 check.py %s' % pid, 'trusted_base': ['clang 18 front end (source to LLVM IR)', 'engine/ (abstract interpreter, domains, library models)', 'drivers/ (statement of the obligations)'],
                'explanation': 'Static analysis of the LLVM IR of the current tree. ' + P.get('explain', '') + ' An obligation counts as discharged when the abstract state at its program point entails it; undecided obligations are listed and raise no alarm.'})
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other', 'coverage': cov, 'assumptions': P.get('assume', []) + props.ASSUME, 'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    say('%s: %d obligations, %d discharged, %d undecided, %d violations; %d partitions, %d joins, %d repository lines; %.1f s' % (pid, tot['obligations'], tot['discharged'], sum(undecided.values()), len(fresh), tot['partitions'], tot['joins'], len(lines), wall))
    for w, n in list(undecided.items())[:12]: say('  undecided (%d): %s' % (n, w[:260]))
    if fresh:
        json.dump(fresh[:200], open(repf, 'w'), indent=1)
        shown = set()
        for v in fresh:
            k = (v.get('kind'), v.get('msg'))
            if k in shown: continue
            shown.add(k)
            if len(shown) > 6: break
            say('  %s: %s' % (v.get('kind'), v.get('msg')))
            say('     obligation: %s' % v.get('driver'))
            for d, l in [x for x in v.get('stack', []) if x[1] and not x[1].startswith('/usr')][:6]: say('     at %s  %s' % (l, d[:120]))
            if v.get('inputs'): say('     inputs: ' + ', '.join('%s=%s' % tuple(x) for x in v['inputs'][:24]))
            if v.get('where'): say('     at %s' % v['where'])
        say('VIOLATION property=%s replay=%s' % (pid, repf))
        return 1
    if broken:
        for b in broken: say('ANALYSIS BROKEN: ' + b)
        return 2
    return 0
def run_driver_named(j):
    d, r = run_driver(j[:3]); return j[3], d, r
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
