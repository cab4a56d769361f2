"""Rules over the type-checked program (facts from tool/astfacts.cpp) and over what the compiler emits."""
import os, subprocess, json, glob, re, concurrent.futures as cf
import build
WIP = {'flut/buffer/key_frame_buffer.hpp': 'marked as work in progress, not part of the library', 'flut/local_vector.hpp': 'unfinished, not included by the library', 'flut/system/test_framework.hpp': 'test support'}
def headers(repo):
    hs = sorted(os.path.relpath(p, repo) for p in glob.glob(repo + '/flut/**/*.hpp', recursive=True))
    return [h for h in hs if '/experimental/' not in h and h not in WIP]
def sources(repo): return sorted(os.path.relpath(p, repo) for p in glob.glob(repo + '/flut/**/*.cpp', recursive=True) if not p.endswith('test_framework.cpp'))
def write(work, name, text):
    p = os.path.join(work, name); open(p, 'w').write(text); return p
def clang(args, cwd=None):
    r = subprocess.run([build.LLVM + '/bin/clang++', '-std=c++14'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    return r.returncode, r.stdout.decode(errors='replace')
_facts = {}
def facts(repo, work):
    if repo not in _facts: _facts[repo] = _compute(repo, work)
    return _facts[repo]
def _compute(repo, work):
    t = build.tool('astfacts'); out = []
    allh = write(work, 'all_headers.cpp', ''.join('#include "%s"\n' % h for h in headers(repo)))
    units = [allh] + [os.path.join(repo, s) for s in sources(repo)] + sorted(glob.glob(os.path.join(build.ROOT, 'drivers', 'c*.cpp')))
    def one(u):
        r = subprocess.run([t, repo.rstrip('/') + '/', u, '--', '-std=c++14', '-I' + repo, '-I' + os.path.join(build.ROOT, 'drivers'), '-DFLUT_STATIC_LOG_LEVEL=1', '-I' + build.LLVM + '/lib/clang/18/include', '-w'] + build.FORCED, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode: return r.stderr.decode(errors='replace')[-1500:]
        return [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith('{')]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
        if isinstance(res[0], str):     # some header does not compile: take them one by one
            res += list(ex.map(one, [write(work, 'f_%s.cpp' % re.sub(r'\W', '_', h), '#include "%s"\n' % h) for h in headers(repo)]))
    ok = [r for r in res if not isinstance(r, str)]
    if 2 * len(ok) < len(res): raise build.BuildError(next(r for r in res if isinstance(r, str)))
    for l in ok: out += l
    return out, len(ok)
# components whose purpose is to keep state for the whole program
GLOBAL = {'flut/system/log.cpp', 'flut/system/log.hpp', 'flut/system/log_sink.hpp', 'flut/math/random.hpp', 'flut/math/random.cpp', 'flut/system/profiler.hpp', 'flut/system/profiler.cpp', 'flut/system/debug_storage.cpp', 'flut/system/debug_storage.hpp', 'flut/system/test_framework.hpp', 'flut/system/test_framework.cpp'}
SETTERS = {'flut::set_to_str_precision': 'the setting is what the function is for', 'flut::current_path': 'changes the working directory on request'}
def hidden_state(repo, work, tier):
    F, n = facts(repo, work); vs = []; seen = {}; fns = sum(f['functions'] for f in F if f['fact'] == 'count'); calls = sum(f['calls'] for f in F if f['fact'] == 'count')
    for f in F:
        if f['fact'] != 'static' or f['where'].startswith('contrib/'): continue
        k = f['where']; g = seen.setdefault(k, dict(f, mutated=[])); g['mutated'] = sorted(set(g['mutated']) | set(f['mutated'])); g['init_from_arguments'] |= f['init_from_arguments']
    for k, f in sorted(seen.items()):
        file = k.split(':')[0]
        if f['init_from_arguments']: vs.append({'kind': 'hidden state', 'msg': 'static variable %s of %s keeps a value computed from the arguments of the first call' % (f['name'], f['function']), 'where': k})
        if f['tls'] or f['atomic'] or file in GLOBAL: continue
        muts = [m for m in f['mutated'] if m.split(' (')[0] not in SETTERS and m.split(' (')[1].split(':')[0] not in GLOBAL]
        if muts: vs.append({'kind': 'hidden state', 'msg': 'variable %s lives for the whole program and is modified by %s' % (f['name'], ', '.join(muts[:3])), 'where': k})
    hid = {}
    for f in F:
        if f['fact'] == 'hidden' and not f['where'].startswith('contrib/'): hid[f['where']] = f
    for k, f in sorted(hid.items()):
        if f['call'] == 'chdir' and k.split(':')[0] == 'flut/filesystem.cpp': continue     # current_path( p )
        vs.append({'kind': 'hidden state', 'msg': 'call of %s, which works on state shared by the whole program' % f['call'], 'where': k})
    return {'rule': 'no function outside the log, the random generator, the profiler and the debug output modifies a variable with static storage, keeps a first argument or calls a library function with hidden state', 'instances': len(seen) + calls, 'violations': vs, 'min': 1000, 'sample': ['%s (%s)%s' % (f['name'], k, ' modified by ' + ', '.join(f['mutated']) if f['mutated'] else '') for k, f in sorted(seen.items()) if not f['const']] + ['%d translation units, %d function bodies, %d calls of library functions' % (n, fns, calls)]}
# ---------------------------------------------------------------- headers
CONFIGS = [('default', []), ('no exceptions', ['-DFLUT_USE_EXCEPTIONS=0']), ('no exceptions, asserts', ['-DFLUT_USE_EXCEPTIONS=0', '-DFLUT_USE_ASSERT=1']), ('no asserts', ['-DFLUT_USE_ASSERT=0']), ('debug', ['-D_DEBUG'])]
def headers_alone(repo, work, tier):
    vs = []; jobs = []; hs = headers(repo)
    for name, defs in CONFIGS:
        for h in hs: jobs.append((name, defs, 'header ' + h, write(work, 'h_%s_%s.cpp' % (re.sub(r'\W', '_', h), re.sub(r'\W', '_', name)), '#include "%s"\n#include "%s"\n' % (h, h))))
        for s in sources(repo): jobs.append((name, defs + build.FORCED, 'source ' + s, os.path.join(repo, s)))
        jobs.append((name, defs, 'all headers in reverse order', write(work, 'rev_%s.cpp' % re.sub(r'\W', '_', name), ''.join('#include "%s"\n' % h for h in reversed(hs)))))
    def one(j):
        rc, o = clang(j[1] + ['-fsyntax-only', '-w', '-I' + repo, j[3]]); return j, rc, o
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
    for (name, defs, what, p), rc, o in rs:
        if rc:
            m = re.search(r'(\S+:\d+):\d+: error: (.*)', o); vs.append({'kind': 'usable', 'msg': '%s does not compile on its own (configuration: %s): %s' % (what, name, m.group(2) if m else o[:200]), 'where': (m.group(1) if m else p).replace(repo.rstrip('/') + '/', '')})
    return {'rule': 'every header compiles on its own, twice and together with all others in any order, and every source compiles, in every configuration', 'instances': len(jobs), 'violations': vs, 'min': 300, 'sample': [j[2] for j in jobs[:6]]}
def one_definition(repo, work, tier):
    F, n = facts(repo, work); vs = {}; seen = set()
    for f in F:
        if f['fact'] != 'header' or not re.search(r'\.(hpp|h|inl|ipp)$', f['where'].split(':')[0]) or f['where'].split(':')[0] in WIP: continue
        seen.add((f['name'], f['where']))
        if f['strong']: vs[f['where']] = {'kind': 'usable', 'msg': '%s is defined in a header and not inline: two translation units that include it cannot be linked' % f['name'], 'where': f['where']}
    return {'rule': 'headers define only inline functions, templates and constants, so that they can be included in several translation units', 'instances': len(seen), 'violations': list(vs.values()), 'min': 300, 'sample': ['%s (%s)' % x for x in sorted(seen)[:6]]}
def state_per_unit(repo, work, tier):
    """a modifiable namespace-scope variable with internal linkage in a header exists once per translation unit"""
    F, n = facts(repo, work); vs = []; k = 0; seen = set()
    for f in F:
        if f['fact'] != 'static' or f['where'].startswith('contrib/') or not f['where'].split(':')[0].endswith('.hpp'): continue
        if f['where'] in seen: continue
        seen.add(f['where']); k += 1
        if f.get('internal') and not f['const'] and not f['local']: vs.append({'kind': 'usable', 'msg': 'variable %s in a header exists once per translation unit' % f['name'], 'where': f['where']})
    return {'rule': 'no header defines a variable of which every translation unit has its own copy', 'instances': k, 'violations': vs, 'min': 5, 'sample': []}
# ---------------------------------------------------------------- defined results
FLOW = ['return-type', 'uninitialized', 'sometimes-uninitialized', 'return-stack-address', 'dangling', 'dangling-gsl', 'dangling-initializer-list', 'dangling-field', 'infinite-recursion', 'unsequenced', 'delete-non-virtual-dtor', 'delete-abstract-non-virtual-dtor', 'array-bounds', 'division-by-zero', 'shift-count-negative', 'shift-count-overflow', 'sizeof-pointer-memaccess', 'format', 'self-assign-overloaded', 'self-move', 'mismatched-new-delete', 'invalid-noreturn', 'uninitialized-const-reference']
def defined_results(repo, work, tier):
    vs = {}
    allh = write(work, 'all_headers.cpp', ''.join('#include "%s"\n' % h for h in headers(repo)))
    units = [allh] + [os.path.join(repo, s) for s in sources(repo)] + sorted(glob.glob(os.path.join(build.ROOT, 'drivers', 'c*.cpp')))
    def run(u):
        rc, o = clang(['-fsyntax-only', '-I' + repo, '-I' + os.path.join(build.ROOT, 'drivers'), '-DFLUT_STATIC_LOG_LEVEL=1', '-Wno-everything'] + build.FORCED + ['-W' + w for w in FLOW] + ['-fno-caret-diagnostics', u]); return u, rc, o
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(run, units))
    if sum(1 for u, rc, o in rs if rc) * 2 > len(rs): raise build.BuildError(next(o for u, rc, o in rs if rc)[-1500:])
    pre = repo.rstrip('/') + '/'
    for u, rc, o in rs:
        for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]', o, re.M):
            if not m.group(1).startswith(pre) or m.group(1)[len(pre):].startswith('contrib/'): continue
            if m.group(1)[len(pre):] in WIP: continue
            k = '%s:%s' % (m.group(1)[len(pre):], m.group(2)); vs[k + m.group(4)] = {'kind': 'undefined result', 'msg': '%s (%s)' % (m.group(3), m.group(4)), 'where': k}
    F, k = facts(repo, work); fns = {f['where'] for f in F if f['fact'] == 'header'}
    return {'rule': 'no path through a function ends without its result, uses a variable before it has a value, returns something that is gone or never ends (flow diagnostics of the compiler, for every instantiation)', 'instances': len(fns), 'violations': list(vs.values()), 'min': 300, 'sample': ['-W' + w for w in FLOW[:6]]}
NO_VALUE = {('flut::profiler::section', 'epoch'): 'has a value while the section is running', ('flut::math::mat33_', None): 'a matrix without elements is not initialised by design'}
def fields_have_values(repo, work, tier):
    F, n = facts(repo, work); vs = {}; seen = set()
    for f in F:
        if f['fact'] != 'ctor' or f['where'].startswith('contrib/') or f['where'].split(':')[0] in WIP: continue
        cls = re.sub(r'<.*', '', re.sub(r'^(class|struct) ', '', f['class'])); seen.add((cls, f['where']))
        miss = [x for x in f['missing'] if (cls, x) not in NO_VALUE and (cls, None) not in NO_VALUE]
        if miss: vs[f['where']] = {'kind': 'undefined result', 'msg': 'a constructor of %s leaves %s without a value' % (f['class'], ', '.join(miss)), 'where': f['where']}
    return {'rule': 'every constructor gives every plain field a value', 'instances': len(seen), 'violations': list(vs.values()), 'min': 60, 'sample': ['%s (%s)' % x for x in sorted(seen)[:6]]}
def interrupt_flag(repo, work, tier):
    F, n = facts(repo, work); fs = {}; vs = []
    for f in F:
        if f['fact'] == 'field' and f['class'] == 'flut::interruptible': fs[f['name']] = f
    mutex = any('mutex' in f['type'] for f in fs.values())
    for f in fs.values():
        if not mutex and not f['atomic'] and not f['const'] and f['plain']: vs.append({'kind': 'thread', 'msg': 'field %s of type %s is written by one thread and read by another without being atomic' % (f['name'], f['type']), 'where': f['where']})
    return {'rule': 'the state that an interrupt changes from another thread is atomic or guarded', 'instances': len(fs), 'violations': vs, 'min': 1, 'sample': ['%s %s' % (f['type'], f['name']) for f in fs.values()]}
