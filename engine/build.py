"""Builds the analysis tool and lowers drivers + repository sources to the analyser's input."""
import os, subprocess, hashlib, concurrent.futures as cf, shutil, glob, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
LLVM = '/usr/lib/llvm-18'
PIPE = 'function(sroa),cgscc(inline,function(sroa,early-cse,simplifycfg,adce)),globaldce'
# the library is built with these headers included first
FORCED = [x for h in ('cstring', 'cstdlib', 'cmath', 'cxxabi.h') for x in ('-include', h)]
FLAGS = ['-std=c++14', '-D_GLIBCXX_ASSERTIONS', '-fno-threadsafe-statics', '-gline-tables-only', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-emit-llvm', '-c'] + FORCED
class BuildError(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **dict({'cwd': ROOT}, **k))   # file names do not depend on where the check is started
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')
def tool(name='irdump'):
    """build a tool from tool/NAME.cpp if its binary is missing or stale"""
    src = os.path.join(ROOT, 'tool', name + '.cpp'); out = os.path.join(BUILD, name)
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest(); stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    libs = ['-lLLVM-18'] if name == 'irdump' else ['-l:libclang-cpp.so.18.1', '-lLLVM-18']
    sh([LLVM + '/bin/clang++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L' + LLVM + '/lib'] + libs)
    os.replace(tmp, out); open(stamp, 'w').write(key)
    return out
def symbols(bcs, defined=False):
    """names of the library that are undefined in (or defined by) these modules"""
    u = set(); d = set()
    for l in sh([LLVM + '/bin/llvm-nm', '-g'] + list(bcs)).splitlines():
        x = l.split()
        if len(x) < 2 or '4flut' not in x[-1]: continue
        (u if x[-2] in 'Uvw' else d).add(x[-1])
    return d if defined else u - d
def lower(name, drivers, sources, workdir, defs=(), pipe=PIPE, extra=()):
    """compile drivers (in /verif/drivers) and repository sources and write WORKDIR/NAME.json"""
    t = tool('irdump')
    os.makedirs(workdir, exist_ok=True)
    jobs = []
    def comp(src, out, d=()):
        sh([LLVM + '/bin/clang++'] + FLAGS + ['-I' + REPO, '-I' + os.path.join(ROOT, 'drivers')] + ['-D' + x for x in tuple(defs) + tuple(d)] + list(extra) + [src, '-o', out]); return out
    sources = [s for s in sources if os.path.exists(os.path.join(REPO, s))]
    with cf.ThreadPoolExecutor(8) as ex:
        for s in drivers: jobs.append(ex.submit(comp, os.path.join(ROOT, 'drivers', s), os.path.join(workdir, '%s_d_%s.bc' % (name, s.replace('/', '_')))))
        def src(s): return ex.submit(comp, os.path.join(REPO, s), os.path.join(workdir, '%s_s_%s.bc' % (name, s.replace('/', '_'))))
        jobs += [src(s) for s in sources]
        outs = [j.result() for j in jobs]
        missing = symbols(outs)
        if missing:     # code moved to another source file: take what is needed from the rest of the repository
            rest = {}
            for p in sorted(glob.glob(REPO + '/flut/**/*.cpp', recursive=True)):
                s = os.path.relpath(p, REPO)
                if s not in sources and not s.endswith('test_framework.cpp'): rest[s] = src(s)
            bcs = {}
            for s, j in rest.items():
                try: bcs[s] = j.result()
                except BuildError: pass
            while missing:
                pick = [s for s in bcs if symbols([bcs[s]], True) & missing]
                if not pick: break
                outs += [bcs.pop(s) for s in pick]; missing = symbols(outs)
            for o in bcs.values(): os.remove(o)
    js = os.path.join(workdir, name + '.json')
    strip = os.path.join(ROOT, 'engine', 'strip.txt')
    sh([t, js, strip, pipe] + outs)
    for o in outs: os.remove(o)
    return js
