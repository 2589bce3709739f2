#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources and the property's harness to LLVM IR, executes every
entry symbolically (tcsym), replays counterexamples natively and writes evidence/<id>.json.
  check.py C22 [--tier quick|thorough] [--entry H_x] [--strict]      check.py --setup      check.py --replay FILE"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
import threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VF_REPO', '/repo')
SRC = f'{R}/sdk/src'; INC = f'{R}/sdk/include'; B = f'{V}/build'; ENG = f'{B}/engine/tcsym'
CORES = min(8, os.cpu_count() or 8)
BC = ['-std=gnu++20', '-O1', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-replexitval=never', '-DNDEBUG', '-gline-tables-only', '-isystem', f'{B}/overlay', f'-I{INC}', f'-I{SRC}', f'-I{V}/rt']
PRE = ['-include', f'{V}/rt/prelude.hpp', '-emit-llvm', '-c']
RT = {'rt_core': ['-fno-builtin', '-fno-access-control'], 'rt_thr': ['-fno-builtin', '-fno-access-control'], 'rt_std': ['-fno-builtin', '-fno-access-control'], 'rt_io': ['-fno-access-control']}
log_lock = threading.Lock()
def say(*a):
    with log_lock: print(*a, flush=True)
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
class Fail(Exception): pass
def must(cmd, what, **k):
    r = run(cmd, **k)
    if r.returncode: raise Fail(f'{what} failed:\n{r.stdout[-4000:]}')
    return r
def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

# ------------------------------------------------------------------ building
def overlay():
    d = f'{B}/overlay/bits'; p = f'{d}/atomic_wait.h'
    if os.path.exists(p): return
    os.makedirs(d, exist_ok=True)
    src = glob.glob('/usr/include/c++/13/bits/atomic_wait.h')
    t = open(src[0]).read()      # spinning before blocking adds no behaviour: check once
    t = re.sub(r'(__atomic_spin_count_relax = )\d+', r'\g<1>0', t); t = re.sub(r'(__atomic_spin_count = )\d+', r'\g<1>1', t)
    # the count of waiters only saves wake-ups: always wake
    n = len(re.findall(r'_M_(?:enter|leave)_wait\(\) noexcept\s*\{[^}]*\}', t)); t = re.sub(r'(_M_(?:enter|leave)_wait\(\) noexcept\s*)\{[^}]*\}', r'\1{ }', t); t, k = re.subn(r'(_M_waiting\(\) const noexcept\s*)\{[^}]*\}', r'\1{ return true; }', t)
    if n != 2 or k != 1: raise Fail('unexpected bits/atomic_wait.h')
    with open(p + f'.{os.getpid()}', 'w') as f: f.write(t)
    os.rename(p + f'.{os.getpid()}', p)
def setup():
    os.makedirs(B, exist_ok=True); overlay()
    if run(['make', '-s', '-j8', '-C', f'{V}/engine', f'OUT={B}/engine']).returncode: must(['make', '-C', f'{V}/engine', f'OUT={B}/engine'], 'engine build')
    fs = glob.glob(f'{V}/rt/*'); key = digest(fs, ' '.join(BC)); out = f'{B}/rt-{key}.bc'
    if not os.path.exists(out):
        d = tempfile.mkdtemp(dir=B)
        with ThreadPoolExecutor(CORES) as ex:
            jobs = [ex.submit(must, ['clang++-18'] + BC + PRE + fl + [f'{V}/rt/{n}.cpp', '-o', f'{d}/{n}.bc'], n) for n, fl in RT.items()]
            jobs.append(ex.submit(must, ['clang++-18', '-O1', '-w', '-std=gnu++20', f'-I{V}/rt', '-c', f'{V}/rt/replay.cpp', '-o', f'{d}/replay_ir.o'], 'replay'))
            jobs.append(ex.submit(must, ['g++', '-O1', '-w', '-std=gnu++20', '-DVF_SEQ', f'-I{V}/rt', '-c', f'{V}/rt/replay.cpp', '-o', f'{d}/replay_seq.o'], 'replay'))
            for j in jobs: j.result()
        must(['llvm-link-18'] + [f'{d}/{n}.bc' for n in RT] + ['-o', f'{d}/rt.bc'], 'link')
        for a, b in ((f'{d}/rt_thr.bc', f'{B}/rt_thr-{key}.bc'), (f'{d}/replay_ir.o', f'{B}/replay_ir-{key}.o'), (f'{d}/replay_seq.o', f'{B}/replay_seq-{key}.o'), (f'{d}/rt.bc', out)): os.rename(a, b)
        shutil.rmtree(d)
    return key
def repo_sources():
    fs = [f for f in glob.glob(f'{SRC}/**/*.cpp', recursive=True) if os.path.relpath(f, SRC) != 'version.cpp']
    if os.path.exists(f'{SRC}/version.cpp') and run(['git', '-C', R, 'ls-files', '--error-unmatch', 'sdk/src/version.cpp']).returncode == 0: fs.append(f'{SRC}/version.cpp')
    return sorted(fs, key=lambda f: (-sum(w in f for w in ('argparse', 'datetime', 'scheduler')), f))
def tree_files(): return [f for d in (SRC, INC) for f in glob.glob(f'{d}/**/*', recursive=True) if os.path.isfile(f) and os.path.relpath(f, SRC) != 'version.cpp']
def header_only(h): return '//! header-only' in open(f'{V}/harness/{h}.cpp').read()
class Build:
    def __init__(s, harness, mode):
        s.h, s.mode = harness, mode; s.key = setup(); s.t = {}
        m = re.search(r'^//! include=(\S+)', open(f'{V}/harness/{harness}.cpp').read(), re.M); s.inc = ['-include', f'{V}/harness/{m[1]}'] if m else []
        fl = re.search(r'^//! flags=(.*)', open(f'{V}/harness/{harness}.cpp').read(), re.M); s.inc = (fl[1].split() if fl else []) + s.inc
        s.tree = digest(tree_files() + ([s.inc[-1]] if m else []), ' '.join(BC + s.inc) + s.key); s.dir = f'{B}/obj/{s.tree}'; os.makedirs(s.dir, exist_ok=True)
        s.hkey = digest([f'{V}/harness/{harness}.cpp'] + glob.glob(f'{V}/harness/*.hpp') + glob.glob(f'{V}/rt/*.h'), s.tree); s.lk = threading.Lock(); s.exe = None
    def obj(s, name, cmd):
        o = f'{s.dir}/{name}'
        if not os.path.exists(o):
            tmp = f'{o}.{os.getpid()}.{threading.get_ident()}'; must(cmd + ['-o', tmp], f'compiling {name}'); os.rename(tmp, o)
        return o
    def nm(s, f): return os.path.relpath(f, SRC).replace('/', '_')
    def bitcode(s):
        t0 = time.time()
        with ThreadPoolExecutor(CORES) as ex:
            hj = ex.submit(s.obj, f'h_{s.h}-{s.hkey}.bc', ['clang++-18'] + BC + PRE + s.inc + [f'{V}/harness/{s.h}.cpp'])
            mk = lambda: [ex.submit(s.obj, s.nm(f) + '.bc', ['clang++-18'] + BC + PRE + s.inc + [f]) for f in repo_sources()]
            sj = mk() if not header_only(s.h) else []; s.hbc = hj.result()
            if not sj and re.search(r' [Uu] _Z\w*2tc3sdk', run(['llvm-nm-18', '-u', s.hbc]).stdout): sj = mk()
            s.sbc = [j.result() for j in sj]
        out = f'{s.dir}/l_{s.h}-{s.hkey}.bc'
        if not os.path.exists(out): tmp = f'{out}.{os.getpid()}'; must(['llvm-link-18', s.hbc] + s.sbc + [f'{B}/rt-{s.key}.bc', '-o', tmp], 'link'); os.rename(tmp, out)
        s.t['build'] = time.time() - t0; return out
    def native(s, used):
        with s.lk:
            if s.exe: return s.exe
            out = f'{s.dir}/n_{s.h}-{s.hkey}-{hashlib.sha256(repr(sorted(used)).encode()).hexdigest()[:8]}'
            if os.path.exists(out): s.exe = out; return out
            tmp = f'{out}.{os.getpid()}'
            if s.mode == 'ir':
                must(['llvm-link-18', s.hbc] + s.sbc + [f'{B}/rt_thr-{s.key}.bc', '-o', tmp + '.bc'], 'link')
                must([ENG, '--instrument', tmp + '.bc', tmp + '.i.bc'], 'instrument')
                must(['clang++-18', '-O1', '-w', '-rdynamic', tmp + '.i.bc', f'{B}/replay_ir-{s.key}.o', '-o', tmp, '-ldl', '-lpthread'], 'native build'); os.unlink(tmp + '.bc'); os.unlink(tmp + '.i.bc')
            else:
                N = ['g++', '-std=gnu++20', '-O1', '-g', '-w', '-DNDEBUG', '-fsanitize=address', f'-I{INC}', f'-I{SRC}', f'-I{V}/rt', '-c'] + s.inc
                with ThreadPoolExecutor(CORES) as ex:
                    js = [ex.submit(s.obj, f'h_{s.h}-{s.hkey}.o', N + [f'{V}/harness/{s.h}.cpp'])] + [ex.submit(s.obj, s.nm(f) + '.o', N + [f]) for f in repo_sources() if f in used]
                    os_ = [j.result() for j in js]
                must(['g++', '-fsanitize=address', '-rdynamic', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all'] + os_ + [f'{B}/replay_seq-{s.key}.o', '-o', tmp, '-ldl', '-lpthread'], 'native link')
            os.rename(tmp, out); s.exe = out; return out
    def replay(s, wit, used, tmo=60):
        exe = s.native(used); env = {k: v for k, v in os.environ.items()}; env['ASAN_OPTIONS'] = 'exitcode=42:detect_leaks=0:abort_on_error=0'
        try: r = run([exe, wit], timeout=tmo, env=env, cwd=B)
        except subprocess.TimeoutExpired: return 124, 'timeout'
        return r.returncode, r.stdout

# ------------------------------------------------------------------ harness directives
def harnesses():
    res = {}
    for f in sorted(glob.glob(f'{V}/harness/*.cpp')):
        t = open(f).read(); mode = (re.search(r'^//! mode=(\w+)', t, re.M) or [0, 'seq'])[1]; name = os.path.basename(f)[:-4]
        for m in re.finditer(r'^//@ (C\d+(?:,C\d+)*) (H_\w+) ([^|\n]*)\| (.*)$', t, re.M):
            o = dict(x.split('=', 1) for x in m[3].split()); n = re.search(r'^ENTRY\(' + m[2] + r'\)', t, re.M)
            if not n: raise Fail(f'{f}: no entry {m[2]}')
            e = re.search(r'^}', t[n.end():], re.M); body = t[n.end():n.end() + e.start()]
            tags = set(re.findall(r'COVER\("([^"]*)"\)', body)) | set(filter(None, o.get('cover', '').replace('_', ' ').split(';')))
            for p in m[1].split(','): res.setdefault(p, []).append({'harness': name, 'mode': mode, 'entry': m[2], 'opt': o, 'desc': m[4], 'tags': tags})
    return res
def known():
    out = []
    p = f'{V}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) entry=(\w+) msg="([^"]*)" (.*)', l)
            if m: out.append({'property': m[1], 'entry': m[2], 'msg': m[3], 'text': m[4]})
    return out
def jobs_of(e, tier):
    o = e['opt']
    if o.get('tier', tier) != tier: return []
    lim = float(o.get('t', 240)) if tier == 'quick' else float(o.get('tt', 0) or max(1800, 6 * float(o.get('t', 240))))
    cfgs = [{}]
    sp = o.get('tsplit') if tier == 'thorough' and 'tsplit' in o else o.get('split')
    if sp:
        for part in sp.split(';'):
            k, r = part.split(':'); lo, hi = r.split('..'); cfgs = [dict(c, **{k: str(v)}) for c in cfgs for v in range(int(lo), int(hi) + 1)]
    base = {'100': '1' if tier == 'thorough' else '0'}
    for kv in filter(None, (o.get('tcfg') if tier == 'thorough' and 'tcfg' in o else o.get('cfg', '')).split(';')): k, v = kv.split(':'); base[k] = v
    return [(e, dict(base, **c), lim) for c in cfgs]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('--strict', action='store_true'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--replay'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); t0 = time.time()
    if a.setup: setup(); return 0
    H = harnesses()
    if a.replay:
        ent = re.search(r'^entry (\w+)', open(a.replay).read(), re.M)[1]
        for p in H:
            for e in H[p]:
                if e['entry'] == ent: b = Build(e['harness'], e['mode']); b.bitcode(); rc, o = b.replay(os.path.abspath(a.replay), set(repo_sources())); print(o); return rc
    P = a.prop; ents = [e for e in H.get(P, []) if not a.entry or e['entry'] == a.entry]
    if not ents: print('no entries for', P); return 2
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    builds = {}; bcs = {}
    for e in ents:
        if e['harness'] not in builds: builds[e['harness']] = Build(e['harness'], e['mode']); bcs[e['harness']] = builds[e['harness']].bitcode()
    work = tempfile.mkdtemp(prefix=f'run-{P}-', dir=B); tbuild = time.time() - t0
    jobs = [j for e in ents for j in jobs_of(e, tier)]; KF = [k for k in known() if k['property'] == P]
    deadline = t0 + (700 if tier == 'quick' else 6 * 3600); results = []
    stop = threading.Event(); rlock = threading.Lock(); os.makedirs(f'{V}/replays', exist_ok=True)
    def confirm(e, cfg, ix, v, us):
        wit = f"{V}/replays/{P}-{e['entry']}-{ix}.txt"; txt = open(v['file']).read()
        with open(wit, 'w') as f: f.write(f"property {P}\n" + ''.join(f'cfg {k} {x}\n' for k, x in cfg.items()) + txt)
        rc, o = builds[e['harness']].replay(wit, us); ok = rc == 42 or (rc == 124 and v['kind'] in ('deadlock', 'limit')) or (v['kind'] == 'race' and rc == 43) or rc < 0
        if v['kind'] == 'leak' and rc in (0, 43): ok = True
        return ok, rc, o, wit
    def one(ix):
        e, cfg, lim = jobs[ix]; od = f'{work}/{ix}'; os.makedirs(od); left = deadline - time.time()
        if left < 5: return {'incomplete': True, 'incomplete_why': 'check time budget', 'violations': [], 'covers': {}, 'job': ix}
        lim = min(lim, left); cmd = [ENG, '--bc', bcs[e['harness']], '--entry', e['entry'], '--outdir', od, '--out', f'{od}/r.json', '--max-time', str(lim), '--max-viol', '1', '--samples', '3']
        for k, v in cfg.items(): cmd += ['--cfg', f'{k}={v}']
        if 'steps' in e['opt']: cmd += ['--max-steps', e['opt']['steps']]
        if stop.is_set(): return {'incomplete': True, 'incomplete_why': 'stopped after a violation', 'violations': [], 'covers': {}, 'job': ix}
        lf = open(f'{od}/log', 'w+'); pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT); t1 = time.time(); txt = ''; ts = None
        while pr.poll() is None:
            time.sleep(0.02 if time.time() - t1 < 2 else 0.2)
            if stop.is_set() and ts is None: ts = time.time()
            if time.time() - t1 > lim + 60 or (ts and time.time() - ts > 2): pr.kill(); pr.wait(); txt = 'stopped after a violation' if ts else 'engine timeout'; break
        else: lf.seek(0); txt = lf.read()
        lf.close()
        try: d = json.load(open(f'{od}/r.json'))
        except Exception: d = {'incomplete': True, 'incomplete_why': 'engine: ' + txt[-300:], 'violations': [], 'covers': {}, 'errors': [], 'samples': [], 'functions': []}
        d['job'] = ix
        if d['violations'] and not KF and not stop.is_set():         # one reproduced violation decides: do not explore the rest
            with rlock:
                if not stop.is_set():
                    us = {f['file'] for f in d.get('functions', []) if f['file'].endswith('.cpp')}; d['checked'] = {}
                    for v in d['violations']: d['checked'][v['file']] = confirm(e, cfg, ix, v, us)
                    if any(x[0] for x in d['checked'].values()): stop.set()
        if a.v: say(f"  {e['entry']} {cfg} {d.get('wall')}s paths={d.get('paths')} joined={d.get('joined')} merged={d.get('merged')} q={d.get('queries')} z3={d.get('z3_calls')} viol={[(v['kind'], v['msg'], v['where']) for v in d['violations']]} {d['incomplete_why'] if d.get('incomplete') else ''} {d.get('errors')}")
        return d
    pool = ThreadPoolExecutor(int(os.environ.get('VF_JOBS', CORES)))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][2] if 't' in jobs[i][0]['opt'] else -60)
    results = list(pool.map(one, order))
    used = {h: set() for h in builds}
    for d in results:
        for f in d.get('functions', []):
            if f['file'].endswith('.cpp'): used[jobs[d['job']][0]['harness']].add(f['file'])
    viols, notes, kfs, validated, valbad = [], [], [], 0, []
    for d in results:
        e, cfg, _ = jobs[d['job']]; b = builds[e['harness']]
        for v in d['violations']:
            if stop.is_set() and 'checked' not in d: continue
            ok, rc, o, wit = d['checked'][v['file']] if 'checked' in d and d['checked'][v['file']][0] else confirm(e, cfg, d['job'], v, used[e['harness']])
            what = f"{e['entry']}: {v['kind']}: {v['msg']} at {v['where']}"
            if not ok: notes.append(f'counterexample not reproduced natively (exit {rc}: {o.strip()[-200:]}): {what}'); continue
            k = next((k for k in KF if k['entry'] == e['entry'] and k['msg'] == v['msg']), None)
            if k: kfs.append(k); continue
            viols.append((what, wit))
        if d.get('incomplete') and not stop.is_set(): notes.append(f"{e['entry']} {cfg}: not exhausted: {d.get('incomplete_why')}")
        for x in d.get('errors', []): notes.append(f"{e['entry']}: unsupported: {x}")
    if not viols:
        for d in sorted(results, key=lambda d: d['job']):
            e, cfg, _ = jobs[d['job']]
            for sfile in d.get('samples', [])[: 3 if tier == 'thorough' else 1]:
                txt = ''.join(f'cfg {k} {x}\n' for k, x in cfg.items()) + open(sfile).read(); open(sfile, 'w').write(txt)
                rc, o = builds[e['harness']].replay(sfile, used[e['harness']])
                if rc in (0, 43): validated += 1
                else: valbad.append(f"{e['entry']}: passing path replays differently (exit {rc}: {o.strip()[-200:]})"); notes.append(valbad[-1]); shutil.copy(sfile, f"{V}/replays/{P}-{e['entry']}-pass.txt")
        for e in ents:
            got = set(); rs = [d for d in results if jobs[d['job']][0] is e]
            for d in rs: got |= set(d.get('covers', {}))
            if rs and e['tags'] - got: notes.append(f"{e['entry']}: never reached: {sorted(e['tags'] - got)}")
    tot = lambda k: sum(d.get(k, 0) or 0 for d in results)
    fns = {}
    for d in results:
        for f in d.get('functions', []): fns[f['f']] = (f['file'], f['n'])
    cov = {'states': tot('paths') + tot('forks') + tot('merged'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated,
           'samples': [{'entry': jobs[d['job']][0]['entry'], 'bounds': jobs[d['job']][0]['desc'], 'cfg': jobs[d['job']][1], 'paths': d.get('paths'), 'asserts_checked': d.get('asserts'), 'assertions': d.get('assert_msgs'), 'reached': d.get('covers'), 'exhausted': not d.get('incomplete'), 'wall_s': d.get('wall')} for d in results],
           'exhaustive': not any(d.get('incomplete') for d in results), 'paths': tot('paths'), 'path_forks': tot('forks'), 'schedule_forks': tot('schedule_forks'), 'states_merged': tot('merged') + tot('joined'), 'assertions_decided': tot('asserts'), 'solver_queries': tot('queries'), 'z3_calls': tot('z3_calls'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_time_s': round(tot('solver_time'), 2), 'engine_time_s': round(tot('wall'), 2), 'build_s': round(tbuild, 1),
           'functions_encoded': len(fns), 'functions': sorted(f'{os.path.relpath(x[0], R)}: {n}' for n, x in fns.items())[:300], 'bounds': {e['entry']: e['desc'] for e in ents}, 'notes': notes, 'known_findings': [k['text'] for k in kfs]}
    ev = {'property': P, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov, 'assumptions': ['LLVM IR produced by clang 18 -O1 from the current sources stands for the code; runtime models in rt/ stand for libc, libstdc++ out-of-line parts, clocks and threads', 'every claim holds within the bounds listed per entry'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    if not a.entry:
        os.makedirs(f'{V}/evidence', exist_ok=True)
        with open(f'{V}/evidence/{P}.json', 'w') as f: json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in kfs: say(f"KNOWN-FINDING: property={P} {k['text']}")
    for n in notes: say('INCONCLUSIVE', n)
    say(f"{P} {tier}: {len(jobs)} runs, {cov['paths']} paths, {cov['assertions_decided']} assertions, {cov['solver_queries']} queries ({cov['solver_time_s']} s solver), {validated} passing paths replayed, {ev['wall_s']} s")
    for w, wit in viols: say(f'  {w}'); say(f'VIOLATION property={P} replay={wit}')
    return 1 if viols else (3 if a.strict and notes else 0)
if __name__ == '__main__':
    try: sys.exit(main())
    except Fail as e: print(e); sys.exit(2)
