#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Regenerates the encoding from /repo's working tree (LLVM IR of the library plus the harness crate), runs the
symbolic executor on every harness configuration of the property, replays what it finds on the natively
compiled code, writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violation (with a
VIOLATION line); 2: no answer (time, memory, unsupported code, or a counterexample that does not reproduce)."""
import json, os, re, subprocess, sys, tempfile, shutil, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS

ENGINE = HERE + '/engine/target/release/symx'
SUMS = ['paths', 'pruned', 'steps', 'forks', 'asserts', 'discharged_const', 'discharged_fd', 'discharged_smt', 'assignments',
        'undecided', 'infeasible_dropped', 'fd_queries', 'fd_time', 'fd_evals', 'smt_queries', 'smt_unsat', 'smt_unknown', 'smt_time']

def log(*a): print(*a, flush=True)

def fail(msg):
    log('NO ANSWER: ' + msg); sys.exit(2)

def build_engine():
    srcs = glob.glob(HERE + '/engine/src/*.rs')
    if os.path.exists(ENGINE) and os.path.getmtime(ENGINE) >= max(os.path.getmtime(s) for s in srcs): return
    r = subprocess.run(['bash', HERE + '/setup.sh'], capture_output=True, text=True)
    if r.returncode: fail('engine does not build\n' + r.stdout[-2000:] + r.stderr[-4000:])

def build(work, profile):
    r = subprocess.run(['bash', HERE + '/build_ir.sh', work, profile], capture_output=True, text=True)
    if r.returncode or not os.path.exists(f'{work}/{profile}.ll'): fail(f'{profile} build of /repo failed\n' + r.stderr[-4000:])

def run_engine(work, cfg, tag, tier):
    profile, harness, params = cfg['profile'], cfg['harness'], cfg.get('params', [])
    out = f'{work}/{tag}'
    budget = cfg.get('time', 600 if tier == 'quick' else 3000)
    cmd = [ENGINE, '--ir', f'{work}/{profile}.ll', '--harness', 'vh_' + harness, '--out', out, '--jobs', str(os.cpu_count() or 8),
           '--time', str(budget), '--params', ','.join(map(str, params)), '--samples', '4', '--limit', str(cfg.get('limit', 65536))]
    t0 = time.time()
    try: subprocess.run(cmd, timeout=budget + 120, capture_output=True, text=True)
    except subprocess.TimeoutExpired: return None
    d = {k: 0 for k in SUMS}
    d.update(covered={}, sites={}, functions=set(), errors={}, violations=[], samples=[], inputs=[], wall=time.time() - t0)
    files = [f for f in glob.glob(out + '.*') if not f.endswith('.died')]
    if not files: return None
    for f in sorted(files):
        try: j = json.load(open(f))
        except Exception: d['errors']['unreadable worker result'] = 1; continue
        for k in SUMS: d[k] += j[k]
        for k, v in j['covered'].items(): d['covered'][k] = d['covered'].get(k, 0) + v
        for k, v in j['assert_sites'].items(): d['sites'][k] = d['sites'].get(k, 0) + v
        for e in j['errors']: d['errors'][e] = d['errors'].get(e, 0) + 1
        d['functions'].update(j['functions']); d['violations'] += j['violations']; d['samples'] += j['samples']
        if len(j['inputs']) > len(d['inputs']): d['inputs'] = j['inputs']
    if os.path.exists(out + '.died'): d['errors']['a worker process died'] = 1
    return d

def write_inputs(path, params, inputs):
    with open(path, 'w') as f:
        for i, p in enumerate(params): f.write(f'p{i}={p}\n')
        for v in inputs: f.write(f'{v}\n')

def native(exe, harness, path, valgrind=False, timeout=120):
    cmd = [exe, harness, path]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99', '--track-origins=no'] + cmd
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return None, '', ''
    return r.returncode, r.stdout, r.stderr

def reproduce(work, cfg, v, path):
    """Run the counterexample on the natively compiled code; returns a description of the failure, or None."""
    exe = f"{work}/{cfg['profile']}.exe"
    rc, out, err = native(exe, cfg['harness'], path)
    m = re.search(r'ASSERT-FAILED (.*)', out)
    if m: return 'assertion fails natively: ' + m.group(1)
    if rc is None: return 'does not terminate natively' if v['kind'] == 'nontermination' else None
    if rc == 77: return None
    if rc != 0: return f'native run ends abnormally (status {rc}): ' + (err.strip().splitlines() or [''])[-1][:200]
    rc, out, err = native(exe, cfg['harness'], path, valgrind=True, timeout=300)
    if rc == 99: return 'memory error natively (valgrind): ' + next((l.split('==')[-1].strip() for l in err.splitlines() if '==' in l), '')[:200]
    return None

_dm = {}
def demangle(n):
    if n not in _dm: demangle_all([n])
    return _dm[n]
def demangle_all(names):
    names = [n for n in names if n not in _dm]
    try:
        sysroot = glob.glob('/usr/lib/llvm-*/bin/llvm-cxxfilt') or ['c++filt']
        out = subprocess.run([sysroot[0]], input='\n'.join(names), capture_output=True, text=True, timeout=60).stdout.splitlines()
    except Exception: out = []
    if len(out) != len(names): out = names
    for n, o in zip(names, out): _dm[n] = re.sub(r'\[[0-9a-f]{16}\]', '', o)

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = PROPS[pid]
    t0 = time.time()
    evf = f'{HERE}/evidence/{pid}.json'
    os.makedirs(HERE + '/evidence', exist_ok=True)
    if os.path.exists(evf): os.remove(evf)
    build_engine()
    os.makedirs(HERE + '/work', exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '.', dir=HERE + '/work')
    try: sys.exit(check(pid, tier, P, t0, evf, work))
    finally: shutil.rmtree(work, ignore_errors=True)

def check(pid, tier, P, t0, evf, work):
    cfgs = [dict(c) for c in P['quick']] if tier == 'quick' else [dict(c) for c in P.get('thorough', P['quick'])]
    for c in cfgs: c.setdefault('profile', 'release')
    for p in sorted({c['profile'] for c in cfgs}): build(work, p)
    tot = {k: 0 for k in SUMS}
    functions, sites, runs, samples, problems, viols = set(), {}, [], [], [], []
    validated = 0
    for n, c in enumerate(cfgs):
        d = run_engine(work, c, f'o{n}', tier)
        name = f"{c['harness']}({','.join(map(str, c.get('params', [])))})@{c['profile']}"
        if d is None: problems.append(name + ': the engine gave no result'); continue
        for k in SUMS: tot[k] += d[k]
        functions |= d['functions']
        for k, v in d['sites'].items(): sites[k] = sites.get(k, 0) + v
        for e, k in sorted(d['errors'].items()): problems.append(f'{name}: {e} (x{k})')
        if d['undecided']: problems.append(f"{name}: {d['undecided']} undecided queries")
        missing = [x for x in c.get('covers', []) if x not in d['covered']]
        if missing and not d['violations']: problems.append(f'{name}: never reached: {missing}')
        log(f"  {name}: {d['paths']} paths, {d['asserts']} assertions, {d['smt_queries']} SMT + {d['fd_queries']} finite-domain queries, {len(d['violations'])} violations, {d['wall']:.1f} s")
        # translator validation: sampled paths must behave natively as they did in the encoding
        for i, s in enumerate(d['samples'][:16]):
            path = f'{work}/s{n}.{i}'
            write_inputs(path, c.get('params', []), s['inputs'])
            rc, out, _ = native(f"{work}/{c['profile']}.exe", c['harness'], path)
            obs = [int(x) for x in re.findall(r'^OBS (\d+)$', out, re.M)]
            if rc != 0 or 'COMPLETED' not in out or obs != s['obs']: problems.append(f'{name}: encoding and native run disagree on {s["inputs"]} (status {rc})')
            else: validated += 1
        if d['samples']: samples.append({'harness': name, 'inputs': dict_inputs(d, d['samples'][0]), 'observed': d['samples'][0]['obs'][:16]})
        runs.append({'harness': name, 'bounds': c.get('bounds', ''), 'paths': d['paths'], 'input_assignments_covered': d['assignments'], 'assertions': d['asserts'],
                     'witnesses': d['covered'], 'symbolic_inputs': [f'{a}:{w}' for a, w in d['inputs'][:40]], 'wall_s': round(d['wall'], 2)})
        viols += [(c, v, d) for v in d['violations']]
    # violations: replayed natively before they are believed
    confirmed = []
    seen = {}
    rep = f'{HERE}/evidence/replay'
    os.makedirs(rep, exist_ok=True)
    for old in glob.glob(f'{rep}/{pid}-*'): os.remove(old)
    for c, v, d in viols:
        key = (c['harness'], v['kind'], v['msg'])
        if seen.get(key, 0) >= 3: continue
        path = f'{rep}/{pid}-{len(confirmed)}.txt'
        write_inputs(path, c.get('params', []), v['inputs'])
        how = reproduce(work, c, v, path)
        seen[key] = seen.get(key, 0) + 1
        if how is None:
            problems.append(f"{c['harness']}: counterexample {v['inputs']} ({v['kind']}: {v['msg']}) does not reproduce natively"); os.remove(path); continue
        seen[key] = 3
        confirmed.append((c, v, how, path))
        log(f"  counterexample in {c['harness']}@{c['profile']}: {v['kind']}: {v['msg']}")
        log(f"    inputs: {dict_inputs(d, v)}")
        log(f"    at: {' < '.join(demangle(x) for x in reversed(v['trace'][-6:]))}")
        log(f"    {how}")
        log(f"    replay: bash {HERE}/replay.sh {c['profile']} {c['harness']} {path}")
    known = known_findings(pid)
    new = []
    for c, v, how, path in confirmed:
        k = next((k for k in known if k['harness'] == c['harness'] and k['match'] in (v['msg'] + ' ' + how)), None)
        if k: log(f"KNOWN-FINDING: property={pid} {k['what']}"); os.remove(path)
        else: new.append((c, v, how, path))
    demangle_all(sorted(functions))
    own = sorted({demangle(f) for f in functions if re.search(r'imagequant|liq_', f) and not f.startswith('vh_')})
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples,
                       'exhaustive': not problems and not viols, 'runs': runs, 'functions_encoded': len(functions), 'library_functions_encoded': own,
                       'assertion_sites': sites, 'assertions': tot['asserts'], 'discharged_by_smt': tot['discharged_smt'], 'discharged_by_finite_domain': tot['discharged_fd'],
                       'discharged_constant': tot['discharged_const'], 'path_feasibility_queries': {'finite_domain': tot['fd_queries'], 'smt': tot['smt_queries'], 'smt_unsat': tot['smt_unsat'], 'smt_unknown': tot['smt_unknown']},
                       'forks': tot['forks'], 'input_assignments_covered': tot['assignments'], 'solver_time_s': round(tot['smt_time'] + tot['fd_time'], 3), 'smt_time_s': round(tot['smt_time'], 3),
                       'undecided': tot['undecided'], 'problems': problems},
          'assumptions': COMMON_ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(evf, 'w'), indent=1)
    for p in problems[:20]: log('  problem: ' + p)
    if new:
        for c, v, how, path in new: log(f'VIOLATION property={pid} replay={path}')
        return 1
    if problems: log(f'NO ANSWER for {pid}'); return 2
    log(f"{pid} held: {tot['paths']} paths, {tot['asserts']} assertions, {validated} traces validated natively, {time.time() - t0:.1f} s")
    return 0

def dict_inputs(d, s):
    return [f"{d['inputs'][i][0] if i < len(d['inputs']) else '?'}={x}" for i, x in enumerate(s['inputs'][:64])]

def known_findings(pid):
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) match="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append({'harness': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out
main()
