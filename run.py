#!/usr/bin/env python3
"""Driver: run.py setup | run.py check <property>.  Nothing of /repo is executed: its sources are compiled to LLVM IR and
the IR (or the preprocessed source) is analysed by tool/sv (value-graph abstract interpretation) and tool/rules (dataflow,
typestate and effect rules)."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
from props import PROPS, MEMORY_KINDS
CXXSTD, CSTD = 'gnu++14', 'gnu11'
IRF = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-w']
NCPU = min(8, os.cpu_count() or 4)

class Broken(Exception): pass

def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(glob.glob(VERIF + '/tool/*.cpp') + glob.glob(VERIF + '/tool/*.h'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = {n: f'{BUILD}/{n}-{h}' for n in ('sv', 'rules')}
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(p) for p in out.values()): return out
        for f in glob.glob(BUILD + '/sv-*') + glob.glob(BUILD + '/rules-*'): os.unlink(f)
        cfg = lambda *a: subprocess.run(['llvm-config-18', *a], capture_output=True, text=True, check=True).stdout.split()
        cxx = [x for x in cfg('--cxxflags') if x not in ('-fno-exceptions', '-D_GNU_SOURCE') and not x.startswith('-std=')]
        ld = cfg('--ldflags', '--libs', 'core', 'irreader', 'support', 'demangle', 'analysis', 'transformutils')
        ps = []
        for n, fs in (('sv', ['sv.cpp', 'node.cpp']), ('rules', ['rules.cpp'])):
            cmd = ['g++', '-O2', '-std=c++17', '-fno-rtti', *cxx, '-fexceptions', '-w', *[f'{VERIF}/tool/{f}' for f in fs], '-o', out[n] + '.tmp', *ld, '-lpthread']
            ps.append((n, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
        for n, p in ps:
            err = p.communicate()[1]
            if p.returncode: raise Broken(f'cannot build tool {n}: {err[-2000:]}')
            os.rename(out[n] + '.tmp', out[n])
    return out

def run_many(cmds):
    """[(tag, argv)] -> {tag: (rc, stderr)}, NCPU at a time"""
    res, live, todo = {}, [], list(cmds)
    while todo or live:
        while todo and len(live) < NCPU:
            tag, argv = todo.pop(0)
            live.append((tag, subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        tag, p = live.pop(0); err = p.communicate()[1]; res[tag] = (p.returncode, err)
    return res

def lib_sources():
    return sorted(f for f in glob.glob(REPO + '/src/**/*', recursive=True) if f.endswith(('.c', '.cpp', '.cc', '.cxx')))

def compile_cmd(f, o, extra=()):
    inc = [f'-I{REPO}/include', f'-I{REPO}/src']
    if f.endswith('.c'): return ['clang', '-std=' + CSTD, *IRF, *extra, *inc, f, '-o', o]
    return ['clang++', '-std=' + CXXSTD, '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fsized-deallocation', *IRF, *extra, *inc, f, '-o', o]

def build_ir(d, specs):
    cmds, lib, sp = [], [], []
    for f in lib_sources():
        o = d + '/' + os.path.relpath(f, REPO).replace('/', '_') + '.bc'; lib.append(o); cmds.append((o, compile_cmd(f, o, ['-DNDEBUG', *(['-include', 'stdarg.h'] if f.endswith('.c') else [])])))  # as build.sh does
    for f in specs:
        o = d + '/spec_' + os.path.basename(f) + '.bc'; sp.append(o)
        cmds.append((o, compile_cmd(f, o, (['-fno-builtin'] if f.endswith('.c') else []) + [f'-I{VERIF}/tool', f'-I{VERIF}/spec'])))
    res = run_many(cmds)
    bad = [(o, res[o][1]) for o in lib if res[o][0]]
    if bad: raise Broken('the library does not compile: ' + bad[0][1][-1500:])
    notes = []
    for o in list(sp):
        if res[o][0]: notes.append(f'specification {os.path.basename(o)} does not compile against the current headers: {res[o][1][:600]}'); sp.remove(o)
    for name, files in (('lib.bc', lib), ('all.bc', lib + sp)):
        r = subprocess.run(['llvm-link-18', *files, '-o', f'{d}/{name}'], capture_output=True, text=True)
        if r.returncode: raise Broken('cannot link the intermediate representation: ' + r.stderr[-1500:])
    return notes

def known_findings():
    out = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: out.append(m.groups())
    except OSError: pass
    return out

def clip(s, n): return s if len(s) <= n else s[:n] + '...'

def rel(s): return s.replace(REPO + '/', '')

def check(pid, tier):
    t0 = time.time(); P = PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/reports', exist_ok=True)
    tools = build_tools()
    d = f'{BUILD}/ir-{pid}-{os.getpid()}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        specs = sorted(glob.glob(VERIF + '/spec/*.c') + glob.glob(VERIF + '/spec/*.cpp')) if P.get('jobs') else []
        notes = build_ir(d, specs)
        viol, cov = [], {}
        for r in P.get('rules', ()): viol += run_rule(r, d, tools['rules'], cov, notes)
        for f in P.get('source_rules', ()):
            import source_rules
            viol += getattr(source_rules, f)(REPO, cov, notes, d + '/lib.bc')
        if P.get('jobs'): viol += run_jobs(P, pid, d, tools['sv'], tier, notes, cov, t0, bool(viol))
        finish(pid, P, tier, seed, viol, cov, notes, t0)
    finally: shutil.rmtree(d, ignore_errors=True)
    return 1 if [v for v in viol if not v.get('known')] else 0

# findings that another property is about
ELSEWHERE = r'(shared state|content-dependent|lock order|lock misuse|deadlock|data race)'
def wanted(P, job, kind):
    for jobs, kinds in P.get('kinds', ()):
        if re.match(jobs, job): return bool(re.match(kinds, kind))
    return not P.get('kinds') and not re.match(ELSEWHERE, kind)

def run_jobs(P, pid, d, sv, tier, notes, cov, t0, found):
    r = subprocess.run([sv, d + '/all.bc', '--list', '-o', d], capture_output=True, text=True)
    if r.returncode: raise Broken('analyser cannot read the program: ' + r.stderr[-500:])
    jobs = sorted(j for j in r.stdout.split() if re.match(P['jobs'], j))
    floor = P.get('min_jobs', 1)
    if len(jobs) < floor * 0.5: raise Broken(f'only {len(jobs)} of {floor} specification programs are available: ' + '; '.join(notes))
    out = d + '/out'; os.makedirs(out)
    left = P.get('wall', 780 if tier == 'quick' else 870) - (time.time() - t0)
    opt = ['--mem', '3600' if tier == 'quick' else '7000', '--secs', '600', '--wall', str(int(max(60, min(left, 120) if found else left)))]
    par = NCPU if tier == 'quick' else max(2, NCPU // 2)
    subprocess.run([sv, d + '/all.bc', '-j', str(par), '-o', out, *opt, '--tier', '0' if tier == 'quick' else '1', '--src', REPO + '/src', '--src', REPO + '/include', *jobs],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    viol, und, tot, fns, per = [], [], {}, set(), []
    for j in jobs:
        try: x = json.load(open(f'{out}/{j}.json'))
        except Exception as e: x = {'job': j, 'undecided': 'no result (%s)' % e, 'violations': [], 'functions': []}
        for k in ('instructions', 'proven', 'ri', 'facts', 'accesses', 'joins', 'cases', 'calls'): tot[k] = tot.get(k, 0) + x.get(k, 0)
        fns.update(x['functions'])
        if x['undecided']: und.append(f"{j}: {clip(rel(x['undecided']), 400)}")
        for v in x['violations']:
            if not wanted(P, j, v['kind']): continue
            viol.append({'kind': v['kind'], 'job': j, 'what': clip(rel(v['msg']), 1500), 'where': rel(v['where']), 'trace': clip(rel(v['trace']), 3000)})
        per.append(f"{j}: {x.get('cases', 0)} cases, {x.get('proven', 0)} bytes equal by normal form, {x.get('ri', 0)} by random interpretation, {x.get('accesses', 0)} memory accesses")
    cov['value_graph'] = {'jobs': len(jobs), 'cases': tot['cases'], 'obligations_equal_by_normal_form': tot['proven'], 'obligations_equal_by_random_interpretation': tot['ri'],
        'definedness_and_fact_obligations': tot['facts'], 'memory_accesses_checked': tot['accesses'], 'merged_branches': tot['joins'], 'instructions_interpreted': tot['instructions'],
        'library_functions_analysed': len(fns), 'undecided_jobs': len(und), 'undecided': und[:20], 'per_job': per[:60] if len(per) <= 60 else per[:60] + ['...'], 'functions': [clip(f, 90) for f in sorted(fns)][:250]}
    if not viol and len(und) * 10 > 9 * len(jobs): raise Broken('most specification programs are undecided: ' + ' | '.join(und[:3]))
    if not viol and tot['proven'] + tot['ri'] + tot['facts'] + tot['accesses'] == 0: raise Broken('no obligation was generated')
    return viol

def run_rule(rule, d, tool, cov, notes):
    r = subprocess.run([tool, d + '/lib.bc', rule, REPO], capture_output=True, text=True)
    if r.returncode: raise Broken(f'rule {rule}: {r.stderr[-800:]}')
    x = json.loads(r.stdout); cov['rule ' + rule] = {k: ([clip(rel(str(i)), 160) for i in v[:120]] if isinstance(v, list) else v) for k, v in x.items() if k != 'violations'}
    if x.get('broken'): raise Broken(f"rule {rule}: {x['broken']}")
    return [{'kind': v['kind'], 'job': 'rule ' + rule, 'what': clip(rel(v['msg']), 1500), 'where': rel(v['where']), 'trace': clip(rel(v.get('trace', '')), 3000)} for v in x['violations']]

def key(v): return re.sub(r'[^A-Za-z0-9_:.-]+', '_', f"{v['job']}:{v['kind']}:{v['where'].split(':')[0] if v['where'] else ''}")

def finish(pid, P, tier, seed, viol, cov, notes, t0):
    known = [k for k in known_findings() if k[0] == pid]; new = []
    for v in viol:
        k = key(v)
        m = [x for x in known if x[1] == k]
        if m: v['known'] = True
        else: new.append(v)
    for _, k, what in known:
        if any(v.get('known') and key(v) == k for v in viol): print(f'KNOWN-FINDING: property={pid} {what}')
    cov['explanation'] = P['explanation']; cov['notes'] = [clip(n, 500) for n in notes][:20]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'other'), 'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    s = json.dumps(ev, indent=1)
    for big in ('functions', 'per_job', 'undecided'):
        if len(s) > 60000:
            for c in cov.values():
                if isinstance(c, dict) and isinstance(c.get(big), list): c[big] = c[big][:15] + ['...']
            s = json.dumps(ev, indent=1)
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f: f.write(s + '\n')
    vg = cov.get('value_graph')
    if vg:
        print(f"{pid}: {vg['jobs']} specification programs, {vg['cases']} cases, {vg['obligations_equal_by_normal_form']}+{vg['obligations_equal_by_random_interpretation']} byte equalities, {vg['memory_accesses_checked']} memory accesses, {vg['library_functions_analysed']} library functions, {vg['undecided_jobs']} undecided")
        for u in vg['undecided']: print('UNDECIDED', u)
    for n in notes: print('NOTE', clip(n, 300))
    rep = f'{VERIF}/reports/{pid}.txt'
    if os.path.exists(rep): os.unlink(rep)
    if new:
        with open(rep, 'w') as f:
            for v in new: f.write(f"property {pid}: {P['title']}\n{v['kind']} ({v['job']})\n  {v['what']}\n  at {v['where']}\n  {v['trace']}\n\n")
        for v in new[:6]: print(f"  {v['kind']}: {clip(v['what'], 500)}\n    at {v['where']} [{v['job']}]\n    {clip(v['trace'], 600)}")
        print(f'VIOLATION property={pid} replay={rep}')
    else: print(f'{pid}: holds on everything analysed ({time.time() - t0:.1f} s)')

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == 'setup': build_tools(); print('tools built'); return 0
        if len(a) >= 2 and a[0] == 'check':
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--thorough' in a: tier = 'thorough'
            return check(a[1], 'thorough' if tier == 'thorough' else 'quick')
        print(__doc__); return 2
    except Broken as e: print('ANALYSIS-BROKEN', e); return 2
if __name__ == '__main__': sys.exit(main())
