#!/usr/bin/env python3
"""Runs one property's check: builds its drivers from /repo's working tree
(through ccache), executes them, matches what their monitors reported against
known_findings.txt, and writes evidence/<id>.json.

  run.py check P01 [--tier quick|thorough] [--seed N]
  run.py setup            # compile everything once (fills the compiler cache)
  run.py replay FILE      # re-run the unit that produced a recorded violation
  run.py manifest         # regenerate MANIFEST.json from checks.py

Exit status of check: 0 held, 1 violated, 2 no answer (build failure, timeout)."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks as C

CACHE = os.path.join(HERE, '.cache', 'ccache')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
EVID = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence'))
NCPU = os.cpu_count() or 8
ENV = dict(os.environ, CCACHE_DIR=CACHE, CCACHE_NOHASHDIR='1', CCACHE_COMPILERCHECK='content',
           CCACHE_SLOPPINESS='include_file_mtime,include_file_ctime,time_macros', CCACHE_MAXSIZE='8G',
           CCACHE_TEMPDIR=os.path.join(HERE, '.cache', 'tmp'), CCACHE_CONFIGPATH='/dev/null', LC_ALL='C')
for k in ('CCACHE_DISABLE', 'CCACHE_READONLY', 'CCACHE_REMOTE_STORAGE'): ENV.pop(k, None)
HAVE_CCACHE = shutil.which('ccache') is not None

def resolve(src):
    return src.replace('$REPO', REPO) if src.startswith('$REPO') else os.path.join(HERE, 'harness', src)

def obj_cmd(o):
    src = resolve(o.src)
    cmd = [o.cc] + [f.replace('$REPO', REPO) for f in o.flags] + ['-I' + REPO, '-I' + os.path.join(HERE, 'harness'), '-c', src]
    tag = hashlib.sha1(' '.join(cmd).encode()).hexdigest()[:16]
    base = os.path.basename(src)
    return cmd, os.path.join(BUILD, 'obj', '%s.%s.o' % (base, tag))

def compile_obj(o):
    cmd, out = obj_cmd(o)
    tmp = '%s.%d.o' % (out[:-2], os.getpid())
    full = (['ccache'] if HAVE_CCACHE else []) + cmd + ['-o', tmp]
    t = time.time()
    p = subprocess.run(full, env=ENV, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 0: os.replace(tmp, out)
    return p.returncode, p.stdout, out, ' '.join(cmd), time.time() - t

def build(units, log=None):
    """Returns {unit name: exe path}; raises BuildError."""
    for d in ('obj', 'bin', 'run'): os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    os.makedirs(CACHE, exist_ok=True); os.makedirs(ENV['CCACHE_TEMPDIR'], exist_ok=True)
    objs, cost = {}, {}
    for u in units:
        for o in u.objs:
            objs[obj_cmd(o)[1]] = o; cost[obj_cmd(o)[1]] = o.cost
    order = sorted(objs, key=lambda k: -cost[k])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_obj, objs[k]): k for k in order}
        for f in cf.as_completed(futs):
            rc, text, out, cmd, dt = f.result()
            if rc != 0:
                for g in futs: g.cancel()
                raise BuildError('compile failed: %s\n%s' % (cmd, text[:3000]))
            if log: log('%6.1fs %s' % (dt, os.path.basename(out)))
        def link(u):
            exe = os.path.join(BUILD, 'bin', u.name)
            cmd = [u.linker] + [obj_cmd(o)[1] for o in u.objs] + ['-o', exe] + u.ldflags
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode: raise BuildError('link failed: %s\n%s' % (u.name, p.stdout[:3000]))
            return u.name, exe
        return dict(ex.map(link, units))

class BuildError(Exception): pass

# ------------------------------------------------------------------ running
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:detect_odr_violation=0:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=77:second_deadlock_stack=1:report_atomic_races=1:history_size=5',
    'MSAN_OPTIONS': 'exitcode=77', 'LSAN_OPTIONS': 'exitcode=77',
}
def sanitizer_keys(text):
    """One key per distinct sanitizer report: kind + first frame inside highway."""
    keys = {}
    for m in re.finditer(r'(WARNING: (?:Thread|Memory)Sanitizer: [^\n(]*|ERROR: (?:Address|Leak|Memory)Sanitizer:? [^\n(]*|[^\n]*runtime error: [^\n]*)', text):
        head = m.group(1)
        body = text[m.start():m.start() + 6000]
        nxt = re.search(r'\n=+\n(?:WARNING|==\d+==ERROR)', body[10:])
        if nxt: body = body[:nxt.start() + 10]
        fr = re.search(r'#\d+ (?:0x[0-9a-f]+ in )?([^\n]*?) (/[^\s]*?/hwy/[^\s:]*)', body)
        kind = re.sub(r'0x[0-9a-f]+|\d{4,}', '#', head)
        kind = re.sub(r'^.*runtime error: ', 'ubsan: ', kind)
        kind = re.sub(r'on (unknown )?address.*|\s+pid.*|==.*', '', kind).strip()
        key = 'sanitizer ' + kind[:120]
        if fr: key += ' @ ' + os.path.basename(fr.group(2)) + ' ' + re.sub(r'N_[A-Z0-9_]+::', '', fr.group(1))[:100]
        keys.setdefault(key, body[:1800])
    return keys

def run_once(u, exe, run, out, tier, seed, timeout):
    args = [exe, '--seed', str(seed), '--tier', tier, '--out', out] + run.args
    if os.path.exists(out): os.unlink(out)
    env = dict(os.environ, LC_ALL='C', **SAN_ENV); env.update(u.env); env.update(run.env)
    t = time.time()
    scratch = os.path.join(BUILD, 'run')
    with open(out + '.log', 'wb') as lf:
        p = subprocess.Popen(u.prefix + args, cwd=scratch, env=env, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); rc = None
    with open(out + '.log', 'rb') as f: text = f.read()[:4000000].decode('utf-8', 'replace')
    data = None
    try:
        with open(out) as f: data = json.load(f)
    except (OSError, ValueError): pass
    return rc, data, text, args, time.time() - t

T0 = time.time()
def left(): return 860 - (time.time() - T0)

def run_unit(u, exe, run, tier, seed):
    out = os.path.join(BUILD, 'run', '%s.%s.%d.json' % (u.name, run.name, seed))
    hung = []
    for attempt in (0, 1):
        # Runs take a few seconds to a minute, so these limits leave a wide margin.
        limit = run.timeout if tier == 'thorough' else max(20, min(run.timeout, 300 if attempt == 0 else 270, left()))
        rc, data, text, args, dt = run_once(u, exe, run, out, tier, seed, limit)
        res = dict(unit=u.name, run=run.name, seed=seed, args=args, wall_s=round(dt, 2), data=data, viol={}, problem=None)
        if rc is None:
            hung.append(limit)
            if len(hung) == 2 and min(hung) >= 200: res['viol']['hang: run %s/%s does not end' % (u.name, run.name)] = 'killed after %d s and again after %d s' % tuple(hung)
            else: res['problem'] = 'timeout after %d s' % limit
            continue
        for v in (data or {}).get('violations', []): res['viol'].setdefault(v['key'], v['detail'])
        for k, d in sanitizer_keys(text).items(): res['viol'].setdefault(k, d)
        if rc != 0 and not res['viol']:
            if rc < 0 or rc == 77: res['viol']['crash signal %d' % -rc] = text[-1500:]
            else:
                res['problem'] = 'exit %d: %s' % (rc, text[-800:])
                continue
        elif data is None and not res['viol']:
            res['problem'] = 'no report: ' + text[-800:]
            continue
        # A hang observed by a driver's own watchdog must reproduce once.
        if attempt == 0 and res['viol'] and all(k.startswith('hang') for k in res['viol']): continue
        return res
    return res

# ------------------------------------------------------------------ findings
def load_findings():
    known = []
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path): return known
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=`([^`]+)` (.*)', line.strip())
        if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known

def check(pid, tier, seed):
    t0 = time.time()
    spec = C.CHECKS[pid]
    units = [u for u in spec['units'] if tier == 'thorough' or not u.thorough_only]
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rdir, f))
    try: exes = build(units)
    except BuildError as e:
        print('NO ANSWER property=%s %s' % (pid, e)); return 2
    t_build = time.time() - t0
    jobs = []
    for u in units:
        for run in u.runs:
            n = run.thorough_seeds if tier == 'thorough' else run.quick_seeds
            for k in range(n): jobs.append((u, run, seed if k == 0 else seed * 1000003 + k))
    results = []
    # Weighted parallelism: a run declares how many cores it uses.
    lock = __import__('threading').Condition(); free = [NCPU]
    def go(job):
        u, run, s = job
        w = min(run.cores, NCPU)
        with lock:
            while free[0] < w: lock.wait()
            free[0] -= w
        try: return run_unit(u, exes[u.name], run, tier, s)
        finally:
            with lock: free[0] += w; lock.notify_all()
    with cf.ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(go, jobs))
    known = [k for k in load_findings() if k[0] == pid]
    hit, fresh, problems = set(), [], []
    for r in results:
        for key, detail in sorted(r['viol'].items()):
            ks = [k for k in known if k[1] == key]
            if ks: hit.add(ks[0])
            else: fresh.append((r, key, detail))
        if r['problem']: problems.append((r, r['problem']))
    for k in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=spec['rule'], samples=[], units=[])
    targets, skipped, totals = set(), set(), {}
    for r in results:
        d = r['data'] or {}
        cov['evaluations'] += d.get('evaluations', 0)
        cov['distinct_nontrivial'] += d.get('distinct_nontrivial', 0)
        targets.update(d.get('targets', [])); skipped.update(d.get('targets_unsupported_here', []))
        for k, v in d.get('counters', {}).items():
            totals[k] = max(totals.get(k, 0), v) if k.startswith('max ') else totals.get(k, 0) + v
        per = {k: v for k, v in d.items() if k not in ('samples', 'violations', 'counters', 'targets', 'targets_unsupported_here')}
        cov['units'].append(dict(unit=r['unit'], run=r['run'], seed=r['seed'], wall_s=r['wall_s'], **per))
        for s in d.get('samples', [])[:2]:
            if len(cov['samples']) < 20: cov['samples'].append('%s: %s' % (r['unit'], s[:600]))
    cov['observed'] = totals
    if targets: cov['targets_run'] = sorted(targets)
    if skipped: cov['targets_unsupported_here'] = sorted(skipped)
    shown = {}
    for i, (r, key, detail) in enumerate(fresh):
        if key in shown: continue
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(shown)))
        shown[key] = path
        json.dump(dict(property=pid, unit=r['unit'], run=r['run'], seed=r['seed'], tier=tier, argv=r['args'], key=key, detail=detail), open(path, 'w'), indent=1)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 2),
              build_s=round(t_build, 2), assumptions=spec['assumptions'], violations=[dict(key=k, replay=p) for k, p in shown.items()])
    if problems: ev['inconclusive'] = ['%s/%s: %s' % (r['unit'], r['run'], p[:500]) for r, p in problems]
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for n, (key, path) in enumerate(shown.items()):
        if n < 20: print('VIOLATION property=%s replay=%s' % (pid, path)); print('  ' + key[:300])
    print('%s tier=%s seed=%d units=%d runs=%d evaluations=%d distinct=%d build=%.1fs wall=%.1fs' % (
        pid, tier, seed, len(units), len(results), cov['evaluations'], cov['distinct_nontrivial'], t_build, time.time() - t0))
    if shown: return 1
    if problems:
        for r, p in problems: print('NO ANSWER property=%s %s/%s: %s' % (pid, r['unit'], r['run'], p[:1500]))
        return 2
    if not cov['evaluations']:
        print('NO ANSWER property=%s nothing was observed' % pid); return 2
    return 0

def setup(tier):
    t = time.time()
    units = {}
    for pid, spec in C.CHECKS.items():
        for u in spec['units']:
            if tier == 'thorough' or not u.thorough_only: units[u.name] = u
    try: build(list(units.values()), log=(lambda s: print(s, flush=True)) if os.environ.get('VERIF_LOG') else None)
    except BuildError as e:
        # A change under test may break one driver; the checks report it themselves.
        print('setup: ' + str(e)[:3000])
    shutil.rmtree(os.path.join(BUILD, 'obj'), ignore_errors=True); shutil.rmtree(os.path.join(BUILD, 'bin'), ignore_errors=True)
    print('setup: %d units in %.1f s' % (len(units), time.time() - t))
    return 0

def manifest():
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=C.NOT_APPLICABLE)
    if C.HOOKS: m['hooks'] = C.HOOKS
    for pid in sorted(C.CHECKS):
        s = C.CHECKS[pid]
        m['checks'].append(dict(property=pid, quick_cmd='python3 run.py check %s --tier quick' % pid, thorough_cmd='python3 run.py check %s --tier thorough' % pid,
                                technique=s['technique'], level='exploration', level_note=s['level_note']))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    return 0

def main(argv):
    opt = {argv[i]: argv[i + 1] for i in range(1, len(argv) - 1) if argv[i].startswith('--')}
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')) or 1)
    if argv[0] == 'check': return check(argv[1], tier, seed)
    if argv[0] == 'setup': return setup(opt.get('--tier', 'quick'))
    if argv[0] == 'manifest': return manifest()
    if argv[0] == 'replay':
        d = json.load(open(argv[1])); spec = C.CHECKS[d['property']]
        u = [u for u in spec['units'] if u.name == d['unit']][0]; run = [r for r in u.runs if r.name == d['run']][0]
        r = run_unit(u, build([u])[u.name], run, d['tier'], d['seed'])
        for k, v in r['viol'].items(): print('%s\n    %s' % (k, v))
        return 1 if d['key'] in r['viol'] else 0
    print(__doc__); return 2

if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
