#!/usr/bin/env python3
"""Driver of the run-time monitors: builds the harnesses of one property from
/repo's working tree, runs them in shards, aggregates what the monitors
observed and reports.   check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import sys, os, json, subprocess, time, re, shutil, signal, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS

NCPU = int(os.environ.get('VERIF_JOBS', '8'))
BASE_FLAGS = ['-std=c++17', '-w', '-I' + REPO, '-isystem', '/usr/include/eigen3', '-I' + V + '/harness']
CONFIGS = {
    'asan': ['clang++', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'asan1': ['clang++', '-O1', '-fno-inline', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'plain': ['clang++', '-O0', '-D_GLIBCXX_ASSERTIONS'],
    'plain1': ['clang++', '-O1', '-D_GLIBCXX_ASSERTIONS'],
    'opt': ['g++', '-O2', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['clang++', '-O1', '-fsanitize=thread', '-g1'],
    'tsan0': ['clang++', '-O0', '-fsanitize=thread'],
}
SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=77:abort_on_error=0:detect_leaks=%d:hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1',
    'UBSAN_OPTIONS': 'exitcode=77:print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:report_signal_unsafe=0',
    'LSAN_OPTIONS': 'exitcode=78',
}

def env_for(unit):
    e = dict(os.environ)
    for k, v in SAN_ENV.items():
        e[k] = v % (1 if unit.get('leaks') else 0) if '%d' in v else v
    e['LC_ALL'] = 'C'
    e['VERIF_REPO'] = REPO
    e.update(unit.get('env', {}))
    return e

def build(unit, bdir, seed, tier):
    """returns (ok, list of executables, log)"""
    name = unit['name']
    srcs = []
    if unit.get('gen'):
        # generated programs: the generator prints one file name per line
        out = subprocess.run([sys.executable, os.path.join(V, unit['gen']), bdir, str(seed), tier], capture_output=True, text=True)
        if out.returncode:
            return False, [], out.stdout + out.stderr
        srcs = [l for l in out.stdout.split('\n') if l.strip()]
    else:
        srcs = [os.path.join(V, 'harness', unit.get('src', ''))]
    exes, jobs = [], []
    if unit.get('pymod'):
        # a Python extension module, built into a package directory of the build directory
        import sysconfig
        os.makedirs(os.path.join(bdir, 'stator'), exist_ok=True)
        shutil.copy(os.path.join(REPO, 'pysrc/stator/__init__.py'), os.path.join(bdir, 'stator'))
        srcs = [os.path.join(REPO, unit['pymod'])]
        unit['flags'] = ['-fPIC', '-shared', '-shared-libasan', '-I' + sysconfig.get_paths()['include']]
        lib = subprocess.run(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(['clang++', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        unit['env'] = {'LD_PRELOAD': lib + ' ' + cxx, 'PYTHONMALLOC': 'malloc', 'PYTHONPATH': bdir, 'PYTHONDONTWRITEBYTECODE': '1'}
    for i, s in enumerate(srcs):
        exe = os.path.join(bdir, '%s_%d' % (name, i)) if not unit.get('pymod') else os.path.join(bdir, 'stator', 'core.so')
        cmd = CONFIGS[unit['config']] + BASE_FLAGS + unit.get('flags', []) + [s, '-o', exe] + unit.get('libs', [])
        jobs.append((exe, cmd)); exes.append(exe)
    log = ''
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (exe, cmd), r in zip(jobs, ex.map(lambda j: subprocess.run(j[1], capture_output=True, text=True), jobs)):
            if r.returncode:
                log += ' '.join(cmd) + '\n' + r.stderr[-6000:]
                if r.returncode == 1 and ' error: ' in r.stderr and smoke(unit, cmd, srcs, bdir):
                    # the headers compile, but not this program of their public interface
                    return False, srcs, 'INTERFACE' + log
    return (not log), exes, log

def smoke(unit, cmd, srcs, bdir):
    """do the library headers the harness includes compile on their own?"""
    inc, seen, todo = [], set(), list(srcs)
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f): continue
        seen.add(f)
        for l in open(f, errors='replace'):
            m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)', l)
            if m and m.group(1) == '<' and m.group(2).startswith('stator/'): inc.append(m.group(2))
            elif m and m.group(1) == '"': todo.append(os.path.join(V, 'harness', m.group(2)))
    p = os.path.join(bdir, unit['name'] + '_smoke.cpp')
    with open(p, 'w') as f: f.write(''.join('#include <%s>\n' % i for i in dict.fromkeys(['stator/exception.hpp'] + inc)) + 'int main() { return 0; }\n')
    c = [p if x in srcs else x for x in cmd]
    return subprocess.run(c[:c.index('-o')] + ['-fsyntax-only'] + c[c.index('-o') + 2:], capture_output=True).returncode == 0

def classify(rc, err):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer): ([^\n(]*)', err)
    if m:
        kind = m.group(2).strip().split(' on ')[0].split(':')[0].strip()
        kind = re.sub(r'0x[0-9a-f]+', '', kind)
        kind = re.sub(r'\s+', '-', kind.strip())
        return m.group(1) + ':' + kind[:60]
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        return 'UBSan:' + re.sub(r'[0-9a-fx]{4,}|-?\d+(\.\d+)?', 'N', m.group(1))[:70].strip().replace(' ', '-')
    if 'WARNING: ThreadSanitizer' in err:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', err)
        return 'ThreadSanitizer:' + m.group(1).strip().replace(' ', '-')
    if 'VF-HANG' in err or rc == 97:
        return 'hang'
    if 'hard rss limit exhausted' in err:
        return 'memory-exhausted'
    if 'terminate called' in err or 'Assertion' in err:
        return 'abort'
    return 'crash:exit%d' % rc

def read_status(path):
    try:
        b = open(path, 'rb').read()
        import struct
        g, idx, ph = struct.unpack_from('i4xqi', b, 0)
        d = b[20:].split(b'\0', 1)[0]
        return g, idx, ph, d.decode('latin-1')
    except Exception:
        return -1, -1, 0, ''

def run_one(job):
    exe, unit, args, tag, bdir, timeout = job
    out = os.path.join(bdir, tag + '.json'); st = os.path.join(bdir, tag + '.st'); ef = os.path.join(bdir, tag + '.err')
    for f in (out, st):
        if os.path.exists(f): os.unlink(f)
    cmd = ([sys.executable] if exe.endswith('.py') else []) + [exe] + args + ['--out', out, '--status', st]
    t0 = time.time()
    with open(ef, 'wb') as eo:
        p = subprocess.Popen(cmd, stdout=eo, stderr=subprocess.STDOUT, env=env_for(unit), start_new_session=True, cwd=bdir)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = -999
    with open(ef, 'rb') as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 60000)); err = f.read().decode('latin-1')
    res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except Exception: res = None
    return dict(rc=rc, err=err, res=res, st=read_status(st), args=args, exe=exe, wall=time.time() - t0)

def groups_of(exe):
    return None

def load_known():
    known, f = [], os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) key=(\S+) input=<<(.*?)>> (.*)', l.strip())
                if m: known.append(dict(property=m.group(1), key=m.group(2), input=m.group(3), what=m.group(4)))
    return known

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == '--tier': tier = a[1]; a = a[2:]
        elif a[0] == '--replay': replay = a[1]; a = a[2:]
        else: a = a[1:]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    chk = CHECKS[pid]
    bdir = os.path.join(V, 'build', pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    rep = json.load(open(replay)) if replay else None
    if rep: seed = rep.get('seed', seed); tier = rep.get('tier', tier)
    viols, counters, distinct, samples, evaluations = [], {}, set(), [], 0
    errors = []
    units = chk['units']
    if rep: units = [u for u in units if u['name'] == rep['unit']]

    # build everything in parallel
    bt = time.time()
    with cf.ThreadPoolExecutor(max(1, len(units))) as ex:
        built = list(ex.map(lambda u: build(u, bdir, seed, tier) if u.get('config') else (True, [], ''), units))
    iface = []
    for u, (ok, exes, log) in zip(units, built):
        if not ok and log.startswith('INTERFACE'):
            sys.stderr.write(log[-8000:] + '\n')
            iface.append((u, exes, log))
        elif not ok:
            sys.stderr.write(log[-8000:] + '\n')
            print('CHECK-ERROR property=%s harness %s does not build' % (pid, u['name']))
            sys.exit(2)
    bt = time.time() - bt

    jobs = []
    for u, (ok, exes, log) in zip(units, built):
        if not ok: continue
        if u.get('script'):
            exes = [os.path.join(V, u['script'])]
        for ei, exe in enumerate(exes):
            base = ['--seed', str(seed), '--tier', tier]
            if rep:
                args = base + (['--group', rep['group'], '--replay', str(rep['idx'])] if rep.get('idx', -1) >= 0 else ['--shard', str(rep.get('shard', 0)), '--nshards', str(rep.get('nshards', 1))])
                if ei == rep.get('exe', 0):
                    r = run_one((exe, u, args, 'replay', bdir, 800)); print(r['err'][-6000:]); print('exit status', r['rc'])
                continue
            ns = u.get('shards', NCPU)
            for s in range(ns):
                jobs.append(((exe, u, base + ['--shard', str(s), '--nshards', str(ns)] + (['--scale', str(u['scale'])] if 'scale' in u else []), '%s_%d_s%d' % (u['name'], ei, s), bdir, u.get('timeout', 600 if tier == 'quick' else 7200)), u, ei, s, ns))
    if rep: return
    def go(j):
        r = run_one(j[0])
        if r['rc'] == 97:
            # out of CPU time: run that very case again, alone, before believing it
            g, idx, ph, d = r['st']
            gname = group_name(r, g)
            if gname is not None:
                r2 = run_one((j[0][0], j[1], ['--seed', str(seed), '--tier', tier, '--group', gname, '--replay', str(idx)], j[0][3] + '_again', bdir, 900))
                if r2['rc'] != 97: r['unconfirmed'] = True
        return r
    def group_name(r, g):
        try: return subprocess.run(([sys.executable] if r['exe'].endswith('.py') else []) + [r['exe'], '--list'], capture_output=True, text=True).stdout.split('\n')[g]
        except Exception: return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(go, jobs))
    for j, r in zip(jobs, results):
        u, ei, s, ns = j[1:]
        res = r['res']
        if res:
            evaluations += res['evaluations']
            for k, n in res['counters'].items(): counters[k] = counters.get(k, 0) + n
            distinct.update('%s%s' % (u['name'], h) for h in res['distinct'])
            for x in res['samples']:
                if len(samples) < 40: samples.append(x)
            for v in res['violations']:
                viols.append(dict(v, unit=u['name'], exe=ei, shard=s, nshards=ns))
        if r['rc'] not in (0, 3) or (r['rc'] == 0 and not res):
            if r['rc'] == -999:
                errors.append('unit %s shard %d exceeded its wall-clock limit' % (u['name'], s)); continue
            if r['rc'] == 97 and r.get('unconfirmed'):
                errors.append('unit %s shard %d: CPU-time limit hit, not reproduced alone' % (u['name'], s)); continue
            if r['rc'] in (98, 2, 126, 127):
                errors.append('unit %s: %s' % (u['name'], r['err'][-2000:])); continue
            if r['rc'] in (-9, 137) and 'rss limit' not in r['err']:
                errors.append('unit %s shard %d was killed from outside' % (u['name'], s)); continue
            g, idx, ph, d = r['st']
            key = classify(r['rc'], r['err'])
            viols.append(dict(key=key, group=(group_name(r, g) if ph == 0 else 'at-exit') or str(g), idx=idx if ph == 0 else -1, unit=u['name'], exe=ei, shard=s, nshards=ns,
                              detail='input: %s\n%s' % (d, r['err'][-12000:])))
    for u, srcs, log in iface:
        viols.append(dict(key='interface-does-not-compile', group='build', idx=-1, unit=u['name'], exe=0, shard=0, nshards=1, detail='a program using the public interface of these headers no longer compiles, although the headers do\n' + log[:9000]))
    known = [k for k in load_known() if k['property'] == pid]
    new, hit = [], {}
    for v in viols:
        k = next((k for k in known if re.fullmatch(k['key'], v['key']) and re.search(k['input'], v['detail'])), None)
        if k: hit[k['what']] = v
        else: new.append(v)
    for k in known:
        # a listed finding is reported whether or not this run happened to sample it
        print('KNOWN-FINDING: property=%s %s%s' % (pid, k['what'], '' if k['what'] in hit else ' (not reproduced by this run)'))
    for f in os.listdir(os.path.join(V, 'replay')):
        if f.startswith(pid + '-'): os.unlink(os.path.join(V, 'replay', f))
    seen = {}
    for v in new:
        n = seen.get(v['key'], 0)
        if n >= 3: continue
        seen[v['key']] = n + 1
        path = os.path.join(V, 'replay', '%s-%d.json' % (pid, sum(seen.values())))
        json.dump(dict(v, property=pid, seed=seed, tier=tier, how='python3 /verif/check.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s %s#%d: %s' % (v['key'], v['group'], v['idx'], v['detail'][:1200].replace('\n', '\n    ')))
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.get('level', 'exploration'),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct) + counters.pop('distinct_not_recorded', 0), rule=chk['rule'],
                            samples=samples or ['none'], observed={k: n for k, n in sorted(counters.items()) if not k.startswith('sampled:')},
                            build_s=round(bt, 1), executions=len(jobs)),
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d evaluations, %d distinct non-trivial cases, %d violations, %d known, %.1f s (build %.1f s)' % (pid, tier, evaluations, ev['coverage']['distinct_nontrivial'], len(new), len(hit), time.time() - t0, bt))
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(bdir, ignore_errors=True)
    if new: sys.exit(1)
    if errors:
        for e in errors: print('CHECK-ERROR ' + e)
        sys.exit(2)
    if evaluations == 0 and not new:
        print('CHECK-ERROR nothing was evaluated'); sys.exit(2)
    sys.exit(0)

main()
