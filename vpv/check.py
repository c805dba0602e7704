"""decide one property:  python3-vt vpv/check.py C01 [--tier quick|thorough] [--replay FILE] [--native SECONDS]

Every contract of the property is verified on /repo's current source. All
obligations proved: exit 0. Otherwise the counterexample is replayed natively
and failing inputs are searched for; exit 1 with a VIOLATION line."""
import sys, os, time, json, subprocess, tempfile, shutil, re, traceback, pickle, signal
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
import importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drive, sx, flow, mem, ir, z3
from table import CHECKS, TRUSTED, ASSUME

VERIF, REPO = drive.VERIF, drive.REPO
CXX = drive.LLVM + 'clang++'
NFLAGS = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,float-cast-overflow,function',
          '-ffp-contract=off', '-DVP_NATIVE', '-fno-omit-frame-pointer']


def small_model(o, x):
    """a counter-model with small inputs when there is one"""
    soft = [t <= e for n, k, t, e in o.inputs if k == 'u64' and sx.isz(t) and z3.is_int(t) and isinstance(e, int)]
    for extra in ([soft] if soft else []):
        s = z3.Solver()
        s.set('timeout', 8000)
        s.add(*[sx.bterm(c) for c in o.pc])
        s.add(z3.Not(sx.bterm(o.cond)))
        s.add(*extra)
        if s.check() == z3.sat:
            return s.model()
    return o.model


def model_text(o, x):
    m = small_model(o, x)
    if m is None:
        return None
    out = []

    def ev(t):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            return t
        v = m.eval(t, model_completion=True)
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v.as_long()
    for nm, kind, t, ex in o.inputs:
        try:
            if kind == 'array':
                n, es, _ = ex
                n = ev(n)
                if n * es > 400000:
                    continue
                st = sx.State()
                bs = bytearray()
                for i in range(n):
                    v = mem.uf_app(x, st, t, 'in!%s!%d' % (t.name, t.id), i)
                    bs += (ev(v) & ((1 << 8 * es) - 1)).to_bytes(es, 'little')
                out.append('a %s %d %d %s' % (nm, n, es, bs.hex()))
            else:
                out.append('v %s %d' % (nm, ev(t) & ((1 << 64) - 1)))
        except Exception:
            continue
    return '\n'.join(out)


def run_one(job):
    """verify one contract (in a worker process)"""
    name, lls, mode, fp, opts = job
    t0 = time.time()
    try:
        mods = [ir.Module(l) for l in lls]
        x, err = drive.run_contract(mods, name, mode, fp, **dict(opts))
    except MemoryError:
        return dict(name=name, ok=False, err='out of memory', obls=[], t=time.time() - t0, model=None)
    except Exception:
        return dict(name=name, ok=False, err='verifier error\n' + traceback.format_exc()[-1500:], obls=[], t=time.time() - t0, model=None)
    r = dict(name=name, ok=err is None, err=None, model=None, t=time.time() - t0, paths=x.paths, loops=x.loops_done, queries=x.nq,
             solver_s=x.tq, covers=dict(x.covers), fns=dict(x.used_fns), models=dict(x.used_models), ended=dict(x.ended),
             bounds=getattr(x, 'nbounds', 0),
             obls=[(o.kind, o.msg, o.status, o.solver, round(o.t, 3), (o.where or '')[:160]) for o in x.obls])
    if err:
        if err[0] == 'failed':
            o = err[1]
            r['err'] = 'obligation not proved (%s): %s: %s\n  at %s' % (
                'counterexample' if o.status == 'failed' else 'solvers gave no answer', o.kind, o.msg, o.where)
            try:
                r['model'] = model_text(o, x)
            except Exception:
                r['model'] = None
        else:
            r['err'] = '%s: %s' % err
    else:
        if not r['obls']:
            r['ok'], r['err'] = False, 'the contract generates no obligation (vacuous)'
        bad = [k for k, v in r['covers'].items() if not v]
        if bad:
            r['ok'], r['err'] = False, 'unreachable: %s (vacuous)' % bad
        if x.paths == 0:
            r['ok'], r['err'] = False, 'no execution reaches the end of the contract (vacuous)'
    return r


def compile_job(j):
    try:
        drive.compile_ir(*j)
        return None
    except Exception as e:
        return str(e)


def contract_names(path):
    return re.findall(r'^VP_CONTRACT\((\w+)\)', open(path).read(), re.M)


class Native:
    def __init__(self, tmp):
        self.tmp, self.exes = tmp, {}

    def build(self, unit):
        key = unit['contract']
        if key in self.exes:
            return self.exes[key]
        h = os.path.join(VERIF, 'contracts', unit['contract'])
        jobs = [(h, unit.get('std', 'gnu++17')), (os.path.join(VERIF, 'native/vprt.cc'), 'gnu++17')]
        jobs += [(os.path.join(REPO, s), 'gnu++14') for s in unit.get('nsrcs', unit.get('srcs', []))]
        objs, ps = [], []
        for i, (s, std) in enumerate(jobs):
            o = os.path.join(self.tmp, 'n%s_%d.o' % (key.replace('.', '_'), i))
            objs.append(o)
            cmd = [CXX, *drive.BASE, '-std=' + std, *NFLAGS, *unit.get('cflags', []), *(unit.get('nflags', [])), '-c', '-o', o, s]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                self.exes[key] = None
                sys.stderr.write('native build failed\n' + o[-2000:] + '\n')
                return None
        exe = os.path.join(self.tmp, 'n_' + key.replace('.', '_'))
        cmd = [CXX, *NFLAGS, '-rdynamic', '-o', exe, *objs, '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all',
               *unit.get('ldflags', []), '-lm', '-ldl']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write('native link failed\n' + r.stderr[-2000:] + '\n')
            exe = None
        self.exes[key] = exe
        return exe

    def env(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        return e

    def replay(self, exe, path):
        try:
            r = subprocess.run([exe, 'replay', path], capture_output=True, text=True, env=self.env(), timeout=60, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return True, 'did not terminate'
        return r.returncode not in (0, 2, 3), (r.stdout + r.stderr)[-3000:]

    def search(self, exe, name, seed, secs, out, procs=8):
        ps = []
        for i in range(procs):
            ps.append((subprocess.Popen([exe, 'search', name, str(seed * 64 + i), str(secs), out + '.%d' % i], stdout=subprocess.PIPE,
                                        stderr=subprocess.STDOUT, text=True, env=self.env(), cwd=self.tmp), out + '.%d' % i))
        hit, runs = None, 0
        live = list(ps)
        t0 = time.time()
        text = ''
        while live and hit is None:
            for p, o in list(live):
                if p.poll() is not None:
                    txt = p.stdout.read()
                    live.remove((p, o))
                    m = re.search(r'runs (\d+)', txt)
                    runs += int(m.group(1)) if m else 0
                    if p.returncode and os.path.exists(o):
                        hit, text = o, txt[-2500:]
                        break
            if time.time() - t0 > secs + 40:
                break
            time.sleep(0.05)
        for p, o in live:
            p.kill()
        return hit, runs, text


def run_job(j, out):
    os.setsid()
    try:
        x = run_one(j)
    except Exception as e:
        x = dict(name=j[0], ok=False, err='verifier error %r' % e, obls=[], t=0, model=None)
    with open(out + '.part', 'wb') as f:
        pickle.dump(x, f)
    os.rename(out + '.part', out)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.join()


def confirm(nat, r, tmp, seed, secs):
    """the verifier's counterexample on the real code, or else one found by running the contract"""
    exe = nat.build(r['unit'])
    if not exe:
        return None
    if r['model']:
        p = os.path.join(tmp, 'cx_' + r['name'])
        with open(p, 'w') as f:
            f.write('contract %s\n%s\n' % (r['name'], r['model']))
        ok, out = nat.replay(exe, p)
        if ok:
            return open(p).read(), 'the verifier\'s counterexample, replayed on the real code:\n' + out
    hit, runs, out = nat.search(exe, r['name'], seed, secs, os.path.join(tmp, 'c_' + r['name']))
    if hit:
        return open(hit).read(), 'found by running the contract on the real code:\n' + out
    return None


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--native', type=float, help='only run the native search for this many seconds (self test of the contracts)')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_' + pid + '_')
    try:
        rc = decide(pid, chk, a, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(pid, chk, a, seed, t0, tmp):
    units = chk['units']
    nat = Native(tmp)
    for u in units:
        u['names'] = u.get('names') or contract_names(os.path.join(VERIF, 'contracts', u['contract']))
        if a.only:
            u['names'] = [n for n in u['names'] if n in a.only.split(',')]
    if a.replay:
        txt = open(a.replay).read()
        name = re.search(r'^contract (\w+)', txt, re.M).group(1)
        for u in units:
            if name in u['names']:
                exe = nat.build(u)
                bad, out = nat.replay(exe, os.path.abspath(a.replay))
                print(out)
                print('REPRODUCED' if bad else 'not reproduced')
                return 1 if bad else 0
        return 2
    if a.native:
        rc = 0
        for u in units:
            exe = nat.build(u)
            for n in u['names']:
                if exe is None:
                    print(n, 'no native build'); rc = 1
                    continue
                hit, runs, txt = nat.search(exe, n, seed, a.native, os.path.join(tmp, 'h_' + n))
                print('%-24s runs %d %s' % (n, runs, 'FAILS\n' + txt + open(hit).read()[:1500] if hit else 'quiet'))
                rc |= bool(hit)
        return rc
    # ---- extraction: the verified text is clang's IR of /repo's current source
    jobs = {}
    for u in units:
        lls = []
        ex = tuple(u.get('cflags', ()))
        for s, std in [(os.path.join(VERIF, 'contracts', u['contract']), u.get('std', 'gnu++17'))] + [
                (os.path.join(REPO, s), 'gnu++14') for s in u.get('srcs', [])]:
            key = (s, std, ex)
            if key not in jobs:
                jobs[key] = os.path.join(tmp, 'm%d.ll' % len(jobs))
            lls.append(jobs[key])
        u['lls'] = lls
    ctx = mp.get_context('fork')
    with ThreadPoolExecutor(8) as pool:
        errs = list(pool.map(compile_job, [(k[0], o, k[1], k[2]) for k, o in jobs.items()]))
    errs = [e for e in errs if e]
    results, confirmed, tried = [], None, 0
    if errs:
        results = [dict(name='extraction', ok=False, err='the sources do not compile with the contracts\n' + errs[0][-2500:], obls=[],
                        t=0, model=None, unit=units[0])]
    else:
        todo = []
        for u in units:
            for n in u['names']:
                o = dict(u.get('opts', {}))
                o.update(u.get('copts', {}).get(n, {}))
                o.setdefault('budget', chk.get('budget', 300))
                if a.tier == 'thorough':
                    o['timeout'] = 60000
                todo.append((u, (n, u['lls'], u.get('cmode', {}).get(n, u.get('mode', 'int')), u.get('cfp', {}).get(n, u.get('fp', 'uf')), o)))
        deadline = time.time() + chk.get('proof_limit', 480)
        wait, live = list(todo), []
        while (wait or live) and not confirmed:
            late = time.time() > deadline
            while wait and len(live) < 8 and not late:
                u, j = wait.pop(0)
                out = os.path.join(tmp, 'r_' + j[0])
                p = ctx.Process(target=run_job, args=(j, out))
                p.start()
                live.append((u, j, p, out))
            for q in list(live):
                u, j, p, out = q
                if p.is_alive() and not late:
                    continue
                live.remove(q)
                x = dict(name=j[0], ok=False, err='the verifier did not finish in time', obls=[], t=0, model=None)
                if p.is_alive():
                    stop(p)
                elif os.path.exists(out):
                    x = pickle.load(open(out, 'rb'))
                else:
                    x['err'] = 'the verifier ended without a result (exit code %s)' % p.exitcode
                x['unit'] = u
                results.append(x)
                if not x['ok'] and not late and tried < 3:
                    # a failing input settles it
                    tried += 1
                    confirmed = confirm(nat, x, tmp, seed, 10)
                    if confirmed:
                        break
            if late:
                for u, j in wait:
                    results.append(dict(name=j[0], ok=False, err='no time was left for it', obls=[], t=0, model=None, unit=u))
                wait = []
            time.sleep(0.02)
        for q in live:
            stop(q[2])
    # ---- verdict
    bad = [r for r in results if not r['ok']]
    for r in results:
        print('%-24s %s obligations %d discharged %d loops %d %.1fs%s' % (
            r['name'], 'proved' if r['ok'] else 'NOT PROVED', len(r['obls']), sum(o[2] == 'proved' for o in r['obls']),
            r.get('loops', 0), r['t'], '' if r['ok'] else '\n   ' + r['err']))
        if a.v:
            for o in r['obls']:
                print('     ', o)
    rc = 0
    if bad:
        rc = 1
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rep = os.path.join(VERIF, 'evidence', 'replay', pid + '.txt')
        head = 'property %s\nsource %s\n' % (pid, REPO)
        detail = ''
        for r in bad:
            detail += '# contract %s: %s\n' % (r['name'], r['err'].replace('\n', '\n# '))
            if r['model']:
                detail += '# verifier counterexample:\n' + ''.join('#   %s\n' % l[:300] for l in r['model'].split('\n'))
        # directed search on the contracts that failed
        lim = chk.get('search_s', 60 if a.tier == 'quick' else 200)
        todo = [r for r in bad if r['name'] != 'extraction']
        share = max(8, lim / max(1, len(todo)))
        end = time.time() + min(lim * 1.5, 800 - (time.time() - t0))
        for r in todo:
            if confirmed or time.time() > end:
                break
            exe = nat.build(r['unit'])
            if not exe:
                continue
            hit, runs, out = nat.search(exe, r['name'], seed, min(share, max(3, end - time.time())), os.path.join(tmp, 's_' + r['name']))
            detail += '# native search of %s: %d runs\n' % (r['name'], runs)
            if hit:
                confirmed = (open(hit).read(), 'found by running the contract on the real code:\n' + out)
        with open(rep, 'w') as f:
            f.write(head + detail)
            if confirmed:
                f.write(''.join('# ' + l + '\n' for l in confirmed[1].split('\n')) + confirmed[0])
        print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if confirmed else ' no-failing-input-found'))
    # ---- known findings
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=(\w+) (.*)', l)
            if m and m.group(1) == pid:
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(2)))
    # ---- evidence
    obl = [o for r in results for o in r['obls']]
    fns, models = {}, {}
    for r in results:
        for k, v in r.get('fns', {}).items():
            fns[k] = fns.get(k, 0) + v
        for k, v in r.get('models', {}).items():
            models[k] = models.get(k, 0) + v
    dm = demangle(list(fns))
    real = sorted({d for d in dm.values() if re.search(r'\bexseis::|piol_|^contract_', d.split('(')[0]) and not d.startswith('contract_')
                   and not re.match(r'(\S+ )?(std|__gnu_cxx)::', d)})
    backs, kinds = {}, {}
    for k, m, s, b, t, w in obl:
        kinds[k] = kinds.get(k, 0) + 1
        if s == 'proved':
            backs[b] = backs.get(b, 0) + 1
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=chk.get('level', 'proof'), wall_s=round(time.time() - t0, 2),
              violations=rc,
              coverage=dict(obligations=len(obl), discharged=sum(o[2] == 'proved' for o in obl),
                            checker_cmd='python3-vt vpv/check.py %s' % pid,
                            trusted_base=TRUSTED + chk.get('trusted', []),
                            contracts=[dict(name=r['name'], proved=r['ok'], obligations=len(r['obls']), paths=r.get('paths', 0),
                                            loops_summarised=r.get('loops', 0), seconds=round(r['t'], 2)) for r in results],
                            bounds_checks_closed_by_layout=sum(r.get('bounds', 0) for r in results),
                            obligations_by_kind=kinds, discharged_by_back_end=backs,
                            solver_s=round(sum(r.get('solver_s', 0) for r in results), 2),
                            queries=sum(r.get('queries', 0) for r in results),
                            functions_under_contract=real, library_templates_executed=len(fns) - len(real),
                            trusted_models_used=sorted(models), bounded=chk.get('bounded', [])),
              assumptions=ASSUME + chk.get('assume', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == '__main__':
    main()
