import sys, os, time, subprocess, hashlib, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sx, mem, flow, ir, z3
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
BASE = ['-Wno-everything', '-fno-access-control', '-include', 'cassert', '-include', 'cmath', '-include', 'cstddef', '-include', 'cstring',
        '-include', 'limits', '-DNDEBUG', '-DEXSEISDAT_MPIIO_COLLECTIVES', '-I' + REPO + '/src', '-I' + REPO + '/include',
        '-I' + VERIF + '/include', '-isystem', MPI, '-isystem', MPI + '/openmpi']
LLVM = '/usr/lib/llvm-18/bin/'
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify)'


def compile_ir(src, out, std='gnu++14', extra=()):
    cmd = [LLVM + 'clang++', '-include', VERIF + '/include/vpcfg.h', *BASE, '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-g0', '-ffp-contract=off',
           '-DVP_SYM', *extra, '-S', '-emit-llvm', '-o', out + '.0.ll', src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('compile %s\n%s' % (src, r.stderr[-3000:]))
    r = subprocess.run([LLVM + 'opt', '-passes=' + PASSES, '-S', out + '.0.ll', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('opt %s\n%s' % (src, r.stderr[-3000:]))
    os.unlink(out + '.0.ll')
    return out


def run_contract(mods, name, mode='int', fp='uf', **opts):
    x = flow.Engine(mods, mode, fp, opts.pop('timeout', 45000), opts)
    st = sx.State()
    fr = sx.Frame(x.func('contract_' + name))
    if fr.fn is None:
        raise RuntimeError('no contract ' + name)
    fr.fn.blocks
    fr.bb = fr.fn.entry
    st.frames.append(fr)
    err = None
    try:
        outs = x.run(st, flow.Stop(1))
        x.paths = len(outs)
    except sx.Failed as f:
        err = ('failed', f.o)
        x.paths = 0
    except (sx.Unsupported, sx.Budget, ) as e:
        err = (type(e).__name__, str(e))
        x.paths = 0
    return x, err


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('contract'); ap.add_argument('srcs', nargs='*'); ap.add_argument('--only'); ap.add_argument('--mode', default='int')
    ap.add_argument('--fp', default='uf'); ap.add_argument('--trace', action='store_true'); ap.add_argument('--tb', action='store_true')
    ap.add_argument('--std', default='gnu++17'); ap.add_argument('-v', action='store_true'); ap.add_argument('--opt', action='append', default=[])
    ap.add_argument('--budget', type=int, default=600)
    a = ap.parse_args()
    os.makedirs('/tmp/w/ir', exist_ok=True)
    mods = [ir.Module(compile_ir(a.contract, '/tmp/w/ir/h.ll', a.std))]
    for s in a.srcs:
        mods.append(ir.Module(compile_ir(REPO + '/' + s, '/tmp/w/ir/' + s.replace('/', '_') + '.ll')))
    names = [f[9:] for f in mods[0].funcs if f.startswith('contract_')]
    opts = {'loop_trace': a.trace, 'budget': a.budget}
    for o in a.opt:
        k, v = o.split('='); opts[k] = eval(v)
    for n in names:
        if a.only and n not in a.only.split(','):
            continue
        t = time.time()
        if a.tb:
            flow.Engine.TB = True
        x, err = run_contract(mods, n, a.mode, a.fp, **opts)
        print('%-20s paths %d obls %d proved %d queries %d loops %d %.1fs (solver %.1f) covers %s ended %s' % (
            n, x.paths, len(x.obls), sum(o.status == 'proved' for o in x.obls), x.nq, x.loops_done, time.time() - t, x.tq, x.covers, x.ended))
        if a.v:
            for o in x.obls:
                print('   ', o.status, o.kind, o.msg, '%.2f' % o.t, o.solver)
        if err:
            if err[0] == 'failed':
                o = err[1]
                print('  FAILED', o.status, o.kind, o.msg, '|', o.where[:200])
                if o.model is not None:
                    for nm, kind, t_, ex in o.inputs:
                        if sx.isz(t_):
                            print('     ', nm, o.model.eval(t_, model_completion=True))
            else:
                print('  ', err)
                
