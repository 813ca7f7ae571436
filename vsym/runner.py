"""Property runner: compile harnesses from /repo's current tree, explore, replay, report."""
import argparse
import fractions
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
sys.setrecursionlimit(20000)

from . import ir                                                    # noqa: E402
from .core import Ctx, Infeasible, Unsupported, BoundExceeded, Restart, MemError, Obligation, PathEnd, Stats  # noqa: E402
from .real import RealDom                                           # noqa: E402
from .fp import FpDom                                               # noqa: E402
from .interp import Interp                                          # noqa: E402
import z3                                                           # noqa: E402

CXX = ['-std=c++17', '-DNDEBUG', f'-I{REPO}/include', f'-I{VERIF}/harness', '-fno-exceptions']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-rtti', '-ffp-contract=off',
           '-fno-threadsafe-statics', '-fno-math-errno', '-Wno-everything']
PASSES = {
    'A': 'function(mem2reg,simplifycfg,instsimplify,simplifycfg),globaldce',
    'B': 'function(mem2reg),globaldce',
}

MOD = None          # parsed module, shared with forked workers
CFGS = {}
STUBS = {}          # callee -> harness function standing for its (separately checked) contract


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_ir(src, work, variant='A'):
    raw = os.path.join(work, 'h.ll')
    r = sh(['clang++'] + CXX + IRFLAGS + [src, '-o', raw])
    if r.returncode != 0:
        raise RuntimeError("harness does not compile against /repo:\n" + r.stdout[-4000:])
    out = os.path.join(work, f'h{variant}.ll')
    r = sh([f'{LLVM}/opt', '-S', '-passes=' + PASSES[variant], raw, '-o', out])
    if r.returncode != 0:
        raise RuntimeError("opt failed:\n" + r.stdout[-4000:])
    return open(out).read()


class Native:
    """native builds of the harness file, compiled in the background"""

    def __init__(self, src, work):
        self.src, self.work = src, work
        self.bins = {}
        self.procs = {}
        self.start('native')

    CMDS = {
        'native': ['clang++', '-O2', '-ffp-contract=off'],
        'asan': ['clang++', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                 '-fno-sanitize=float-divide-by-zero', '-Wno-everything'],
        'msan': ['clang++', '-O1', '-g', '-fsanitize=memory', '-Wno-everything'],
    }

    def start(self, k):
        if k in self.procs:
            return
        b = os.path.join(self.work, 'replay_' + k)
        cmd = self.CMDS[k] + CXX + ['-w', '-rdynamic', self.src, os.path.join(VERIF, 'harness', 'vp_native.cpp'), '-ldl', '-o', b]
        self.procs[k] = (subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), b)

    def get(self, k):
        self.start(k)
        if k not in self.bins:
            p, b = self.procs[k]
            out = p.communicate()[0]
            self.bins[k] = b if p.returncode == 0 else None
            if p.returncode != 0:
                print("note: native build", k, "failed:", out.decode()[-1500:])
        return self.bins[k]

    def run(self, k, harness, path):
        b = self.get(k)
        if not b:
            return None, ''
        try:
            r = subprocess.run([b, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            return 'timeout', 'REPLAY timeout'


def enc(ty, v):
    if ty == 'f64':
        x = tofloat(v)
        return 'd %016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
    if ty == 'f32':
        x = tofloat(v)
        try:
            return 'f %08x' % struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 'f %08x' % struct.unpack('<I', struct.pack('<f', math.copysign(math.inf, x)))[0]
    return 'i %x' % (int(v) & ((1 << 64) - 1))


def tofloat(v):
    if v is None:
        return 0.0
    try:
        return float(v)
    except OverflowError:
        return math.inf


def write_inputs(path, harness, cid, vals):
    with open(path, 'w') as f:
        f.write(f"# harness {harness} check {cid}\n")
        for n, t, v in vals:
            if n.startswith('~'):       # belongs to a contract stub, not to the real code
                continue
            f.write(enc(t, v) + f"   # {n} = {tofloat(v) if t[0]=='f' else v}\n")


# ------------------------------------------------------------------------------------------- workers
class PathResult:
    pass


def run_paths(harness, prefixes, hints, budget_s, deadline, first_bad, want_witness, seed):
    """explore from the given prefixes for a limited time; returns dict"""
    cfg = dict(DEFAULT_CFG)
    cfg.update(CFGS.get(harness, {}))
    cfg['seed'] = seed
    res = dict(harness=harness, paths=0, infeasible=0, proved={}, bad=[], rest=[], steps=0, decisions=0, funcs={},
               queries=0, sat=0, unsat=0, unknown=0, stime=0.0, reached=set(), restart=None, notes=[], witness=[],
               inputs=0, wall=0.0)
    stack = list(prefixes)
    t0 = time.time()
    bads = set(first_bad)
    nbad = {}
    n0 = len(hints)
    while stack:
        if time.time() - t0 > budget_s:
            break
        if time.time() > deadline:
            break
        prefix = stack.pop()
        cfg['first_bad'] = bads
        ctx = Ctx(prefix, cfg, hints)
        ctx.deadline = deadline
        dom = RealDom(ctx) if harness.startswith('vp_r') else FpDom(ctx)
        I = Interp(MOD, ctx, dom, STUBS if cfg.get('stub') else None)
        ended = 'ok'
        try:
            I.run_harness('@' + harness)
        except Infeasible:
            ended = 'infeasible'
        except Restart:
            res['restart'] = dict(hints)
            return res
        except MemError as e:
            cid = 'runtime-safety: ' + str(e)
            ended = 'mem'
            if not any(b == cid for b in bads):
                models = dom.find_models(z3.BoolVal(True))
                # an infeasible path is not a candidate
                if models or not (dom.name == 'real' and dom.pc_unsat(z3.BoolVal(True))):
                    ctx.bad.append(Obligation(cid, 'sat' if models else 'unknown', models, why=str(e), prefix=tuple(ctx.trace)))
        except (Unsupported, BoundExceeded) as e:
            ended = 'unsupported'
            if isinstance(e, BoundExceeded) and re.match('recursion|step|decision', str(e)) and 'termination' not in bads:
                # possibly an endless loop: look for an input on this path and try it on the compiled code
                try:
                    models = dom.find_models(z3.BoolVal(True))
                except Exception:
                    models = []
                if models:
                    ctx.bad.append(Obligation('termination', 'sat', models[:1], why=str(e), prefix=tuple(ctx.trace)))
            ctx.bad.append(Obligation('exploration', 'unknown', None, why=type(e).__name__ + ': ' + str(e), prefix=tuple(ctx.trace)))
        except z3.Z3Exception as e:
            ended = 'unsupported'
            ctx.bad.append(Obligation('exploration', 'unknown', None, why='z3: ' + str(e)[:200], prefix=tuple(ctx.trace)))
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, ir.IRError, AssertionError, ZeroDivisionError) as e:
            ended = 'unsupported'
            ctx.bad.append(Obligation('exploration', 'unknown', None, why='internal: ' + traceback.format_exc()[-600:], prefix=tuple(ctx.trace)))
        stack.extend(ctx.alts)
        if ended == 'infeasible':
            res['infeasible'] += 1
        else:
            res['paths'] += 1
        if ended == 'ok' and want_witness and len(res['witness']) < want_witness:
            try:
                old = cfg.get('model_s', 25)
                cfg['model_s'] = 6
                ms = dom.find_models(z3.BoolVal(True), seeds=1)
                cfg['model_s'] = old
                if ms:
                    res['witness'].append(ms[0])
            except Exception:
                pass
        for k, v in ctx.proved.items():
            res['proved'][k] = res['proved'].get(k, 0) + v
        for b in ctx.bad:
            res['bad'].append((b.cid, b.status, b.model, b.why, b.prefix))
            if b.status == 'sat':
                # a few candidates per check, because one near a boundary may not survive rounding in the replay
                nbad[b.cid] = nbad.get(b.cid, 0) + 1
                if nbad[b.cid] >= 4 or dom.name != 'real' or b.cid == 'termination' or b.cid.startswith('runtime-safety'):
                    bads.add(b.cid)
        for k, v in ctx.funcs.items():
            res['funcs'][k] = res['funcs'].get(k, 0) + v
        res['steps'] += ctx.steps
        res['decisions'] += len(ctx.trace)
        res['queries'] += ctx.stats.queries
        res['sat'] += ctx.stats.sat
        res['unsat'] += ctx.stats.unsat
        res['unknown'] += ctx.stats.unknown
        res['stime'] += ctx.stats.time
        res['reached'] |= ctx.reached
        res['inputs'] = max(res['inputs'], len(ctx.inputs))
    res['rest'] = stack
    res['wall'] = time.time() - t0
    return res


DEFAULT_CFG = {}


def worker_main(inq, outq):
    while True:
        t = inq.get()
        if t is None:
            return
        tid, args = t
        outq.put((tid, os.getpid()))
        if os.environ.get('VP_FH'):
            import faulthandler
            faulthandler.dump_traceback_later(int(os.environ['VP_FH']), file=open('/tmp/fh.%d' % os.getpid(), 'w'))
        try:
            r = run_paths(*args)
        except BaseException as e:      # noqa
            r = dict(harness=args[0], crash=traceback.format_exc()[-2000:])
        outq.put((tid, r))


def big_stack_worker(inq, outq):
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=worker_main, args=(inq, outq))
    t.start()
    t.join()


def parse_cfg(mod):
    out = {}
    for g, (t, init, c) in mod.globals.items():
        n = g[1:]
        if n.startswith('vp_cfg_') and init and init[0] == 'bytes':
            d = {}
            for kv in init[1].rstrip(b'\0').decode().split(','):
                if kv.strip():
                    k, v = kv.split('=')
                    d[k.strip()] = int(v)
            out[n[len('vp_cfg_'):]] = d
    return out


def demangle(names):
    r = subprocess.run([f'{LLVM}/llvm-cxxfilt'], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def main(argv=None):
    global MOD, CFGS, DEFAULT_CFG
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='run only harnesses matching this regex')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--strict', action='store_true', help='development: exit 3 if anything is undecided')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VP_JOBS', '8')))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-witness', action='store_true')
    ap.add_argument('--variant', default='A')
    a = ap.parse_args(argv)
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t_start = time.time()
    budget = 600 if tier == 'quick' else 3300
    if os.environ.get('VP_BUDGET'):
        budget = int(os.environ['VP_BUDGET'])
    deadline = t_start + budget
    DEFAULT_CFG = dict(check_ms=10000, feas_ms=500, model_s=25) if tier == 'quick' else \
        dict(check_ms=60000, feas_ms=2000, model_s=60)
    src = os.path.join(VERIF, 'harness', pid + '.cpp')
    work = tempfile.mkdtemp(prefix='vsym_')
    ev = dict(property=pid, tier=tier, seed=seed)
    try:
        return run_property(a, pid, tier, seed, t_start, deadline, src, work, ev)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except Exception:
        return []


def unusable(src, work):
    """compiler errors of the harness if both clang and gcc reject it although they accept the headers it includes"""
    inc = os.path.join(work, 'inc.cpp')
    with open(inc, 'w') as f:
        f.write(''.join(x for x in open(src) if x.startswith('#')))
    out = None
    for cxx in ('g++', 'clang++'):
        if sh([cxx] + CXX + ['-w', '-fsyntax-only', inc]).returncode != 0:
            return None
        r = sh([cxx] + CXX + ['-w', '-fsyntax-only', src])
        if r.returncode == 0:
            return None
        out = r.stdout
    return out


def run_property(a, pid, tier, seed, t_start, deadline, src, work, ev):
    global MOD, CFGS, STUBS
    undecided = []
    native = None
    try:
        text = build_ir(src, work, a.variant)
        MOD = ir.parse(text)
    except (RuntimeError, ir.IRError) as e:
        broken = unusable(src, work)
        if broken:
            # the library compiles, but not every use of it that the property quantifies over
            dst = os.path.join(VERIF, 'evidence', 'replays', f"{pid}_does_not_compile.txt")
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            cmd = ' '.join(['clang++'] + CXX + ['-w', '-fsyntax-only', src])
            open(dst, 'w').write(f"# {cmd}\n{broken}\n")
            print("  the headers compile, but these uses of them do not:\n    " + "\n    ".join([x for x in broken.split("\n") if 'error' in x][:10]))
            write_evidence(pid, tier, seed, t_start, dict(explanation="a use of the library that the property covers does not compile", states=0,
                                                          transitions=0, traces_validated_against_impl=1, samples=[broken[:500]]), [], 1)
            print(f"VIOLATION property={pid} replay={dst}")
            return 1
        print(f"UNDECIDED property={pid} the harness could not be encoded: {e}")
        write_evidence(pid, tier, seed, t_start, dict(explanation="the harness could not be compiled against the current tree", states=0,
                                                      transitions=0, traces_validated_against_impl=0, samples=[str(e)[-500:]]), [], 0)
        return 3 if a.strict else 0
    native = Native(src, work)
    pat = re.compile(r'@vp_(r|f|rt|ft)_\w+$')
    names = [n[1:] for n in MOD.funcs if pat.match(n)]
    if tier == 'quick':
        names = [n for n in names if not re.match(r'vp_(rt|ft)_', n)]
    if a.only:
        names = [n for n in names if re.search(a.only, n)]
    cf = parse_cfg(MOD)
    CFGS = {}
    STUBS = {}
    for f in MOD.funcs:
        m = re.match(r'@vp_stub_(\w+)$', f)
        if m:
            for g in MOD.funcs:
                if re.match(r'@_ZNK?2vm\d+' + m.group(1) + '(E|I)', g):
                    STUBS[g] = f
    for n in names:
        short = n.split('_', 2)[2]
        CFGS[n] = cf.get(short, {})
    # parse all function bodies before forking
    for f in MOD.funcs.values():
        if f.blocks and isinstance(next(iter(f.blocks.values()))[0], str):
            try:
                ir.parse_blocks(f, MOD)
            except ir.IRError as e:
                pass
    agg = {n: dict(paths=0, infeasible=0, proved={}, bad=[], funcs={}, steps=0, decisions=0, queries=0, sat=0, unsat=0,
                   unknown=0, stime=0.0, reached=set(), witness=[], inputs=0, wall=0.0, hints={}, restarts=0, pending=0,
                   gen=0, validated=0, witness_fail=[]) for n in names}
    mpc = mp.get_context('fork')
    inq, outq = mpc.SimpleQueue(), mpc.Queue()
    workers = [mpc.Process(target=big_stack_worker, args=(inq, outq), daemon=True) for _ in range(a.jobs)]
    for w in workers:
        w.start()
    queue = []        # (harness, gen, prefixes)
    for n in names:
        queue.append((n, 0, [()]))
        agg[n]['pending'] += 1
    running = {}
    pids = {}
    task_limit = int(os.environ.get('VP_TASK', '240' if tier == 'quick' else '1200'))
    tid = 0
    violations = []
    known = [k for k in load_known() if k.get('status') == 'known' and k.get('property') == pid]
    known_hit = []
    ntraces = 0
    stop = False
    replay_dir = os.path.join(VERIF, 'evidence', 'replays')
    first_viol = None
    while (queue or running) and not stop:
        while queue and len(running) < a.jobs:
            n, gen, pf = queue.pop(0)
            if gen != agg[n]['gen']:
                agg[n]['pending'] -= 1
                continue
            nsat = {}
            for b in agg[n]['bad']:
                if b[1] == 'sat':
                    nsat[b[0]] = nsat.get(b[0], 0) + 1
            fb = {c for c, k in nsat.items() if k >= 12 or not n.startswith('vp_r') or c == 'termination' or c.startswith('runtime-safety')}
            tid += 1
            want = 0 if a.no_witness else max(0, (2 if agg[n]['gen'] >= 0 else 0) - len(agg[n]['witness']))
            hd = deadline
            inq.put((tid, (n, pf, dict(agg[n]['hints']), 4.0, hd, fb, want, seed)))
            running[tid] = (n, gen, time.time())
        # a solver call that ignores its time limit: give up on the task, replace the worker
        for t, (n, gen, ts) in list(running.items()):
            if time.time() - ts > task_limit and t in pids:
                running.pop(t)
                agg[n]['pending'] -= 1
                undecided.append((n, 'exploration', 'a solver call did not return in time', ''))
                for i, w in enumerate(workers):
                    if w.pid == pids[t]:
                        w.kill()
                        w.join(5)
                        workers[i] = mpc.Process(target=big_stack_worker, args=(inq, outq), daemon=True)
                        workers[i].start()
        try:
            k, r = outq.get(timeout=5)
            if isinstance(r, int):
                pids[k] = r
                continue
        except Exception:
            if time.time() > deadline + 60:
                for t, (n, gen, ts) in running.items():
                    undecided.append((n, 'exploration', 'time budget', ''))
                for n, gen, pf in queue:
                    undecided.append((n, 'exploration', 'time budget', ''))
                break
            dead = [w for w in workers if not w.is_alive()]
            if dead:
                # a worker was lost (memory): everything it ran is undecided
                for t, (n, gen, ts) in list(running.items()):
                    if time.time() - ts > 120:
                        undecided.append((n, 'exploration', 'a worker process was lost', ''))
                        running.pop(t)
                        agg[n]['pending'] -= 1
                alive = [w for w in workers if w.is_alive()]
                while len(alive) < a.jobs:
                    w = mpc.Process(target=big_stack_worker, args=(inq, outq), daemon=True)
                    w.start()
                    alive.append(w)
                workers = alive
            continue
        if k not in running:
            continue
        n, gen, ts = running.pop(k)
        A = agg[n]
        A['pending'] -= 1
        if gen != A['gen']:
            continue
        if 'crash' in r:
            undecided.append((n, 'exploration', 'crash: ' + r['crash'][-300:], ''))
            continue
        if r['restart'] is not None:
            A['restarts'] += 1
            if A['restarts'] > 12:
                undecided.append((n, 'exploration', 'too many angle refinements', ''))
                continue
            A['hints'] = r['restart']
            A['gen'] += 1
            for kk in ('paths', 'infeasible', 'steps', 'decisions'):
                A[kk] = 0
            A['proved'], A['bad'], A['witness'] = {}, [], []
            queue.append((n, A['gen'], [()]))
            A['pending'] += 1
            continue
        for kk in ('paths', 'infeasible', 'steps', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'stime', 'wall'):
            A[kk] += r[kk]
        for c, v in r['proved'].items():
            A['proved'][c] = A['proved'].get(c, 0) + v
        for c, v in r['funcs'].items():
            A['funcs'][c] = A['funcs'].get(c, 0) + v
        A['reached'] |= r['reached']
        A['inputs'] = max(A['inputs'], r['inputs'])
        for w in r['witness']:
            if len(A['witness']) < 2:
                A['witness'].append(w)
        if r['rest']:
            if time.time() > deadline:
                undecided.append((n, 'exploration', f"time budget, {len(r['rest'])} paths left", ''))
            else:
                rest = r['rest']
                # split the remaining prefixes over the idle workers
                k = min(len(rest), max(1, a.jobs - len(running)))
                for i in range(k):
                    chunk = rest[i::k]
                    queue.append((n, A['gen'], chunk))
                    A['pending'] += 1
        for b in r['bad']:
            A['bad'].append(b)
            cid, status, models, why, prefix = b
            if status != 'sat':
                continue
            if any(v[0] == n and v[1] == cid for v in violations):
                continue
            # replay against the real code
            confirmed = None
            for mi, vals in enumerate(models):
                path = os.path.join(work, f"{n}_{hashlib.md5((cid+str(mi)+str(prefix)).encode()).hexdigest()[:8]}.in")
                write_inputs(path, n, cid, vals)
                builds = ['native', 'asan', 'msan'] if cid.startswith('runtime-safety') else \
                    (['native', 'asan'] if cid == 'termination' else ['native'])
                for bk in builds:
                    rc, out = native.run(bk, n, path)
                    ntraces += 1
                    if rc is None:
                        continue
                    bad = (rc == 1 and 'REPLAY FAIL' in out) or (isinstance(rc, int) and rc < 0) or \
                          (bk in ('asan', 'msan') and rc not in (0, 77, 78, 79)) or (rc == 'timeout')
                    if bad:
                        confirmed = (path, bk, out)
                        break
                if confirmed:
                    break
            if confirmed:
                kf = [x for x in known if x.get('harness') == n and x.get('check') == cid]
                if kf:
                    known_hit.append(kf[0])
                else:
                    violations.append((n, cid, confirmed))
                    if not a.strict:
                        stop = True
            elif cid != 'termination':
                undecided.append((n, cid, 'counterexample did not reproduce natively', vals_str(models)))
    for w in workers:
        w.terminate()
    # witnesses: vacuity guard and validation of the encoding against the compiled code
    vac = []
    for n in names:
        A = agg[n]
        for b in A['bad']:
            if b[1] != 'sat':
                undecided.append((n, b[0], b[3], ''))
        if stop:
            continue
        for wi, vals in enumerate(A['witness']):
            path = os.path.join(work, f"{n}_w{wi}.in")
            write_inputs(path, n, 'witness', vals)
            rc, out = native.run('native', n, path)
            if rc == 0:
                A['validated'] += 1
                ntraces += 1
            else:
                A['witness_fail'].append((rc, out[:300], vals_str([vals])))
        if not A['reached'] and not any(u[0] == n for u in undecided):
            vac.append(n)
    # ----- report
    tot = lambda k: sum(agg[n][k] for n in names)
    funcs = {}
    for n in names:
        for f, c in agg[n]['funcs'].items():
            funcs[f] = funcs.get(f, 0) + c
    fl = sorted(f for f in funcs if not f.startswith('@vp_') and '_ZN2vp' not in f and '_ZN2vm' in f or f.startswith('@_ZNK2vm'))
    dem = demangle([f[1:] for f in fl]) if fl else []
    dem = sorted({re.sub(r'\(.*', '', d) for d in dem if d})
    nproved = sum(sum(agg[n]['proved'].values()) for n in names)
    samples = []
    for n in names:
        A = agg[n]
        samples.append(dict(harness=n, mode='real' if n.startswith('vp_r') else 'ieee', symbolic_inputs=A['inputs'], paths=A['paths'],
                            pruned=A['infeasible'], obligations_discharged=sum(A['proved'].values()), checks=sorted(A['proved'])[:12],
                            queries=A['queries'], unsat=A['unsat'], sat=A['sat'], unknown=A['unknown'],
                            solver_s=round(A['stime'], 2), witness_replayed=A['validated']))
    cov = dict(
        states=tot('decisions') + tot('paths'),
        transitions=tot('steps'),
        traces_validated_against_impl=ntraces,
        samples=samples,
        harnesses=len(names), paths=tot('paths'), obligations_discharged=nproved,
        solver_queries=tot('queries'), solver_unsat=tot('unsat'), solver_sat=tot('sat'), solver_unknown=tot('unknown'),
        solver_time_s=round(tot('stime'), 2), functions_encoded=dem,
        undecided=[dict(harness=u[0], check=u[1], why=u[2][:400]) for u in undecided[:50]],
        bounds=bounds_of(src),
        explanation="states = symbolic path states (decisions + completed paths); transitions = LLVM IR instructions executed symbolically; "
                    "every obligation is an SMT query over all input values on its path")
    viol_lines = []
    if violations:
        os.makedirs(replay_dir, exist_ok=True)
        for n, cid, (path, bk, out) in violations:
            dst = os.path.join(replay_dir, f"{pid}_{os.path.basename(path)}")
            with open(path) as f:
                body = f.read()
            with open(dst, 'w') as f:
                f.write(f"# property {pid}: {cid}\n# replay: {VERIF}/replay.sh {pid} {n} {dst} {bk}\n" + body)
                f.write("".join("# " + l + "\n" for l in out.strip().split("\n")[:30]))
            viol_lines.append((n, cid, dst, out))
    write_evidence(pid, tier, seed, t_start, cov, ASSUMPTIONS, len(violations))
    if a.verbose or a.strict:
        for n in names:
            A = agg[n]
            print(f"  {n}: paths={A['paths']} pruned={A['infeasible']} proved={sum(A['proved'].values())} queries={A['queries']} "
                  f"solver={A['stime']:.1f}s wall={A['wall']:.1f}s witness={A['validated']}/{len(A['witness'])}")
            for wf in A['witness_fail']:
                print("     witness not validated:", wf)
    shown = set()
    for u in undecided:
        if (u[0], u[1]) in shown or len(shown) >= 20:
            continue
        shown.add((u[0], u[1]))
        print(f"UNDECIDED property={pid} harness={u[0]} check={u[1]}: {u[2][:600]} {u[3][:800]}")
    for n in vac:
        print(f"UNDECIDED property={pid} harness={n}: no check was reached")
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k.get('what')}")
    print(f"{pid}: {len(names)} harnesses, {cov['paths']} paths, {nproved} obligations discharged, {cov['solver_queries']} queries, "
          f"solver {cov['solver_time_s']} s, {len(undecided)} undecided, wall {time.time()-t_start:.1f} s")
    for n, cid, dst, out in viol_lines:
        print(f"  counterexample in {n}: {cid}")
        print("    " + "\n    ".join(open(dst).read().strip().split("\n")[2:24]))
        print(f"VIOLATION property={pid} replay={dst}")
    sys.stdout.flush()
    if violations:
        return 1
    if a.strict and (undecided or vac):
        return 3
    return 0


def vals_str(models):
    return "; ".join(", ".join(f"{n}={tofloat(v) if t[0]=='f' else v}" for n, t, v in m) for m in (models or [])[:2])


def bounds_of(src):
    out = []
    try:
        for l in open(src):
            m = re.match(r'\s*// BOUND:?\s*(.*)', l)
            if m:
                out.append(m.group(1))
    except OSError:
        pass
    return out


ASSUMPTIONS = [
    "clang 18 front end and the mem2reg/simplifycfg/instsimplify passes preserve the meaning of the source",
    "Real-mode harnesses (vp_r_*): floating point values are extended reals; rounding, overflow, subnormals and the sign of zero are outside the claim; "
    "literals that are correctly rounded small rationals or multiples of pi stand for the exact number",
    "IEEE-mode harnesses (vp_f_*): round-to-nearest-even, no traps, NaN payloads not distinguished",
    "memory allocation succeeds; assert() is compiled out (NDEBUG), as in the repository's own build",
]


def write_evidence(pid, tier, seed, t_start, cov, assumptions, nviol):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=assumptions,
             wall_s=round(time.time() - t_start, 2), violations=nviol)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
