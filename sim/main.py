"""Runner: seeded search over simulated runs, minimising, replay, evidence.

  python -m sim.main C01                     run the check (VERIF_TIER, VERIF_SEED)
  python -m sim.main C01 --replay FILE       reproduce a recorded violation
  python -m sim.main C01 --digests N         print the digests of the first N runs
"""
import argparse
import importlib
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = sys.stdout

TECHNIQUE = 'deterministic simulation with fault injection (seeded search)'


def say(*a):
    OUT.write(' '.join(str(x) for x in a) + '\n')
    OUT.flush()


# ------------------------------------------------------------------ bootstrap
def bootstrap():
    """Install the seams, then import the code under test from /repo."""
    from . import vio, threads, util
    sys.stdout = util.Sink()
    vio.install()
    threads.install()
    sys.path.insert(0, REPO)
    import channelpack
    here = os.path.realpath(os.path.dirname(channelpack.__file__))
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('channelpack imported from %s, not from %s' % (here, REPO))
    base = os.path.join(REPO, 'channelpack')
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for f in sorted(files):
            if f.endswith('.py') and f != '__init__.py':
                mod = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                try:
                    importlib.import_module(mod)
                except ImportError:
                    pass
    return channelpack


def build_simalloc(scratch):
    """Compile the numpy allocation seam into the scratch directory."""
    import numpy
    so = os.path.join(scratch, 'simalloc' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so'))
    cmd = ['gcc', '-O1', '-shared', '-fPIC', '-I' + sysconfig.get_paths()['include'],
           '-I' + numpy.get_include(), os.path.join(VERIF, 'sim', 'simalloc.c'), '-o', so]
    subprocess.check_call(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sys.path.insert(0, scratch)
    try:
        import simalloc
    finally:
        sys.path.remove(scratch)
    return simalloc


# ------------------------------------------------------------------ one run
class Result(object):
    __slots__ = ('index', 'status', 'cls', 'msg', 'digest', 'il', 'faults', 'probes', 'steps',
                 'nontrivial', 'choices', 'events', 'sample', 'tb')


RUN_ALARM = 60.0
LINE_BUDGET = 30000000


def one_run(prop, scratch, key=None, replay=None, keep_log=False, params=None, alarm=RUN_ALARM,
            budget=None):
    """Execute one simulated run; never raises (HarnessError becomes a status)."""
    from . import core, vio, util, alloc, threads
    src = core.Src(key=key, replay=replay)
    world = vio.World(scratch)
    ctx = core.Ctx(src, world, keep_log=keep_log, params=params)
    world.ctx = ctx
    world.src = src
    vio.set_world(world)
    sys.stdout.clear()
    r = Result()
    r.cls = r.msg = r.tb = None

    def on_alarm(sig, frm):
        raise util.HangTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, alarm if budget is None else 900)
    if budget is not None:
        util.set_budget(budget)
    try:
        try:
            prop.run(ctx)
            r.status = 'ok'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if budget is not None:
                util.set_budget(None)
            world.active = False
            alloc.disarm()
            threads.cleanup()
    except core.Violation as v:
        r.status, r.cls, r.msg = 'violation', v.cls, v.msg
        r.tb = traceback.format_exc(limit=-8)
    except core.Exhausted:
        r.status = 'exhausted'
    except util.HangTimeout:
        r.status = 'hang'
    except util.BudgetExceeded:
        r.status, r.cls, r.msg = 'violation', 'no-progress', 'the call does not end within %d executed lines' % budget
    except core.HarnessError as e:
        r.status, r.msg = 'harness', '%s\n%s' % (e, traceback.format_exc(limit=-8))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlib = any(f.filename.startswith(os.path.join(REPO, 'channelpack')) for f in tb)
        r.tb = traceback.format_exc(limit=-10)
        if inlib:
            r.status = 'violation'
            r.cls = 'unexpected:' + type(e).__name__
            r.msg = 'unexpected exception from the library: %s: %s' % (type(e).__name__, str(e)[:300])
        elif isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)):
            # what the library handed out cannot be used as the pack, sheet or array it should be
            r.status = 'violation'
            r.cls = 'unusable:' + type(e).__name__
            r.msg = 'the result of the library cannot be used: %s: %s' % (type(e).__name__, str(e)[:300])
        else:
            r.status, r.msg = 'harness', '%s: %s\n%s' % (type(e).__name__, e, r.tb)
    finally:
        signal.signal(signal.SIGALRM, old)
        vio.set_world(None)
    if r.status == 'violation':
        ctx.log('VIOLATION', r.cls, r.msg)
    r.digest = ctx.digest()
    r.il = ctx.ildigest()
    r.faults = ctx.faults
    r.probes = ctx.probes
    r.steps = ctx.steps
    r.nontrivial = ctx.nontrivial
    r.choices = src.out
    r.events = ctx.events
    r.sample = ctx.sample
    purge(scratch)
    if r.status == 'hang':
        if budget is None:
            return one_run(prop, scratch, key, replay, keep_log, params, alarm, budget=LINE_BUDGET)
        r.status, r.msg = 'harness', 'a run exceeded its wall limit'
    return r


def purge(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


def in_child(fn):
    """Run fn() in a forked child; returns its JSON-able result (None if it died)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            out = json.dumps(fn()).encode()
            off = 0
            while off < len(out):
                off += os.write(wfd, out[off:off + 65536])
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        return None


# ------------------------------------------------------------------ search
class Check(object):
    def __init__(self, pid, seed, tier, runs=None, workers=None, wall=None):
        self.pid = pid
        self.seed = seed
        self.tier = tier
        self.prop = importlib.import_module('sim.props.' + pid.lower())
        self.runs = runs or self.prop.RUNS[tier]
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.wall = wall or (240 if tier == 'quick' else 3600)
        self.base = tempfile.mkdtemp(prefix='sim-%s-' % pid, dir=scratch_root())
        self.known = load_known(pid)

    def key(self, i):
        return '%s:%d:%d' % (self.pid, self.seed, i)

    def scratch(self, tag):
        d = os.path.join(self.base, tag)
        os.makedirs(d, exist_ok=True)
        return d

    def worker(self, w, wfd, stopfd_path):
        """Runs indices w, w+W, ...; reports summaries."""
        prop = self.prop
        scratch = self.scratch('w%d' % w)
        agg = {'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'nontrivial': 0, 'exhausted': 0,
               'digests': [], 'ils': [], 'samples': [], 'known': {}, 'violation': None, 'harness': None,
               'status': {}, 'first': []}
        digs, ils = set(), set()
        t0 = time.time()
        i = w
        done = []
        while i < self.runs:
            if time.time() - t0 > self.wall:
                agg['capped'] = True
                break
            if os.path.exists(stopfd_path):
                try:
                    with open(stopfd_path) as f:
                        m = int(f.read() or '0')
                    if i > m:
                        break
                except ValueError:
                    pass
            r = one_run(prop, scratch, key=self.key(i), params={'tier': self.tier, 'index': i})
            agg['runs'] += 1
            agg['status'][r.status] = agg['status'].get(r.status, 0) + 1
            for k, v in r.faults.items():
                agg['faults'][k] = agg['faults'].get(k, 0) + v
            for k, v in r.probes.items():
                agg['probes'][k] = agg['probes'].get(k, 0) + v
            agg['steps'] += r.steps
            if r.nontrivial:
                agg['nontrivial'] += 1
                digs.add(r.digest)
            ils.add(r.il)
            if len(agg['first']) < 3:
                agg['first'].append([i, r.digest])
            if r.sample and len(agg['samples']) < 2 and r.nontrivial:
                agg['samples'].append({'index': i, 'case': r.sample, 'faults': r.faults})
            if r.status == 'harness':
                agg['harness'] = {'index': i, 'msg': r.msg}
                break
            if r.status == 'violation':
                kf = match_known(self.known, r.cls, r.msg)
                if kf is not None:
                    agg['known'][kf] = agg['known'].get(kf, 0) + 1
                else:
                    agg['violation'] = {'index': i, 'cls': r.cls, 'msg': r.msg, 'choices': r.choices,
                                        'tb': r.tb, 'worker': w}
                    note_min(stopfd_path, i)
                    break
            i += self.workers
        agg['digests'] = sorted(digs)
        agg['ils'] = sorted(ils)
        return agg

    def search(self):
        stop = os.path.join(self.base, 'min')
        procs = []
        for w in range(self.workers):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    limit_memory()
                    agg = self.worker(w, wfd, stop)
                    out = json.dumps(agg).encode()
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(out)
                except BaseException:
                    sys.stderr.write(traceback.format_exc())
                    code = 3
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, rfd))
        out = []
        bufs = {rfd: [] for _, rfd in procs}
        live = set(bufs)
        while live:
            rs, _, _ = select.select(list(live), [], [])
            for fd in rs:
                b = os.read(fd, 1 << 20)
                if b:
                    bufs[fd].append(b)
                else:
                    live.discard(fd)
                    os.close(fd)
        for pid, rfd in procs:
            _, st = os.waitpid(pid, 0)
            try:
                out.append(json.loads(b''.join(bufs[rfd]).decode()))
            except ValueError:
                out.append({'harness': {'index': -1, 'msg': 'worker died, status %r' % st}})
        return out

    # ---- reproduce in a clean process: optional prefix runs, then the choices
    def attempt(self, choices, prefix=(), keep_log=False):
        def fn():
            scratch = self.scratch('m')
            for j in prefix:
                one_run(self.prop, scratch, key=self.key(j), params={'tier': self.tier, 'index': j})
            r = one_run(self.prop, scratch, replay=choices, keep_log=keep_log,
                        params={'tier': self.tier, 'index': -1})
            return {'status': r.status, 'cls': r.cls, 'msg': r.msg, 'digest': r.digest,
                    'choices': r.choices, 'events': r.events, 'tb': r.tb, 'sample': r.sample,
                    'faults': r.faults}
        return in_child(fn)

    def minimise(self, v, max_attempts=400, max_wall=60.0):
        t0 = time.time()
        cls = v['cls']
        prefix = []
        first = self.attempt(v['choices'])
        if not first or first['status'] != 'violation':
            # depends on what ran before in the same process
            allprev = list(range(v['worker'], v['index'], self.workers))
            for n in (1, 2, 4, 8, 16, 64, 256, len(allprev)):
                prefix = allprev[-n:]
                first = self.attempt(v['choices'], prefix)
                if first and first['status'] == 'violation':
                    break
            else:
                return None
        cls = first['cls']
        best = first['choices']
        count = 0

        def ok(cand):
            nonlocal best, count
            if count >= max_attempts or time.time() - t0 > max_wall:
                return False
            count += 1
            r = self.attempt(cand, prefix)
            if r and r['status'] == 'violation' and r['cls'] == cls:
                c = r['choices']
                while c and c[-1] == 0:
                    c = c[:-1]
                if (len(c), sum(c)) < (len(best), sum(best)):
                    best = c
                    return True
            return False

        # tail, then chunks, then values
        n = len(best)
        while n > 1 and ok(best[:n // 2]):
            n = len(best)
        progress = True
        while progress and count < max_attempts and time.time() - t0 < max_wall:
            progress = False
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    if ok(best[:i] + best[i + size:]):
                        progress = True
                    elif any(best[i:i + size]) and ok(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                        progress = True
                        i += size
                    else:
                        i += size
                    if count >= max_attempts or time.time() - t0 > max_wall:
                        break
                size //= 2
                if count >= max_attempts or time.time() - t0 > max_wall:
                    break
            for i in range(len(best)):
                if i < len(best) and best[i] > 1:
                    if ok(best[:i] + [best[i] // 2] + best[i + 1:]):
                        progress = True
        final = self.attempt(best, prefix, keep_log=True)
        if not final or final['status'] != 'violation':
            final = self.attempt(first['choices'], prefix, keep_log=True)
            best = first['choices']
            if not final or final['status'] != 'violation':
                return None
        return {'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'index': v['index'],
                'class': final['cls'], 'message': final['msg'], 'prefix_runs': prefix, 'choices': best,
                'digest': final['digest'], 'case': final['sample'], 'faults': final['faults'],
                'schedule_and_fault_trace': final['events'], 'traceback': final['tb'],
                'original_choices': len(v['choices']), 'attempts': count,
                'how_to_replay': 'bash check.sh %s --replay <this file>' % self.pid}

    def cleanup(self):
        shutil.rmtree(self.base, ignore_errors=True)


def note_min(path, i):
    try:
        with open(path) as f:
            cur = int(f.read())
    except (OSError, ValueError):
        cur = None
    if cur is None or i < cur:
        tmp = path + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(str(i))
        os.rename(tmp, path)


def limit_memory():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ImportError, ValueError, OSError):
        pass


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def load_known(pid):
    """'finding: property=C05 match=/regex/ what' lines of known-findings.txt"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


def match_known(known, cls, msg):
    for rx, what in known:
        if rx.search('%s: %s' % (cls, msg)):
            return what
    return None


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')
    os.rename(tmp, path)


def do_replay(ck, path):
    with open(path) as f:
        rep = json.load(f)
    ck.seed = rep['seed']
    ck.tier = rep.get('tier', 'quick')
    ck.workers = max(1, ck.workers)
    r = ck.attempt(rep['choices'], rep.get('prefix_runs', ()), keep_log=True)
    if r is None:
        say('replay: the run died')
        return 2
    if r['status'] == 'violation':
        same = r['digest'] == rep['digest']
        for e in r['events']:
            say('  ', e)
        say('class:', r['cls'])
        say('message:', r['msg'])
        say('identical execution:', same)
        say('VIOLATION property=%s replay=%s' % (ck.pid, path))
        return 1
    say('replay: no violation (status %s)' % r['status'])
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digests', type=int)
    ap.add_argument('--one', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    bootstrap()
    ck = Check(a.property, a.seed, a.tier, a.runs, a.workers, a.wall)
    try:
        from . import alloc
        if getattr(ck.prop, 'ALLOC', False):
            d = os.path.join(ck.base, 'so')
            os.makedirs(d)
            alloc.set_module(build_simalloc(d))
        if a.replay:
            return do_replay(ck, a.replay)
        if a.digests:
            for i in range(a.digests):
                r = one_run(ck.prop, ck.scratch('d'), key=ck.key(i), params={'tier': a.tier, 'index': i})
                say(i, r.status, r.digest, r.il, r.steps)
            return 0
        if a.one is not None:
            r = one_run(ck.prop, ck.scratch('d'), key=ck.key(a.one), keep_log=True,
                        params={'tier': a.tier, 'index': a.one})
            for e in r.events:
                say('  ', e)
            say(r.status, r.cls, r.msg, r.faults, r.sample)
            if r.tb:
                say(r.tb)
            return 0
        return run_check(ck, a, t0)
    finally:
        ck.cleanup()


def run_check(ck, a, t0):
    outs = ck.search()
    tot = {'runs': 0, 'steps': 0, 'nontrivial': 0}
    faults, probes, status, known = {}, {}, {}, {}
    digs, ils, samples, firsts = set(), set(), [], []
    viols, harness, capped = [], [], False
    for o in outs:
        if o.get('harness'):
            harness.append(o['harness'])
        if 'runs' not in o:
            continue
        for k in tot:
            tot[k] += o[k]
        merge(faults, o['faults'])
        merge(probes, o['probes'])
        merge(status, o['status'])
        merge(known, o['known'])
        digs.update(o['digests'])
        ils.update(o['ils'])
        samples += o['samples']
        firsts += o['first']
        capped = capped or o.get('capped', False)
        if o['violation']:
            viols.append(o['violation'])
    search_s = time.time() - t0
    # the same seeds again, in a fresh process
    mism = 0
    rechecked = 0
    if not viols and not harness:
        firsts.sort()

        def again():
            out = []
            for i, d in firsts[:12]:
                r = one_run(ck.prop, ck.scratch('again'), key=ck.key(i), params={'tier': ck.tier, 'index': i})
                out.append(r.digest == d)
            return out
        res = in_child(again) or []
        rechecked = len(res)
        mism = sum(1 for x in res if not x)
    rep = None
    path = None
    code = 0
    if viols:
        viols.sort(key=lambda v: v['index'])
        for v in viols:
            rep = ck.minimise(v)
            if rep:
                break
        v = viols[0]
        if rep is None:
            rep = {'property': ck.pid, 'seed': ck.seed, 'tier': ck.tier, 'index': v['index'], 'class': v['cls'],
                   'message': v['msg'], 'choices': v['choices'], 'prefix_runs':
                   list(range(v['worker'], v['index'], ck.workers)), 'digest': None, 'traceback': v['tb'],
                   'note': 'did not reproduce from a clean process'}
        path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (ck.pid, ck.seed, rep['index']))
        write_json(path, rep)
        code = 1
    elif harness:
        code = 2
    wall = time.time() - t0
    prop = ck.prop
    cov = {
        'evaluations': tot['runs'],
        'distinct_nontrivial': len(digs),
        'rule': prop.RULE,
        'samples': samples[:4],
        'nontrivial_runs': tot['nontrivial'],
        'run_status': status,
        'seeds': 'VERIF_SEED=%d, run indices 0..%d (each run has its own seed %s:%d:<index>)' % (
            ck.seed, ck.runs - 1, ck.pid, ck.seed),
        'runs_requested': ck.runs,
        'stopped_by_wall_cap': capped,
        'runs_per_hour': int(tot['runs'] / max(search_s, 1e-6) * 3600),
        'simulated_time_steps': tot['steps'],
        'simulated_time_measure': 'simulated steps: I/O calls offered to the simulator, operations of a history, preemption points passed',
        'faults_injected': faults,
        'probes_reached': probes,
        'distinct_interleavings_or_fault_sequences': len(ils),
        'distinct_measure': 'distinct hashes of the sequence of scheduling, delivery and fault decisions of a run',
        'determinism_rechecks': rechecked,
        'determinism_mismatches': mism,
        'components_real': prop.REAL,
        'components_stubbed': prop.STUB,
        'known_findings_seen': known,
        'workers': ck.workers,
    }
    ev = {'property': ck.pid, 'tier': ck.tier if ck.tier in ('quick', 'thorough') else 'quick', 'seed': ck.seed,
          'level': getattr(prop, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': getattr(prop, 'ASSUME', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
    if viols:
        ev['coverage']['violation'] = {'class': rep['class'], 'message': rep['message'], 'replay': path,
                                       'choices': len(rep['choices'])}
    if not a.no_evidence:
        write_json(os.path.join(VERIF, 'evidence', ck.pid + '.json'), ev)
    for what, n in sorted(known.items()):
        say('KNOWN-FINDING: property=%s %s' % (ck.pid, what))
    if viols:
        # confirm in a brand new interpreter
        p = subprocess.run([sys.executable, '-m', 'sim.main', ck.pid, '--replay', path], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        say('%s: %s' % (rep['class'], rep['message']))
        say('replay in a fresh process: exit %d' % p.returncode)
        say('VIOLATION property=%s replay=%s' % (ck.pid, path))
        return 1
    if harness:
        for h in harness[:3]:
            say('HARNESS-ERROR run %s: %s' % (h['index'], h['msg']))
        return 2
    say('%s held on %d runs (%d distinct non-trivial, %d fault kinds, %d distinct decision sequences) in %.1f s' % (
        ck.pid, tot['runs'], len(digs), len(faults), len(ils), wall))
    return code


if __name__ == '__main__':
    sys.exit(main())
