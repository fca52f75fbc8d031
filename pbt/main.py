"""Runs one property's check: python -m pbt.main <ID> [--replay FILE]"""
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

from pbt import engine
from pbt.engine import Data, Discard, Failure, Overrun, Violation

HOME = os.environ['VERIF_HOME']
REPO = os.environ['VERIF_REPO']
SCRATCH = os.environ['VERIF_SCRATCH']
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
DEBUG = os.environ.get('VERIF_DEBUG')
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
# Wall clock cap on generating cases. Reaching it only means fewer cases
# (reported in the evidence); it never decides anything.
GEN_BUDGET = {'quick': 420.0, 'thorough': 780.0}[TIER]
CASE_CPU = 60      # seconds of cpu; a case normally takes milliseconds
CASE_WALL = 240


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class Part(object):
    """One generator + oracle of a property."""

    def __init__(self, name, fn, quick, thorough, rule='', workers=8,
                 max_shrink=1200, setup=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.workers = workers
        self.max_shrink = max_shrink
        self.setup = setup

    def count(self):
        n = self.quick if TIER == 'quick' else self.thorough
        return max(1, int(n * SCALE))


def innermost_nxt(tb):
    """Name of the innermost function of the code under test, for grouping
    failures by cause (never used to decide)."""
    name = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(os.path.join(REPO, 'nxt')):
            name = '{}:{}'.format(os.path.basename(fr.filename), fr.name)
    return name


def run_case(part, prefix, rng, cpu=CASE_CPU):
    """-> (data, Failure or None, discarded)"""
    data = Data(prefix, rng)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    try:
        try:
            part.fn(data)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        return data, None, False
    except (Discard, Overrun):
        return data, None, True
    except Violation as e:
        kind = e.args[0] if e.args else 'violation'
        msg = ' '.join(str(a) for a in e.args[1:])
        return data, Failure(data.choices, str(kind), msg, data.notes), False
    except Hang:
        return data, Failure(data.choices, 'no-termination',
                             'the operation did not finish within {} s of '
                             'cpu time (normal: milliseconds)'.format(cpu),
                             data.notes), False
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        where = innermost_nxt(e.__traceback__) or 'outside nxt'
        kind = 'raised {} in {}'.format(type(e).__name__, where)
        tb = traceback.format_exc()
        return data, Failure(data.choices, kind, tb[-3000:],
                             data.notes), False


def quiet():
    if DEBUG:
        return
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def worker(mod, part, w, nworkers, total, deadline):
    out = {'evaluations': 0, 'discarded': 0, 'labels': {}, 'sigs': set(),
           'nontrivial': 0, 'samples': [], 'failure': None, 'cut': False,
           'max_choices': 0, 'slowest': 0.0}
    setup_scratch(part, w)
    for idx in range(w, total, nworkers):
        if time.monotonic() > deadline:
            out['cut'] = True
            break
        rng = engine.rng_for(SEED, mod.PROPERTY, part.name, idx)
        t0 = time.monotonic()
        data, failure, discarded = run_case(part, (), rng)
        dt = time.monotonic() - t0
        if discarded:
            out['discarded'] += 1
            continue
        out['slowest'] = max(out['slowest'], dt)
        out['evaluations'] += 1
        out['max_choices'] = max(out['max_choices'], len(data.choices))
        for k in data.labels:
            out['labels'][k] = out['labels'].get(k, 0) + 1
        if data.nontrivial:
            out['nontrivial'] += 1
            out['sigs'].add(engine.digest(data.notes or data.choices))
            if len(out['samples']) < 2 and data.notes:
                out['samples'].append((idx, render(data.notes)))
        if failure is not None:
            out['failure'] = (idx, failure.choices, failure.kind,
                              failure.message, render(failure.notes))
            break
    return out


def setup_scratch(part, w):
    d = os.path.join(SCRATCH, 'work', '{}-{}'.format(part.name, w))
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    os.environ['VERIF_WORK'] = d
    if part.setup:
        part.setup()


def render(notes, limit=4000):
    try:
        s = json.loads(json.dumps(notes, default=str))
    except (TypeError, ValueError):
        s = repr(notes)
    txt = json.dumps(s)
    if len(txt) > limit:
        return txt[:limit] + '...'
    return s


def fork_call(fn, *args):
    """Run fn in a forked child; returns (pid, read fd, how to run it again).
    """
    return fork_plain(fn, args, True) + ((fn, args),)


def no_jit():
    try:
        import pypyjit
        pypyjit.set_param('off')
    except Exception:
        pass


def fork_plain(fn, args, jit):
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(wfd)
        return pid, r
    code = 1
    try:
        os.close(r)
        errfd = os.dup(2)
        quiet()
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except (ValueError, OSError):
            pass
        if not jit:
            no_jit()
        try:
            res = fn(*args)
            with os.fdopen(wfd, 'wb') as fp:
                pickle.dump(res, fp)
            code = 0
        except BaseException:
            os.write(errfd, traceback.format_exc().encode())
    finally:
        os._exit(code)


def collect(jobs):
    """Results of the jobs. PyPy's JIT compiler now and then kills the process
    while a deep recursion unwinds: such a job is run again without it."""
    outs = []
    for out, again in zip(gather([j[:2] for j in jobs]), jobs):
        if out is None:
            sys.stderr.write('a worker died, running it again\n')
            fn, args = again[2]
            out = gather([fork_plain(fn, args, False)])[0]
            if out is None:
                raise RuntimeError('worker died')
        outs.append(out)
    return outs


def gather(jobs):
    outs = []
    import select
    bufs = {r: [] for _, r in jobs}
    open_fds = set(bufs)
    while open_fds:
        rs, _, _ = select.select(list(open_fds), [], [])
        for r in rs:
            chunk = os.read(r, 1 << 16)
            if chunk:
                bufs[r].append(chunk)
            else:
                os.close(r)
                open_fds.discard(r)
    for pid, r in jobs:
        _, status = os.waitpid(pid, 0)
        if status != 0:
            outs.append(None)
            continue
        outs.append(pickle.loads(b''.join(bufs[r])))
    return outs


def shrink_job(part, failure):
    setup_scratch(part, 's')
    hang = failure.kind == 'no-termination'
    cpu = 5 if hang else 20

    def run_prefix(prefix):
        _, f, _ = run_case(part, prefix, None, cpu=cpu)
        return f
    # confirm that the choices alone reproduce it
    again = run_prefix(failure.choices)
    if again is None:
        return None
    if again.kind != failure.kind:
        failure = again
    best, runs = engine.shrink(run_prefix, again,
                               max_runs=25 if hang else part.max_shrink,
                               deadline=time.monotonic() + 90,
                               clock=time.monotonic)
    return (best.choices, best.kind, best.message, render(best.notes), runs)


def load_known():
    path = os.path.join(HOME, 'KNOWN_FINDINGS.txt')
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                fields = line.split(None, 3)
                prop = fields[1].partition('=')[2]
                fid = fields[2].partition('=')[2]
                known[(prop, fid)] = fields[3]
    return known


def run_probes(mod, known):
    """Known findings: re-run the specific failing input of each. Returns
    messages for those that still fail."""
    msgs = []
    for fid, fn in sorted(getattr(mod, 'PROBES', {}).items()):
        if (mod.PROPERTY, fid) not in known:
            continue
        if fn():
            msgs.append('{} {}'.format(fid, known[(mod.PROPERTY, fid)]))
    return msgs


def replay(mod, path):
    with open(path) as fp:
        rec = json.load(fp)
    part = [p for p in mod.PARTS if p.name == rec['part']][0]
    setup_scratch(part, 'r')
    data, failure, discarded = run_case(part, rec['choices'], None)
    print(json.dumps(render(data.notes, 100000), indent=1))
    if failure:
        print(failure.kind)
        print(failure.message)
        print('VIOLATION property={} replay={}'.format(mod.PROPERTY, path))
        return 1
    print('replayed: the property holds on this case')
    return 0


def main(argv):
    prop = argv[0]
    t0 = time.monotonic()
    sys.setrecursionlimit(1500)
    import logging
    mod = importlib.import_module('checks.' + prop.lower())
    logging.disable(logging.CRITICAL)
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(mod, os.path.abspath(argv[2]))
    known = load_known()
    parts = mod.PARTS
    only = os.environ.get('VERIF_PART')
    if only:
        parts = [p for p in parts if p.name in only.split(',')]
    ncpu = int(os.environ.get('VERIF_JOBS', '8'))
    stats = []
    failures = []
    deadline = t0 + GEN_BUDGET
    for part in parts:
        total = part.count()
        nw = max(1, min(part.workers, ncpu, total))
        tp = time.monotonic()
        # leave every later part a share of the budget
        left = len(parts) - len(stats)
        part_deadline = tp + max(20.0, (deadline - tp) / left)
        jobs = [fork_call(worker, mod, part, w, nw, total, part_deadline)
                for w in range(nw)]
        outs = collect(jobs)
        labels = {}
        sigs = set()
        samples = []
        for o in outs:
            for k, v in o['labels'].items():
                labels[k] = labels.get(k, 0) + v
            sigs |= o['sigs']
            samples += o['samples']
        samples.sort(key=lambda s: s[0])
        fails = sorted([o['failure'] for o in outs if o['failure']],
                       key=lambda f: f[0])
        st = {'part': part.name, 'rule': part.rule,
              'evaluations': sum(o['evaluations'] for o in outs),
              'discarded': sum(o['discarded'] for o in outs),
              'nontrivial': sum(o['nontrivial'] for o in outs),
              'distinct_nontrivial': len(sigs),
              'labels': dict(sorted(labels.items())),
              'longest_choice_sequence': max(o['max_choices'] for o in outs),
              'stopped_by_time_budget': any(o['cut'] for o in outs),
              'wall_s': round(time.monotonic() - tp, 2),
              'slowest_case_s': round(max(o['slowest'] for o in outs), 3),
              'samples': [s[1] for s in samples[:3]]}
        stats.append(st)
        if fails:
            failures.append((part, fails[0]))
            if len(failures) >= 2:
                break
    lines = []
    viol = []
    seen_kinds = set()
    for part, (idx, choices, kind, msg, notes) in failures:
        try:
            res = collect([fork_call(shrink_job, part,
                                     Failure(choices, kind, msg, []))])[0]
        except RuntimeError:
            res = (choices, kind, msg, notes, 0)
        unstable = False
        if res is None:
            # Not reproducible from its choices alone: state leaked between
            # cases. Re-run the case index alone in a fresh process is what
            # shrink_job did; report the original observation.
            unstable = True
            res = (choices, kind, msg, notes, 0)
        s_choices, s_kind, s_msg, s_notes, runs = res
        rdir = os.path.join(HOME, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '{}-{}-{}.json'.format(
            mod.PROPERTY, part.name, engine.digest(s_choices)[:8]))
        with open(rpath, 'w') as fp:
            json.dump({'property': mod.PROPERTY, 'part': part.name,
                       'seed': SEED, 'tier': TIER, 'case_index': idx,
                       'kind': s_kind, 'message': s_msg,
                       'choices': list(s_choices), 'case': s_notes,
                       'reproduces_in_isolation': not unstable,
                       'shrink_runs': runs}, fp, indent=1)
        viol.append({'part': part.name, 'kind': s_kind,
                     'message': s_msg[-1500:], 'case': s_notes,
                     'replay': rpath, 'original_length': len(choices),
                     'shrunk_length': len(s_choices)})
        print('--- {} / {}: {}'.format(mod.PROPERTY, part.name, s_kind))
        print(s_msg[-1500:])
        print('case: ' + json.dumps(s_notes)[:3000])
        lines.append('VIOLATION property={} replay={}'.format(
            mod.PROPERTY, rpath))
    found = []
    if not failures:
        setup_scratch(Part('probe', None, 0, 0), 0)
        found = collect([fork_call(run_probes, mod, known)])[0]
    for m in found:
        print('KNOWN-FINDING: property={} {}'.format(mod.PROPERTY, m))
    wall = time.monotonic() - t0
    samples = []
    for st in stats:
        for s in st.pop('samples'):
            if len(samples) < 12:
                samples.append({'part': st['part'], 'case': s})
    ev = {'property': mod.PROPERTY, 'tier': TIER, 'seed': SEED,
          'level': 'exploration',
          'coverage': {
              'evaluations': sum(s['evaluations'] for s in stats),
              'distinct_nontrivial': sum(s['distinct_nontrivial']
                                         for s in stats),
              'discarded': sum(s['discarded'] for s in stats),
              'rule': mod.RULE,
              'parts': stats,
              'samples': samples,
              'known_findings_still_failing': found,
              'violations_detail': viol},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    edir = os.path.join(HOME, 'evidence')
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.{}.tmp'.format(mod.PROPERTY))
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    os.replace(tmp, os.path.join(edir, mod.PROPERTY + '.json'))
    print('{}: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        mod.PROPERTY, ev['coverage']['evaluations'],
        ev['coverage']['distinct_nontrivial'], wall))
    for ln in lines:
        print(ln)
    return 1 if lines else 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
