#!/opt/venv/bin/python -B
"""
The runner of the checks.

  check.py run PROPERTY [--tier quick|thorough] [--runs N] [--jobs N]
  check.py replay FILE [-v]
  check.py digest PROPERTY FIRST COUNT       (one line per run: determinism)

Internal: check.py worker ..., check.py minimise ...

Every run of a check is a pure function of (property, VERIF_SEED, index): the
scenario - expressions, data, callers, faults, latencies - and the schedule
are drawn from one PRNG seeded with those three.
"""
import argparse
import hashlib
import json
import os
import random
import selectors
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYTHON = '/opt/venv/bin/python'

# Runs of a quick check (about 45 s on 8 cores), and how many times that a
# thorough one makes.
QUICK = {'C01': 4500, 'C02': 4500, 'C03': 2800, 'C04': 4500, 'C05': 4000,
         'C06': 4000, 'C07': 1700, 'C08': 3000, 'C09': 2800, 'C10': 1700,
         'C11': 4500, 'C12': 1500, 'C13': 4000, 'C14': 4500, 'C15': 4500,
         'C16': 4500, 'C17': 4500, 'C18': 4500}
THOROUGH = 14
QUICK_WALL = 600          # safety net; a quick check takes about a minute
THOROUGH_WALL = 780
SILENT = 90               # a run that makes no progress for this long
FORCED_LINES = 3000000

REAL = ['biggus._init: every array class, the expression builders, '
        'AllThreadedEngine with its nodes, threads and queues, save',
        'biggus.experimental.dask_engine and key_grouper',
        'queue, threading.Condition/Event/Semaphore, copy, numpy']
STUB = ['threading.Lock/RLock/Thread and time: simulated primitives under '
        'one seeded scheduler',
        'data sources and save targets: in-memory, with logs, latency and '
        'faults',
        'id() and uuid4(): deterministic identities',
        'array allocation and stores: NumPy with deterministic initial '
        'contents and injected failures']
STUB_DASK = ['dask scheduler (get function): simulated cluster']


def seed_of(pid, seed, index):
    return '%s/%d/%d' % (pid, seed, index)


def make(P, pid, seed, index):
    scn = P.scenario(random.Random(seed_of(pid, seed, index)))
    scn['idbase'] = index + 1
    return scn


def klass(msg):
    """The class of a violation: its text before the first colon."""
    return msg.split(':')[0]


def stats(P, run):
    sim = run.sim
    return {
        'nt': bool(P.nontrivial(run)), 'steps': sim.steps,
        'switches': sim.switches, 'now': round(sim.now, 3),
        'jumps': sim.time_jumps, 'stalls': sim.stall_count,
        'preempts': sim.preemptions, 'tasks': len(sim.tasks),
        'fired': run.world.fired, 'reads': len(run.world.reads),
        'writes': sum(len(t.writes) for t in run.targets.values()),
        'lat': run.world.stalls, 'kind': sim.sched.get('kind', 'replay'),
        'ops': len(run.history), 'digest': '%012x' % sim.digest,
        'status': [h.status for h in run.history]}


def scn_hash(scn):
    s = {k: v for k, v in scn.items() if k != 'idbase'}
    return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()


def event_digest(run):
    h = hashlib.sha1()
    for e in run.sim.events:
        h.update(repr(e).encode())
    h.update(('%d %d %r' % (run.sim.steps, run.sim.switches,
                            run.sim.now)).encode())
    for r in run.history:
        h.update(repr((r.client, r.index, r.status, r.start, r.end,
                       type(r.exc).__name__)).encode())
        if isinstance(r.value, list):
            for v in r.value:
                h.update(repr(v).encode())
    return h.hexdigest()[:16]


def quiet_faults():
    import warnings
    warnings.simplefilter('ignore')


# -- worker ----------------------------------------------------------------------

def worker(args):
    from sim import execute, props
    execute.load()
    quiet_faults()
    P = props.PROPS[args.pid]
    out = sys.stdout
    scns = None
    if args.indices:
        indices = [int(x) for x in args.indices.split(',')]
    else:
        indices = range(args.first, args.last, args.stride)
    for i in indices:
        out.write('{"start": %d}\n' % i)
        out.flush()
        rec = {'i': i}
        try:
            scn = make(P, args.pid, args.seed, i)
            run = P.run_class(scn)
            run.execute(force_trace=args.force)
            rec['msg'] = P.check(run)
            rec.update(stats(P, run))
            rec['scn'] = scn_hash(scn)[:16]
            if args.digests:
                rec['events'] = event_digest(run)
        except BaseException as e:
            rec['error'] = traceback.format_exc()
            if isinstance(e, KeyboardInterrupt):
                raise
        out.write(json.dumps(rec) + '\n')
        out.flush()
        run = None
    out.write('{"end": true}\n')
    out.flush()


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.setdefault('PYTHONHASHSEED', '0')
    e['OMP_NUM_THREADS'] = '1'
    e['OPENBLAS_NUM_THREADS'] = '1'
    return e


def spawn(argv):
    return subprocess.Popen(
        [PYTHON, '-B', os.path.join(HERE, 'check.py')] + argv,
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(),
        cwd=HERE, start_new_session=True)


def end(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass
    proc.wait()
    if proc.stdout:
        proc.stdout.close()


class Slice(object):
    """A worker process and what it has said so far."""

    def __init__(self, pid, seed, first, last, stride, extra=()):
        self.first, self.last, self.stride = first, last, stride
        self.proc = spawn(['worker', pid, str(seed), str(first), str(last),
                           str(stride)] + list(extra))
        self.buf = b''
        self.current = None
        self.heard = time.time()
        self.done = False
        self.recs = []
        self.base = first

    def feed(self, data):
        self.buf += data
        self.heard = time.time()
        *lines, self.buf = self.buf.split(b'\n')
        new = []
        for line in lines:
            rec = json.loads(line.decode())
            if 'start' in rec:
                self.current = rec['start']
            elif 'end' in rec:
                self.done = True
            else:
                self.current = None
                new.append(rec)
        self.recs.extend(new)
        return new


def explore(pid, seed, n, jobs, wall, log):
    """Make runs 0..n-1; returns (records, violation, problem, complete)."""
    sel = selectors.DefaultSelector()
    slices = []

    def add(first):
        s = Slice(pid, seed, first, n, jobs)
        slices.append(s)
        sel.register(s.proc.stdout, selectors.EVENT_READ, s)
    for k in range(min(jobs, n)):
        add(k)
    recs = {}
    worst = None                   # lowest failing index so far
    t0 = time.time()
    retried = set()
    problem = None
    history = {}                   # index -> first index of its process
    complete = True
    try:
        while slices and problem is None:
            for key, _ in sel.select(1.0):
                s = key.data
                data = os.read(key.fileobj.fileno(), 1 << 16)
                if data:
                    for rec in s.feed(data):
                        recs[rec['i']] = rec
                        history[rec['i']] = s.base
                        if 'error' in rec:
                            problem = rec['error']
                        elif rec['msg'] and (worst is None or
                                             rec['i'] < worst):
                            worst = rec['i']
                    continue
                sel.unregister(s.proc.stdout)
                end(s.proc)
                slices.remove(s)
                if s.done:
                    continue
                # The worker died.
                bad = s.current
                if bad is None or bad in retried:
                    problem = 'worker died at run %s' % bad
                    break
                retried.add(bad)
                log('worker died at run %d; again' % bad)
                add(bad)
            now = time.time()
            for s in list(slices):
                if worst is not None and s.current is not None and \
                        s.current > worst:
                    sel.unregister(s.proc.stdout)
                    end(s.proc)
                    slices.remove(s)
                elif now - s.heard > SILENT:
                    bad = s.current
                    sel.unregister(s.proc.stdout)
                    end(s.proc)
                    slices.remove(s)
                    if bad is None:
                        problem = 'worker does not start'
                        break
                    log('run %d makes no progress; traced' % bad)
                    rec = forced(pid, seed, bad)
                    if rec is None:
                        problem = 'run %d hangs outside of the simulated ' \
                            'code' % bad
                        break
                    if 'error' in rec:
                        problem = rec['error']
                        break
                    recs[bad] = rec
                    history[bad] = bad
                    if rec['msg']:
                        if worst is None or bad < worst:
                            worst = bad
                    elif bad + jobs < n:
                        s2 = Slice(pid, seed, bad + jobs, n, jobs)
                        slices.append(s2)
                        sel.register(s2.proc.stdout, selectors.EVENT_READ,
                                     s2)
            if now - t0 > wall:
                complete = False
                log('wall limit reached after %d runs' % len(recs))
                break
    finally:
        for s in slices:
            end(s.proc)
        sel.close()
    return recs, worst, problem, complete, history


def forced(pid, seed, index, timeout=240):
    """One run with every line counted, to catch loops which never block."""
    p = spawn(['worker', pid, str(seed), '0', '0', '1', '--indices',
               str(index), '--force'])
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        end(p)
        return None
    for line in out.decode().splitlines():
        rec = json.loads(line)
        if 'i' in rec:
            return rec
    return None


# -- replaying and minimising -------------------------------------------------------

def run_file(doc, verbose=False):
    """Execute a replay file; returns (message, run)."""
    from sim import execute, props
    execute.load()
    quiet_faults()
    P = props.PROPS[doc['property']]
    for i in doc.get('prefix', ()):
        scn = make(P, doc['property'], doc['seed'], i)
        r = P.run_class(scn)
        r.execute()
        r = None
    scn = doc['scenario']
    run = P.run_class(scn)
    run.execute(force_trace=doc.get('force', False))
    return P.check(run), run


def replay(args):
    doc = json.load(open(args.file))
    msg, run = run_file(doc)
    if args.verbose:
        print(json.dumps(doc['scenario'], indent=1))
        for e in run.sim.events:
            print('step %6d  thread %3d  %s' % e)
        for r in run.history:
            print(r.client, r.index, r.op, r.status, repr(r.exc))
    got = {'message': msg, 'events': event_digest(run)}
    print(json.dumps(got))
    if msg is None:
        print('the property holds in this execution')
        return 0
    print('property %s: %s' % (doc['property'], msg))
    if doc.get('expect') and doc['expect'].get('events') != got['events']:
        print('NOTE: not the recorded execution (the code has changed)')
    return 1


def replay_fresh(path, timeout=300):
    p = spawn(['replay', path])
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        end(p)
        return None
    for line in out.decode().splitlines():
        if line.startswith('{'):
            return json.loads(line)
    return None


class Minimiser(object):
    def __init__(self, P, scn, msg, force, deadline):
        self.P = P
        self.force = force
        self.cls = klass(msg)
        self.best = scn
        self.msg = msg
        self.deadline = deadline
        self.tries = 0

    def out_of_time(self):
        return time.time() > self.deadline or self.tries > 4000

    def attempt(self, scn):
        """Whether `scn` still shows a violation of the same class."""
        from sim import props, expr
        if self.out_of_time():
            return None
        self.tries += 1
        try:
            scn = props.compact(scn)
            if not any(scn['clients']) or not self.P.domain(scn):
                return None
            if not expr.well_conditioned(scn['nodes']):
                return None
            run = self.P.run_class(scn)
            run.execute(force_trace=self.force)
            msg = self.P.check(run)
        except Exception:
            return None
        if msg is None or klass(msg) != self.cls:
            return None
        self.msg = msg
        return scn

    def take(self, scn):
        got = self.attempt(scn)
        if got is not None:
            self.best = got
            return True
        return False

    # Structural steps: each yields candidates smaller than the best.

    def lists(self):
        s = self.best
        for c in range(len(s['clients'])):
            if len(s['clients']) > 1 and s['clients'][c]:
                t = dict(s)
                t['clients'] = s['clients'][:c] + [[]] + s['clients'][c + 1:]
                yield t
                if c == len(s['clients']) - 1:
                    t = dict(s)
                    t['clients'] = s['clients'][:c]
                    yield t
        for c, ops in enumerate(s['clients']):
            for k in range(len(ops) - 1, -1, -1):
                if any(o['do'] == 'scribble' for o in ops):
                    continue          # (refers to operations by number)
                t = dict(s)
                t['clients'] = list(s['clients'])
                t['clients'][c] = ops[:k] + ops[k + 1:]
                yield t
            for k, op in enumerate(ops):
                if op['do'] in ('eval', 'meta', 'build') and \
                        len(op['args']) > 1:
                    for j in range(len(op['args'])):
                        t = dict(s)
                        t['clients'] = [list(o) for o in s['clients']]
                        o = dict(op)
                        o['args'] = op['args'][:j] + op['args'][j + 1:]
                        t['clients'][c][k] = o
                        yield t
        for name in ('faults', 'delay', 'prebuild'):
            val = s.get(name)
            if not val:
                continue
            if isinstance(val, dict):
                for k in val:
                    t = dict(s)
                    t[name] = {a: b for a, b in val.items() if a != k}
                    yield t
            else:
                for k in range(len(val)):
                    t = dict(s)
                    t[name] = val[:k] + val[k + 1:]
                    yield t
        d = s.get('dask')
        if d:
            for k, v in (('crash', []), ('dup', 0.0), ('workers', 1),
                         ('workers', 2), ('order', 'fifo'), ('retries', 0)):
                if k in d and d[k] != v and not (
                        k == 'workers' and d[k] < v):
                    t = dict(s)
                    t['dask'] = dict(d)
                    t['dask'][k] = v
                    yield t

    def subst(self):
        """An expression replaced by one of its operands."""
        s = self.best
        nodes = s['nodes']
        for i in range(len(nodes) - 1, -1, -1):
            for c in nodes[i][2:]:
                def m(x, i=i, c=c):
                    return c if x == i else x
                t = dict(s)
                t['nodes'] = [nd[:2] + [m(x) for x in nd[2:]]
                              for nd in nodes]
                t['clients'] = []
                for ops in s['clients']:
                    new = []
                    for op in ops:
                        op = dict(op)
                        if 'args' in op:
                            op['args'] = [m(x) for x in op['args']]
                        if 'node' in op:
                            op['node'] = m(op['node'])
                        new.append(op)
                    t['clients'].append(new)
                if 'prebuild' in s:
                    t['prebuild'] = [m(x) for x in s['prebuild']]
                yield t

    def shapes(self):
        s = self.best
        for i, nd in enumerate(s['nodes']):
            if nd[0] != 'src':
                continue
            shape = nd[1]['shape']
            for a in range(len(shape)):
                for n in sorted({1, 2, shape[a] // 2, shape[a] - 1}):
                    if 0 < n < shape[a]:
                        t = dict(s)
                        t['nodes'] = list(s['nodes'])
                        p = dict(nd[1])
                        p['shape'] = shape[:a] + [n] + shape[a + 1:]
                        t['nodes'][i] = [nd[0], p]
                        yield t
            for k in ('mask', 'fill', 'nan'):
                if nd[1].get(k) and not (k == 'mask' and any(
                        o.get('masked') for c in s['clients'] for o in c)):
                    t = dict(s)
                    t['nodes'] = list(s['nodes'])
                    p = dict(nd[1])
                    del p[k]
                    t['nodes'][i] = [nd[0], p]
                    yield t

    def structure(self):
        progress = True
        while progress and not self.out_of_time():
            progress = False
            for step in (self.lists, self.subst, self.shapes):
                again = True
                while again and not self.out_of_time():
                    again = False
                    for t in step():
                        if self.take(t):
                            progress = again = True
                            break
            if self.best.get('chunk', 0) < 10 ** 7:
                t = dict(self.best)
                t['chunk'] = 10 ** 7
                progress = self.take(t) or progress

    def schedule(self):
        """A schedule with as few forced decisions as possible."""
        t = dict(self.best)
        t['sched'] = {'overrides': {}, 'stalls': {}, 'lines': []}
        if self.take(t):
            return
        run = self.P.run_class(self.best)
        run.execute(force_trace=self.force)
        t = dict(self.best)
        t['sched'] = run.sim.recorded()
        if not self.take(t):
            return
        for part in ('lines', 'stalls', 'overrides'):
            self.ddmin(part)

    def ddmin(self, part):
        cur = self.best['sched'].get(part) or []
        items = list(cur.items()) if isinstance(cur, dict) else list(cur)
        kind = dict if isinstance(cur, dict) else list
        n = 2
        while items and not self.out_of_time():
            size = max(1, -(-len(items) // n))
            again = False
            for a in range(0, len(items), size):
                rest = items[:a] + items[a + size:]
                t = dict(self.best)
                t['sched'] = dict(self.best['sched'])
                t['sched'][part] = kind(rest)
                if self.take(t):
                    items = rest
                    again = True
                    n = max(2, n - 1)
                    break
            if not again:
                if size == 1:
                    break
                n = min(len(items), n * 2)

    def go(self):
        seeded = dict(self.best)
        t = dict(seeded)
        t['sched'] = {'kind': 'default'}
        self.take(t)
        if 'kind' in self.best['sched']:
            s = dict(self.best['sched'])
            for k in ('line_p', 'stall_p'):
                if k in s:
                    t = dict(self.best)
                    t['sched'] = {a: b for a, b in s.items() if a != k}
                    if self.take(t):
                        s = dict(self.best['sched'])
        self.structure()
        self.schedule()


def minimise(args):
    """Reads a replay file, writes a smaller one which fails alike."""
    from sim import props
    doc = json.load(open(args.file))
    msg, run = run_file(doc)
    if msg is None:
        print(json.dumps({'ok': False}))
        return 0
    P = props.PROPS[doc['property']]
    m = Minimiser(P, doc['scenario'], msg, doc.get('force', False),
                  time.time() + args.budget)
    m.go()
    new = dict(doc)
    new['scenario'] = m.best
    new['tries'] = m.tries
    with open(args.out, 'w') as f:
        json.dump(new, f)
    print(json.dumps({'ok': True, 'tries': m.tries}))
    return 0


def report(pid, seed, index, rec, first, jobs, log):
    """Write the replay file of a violation; returns its path."""
    from sim import props, execute
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%d-%d.json' % (pid, seed, index))
    P = props.PROPS[pid]
    scn = make(P, pid, seed, index)
    doc = {'property': pid, 'seed': seed, 'run': index,
           'message': rec['msg'], 'scenario': scn, 'prefix': []}
    if 'no progress' in rec['msg'] and rec.get('forced'):
        doc['force'] = True

    def save(doc, path=path):
        with open(path, 'w') as f:
            json.dump(doc, f)

    save(doc)
    got = replay_fresh(path)
    if got is None and not doc.get('force'):
        doc['force'] = True
        save(doc)
        got = replay_fresh(path)
    if not (got and got['message']):
        # Does it depend on what this process ran before?
        before = list(range(first, index, jobs))
        k = 1
        while True:
            doc['prefix'] = before[-k:] if k else []
            save(doc)
            got = replay_fresh(path, timeout=400)
            if got and got['message'] or k >= len(before):
                break
            k *= 4
    if not (got and got['message']):
        return path, 'NOT REPRODUCED', doc
    if not doc['prefix']:
        tmp = path + '.min'
        p = spawn(['minimise', path, tmp, '--budget', '60'])
        try:
            p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            end(p)
        if os.path.exists(tmp):
            small = json.load(open(tmp))
            got2 = replay_fresh(tmp)
            if got2 and got2['message'] and \
                    klass(got2['message']) == klass(got['message']):
                doc, got = small, got2
            os.unlink(tmp)
    doc['message'] = got['message']
    doc['expect'] = got
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    # The file must reproduce the very execution.
    again = replay_fresh(path)
    exact = again == got
    return path, 'exact' if exact else 'DIFFERENT EXECUTION', doc


# -- known findings -----------------------------------------------------------------

def findings(pid):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                _, _, file, what = line.split(' ', 3)
                out.append((file.split('=', 1)[1], what))
    return out


# -- the check ----------------------------------------------------------------------

def run_check(args):
    pid = args.pid
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    jobs = args.jobs or 8
    n = args.runs or QUICK[pid] * (THOROUGH if tier == 'thorough' else 1)
    t0 = time.time()
    sys.stdout.reconfigure(line_buffering=True)

    def log(text):
        print('# ' + text)

    known = findings(pid)
    skip = {}
    for file, what in known:
        got = replay_fresh(os.path.join(HERE, file))
        doc = json.load(open(os.path.join(HERE, file)))
        skip[klass(doc['message'])] = doc
        if got and got['message']:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = THOROUGH_WALL if tier == 'thorough' else QUICK_WALL
    recs, worst, problem, complete, history = explore(
        pid, seed, n, jobs, wall, log)
    explored = time.time() - t0
    violations = sum(1 for r in recs.values() if r.get('msg'))
    write_evidence(pid, tier, seed, n, recs, explored, t0, violations,
                   complete)
    if worst is not None:
        rec = recs[worst]
        print('# run %d: %s' % (worst, rec['msg'][:1500]))
        path, how, doc = report(pid, seed, worst, rec, history[worst], jobs,
                                log)
        print('# seed: %s; replay: %s; %s' % (
            seed_of(pid, seed, worst), how, doc['message'][:1500]))
        print('# replay with: %s -B %s replay %s -v' % (
            PYTHON, os.path.join(HERE, 'check.py'), path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problem is not None:
        print('ERROR: the check failed: %s' % problem)
        return 2
    if not complete and tier == 'quick' and len(recs) < n // 4:
        print('ERROR: only %d of %d runs made' % (len(recs), n))
        return 2
    print('ok: %s held in %d runs (%.0f s)' % (pid, len(recs), explored))
    return 0


def write_evidence(pid, tier, seed, n, recs, explored, t0, violations,
                   complete):
    from sim import props, execute
    P = props.PROPS[pid]
    ok = [r for r in recs.values() if 'error' not in r]
    fired = {}
    for r in ok:
        for k, v in r['fired'].items():
            fired[k] = fired.get(k, 0) + v
    distinct = {(r['scn'], r['digest']) for r in ok if r['nt']}
    kinds = {}
    outcomes = {}
    for r in ok:
        kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        for s in r['status']:
            outcomes[s] = outcomes.get(s, 0) + 1
    samples = []
    picks = [r['i'] for r in sorted(ok, key=lambda r: r['i'])
             if r['nt'] and not r.get('msg')]
    if picks:
        execute.load()
        quiet_faults()
        for i in picks[:2]:
            scn = make(P, pid, seed, i)
            run = P.run_class(scn)
            run.execute()
            samples.append({
                'run': seed_of(pid, seed, i), 'scenario': scn,
                'events': ['step %d thread %d %s' % e
                           for e in run.sim.events[:40]],
                'n_events': len(run.sim.events),
                'operations': [[h.client, h.index, h.op['do'], h.status,
                                h.start, h.end] for h in run.history],
                'event_digest': event_digest(run)})

    def total(k):
        return sum(r[k] for r in ok)

    stub = list(STUB)
    if pid in ('C16', 'C17', 'C18'):
        stub += STUB_DASK
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(time.time() - t0, 2), 'violations': violations,
        'coverage': {
            'evaluations': len(ok),
            'distinct_nontrivial': len(distinct),
            'rule': P.rule + '. Distinct: by scenario and sequence of '
                    'context switches.',
            'samples': samples,
            'planned_runs': n, 'all_planned_runs_made': complete,
            'runs_per_hour': int(len(ok) / max(explored, .01) * 3600),
            'seeds': 'one per run',
            'simulated_seconds': round(total('now'), 1),
            'clock_jumps': total('jumps'),
            'faults_injected': dict(sorted(fired.items())),
            'stalled_threads': total('stalls'),
            'slow_requests': total('lat'),
            'line_preemptions': total('preempts'),
            'scheduling_steps': total('steps'),
            'context_switches': total('switches'),
            'simulated_threads': total('tasks'),
            'source_reads': total('reads'),
            'target_writes': total('writes'),
            'operations': outcomes,
            'schedules_by_policy': kinds,
            'distinct_interleavings': len({r['digest'] for r in ok}),
            'interleaving_measure': 'hash of the sequence of context '
                                    'switches of a run',
            'longest_run_steps': max([r['steps'] for r in ok] or [0]),
            'real_components': REAL, 'stub_components': stub},
        'assumptions': [
            'preemption at source-line granularity of biggus (library and '
            'interpreter internals are atomic)',
            'the NumPy reference evaluation in sim/expr.py']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)


def digest_cmd(args):
    from sim import execute, props
    execute.load()
    quiet_faults()
    P = props.PROPS[args.pid]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    for i in range(args.first, args.first + args.count):
        run = P.run_class(make(P, args.pid, seed, i))
        run.execute()
        print(args.pid, i, event_digest(run), P.check(run))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd')
    p = sub.add_parser('run')
    p.add_argument('pid')
    p.add_argument('--tier')
    p.add_argument('--runs', type=int)
    p.add_argument('--jobs', type=int)
    p = sub.add_parser('replay')
    p.add_argument('file')
    p.add_argument('-v', '--verbose', action='store_true')
    p = sub.add_parser('digest')
    p.add_argument('pid')
    p.add_argument('first', type=int)
    p.add_argument('count', type=int)
    p = sub.add_parser('worker')
    p.add_argument('pid')
    p.add_argument('seed', type=int)
    p.add_argument('first', type=int)
    p.add_argument('last', type=int)
    p.add_argument('stride', type=int)
    p.add_argument('--indices')
    p.add_argument('--force', action='store_true')
    p.add_argument('--digests', action='store_true')
    p = sub.add_parser('minimise')
    p.add_argument('file')
    p.add_argument('out')
    p.add_argument('--budget', type=float, default=60)
    args = ap.parse_args()
    fn = {'run': run_check, 'replay': replay, 'digest': digest_cmd,
          'worker': worker, 'minimise': minimise}[args.cmd]
    return fn(args)


if __name__ == '__main__':
    sys.exit(main())
