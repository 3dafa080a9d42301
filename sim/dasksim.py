"""
A simulated Dask scheduler: executes the task graphs of the DaskEngine on
simulated workers, in an order, with the failures, decided by the scenario.

A worker runs one task at a time.  What a real distributed scheduler may do,
this one does: run ready tasks in any order and concurrently, run a task
twice and use either result, lose a worker - together with the results it
holds - and run the lost tasks again.  What a task refers to and how it is
executed is decided by the real `dask.core`.
"""
import random
import threading

import dask.core

from . import world as world_mod


class WorkerLost(BaseException):
    """The worker process running a task dies."""


class SimCluster(object):
    """A dask `get` function."""

    def __init__(self, world, cfg):
        self.world = world
        self.cfg = cfg
        self.n_workers = cfg.get('workers', 1)
        self.rng = random.Random(cfg.get('seed', 0))
        self.executed = 0          # task executions
        self.reexecuted = 0
        self.runs = []             # per call: {key: executions}
        self.lost = 0
        self.orders = []
        self.calls = []            # (graph, keys, operation)
        self.gave_up = set()       # operations in which a task failed

    def __call__(self, dsk, keys, **kwargs):
        me = self.world.sim.running
        self.calls.append((dsk, keys, me.tag if me else None))
        return self.compute(dsk, keys)

    def compute(self, dsk, keys):
        order = {k: n for n, k in enumerate(dsk)}
        deps = {}
        for k in dsk:
            deps[k] = dask.core.get_dependencies(dsk, k, as_list=True)
        wanted = list(keys) if isinstance(keys, list) else [keys]
        need = []
        seen = set()
        stack = wanted[::-1]
        while stack:
            k = stack.pop()
            if k in seen:
                continue
            seen.add(k)
            need.append(k)
            stack.extend(deps[k])
        need.sort(key=order.__getitem__)
        state = {'results': {}, 'holder': {}, 'running': {}, 'error': None,
                 'counts': {}, 'done': False}
        self.runs.append(state['counts'])
        cond = threading.Condition(threading.Lock())
        rng = random.Random(self.rng.randrange(2 ** 30))
        prio = {k: rng.random() for k in need}
        style = self.cfg.get('order', 'random')
        crash = set(self.cfg.get('crash', ()))
        dup_p = self.cfg.get('dup', 0.0)
        retries = self.cfg.get('retries', 0)
        failures = {}
        me = self.world.sim.running
        tag = me.tag if me else None
        trace = []

        def ready():
            out = []
            for k in need:
                if k in state['results']:
                    continue
                n_run = state['running'].get(k, 0)
                if n_run and not (n_run < 2 and rng.random() < dup_p):
                    continue
                if all(d in state['results'] for d in deps[k]):
                    out.append(k)
            return out

        def pick(cands):
            if style == 'fifo':
                return cands[0]
            if style == 'lifo':
                return cands[-1]
            if style == 'prio':
                return min(cands, key=lambda k: (prio[k], order[k]))
            return cands[int(rng.random() * len(cands))]

        def finished():
            return state['error'] is not None or \
                all(k in state['results'] for k in wanted)

        def worker(w, generation=0):
            while True:
                with cond:
                    while True:
                        if finished():
                            cond.notify_all()
                            return
                        cands = ready()
                        if cands:
                            break
                        cond.wait()
                    key = pick(cands)
                    state['running'][key] = state['running'].get(key, 0) + 1
                    data = {d: state['results'][d] for d in deps[key]}
                    n = self.executed
                    self.executed += 1
                    c = state['counts'].get(key, 0) + 1
                    state['counts'][key] = c
                    if c > 1:
                        self.reexecuted += 1
                    trace.append(order[key])
                lost = n in crash
                try:
                    if lost and rng.random() < 0.5:
                        raise WorkerLost()
                    value = dask.core._execute_task(dsk[key], data)
                    if lost:
                        raise WorkerLost()
                except WorkerLost:
                    self.lost += 1
                    self.world.fire('worker lost')
                    with cond:
                        state['running'][key] -= 1
                        # Everything this worker held is gone.
                        for k, who in list(state['holder'].items()):
                            if who == (w, generation):
                                state['results'].pop(k, None)
                                state['holder'].pop(k)
                        generation += 1
                        cond.notify_all()
                    continue
                except BaseException as e:
                    with cond:
                        state['running'][key] -= 1
                        if isinstance(e, Exception) and \
                                failures.get(key, 0) < retries:
                            failures[key] = failures.get(key, 0) + 1
                            cond.notify_all()
                            continue
                        self.gave_up.add(tag)
                        if state['error'] is None:
                            state['error'] = e
                        cond.notify_all()
                    if isinstance(e, (Exception, world_mod.SimCrash)):
                        return
                    raise
                with cond:
                    state['running'][key] -= 1
                    if key in state['results'] and rng.random() < 0.5:
                        pass           # the first result wins
                    else:
                        state['results'][key] = value
                        state['holder'][key] = (w, generation)
                    cond.notify_all()

        self.orders.append(trace)
        if self.n_workers <= 1:
            worker(0)
        else:
            threads = []
            for w in range(self.n_workers):
                t = threading.Thread(target=worker, args=(w,),
                                     name='worker{}'.format(w))
                t.daemon = True
                t.start()
                threads.append(t)
            for t in threads:
                t.join()
        if state['error'] is not None:
            raise state['error']
        res = tuple(state['results'][k] for k in wanted)
        return res if isinstance(keys, list) else res[0]
