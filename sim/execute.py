"""
Runs one scenario (a JSON-able dict) under the simulator and records what
happened.  A scenario has

  nodes    expression program (see expr.py)
  chunk    chunk-size limit in elements
  clients  list of operation lists, one simulated caller thread each
  sched    schedule policy (seeded) or recorded schedule
  faults   list of {site, at, exc, ...}
  delay    {site: [virtual seconds, ...]}
"""
import contextlib
import copy
import functools
import gc
import io
import os
import sys
import types
import uuid
import warnings
import weakref

import numpy as np

from . import core
from . import expr
from . import world as world_mod

REPO = os.environ.get('BIGGUS_REPO', '/repo')
TRACE_ROOT = os.path.join(REPO, 'biggus') + os.sep

biggus = None
dask_engine = None
DEFAULT_ENGINE = None
DEFAULT_CHUNK = None


def load():
    """Import the code under test behind the simulated primitives."""
    global biggus, dask_engine, DEFAULT_ENGINE, DEFAULT_CHUNK
    if biggus is not None:
        return
    core.install()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import biggus as bg
    import biggus._init
    if not os.path.abspath(bg.__file__).startswith(TRACE_ROOT):
        raise core.HarnessError('biggus imported from ' + bg.__file__)
    import biggus.experimental.dask_engine as de
    biggus = bg
    dask_engine = de
    DEFAULT_ENGINE = bg.engine
    DEFAULT_CHUNK = bg._init.MAX_CHUNK_SIZE
    proxy = np_proxy()
    for mod in (bg._init, de, de.key_grouper):
        for name, val in list(mod.__dict__.items()):
            if val is np or val is np.ma:
                mod.__dict__[name] = proxy if val is np else proxy.ma
        mod.id = _sim_id
    copy.id = _sim_id           # (the memo of deepcopy is keyed by id)
    uuid.uuid4 = _sim_uuid4


class IdMap(object):
    """
    Deterministic object identities: small integers in order of use.  After a
    `sweep` the identities of objects which no longer exist are given to new
    objects, as they may be in reality.
    """

    def __init__(self, base=0):
        self.map = {}
        self.free = []
        # Identities of different runs of a process never coincide: the
        # code under test may keep objects of earlier runs alive.
        self.next = base + 1
        self.dead = []
        self.reused = 0

    def __call__(self, obj):
        k = id(obj)
        ent = self.map.get(k)
        if ent is not None:
            if ent[1]() is obj:
                return ent[0]
            self.dead.append(ent[0])
        try:
            ref = weakref.ref(obj)
        except TypeError:
            def ref(obj=obj):
                return obj
        if self.free:
            n = self.free.pop()
            self.reused += 1
        else:
            n = self.next
            self.next += 1
        self.map[k] = (n, ref)
        return n

    def sweep(self):
        gc.collect()
        for k, (n, ref) in list(self.map.items()):
            if ref() is None:
                del self.map[k]
                self.dead.append(n)
        self.free = sorted(self.free + self.dead, reverse=True)
        self.dead = []


GARBAGE = {'b': True, 'i': 77, 'u': 77, 'f': 7777.75, 'c': 7777.75,
           'O': None, 'M': 77, 'm': 77}


def garbage(a):
    """What uninitialised memory holds, the same in every execution."""
    if a.dtype.kind in GARBAGE and a.size:
        np.ma.getdata(a)[...] = GARBAGE[a.dtype.kind]
        m = np.ma.getmask(a)
        if m is not np.ma.nomask and m.dtype == bool:
            m[...] = False
    return a


class _StoreNd(np.ndarray):
    """Memory which can fail while something is stored in it."""
    _world = None

    def __array_finalize__(self, obj):
        self._world = None

    def __setitem__(self, keys, value):
        if self._world is not None:
            self._world.check('store')
        np.ndarray.__setitem__(self, keys, value)


class _StoreMa(np.ma.MaskedArray):
    _world = None

    def __setitem__(self, keys, value):
        if self.__dict__.get('_world') is not None:
            self.__dict__['_world'].check('store')
        np.ma.MaskedArray.__setitem__(self, keys, value)


class _Current(object):
    """What the patched names of the code under test refer to right now."""
    world = None
    store = False
    ids = None
    uuid_base = None
    uuid_count = 0


def _sim_id(obj):
    ids = _Current.ids
    return id(obj) if ids is None else ids(obj)


def _sim_uuid4():
    if _Current.uuid_base is None:
        return _real_uuid4()
    _Current.uuid_count += 1
    return uuid.UUID(int=_Current.uuid_base + _Current.uuid_count)


_real_uuid4 = uuid.uuid4


#: Functions which need memory for what they compute.
CALC = frozenset("""
    array asarray asanyarray ascontiguousarray ones ones_like zeros_like full
    full_like copy concatenate stack vstack hstack repeat tile broadcast_to
    sum prod product all any min max amin amax mean std var ptp cumsum
    nonzero where take compress argsort sort unique searchsorted
    rollaxis moveaxis swapaxes transpose expand_dims squeeze reshape ravel
    count count_masked filled getmaskarray getdata masked_array
    masked_where masked_equal masked_invalid nansum clip
""".split())


def np_proxy():
    """
    numpy, with allocation functions that can run out of memory and which
    give deterministic garbage.
    """
    top = types.ModuleType('numpy')
    top.__dict__.update(np.__dict__)
    sub = types.ModuleType('numpy.ma')
    sub.__dict__.update(np.ma.__dict__)
    top.ma = sub

    def wrap(fn, fill, cls):
        def alloc(*args, **kw):
            world = _Current.world
            if world is None:
                return fn(*args, **kw)
            world.check('alloc')
            a = fn(*args, **kw)
            if fill:
                garbage(a)
                if _Current.store and a.size:
                    a = a.view(cls)
                    a._world = world
            return a
        return alloc
    for mod, orig, cls in ((top, np, _StoreNd), (sub, np.ma, _StoreMa)):
        for name in ('empty', 'zeros', 'empty_like'):
            mod.__dict__[name] = wrap(getattr(orig, name),
                                      name.startswith('empty'), cls)

    def calc(fn):
        @functools.wraps(fn)
        def call(*args, **kw):
            world = _Current.world
            if world is not None and world.calc:
                me = world.sim.running
                if me is not None and not me.client:
                    world.check('calc')
            return fn(*args, **kw)
        return call
    for mod, orig in ((top, np), (sub, np.ma)):
        for name, val in list(orig.__dict__.items()):
            if isinstance(val, (types.FunctionType,
                                types.BuiltinFunctionType)) and \
                    mod.__dict__[name] is val and name in CALC:
                mod.__dict__[name] = calc(val)
    return top


class FailingOp(object):
    """A custom elementwise operator that fails when the plan says so."""

    def __init__(self, world, site, fn):
        self.world = world
        self.site = site
        self.fn = fn
        self.__name__ = 'custom'

    def __call__(self, *args):
        w = self.world
        core_sim = w.sim
        if core.SIM is core_sim and core_sim.running is not None and \
                w.op_live:
            core_sim.point('op')
            w.latency(self.site)
            w.check(self.site)
            w.opcalls.append((core_sim.steps, self.site))
            chunk = self.fn(*args)
            w.hand_out(chunk)
            return chunk
        return self.fn(*args)

    def __deepcopy__(self, memo):
        return self


class SimBuilder(expr.Builder):
    world = None
    run = None

    def operand(self, i, p):
        data = expr.make_data(p)
        self.run.pristine[i] = (data, data.copy(),
                                getattr(data, 'fill_value', None))
        return data

    def custom(self, i, fn):
        return FailingOp(self.world, 'op/{}'.format(i), fn)


class OpRecord(object):
    __slots__ = ('client', 'index', 'op', 'start', 'end', 'status', 'value',
                 'exc', 'tasks', 'reads', 'tag', 'fired', 'targets', 't0',
                 't1', 'extra', 'engine_name')

    def __init__(self, client, index, op):
        self.client = client
        self.index = index
        self.op = op
        self.status = 'pending'
        self.value = None
        self.exc = None
        self.extra = None
        self.start = self.end = None
        self.tag = (client, index)
        self.fired = 0
        self.engine_name = None


class Run(object):
    def __init__(self, scn, sched=None):
        load()
        self.scn = scn
        self.sched = sched if sched is not None else scn['sched']
        self.history = []
        self.targets = {}
        self.notes = []

    # -- the client program ----------------------------------------------

    def concrete(self, i, p):
        if i in self.sources:
            return self.sources[i]
        data = expr.make_data(p)
        src = world_mod.SimSource(self.world, 'n{}'.format(i), data,
                                  p.get('kind', 'mem'))
        self.sources[i] = src
        self.pristine[i] = (data, data.copy(),
                            getattr(data, 'fill_value', None))
        return src

    def client_main(self, c, ops):
        task = self.sim.running
        for k, op in enumerate(ops):
            rec = OpRecord(c, k, op)
            self.history.append(rec)
            task.tag = rec.tag
            rec.start = self.sim.steps
            rec.t0 = self.sim.now
            self.sim.log('op {} {}'.format(k, op['do']))
            self.current[c] = rec
            try:
                rec.value = self.do(rec, op)
                rec.status = 'ok'
            except core.Killed:
                rec.status = 'hung'
                raise
            except world_mod.SimCrash as e:
                rec.status = 'crash'
                rec.exc = e
            except BaseException as e:
                rec.status = 'raised'
                rec.exc = e
            finally:
                self.current[c] = None
                rec.end = self.sim.steps
                rec.t1 = self.sim.now
                rec.fired = len(self.world.fired_in.get(rec.tag, ()))
            self.sim.log('op {} -> {}'.format(k, rec.status))
            task.tag = None
            self.after_op(self, rec)

    def after_op(self, run, rec):
        pass

    def do(self, rec, op):
        bg = biggus
        b = self.builder
        do = op['do']
        if do == 'eval':
            arrs = [b.get(i) for i in op['args']]
            how = op.get('how', 'joint')
            masked = op.get('masked', False)
            engine = op.get('engine')
            if engine is not None:
                eng = self.engine(engine)
                fn = eng.masked_arrays if masked else eng.ndarrays
                return list(fn(*arrs))
            if how == 'joint':
                fn = bg.masked_arrays if masked else bg.ndarrays
                return list(fn(arrs))
            if how == 'asarray':
                return [np.asarray(a) for a in arrs]
            return [a.masked_array() if masked else a.ndarray()
                    for a in arrs]
        if do == 'build':
            for i in op['args']:
                b.get(i)
            return None
        if do == 'meta':
            out = []
            for i in op['args']:
                a = b.get(i)
                out.append((tuple(a.shape), a.dtype, a.ndim, a.nbytes,
                            repr(a), str(a), a.fill_value))
            return out
        if do == 'save':
            a = b.get(op['node'])
            masked = op.get('masked', False)
            tgt = self.target(op)
            bg.save([a], [tgt], masked=masked)
            return None
        if do == 'arm':
            self.world.armed = op['on']
            return None
        if do == 'sleep':
            self.sim.sleep(op['t'])
            return None
        if do == 'engine':
            bg.engine = self.engine(op['which'])
            return None
        if do == 'chunk':
            bg._init.MAX_CHUNK_SIZE = op['n']
            return None
        if do == 'copy':
            # A deep copy must not duplicate the simulated sources.
            memo = {self.ids(s): s for s in self.sources.values()}
            memo[self.ids(self.world)] = self.world
            self.copies[op['name']] = copy.deepcopy(b.get(op['node']), memo)
            return None
        if do == 'evalcopy':
            a = self.copies[op['name']]
            return [a.masked_array() if op.get('masked') else a.ndarray()]
        if do == 'badindex':
            # An invalid request: must raise, and change nothing.
            try:
                b.get(op['node'])[expr.dec_keys(op['keys'])]
            except Exception as e:
                return type(e).__name__
            return None
        if do == 'forget':
            # The session drops its expressions; their identities are free.
            for i in op['nodes']:
                b.built.pop(i, None)
            for _, e in self.sim.uncaught:
                e.__traceback__ = None
            for r in self.history:
                if r.exc is not None:
                    r.exc.__traceback__ = None
            self.ids.sweep()
            return None
        if do == 'scribble':
            for prev in self.history:
                if prev.client == rec.client and prev.index == op['of'] and \
                        prev.status == 'ok':
                    vals = prev.value
                    for j, v in enumerate(vals):
                        if op.get('only') is not None and op['only'] != j:
                            continue
                        if prev.extra is None:
                            prev.extra = [x.copy() for x in vals]
                        scribble(v)
            return None
        if do in self.custom_ops:
            return self.custom_ops[do](self, rec, op)
        raise core.HarnessError('unknown operation ' + do)

    custom_ops = {}

    def target(self, op):
        name = op['target']
        if name not in self.targets:
            i = op['node']
            masked = op.get('masked', False)
            dt = self.ref.dtype[i]
            self.targets[name] = world_mod.SimTarget(
                self.world, name, self.ref.shape[i], dt, masked)
        return self.targets[name]

    def engine(self, which):
        if which not in self.engines:
            if which == 'default':
                eng = DEFAULT_ENGINE
            elif which == 'threaded':
                eng = biggus.AllThreadedEngine()
            else:
                eng = self.make_engine(which)
            self.engines[which] = eng
        return self.engines[which]

    def make_engine(self, which):
        raise core.HarnessError('unknown engine ' + which)

    # -- one execution ----------------------------------------------------

    def setup(self):
        pass

    def teardown(self):
        pass

    def execute(self, max_steps=None, force_trace=False):
        scn = self.scn
        init = biggus._init
        self.ref = expr.Ref(scn['nodes'])
        sched = dict(self.sched)
        if force_trace:
            sched['force_trace'] = True
        sim = core.Sim(sched, max_steps=max_steps or
                       scn.get('max_steps', 300000), trace_root=TRACE_ROOT)
        self.sim = sim
        self.world = world_mod.World(sim, scn)
        self.world.op_live = True
        self.sources = {}
        self.pristine = {}
        self.copies = {}
        self.engines = {}
        self.current = {}
        self.builder = SimBuilder(scn['nodes'], biggus, self.concrete)
        self.builder.world = self.world
        self.builder.run = self
        base = scn.get('idbase', 0) << 24
        ids = self.ids = IdMap(base)
        if any(f['site'] == 'thread' for f in scn.get('faults', ())):
            sim.spawn_hook = lambda t: self.world.check('thread')
        stderr = sys.stderr
        try:
            biggus.engine = DEFAULT_ENGINE
            init.MAX_CHUNK_SIZE = scn.get('chunk', DEFAULT_CHUNK)
            _Current.world = self.world
            _Current.store = any(f['site'] == 'store'
                                 for f in scn.get('faults', ()))
            _Current.ids = ids
            _Current.uuid_base = base
            _Current.uuid_count = 0
            sys.stderr = io.StringIO()
            self.setup()
            for i in scn.get('prebuild', ()):
                self.builder.get(i)
            tasks = []
            for c, ops in enumerate(scn['clients']):
                def main(c=c, ops=ops):
                    self.client_main(c, ops)
                th = core.SimThread(target=main, name='client{}'.format(c))
                t = sim.spawn(th._sim_run, 'client{}'.format(c), th,
                              client=True)
                th._sim_task = t
                tasks.append(t)
            for f in scn.get('faults', ()):
                if f['site'].startswith('interrupt/') and not f.get('off'):
                    c = int(f['site'].split('/')[1])
                    if c >= len(tasks):
                        continue

                    def ok(t, c=c):
                        r = self.current.get(c)
                        return self.world.armed and r is not None and \
                            r.op['do'] in ('eval', 'save')
                    sim.interrupts.append({
                        'at': f['at'], 'task': tasks[c], 'ok': ok,
                        'exc': world_mod.make_exc(f['exc'], 'wait')})
            sim.on_interrupt = lambda it: self.world.fire(
                'interrupt', it['task'].tag)
            self.outcome = sim.run()
        finally:
            self.teardown()
            sys.stderr = stderr
            _Current.world = _Current.ids = _Current.uuid_base = None
            init.MAX_CHUNK_SIZE = DEFAULT_CHUNK
            biggus.engine = DEFAULT_ENGINE
            for r in self.history:
                if r.status == 'pending':
                    r.status = 'hung'
        return self

    # -- reusable oracles ---------------------------------------------------

    def clients_done(self):
        return not any(c for (_, _, c) in self.sim.blocked_at_end)

    def where_blocked(self):
        return ['{}({}){}'.format(name.split(' ')[0].strip('<'), tid,
                                  '*' if c else '')
                for tid, name, c in self.sim.blocked_at_end]


def scribble(v):
    """The caller changes a result it owns."""
    if isinstance(v, np.ma.MaskedArray):
        if v.dtype.kind == 'b':
            v[...] = True
        else:
            v[...] = 55
        v.mask = True
    else:
        v[...] = 55 if v.dtype.kind != 'b' else True


def ref_value(ref, i, masked):
    return ref.ma[i] if masked else ref.nd[i]
