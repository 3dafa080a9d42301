"""
The simulated outside world of a run: data sources, save targets, failing
operators, allocations, thread starts and interrupts, and the fault plan that
decides when each of them misbehaves.
"""
import gc
import weakref

import numpy as np

from . import core
from . import expr


class SimFault(Exception):
    """An injected failure."""


class SimIOError(SimFault, IOError):
    pass


class SimMemoryError(SimFault, MemoryError):
    pass


class SimOpError(SimFault, ArithmeticError):
    pass


class SimThreadError(SimFault, RuntimeError):
    pass


class SimCrash(BaseException):
    """The simulated process dies here."""


FAULT_EXC = {'io': SimIOError, 'mem': SimMemoryError, 'op': SimOpError,
             'thread': SimThreadError, 'crash': SimCrash,
             'sysexit': SystemExit, 'kbint': KeyboardInterrupt,
             'genexit': GeneratorExit, 'stop': StopIteration}


def make_exc(kind, where):
    return FAULT_EXC[kind]('injected {} at {}'.format(kind, where))


def region(shape, keys):
    """Boolean array of the elements of `shape` selected by orthogonal keys,
    and how many element reads the request makes."""
    idx = []
    n = 1
    keys = expr.full_keys(keys if isinstance(keys, tuple) else (keys,),
                          len(shape))
    for k, size in zip([k for k in keys if k is not None], shape):
        a = np.arange(size)
        if isinstance(k, slice):
            a = a[k]
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            a = np.nonzero(k)[0]
        elif isinstance(k, (tuple, list, np.ndarray)):
            a = a[np.array(k, dtype=int)] if len(k) else a[:0]
        else:
            a = a[int(k):int(k) + 1] if k >= 0 else a[[int(k)]]
        idx.append(a)
        n *= len(a)
    return idx, n


class World(object):
    def __init__(self, sim, scn):
        self.sim = sim
        self.scn = scn
        self.reads = []        # (step, task, source, n elements, phase)
        self.fired = {}        # fault kind -> count
        self.fired_in = {}     # operation tag -> fault kinds
        self.faults = scn.get('faults', [])
        self.calc = any(f['site'] == 'calc' for f in self.faults)
        self.armed = True
        self.counters = {}
        self.delay = scn.get('delay', {})
        self.read_log_keys = scn.get('log_keys', False)
        self.stalls = 0
        self.opcalls = []      # (step, site): calls of custom operators
        self.watch_at = scn.get('watch')
        self.watched = []      # weak references to the chunks handed out
        self.held = None

    def fire(self, kind, tag=None):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if tag is None:
            me = self.sim.running
            tag = me.tag if me is not None else None
        self.fired_in.setdefault(tag, []).append(kind)

    def count(self, site):
        n = self.counters.get(site, 0)
        self.counters[site] = n + 1
        return n

    def check(self, site):
        """Raise if the plan has a fault at this occurrence of `site`."""
        n = self.count(site)
        if not self.armed:
            return
        for f in self.faults:
            if f.get('off') or f['site'] != site:
                continue
            if f.get('sticky'):
                hit = n >= f['at']
            else:
                hit = n == f['at']
            if hit:
                self.fire('{}:{}'.format(site.split('/')[0], f['exc']))
                self.sim.log('fault {} {} #{}'.format(f['exc'], site, n))
                if self.on_fault is not None:
                    self.on_fault(f)
                raise make_exc(f['exc'], '{}#{}'.format(site, n))

    def hand_out(self, chunk):
        """
        Note a chunk that has been handed to the evaluation; when as many as
        the scenario says have been, count those still in memory.
        """
        if self.watch_at is None or \
                not isinstance(chunk, np.ndarray) or chunk is np.ma.masked:
            return
        self.watched.append(weakref.ref(chunk))
        if len(self.watched) == self.watch_at:
            for _ in range(3):
                gc.collect()
            self.held = sum(r() is not None for r in self.watched)
            self.fire('held-memory-census')

    on_fault = None

    def latency(self, site):
        """Virtual time a request to `site` takes."""
        d = self.delay.get(site)
        if d is None:
            d = self.delay.get('*')
        if not d:
            return
        self.stalls += 1
        self.sim.sleep(d[self.counters.get(site, 0) % len(d)])


class SimSource(object):
    """
    A data source which is indexed like an ndarray ('mem': answers with views
    of its buffer; 'file': answers with copies) or like a netCDF variable
    ('ortho': orthogonal indexing, answers with copies; 'nc': the same, but
    with masked arrays only where something is masked).
    """

    def __init__(self, world, name, data, kind):
        self._world = world
        self._name = name
        self._data = data
        self._kind = kind
        self._site = 'src/{}'.format(name)
        self.counts = np.zeros(data.shape, dtype=int)
        self.largest = 0
        self.n_reads = 0
        if isinstance(data, np.ma.MaskedArray):
            self.fill_value = data.fill_value

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def dtype(self):
        return self._data.dtype

    def __getitem__(self, keys):
        w = self._world
        sim = w.sim
        if not isinstance(keys, tuple):
            keys = (keys,)
        idx, n = region(self._data.shape, keys)
        if idx:
            np.add.at(self.counts, np.ix_(*idx), 1)
        else:
            self.counts[...] += 1
        self.n_reads += 1
        if n > self.largest:
            self.largest = n
        me = sim.running
        w.reads.append((sim.steps, me.tid if me else -1, self._name, n,
                        me.tag if me else None))
        if w.read_log_keys:
            w.reads[-1] += ([a.tolist() for a in idx],)
        sim.log('read {} {}'.format(self._name, n))
        w.latency(self._site)
        sim.point('read')
        w.check(self._site)
        r = self._answer(keys)
        w.hand_out(r)
        return r

    def _answer(self, keys):
        if self._kind == 'mem':
            return self._data[keys]
        if self._kind == 'file':
            r = self._data[keys]
            return r.copy() if isinstance(r, np.ndarray) else r
        r = expr.ortho_index(self._data, keys).copy()
        if self._kind == 'nc' and isinstance(r, np.ma.MaskedArray) and \
                not np.ma.getmaskarray(r).any():
            return np.ma.getdata(r)     # masked only where it has to be
        return r


class SimTarget(object):
    """
    A save target: an in-memory file with a write log.  Writes can fail
    before, after or in the middle of storing (torn), and can be lost by a
    crash while not yet durable.
    """

    def __init__(self, world, name, shape, dtype, masked, mode='sync'):
        self._world = world
        self._name = name
        self._site = 'tgt/{}'.format(name)
        self.mode = mode
        if masked:
            self.data = np.ma.zeros(shape, dtype)
            self.data[...] = -77
            self.data.mask = np.zeros(shape, bool)
        else:
            self.data = np.empty(shape, dtype)
            self.data[...] = -77
        self.prev = self.data.copy()
        self.counts = np.zeros(shape, int)
        self.writes = []
        self.active = 0
        self.overlap = False

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return self.data.dtype

    def __setitem__(self, keys, value):
        w = self._world
        sim = w.sim
        if not isinstance(keys, tuple):
            keys = (keys,)
        idx, n = region(self.data.shape, keys)
        site = self._site
        k = w.counters.get(site, 0)
        plan = None
        for f in w.faults:
            if w.armed and not f.get('off') and f['site'] == site and (
                    k >= f['at'] if f.get('sticky') else k == f['at']):
                plan = f
        sim.log('write {} {}'.format(self._name, n))
        w.latency(site)
        sim.point('write')
        me = sim.running
        self.writes.append((sim.steps, me.tid if me else -1, n))
        if plan is not None:
            how = plan.get('how', 'before')
            if how == 'after':
                self._store(keys, idx, value)
            elif how == 'torn':
                self._torn(keys, idx, value, plan.get('part', 0.5))
            w.fire('tgt-{}:{}'.format(how, plan['exc']))
            w.counters[site] = k + 1
            raise make_exc(plan['exc'], '{}#{}'.format(site, k))
        w.counters[site] = k + 1
        self._store(keys, idx, value)

    def _store(self, keys, idx, value):
        if idx:
            self.counts[np.ix_(*idx)] += 1
        else:
            self.counts[...] += 1
        self.data[keys] = value

    def _torn(self, keys, idx, value, part):
        """Store only a leading part of the request."""
        tmp = self.data.copy()
        tmp[keys] = value
        sel = np.zeros(self.data.shape, bool)
        if idx:
            sel[np.ix_(*idx)] = True
        else:
            sel[...] = True
        flat = np.nonzero(sel.ravel())[0]
        cut = int(len(flat) * part)
        keep = np.zeros(sel.size, bool)
        keep[flat[:cut]] = True
        keep = keep.reshape(self.data.shape)
        if isinstance(self.data, np.ma.MaskedArray):
            d = np.ma.getdata(self.data)
            m = np.ma.getmaskarray(self.data).copy()
            d[keep] = np.ma.getdata(tmp)[keep]
            m[keep] = np.ma.getmaskarray(tmp)[keep]
            self.data = np.ma.array(d, mask=m)
        else:
            self.data[keep] = tmp[keep]
