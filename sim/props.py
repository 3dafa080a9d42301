"""
The properties: for each one how a seed becomes a scenario, what has to hold
of the recorded history, and when a run counts as non-trivial.

`check` returns None or a text "class: detail"; minimisation keeps the class.
"""
import numpy as np

from . import core
from . import dasksim
from . import execute
from . import expr
from . import gen as gen_mod
from . import world as world_mod

BIG = 10 ** 7


# -- workload helpers -----------------------------------------------------------

def n_chunks(shape, limit):
    """How many chunks a traversal of `shape` takes (workload sizing only)."""
    n, out = 1, 1
    for size in reversed(shape):
        if size * n <= limit:
            k = 1
        elif n > limit:
            k = size
        else:
            k = -(-size // (limit // n))
        n *= size
        out *= k
    return out


def pick_chunk(rng, g, cap=70, nodes=None):
    """A chunk limit which puts boundaries at interesting places."""
    if rng.random() < 0.02:
        cap *= 4
    if nodes is None:
        nodes = range(len(g.nodes))
    shapes = [g.ref.shape[i] for i in nodes
              if g.nodes[i][0] not in expr.OPERANDS]
    for _ in range(20):
        x = rng.random()
        if x < 0.45:
            s = list(rng.choice(shapes))
            k = rng.randint(0, len(s))
            limit = int(np.prod(s[k:])) if s[k:] else 1
            limit = limit + rng.choice([0, 0, 0, -1, 1])
            if rng.random() < 0.3:
                limit *= rng.choice([2, 3])
        elif x < 0.9:
            limit = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 13, 20, 30, 60])
        else:
            limit = BIG
        limit = max(1, limit)
        if max(n_chunks(s, limit) for s in shapes) <= cap:
            return limit
    return BIG


def pick_sched(rng, line=0.0):
    kind = rng.choice(['random', 'random', 'random', 'pct', 'pct', 'starve',
                       'starve', 'burst', 'fifo', 'default'])
    s = {'kind': kind, 'seed': rng.randrange(2 ** 31)}
    if kind == 'random':
        s['p'] = rng.choice([0.05, 0.2, 0.5, 0.9, 1.0])
    if kind in ('pct', 'starve'):
        s['change'] = rng.choice([0.002, 0.01, 0.05, 0.2])
    if rng.random() < 0.3:
        s['stall_p'] = rng.choice([0.002, 0.01, 0.05])
    if rng.random() < line:
        s['line_p'] = rng.choice([0.002, 0.01, 0.05, 0.2])
    return s


def pick_delay(rng, g, p=0.4, extra=()):
    out = {}
    if rng.random() < p:
        sites = ['src/n{}'.format(i) for i in range(len(g.nodes))
                 if g.nodes[i][0] == 'src'] + list(extra)
        for s in sites:
            if rng.random() < 0.6:
                out[s] = [0 if rng.random() < 0.2 else
                          10.0 ** rng.uniform(-6, 3)
                          for _ in range(rng.randint(1, 4))]
    return out


def prune(nodes, keep):
    """Drop the nodes not needed for `keep`; returns (nodes, renumber)."""
    used = set()
    stack = list(keep)
    while stack:
        i = stack.pop()
        if i not in used:
            used.add(i)
            stack.extend(nodes[i][2:])
    new = {}
    out = []
    for i in sorted(used):
        new[i] = len(out)
        out.append(nodes[i][:2] + [new[c] for c in nodes[i][2:]])
    return out, new


def op_nodes(op):
    """The nodes an operation refers to."""
    if 'args' in op:
        return list(op['args'])
    if 'node' in op:
        return [op['node']]
    return []


def renumber(op, new):
    op = dict(op)
    if 'args' in op:
        op['args'] = [new[i] for i in op['args']]
    if 'node' in op:
        op['node'] = new[op['node']]
    if 'nodes' in op:
        op['nodes'] = [new[i] for i in op['nodes'] if i in new]
    return op


def compact(scn):
    """Drop unused nodes of a scenario."""
    keep = [i for ops in scn['clients'] for op in ops for i in op_nodes(op)]
    keep += scn.get('prebuild', [])
    nodes, new = prune(scn['nodes'], keep)
    out = dict(scn)
    out['nodes'] = nodes
    out['clients'] = [[renumber(op, new) for op in ops]
                      for ops in scn['clients']]
    if 'prebuild' in scn:
        out['prebuild'] = [new[i] for i in scn['prebuild']]

    def site(s):
        head, _, tail = s.partition('/')
        if head == 'src' and tail.startswith('n'):
            i = int(tail[1:])
            return 'src/n{}'.format(new[i]) if i in new else None
        if head == 'op':
            i = int(tail)
            return 'op/{}'.format(new[i]) if i in new else None
        return s
    out['delay'] = {site(s): d for s, d in scn.get('delay', {}).items()
                    if site(s) is not None}
    out['faults'] = [dict(f, site=site(f['site']))
                     for f in scn.get('faults', ())
                     if site(f['site']) is not None]
    return out


def descend(nodes, i):
    out = set()
    stack = [i]
    while stack:
        j = stack.pop()
        if j not in out:
            out.add(j)
            stack.extend(nodes[j][2:])
    return out


COMPUTED = ('elem', 'oper', 'agg')


class Deps(object):
    """
    For every element of every node: which source elements its value needs
    (a bit mask), and whether computing it involves an operation (bit 0).
    """

    def __init__(self, nodes):
        self.nodes = nodes
        self.val = []
        self.offset = {}
        bits = 1
        for i, node in enumerate(nodes):
            kind, p, ch = node[0], node[1], node[2:]
            xs = [self.val[c] for c in ch]
            if kind == 'src':
                shape = tuple(p['shape'])
                n = int(np.prod(shape)) if shape else 1
                v = np.empty(n, dtype=object)
                for k in range(n):
                    v[k] = 1 << (bits + k)
                self.offset[i] = (bits, n, shape)
                bits += n
                v = v.reshape(shape)
            elif kind == 'const':
                v = self._zeros(tuple(p['shape']))
            elif kind == 'scalar':
                v = self._zeros(())
            elif kind == 'raw':
                v = self._zeros(tuple(p['shape']))
            elif kind in ('elem', 'oper'):
                if len(xs) == 2:
                    a, b = np.broadcast_arrays(xs[0], xs[1])
                else:
                    a = b = xs[0]
                v = np.empty(a.shape, dtype=object)
                for at in np.ndindex(*a.shape):
                    v[at] = a[at] | b[at] | 1
            elif kind == 'agg':
                x = np.moveaxis(xs[0], p['axis'], -1)
                v = np.empty(x.shape[:-1], dtype=object)
                for at in np.ndindex(*v.shape):
                    m = 1
                    for y in x[at]:
                        m |= y
                    v[at] = m
            elif kind == 'astype':
                v = xs[0]
            else:
                v = np.asarray(expr._VIEWS[kind](p, xs), dtype=object)
            self.val.append(v)

    @staticmethod
    def _zeros(shape):
        v = np.empty(shape, dtype=object)
        v[...] = 0
        return v

    def total(self, i):
        m = 0
        v = self.val[i]
        for at in np.ndindex(*v.shape):
            m |= v[at]
        return m

    def needed(self, i):
        """{source node: boolean array of needed elements}"""
        m = self.total(i)
        out = {}
        for s, (off, n, shape) in self.offset.items():
            a = np.array([bool(m >> (off + k) & 1) for k in range(n)], bool)
            out[s] = a.reshape(shape)
        return out

    def computed(self, i):
        return bool(self.total(i) & 1)


# -- the properties -------------------------------------------------------------

class Run(execute.Run):
    """Adds the engines of the workloads."""
    cluster = None

    def setup(self):
        self.clusters = {}
        self.spies = {}
        self.bounds = expr.Bounds(self.scn['nodes'], self.ref)

    def make_engine(self, which):
        if which.startswith('dask'):
            cfg = dict(self.scn.get('dask', {}))
            cl = dasksim.SimCluster(self.world, cfg)
            self.clusters[which] = cl
            return execute.dask_engine.DaskEngine(cl)
        if which.startswith('spy'):
            eng = SpyEngine(self, execute.biggus.AllThreadedEngine())
            self.spies[which] = eng
            return eng
        if which.startswith('fail'):
            return FailEngine(self)
        raise core.HarnessError('unknown engine ' + which)


class SimEngineError(Exception):
    pass


class SpyEngine(object):
    def __init__(self, run, inner):
        self.run = run
        self.inner = inner
        self.calls = []

    def _note(self):
        t = self.run.sim.running
        self.calls.append(None if t is None else t.tag)
        self.run.world.check('engine')

    def ndarrays(self, *arrays):
        self._note()
        return self.inner.ndarrays(*arrays)

    def masked_arrays(self, *arrays):
        self._note()
        return self.inner.masked_arrays(*arrays)


class FailEngine(object):
    def __init__(self, run):
        self.run = run

    def _fail(self):
        self.run.world.fire('engine:refuses')
        raise SimEngineError('the engine refuses')

    def ndarrays(self, *arrays):
        self._fail()

    def masked_arrays(self, *arrays):
        self._fail()


class Prop(object):
    id = None
    run_class = Run
    rule = ''
    line = 0.03          # share of runs with line level preemption

    def scenario(self, rng):
        raise NotImplementedError

    def domain(self, scn):
        """Whether a (minimised) scenario is one this property speaks of."""
        return True

    # Oracles ------------------------------------------------------------

    def check(self, run):
        return self.base(run) or self.specific(run)

    def specific(self, run):
        return None

    def hang(self, run):
        sim = run.sim
        if run.outcome == 'steplimit':
            return 'no progress: still running after {} scheduling steps ' \
                '({} blocked)'.format(sim.max_steps, len(run.where_blocked()))
        stuck = [r for r in run.history if r.status == 'hung']
        if stuck:
            r = stuck[0]
            return 'hang: {} of client {} never returns; blocked threads: ' \
                '{}'.format(r.op, r.client, ', '.join(run.where_blocked()))
        if not run.clients_done():
            return 'hang: {}'.format(', '.join(run.where_blocked()))
        return None

    def base(self, run):
        msg = self.hang(run)
        if msg:
            return msg
        for r in run.history:
            msg = self.op_result(run, r)
            if msg:
                return '{} [client {} op {}: {}]'.format(msg, r.client,
                                                         r.index, r.op)
        return None

    def must_fail(self, run, r):
        """Whether the operation is an unsupported masked evaluation."""
        if r.op['do'] == 'eval' and r.op.get('masked'):
            return any(isinstance(run.ref.ma[i], expr.Unsupported)
                       for i in r.op['args'])
        if r.op['do'] == 'save' and r.op.get('masked'):
            return isinstance(run.ref.ma[r.op['node']], expr.Unsupported)
        return False

    def may_fail(self, run, r):
        return r.fired > 0

    def op_result(self, run, r):
        if r.status == 'crash':
            return None
        if r.status == 'raised':
            if self.must_fail(run, r) or self.may_fail(run, r):
                return None
            return 'unexpected exception: {}: {}{}'.format(
                type(r.exc).__name__, r.exc, self.why(run))
        if r.status != 'ok':
            return None
        if self.must_fail(run, r):
            return 'no exception: an unsupported evaluation returned'
        if r.op['do'] in ('eval', 'evalcopy'):
            return self.values(run, r)
        return None

    def why(self, run):
        seen = []
        for name, e in run.sim.uncaught[:3]:
            seen.append('{}: {}'.format(type(e).__name__, str(e)[:120]))
        return ' (worker: {})'.format('; '.join(seen)) if seen else ''

    def values(self, run, r):
        args = r.op.get('args')
        if args is None:
            args = [r.op['node']]
        masked = bool(r.op.get('masked'))
        vals = r.extra if r.extra is not None else r.value
        if len(vals) != len(args):
            return 'wrong result: {} results for {} expressions'.format(
                len(vals), len(args))
        for j, (i, got) in enumerate(zip(args, vals)):
            want = execute.ref_value(run.ref, i, masked)
            d = expr.compare(got, want, masked, run.ref.dtype[i],
                             run.bounds.tol(i, masked))
            if not d and i in run.builder.built and \
                    run.builder.built[i].dtype != got.dtype:
                d = 'dtype {} where {} was advertised'.format(
                    got.dtype, run.builder.built[i].dtype)
            if d:
                return 'wrong result: of expression {}: {}'.format(j, d)
        return None

    def nontrivial(self, run):
        return run.sim.switches >= 3


# How often other data is used.
ODD = 0.05


def times(rng, masked):
    """Configures a generator to use dates or time differences."""
    dates = rng.random() < 0.4
    aggs = ['count', 'min']
    if not masked:
        # (NumPy doesn't have the masked maximum, or mean.)
        aggs += ['max'] if dates else ['max', 'mean']
    if not dates:
        aggs += ['sum']
    return {'dtypes': ['M8[D]'] if dates else ['m8[s]'], 'nans': 0,
            'aggs': aggs, 'scalar_p': 0.7, 'power': False,
            'opers': ['+', '-', '*', '+', '-'] +
            ([] if masked else ['/', '//']),
            'binary': ['add', 'subtract'] +
            ([] if masked else ['maximum']),
            'weights': [
                ('agg', 3), ('index', 2), ('binary', 2), ('transpose', 1),
                ('stack', 1),
                ('mosaic', 1), ('bcast', .5), ('newaxes', .3)]}


def unusual(rng, masked, p=ODD):
    """Configures a generator, now and then, to use other data."""
    x = rng.random() / p
    if x < 0.3:
        return times(rng, masked)
    if x < 1:
        # Whatever the integers can hold.
        return {'full': True, 'limit': 1e300, 'dtypes': [
            'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f8']}
    return {}


def grown(rng, masked, n_src, n_grow, odd=True, **cfg):
    """A generator with a program of its own, and its last nodes."""
    if odd:
        cfg.update(unusual(rng, masked or odd == 'both'))
    while True:
        g = gen_mod.Gen(rng, masked, **cfg)
        for _ in range(rng.randint(*n_src)):
            g.src()
        n = rng.randint(*n_grow)
        if rng.random() < 0.02:
            n *= 3
        out = g.grow(n)
        if out:
            return g, out


def expr_nodes(g):
    return [i for i in range(len(g.nodes))
            if g.nodes[i][0] not in expr.OPERANDS]


class C01(Prop):
    id = 'C01'
    rule = ('a random expression program (1-2 sources, up to 6 operations of '
            'every kind) is evaluated 1-3 times under different chunk '
            'limits; non-trivial: at least 3 context switches between '
            'worker threads')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (1, 6))
        root = out[-1] if rng.random() < 0.8 else rng.choice(expr_nodes(g))
        ops = []
        for k in range(rng.randint(1, 3)):
            if k:
                ops.append({'do': 'chunk', 'n': pick_chunk(
                    rng, g, nodes=descend(g.nodes, root))})
            ops.append({'do': 'eval', 'args': [root], 'masked': masked,
                        'how': rng.choice(['joint', 'joint', 'method',
                                           'method', 'asarray'])})
            if masked and ops[-1]['how'] == 'asarray':
                ops[-1]['how'] = 'joint'
        return compact({
            'nodes': g.nodes, 'clients': [ops],
            'chunk': pick_chunk(rng, g, nodes=descend(g.nodes, root)),
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g)})


class C02(C01):
    id = 'C02'
    rule = ('1-4 dimensional data (masks of several shapes: leading parts of '
            'lines, whole lines, everything) reduced by one or more of the '
            'seven statistics, possibly through elementwise operations and '
            'views, 1-3 times under different chunk limits; non-trivial: at '
            'least 3 context switches')

    def scenario(self, rng):
        masked = rng.random() < 0.6
        shape = None
        cfg = {'weights': [('agg', 5), ('binary', 2), ('unary', 1),
                           ('index', 1), ('transpose', 0.7), ('stack', .5),
                           ('mosaic', .5), ('maskeq', .4), ('bcast', .3),
                           ('astype', .4)]}
        if rng.random() < 0.03:
            cfg = times(rng, masked)
        elif rng.random() < 0.12:
            # Values far from zero, close to each other.
            base = rng.choice([10 ** 6, 10 ** 7])
            cfg = {'limit': 1e9, 'dtypes': ['f8', 'f8', 'i8'],
                   'range': [base, base + 9], 'weights': [
                       ('index', 1), ('transpose', 1), ('stack', .5),
                       ('mosaic', .5), ('bcast', .3)]}
        elif rng.random() < 0.1:
            # Whatever the integers can hold.
            cfg = {'limit': 1e20, 'full': rng.choice([True, True, 'high']),
                   'dtypes': ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'i8',
                              'i8', '>i4'], 'weights': [
                       ('index', 1), ('transpose', 1), ('stack', .5),
                       ('mosaic', .5), ('bcast', .3)]}
            if masked and rng.random() < 0.25:
                cfg.update(dtypes=['i8'], empty=0, aggs=['min', 'max', 'sum'],
                           mask_kinds=['lead', 'lead', 'most', 'all'])
                shape = [rng.randint(4, 18)]
        elif rng.random() < 0.1:
            # Not a number, and infinities.  (What NumPy makes of those in
            # the masked mean depends on whether there is a mask.)
            cfg = {'nan': True, 'aggs': ['count', 'min', 'max', 'sum'] if
                   masked else gen_mod.AGGS,
                   'dtypes': ['f8', 'f8', 'f4'], 'weights': [
                       ('index', 1), ('transpose', 1), ('stack', .5),
                       ('mosaic', .5), ('bcast', .3)]}
        if rng.random() < 0.07:
            # Long lines.
            shape = [rng.randint(120, 700)]
            if rng.random() < 0.16:
                shape = [rng.randint(33000, 70000)]
                cfg = {'limit': 1e20, 'full': 'high',
                       'aggs': ['mean', 'mean', 'mean', 'max', 'count'],
                       'weights': [('index', 1)],
                       'dtypes': ['u2', 'u2', 'i2', 'u1', 'i4']}
            elif rng.random() < 0.15:
                # Half floats, whose totals are not.
                cfg = {'range': [200, 500], 'dtypes': ['f2'], 'weights': [
                           ('index', 1)],
                       'aggs': ['mean', 'mean', 'std', 'var', 'min',
                                'count']}
            if rng.random() < 0.4:
                shape.insert(rng.randint(0, 1), rng.randint(1, 2))
            cfg = dict(cfg, empty=0, max_elems=200000)
        while True:
            g = gen_mod.Gen(rng, masked, ndims=[1, 2, 2, 3, 3, 4],
                            **dict({'nans': 0}, **cfg))
            g.src(shape)
            g.grow(rng.randint(0, 3 if shape is None else 1))
            roots = [i for i in range(len(g.nodes)) if g.nodes[i][0] == 'agg']
            i = g.agg(rng.choice(expr_nodes(g)))
            if i is not None:
                roots = [i]
            if roots:
                break
        root = roots[-1]
        sub = descend(g.nodes, root)
        ops = []
        for k in range(rng.randint(1, 3)):
            if k:
                ops.append({'do': 'chunk',
                            'n': pick_chunk(rng, g, nodes=sub)})
            ops.append({'do': 'eval', 'args': [root], 'masked': masked,
                        'how': rng.choice(['joint', 'method'])})
        return compact({
            'nodes': g.nodes, 'clients': [ops],
            'chunk': pick_chunk(rng, g, nodes=sub),
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g)})


def joint_roots(rng, g, lo=2, hi=5):
    cands = expr_nodes(g)
    n = rng.randint(lo, hi)
    if rng.random() < 0.02:
        n *= 3
    roots = []
    for _ in range(n):
        x = rng.random()
        if roots and x < 0.15:
            roots.append(rng.choice(roots))
        elif x < 0.7:
            roots.append(rng.choice(cands[-5:]))
        else:
            roots.append(rng.choice(cands))
    return roots


def wide(rng, masked):
    """
    Many small expressions over the same few sources, next to each other, on
    top of each other or both: a generator with a program, and what to
    evaluate together.
    """
    while True:
        g = gen_mod.Gen(rng, masked, max_elems=24, max_dim=4, empty=0)
        for _ in range(rng.randint(1, 2)):
            g.src()
        kind = rng.choice(['fan', 'fan', 'chain', 'mixed'])
        first = list(range(len(g.nodes)))
        out = []
        for _ in range(rng.randint(15, 60)):
            base = {'fan': first, 'chain': (first + out)[-1:],
                    'mixed': first + out}[kind]
            op = rng.choice([g.unary, g.binary, g.binary, g.agg]
                            if kind != 'chain' else [g.unary, g.binary])
            j = op(rng.choice(base))
            if j is not None:
                out.append(j)
        if len(out) >= 8:
            break
    if kind == 'chain':
        roots = [out[-1]] + rng.sample(out, rng.choice([0, 2]))
    else:
        roots = rng.sample(out, rng.randint(len(out) // 2, len(out)))
    return g, roots


SHARING = [('binary', 4), ('unary', 2), ('agg', 6), ('index', 1.5),
           ('transpose', 1), ('stack', 0.5), ('mosaic', 0.5), ('bcast', .4),
           ('maskeq', .3), ('astype', .3), ('newaxes', .2), ('share', 2.5)]


class C03(Prop):
    id = 'C03'
    rule = ('2-5 expressions over shared sources and sub-expressions '
            '(repeats included) evaluated in one call, and some of them again '
            'alone; non-trivial: at least two expressions share a source and '
            'there are at least 3 context switches')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        cap = 70
        if rng.random() < 0.03:
            g, roots = wide(rng, masked)
            cap = 6
        else:
            g, out = grown(rng, masked, (1, 2), (2, 6), weights=SHARING)
            roots = joint_roots(rng, g)
        ops = [{'do': 'eval', 'args': roots, 'masked': masked,
                'how': 'joint'}]
        if rng.random() < 0.4:
            ops.append({'do': 'eval', 'args': [rng.choice(roots)],
                        'masked': masked,
                        'how': rng.choice(['joint', 'method'])})
        if rng.random() < 0.3:
            ops.append({'do': 'chunk', 'n': pick_chunk(rng, g, cap)})
            ops.append({'do': 'eval', 'args': roots[::-1], 'masked': masked,
                        'how': 'joint'})
        return compact({
            'nodes': g.nodes, 'clients': [ops],
            'chunk': pick_chunk(rng, g, cap),
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g)})

    def nontrivial(self, run):
        nodes = run.scn['nodes']
        for op in run.scn['clients'][0]:
            if op['do'] == 'eval' and len(op['args']) > 1:
                srcs = [{j for j in descend(nodes, i) if nodes[j][0] == 'src'}
                        for i in op['args']]
                if any(srcs[a] & srcs[b] for a in range(len(srcs))
                       for b in range(a)):
                    return run.sim.switches >= 3
        return False


def parts(rng, g):
    """Make the last node one which is put together from several parts."""
    i = rng.choice(expr_nodes(g))
    j = rng.choice([g.stack, g.mosaic])(i)
    if j is not None and rng.random() < 0.3:
        k = rng.choice([g.index, g.transpose, g.astype, g.stack,
                        g.mosaic])(j)
        j = j if k is None else k
    return j


def add_custom(rng, g):
    """Put a custom operator (which can be made to fail) somewhere."""
    i = rng.choice(expr_nodes(g))
    if g.dtype(i).kind == 'b':
        return None
    if rng.random() < 0.5:
        return g.try_add(['elem', {'op': 'custom1'}, i])
    same = [j for j in expr_nodes(g) if g.shape(j) == g.shape(i) and
            g.dtype(j).kind != 'b']
    return g.try_add(['elem', {'op': 'custom2'}, i, rng.choice(same)])


FAULTS = ('src', 'op', 'alloc', 'thread', 'store', 'calc')


def pick_faults(rng, g, chunk, kinds=FAULTS, n=(1, 2), roots=None):
    sub = set()
    for r in roots or ():
        sub |= descend(g.nodes, r)
    if not sub:
        sub = set(range(len(g.nodes)))
    sites = []
    for i in sorted(sub):
        if g.nodes[i][0] == 'src' and 'src' in kinds:
            sites += [('src/n{}'.format(i), i)] * 2
        if g.nodes[i][0] == 'elem' and 'op' in kinds and \
                g.nodes[i][1]['op'].startswith('custom'):
            sites += [('op/{}'.format(i), i)] * 2
    if 'alloc' in kinds:
        sites.append(('alloc', None))
    if 'thread' in kinds:
        sites.append(('thread', None))
    if 'store' in kinds:
        sites.append(('store', None))
    if 'calc' in kinds:
        sites.append(('calc', None))
    out = []
    for _ in range(rng.randint(*n)):
        if not sites:
            break
        site, i = rng.choice(sites)
        if i is not None:
            m = n_chunks(g.ref.shape[i], chunk)
        elif site == 'store':
            m = sum(n_chunks(g.ref.shape[r], chunk)
                    for r in roots or sorted(sub)[-1:]
                    if g.nodes[r][0] not in expr.OPERANDS)
        elif site == 'calc':
            m = rng.choice([2, 5, 10, 30, 60])
        else:
            m = len(sub) + 2
        x = rng.random()
        at = 0 if x < 0.2 else m - 1 if x < 0.4 else rng.randint(0, m)
        kind = site.split('/')[0]
        exc = {'src': ['io', 'io', 'io', 'mem', 'sysexit'],
               'op': ['op', 'op', 'mem'], 'alloc': ['mem'],
               'store': ['mem'], 'calc': ['mem'],
               'thread': ['thread']}[kind]
        f = {'site': site, 'at': max(0, at), 'exc': rng.choice(exc)}
        if rng.random() < 0.25:
            f['sticky'] = True
        out.append(f)
    return out


class C04(Prop):
    id = 'C04'
    rule = ('expressions evaluated jointly or through their methods while '
            'reads, operators, allocations or thread starts fail at a seeded '
            'occurrence; non-trivial: at least one fault fired')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (1, 5), weights=SHARING)
        roots = [out[-1]]
        if rng.random() < 0.6:
            c = add_custom(rng, g)
            if c is not None:
                out.append(c)
                roots = [c]
                up = g.grow(rng.randint(0, 2))
                if up and rng.random() < 0.7:
                    roots = [up[-1]]
        if rng.random() < 0.4:
            roots = joint_roots(rng, g, 2, 4)
        elif rng.random() < 0.25:
            j = parts(rng, g)
            roots = roots if j is None else [j]
        cap = 70
        if rng.random() < 0.015:
            g, roots = wide(rng, masked)
            cap = 6
        chunk = pick_chunk(rng, g, cap)
        scn = {'nodes': g.nodes, 'chunk': chunk,
               'clients': [[{'do': 'eval', 'args': roots, 'masked': masked,
                             'how': rng.choice(['joint', 'joint', 'method'])}
                            for _ in range(rng.randint(1, 2))]],
               'sched': pick_sched(rng, self.line),
               'delay': pick_delay(rng, g),
               'faults': pick_faults(rng, g, chunk, roots=roots)}
        return compact(scn)

    def op_result(self, run, r):
        if r.status == 'ok' and r.op['do'] == 'eval' and r.fired:
            bad = self.values(run, r)
            return 'failure hidden: {} during the call, which returned ' \
                'normally ({})'.format(
                    ', '.join(run.world.fired_in.get(r.tag, ())), bad or
                    'with correct values')
        return Prop.op_result(self, run, r)

    def nontrivial(self, run):
        return bool(run.world.fired)


def add_unsupported(rng, g):
    """An operation without a masked equivalent."""
    i = rng.choice(expr_nodes(g))
    if g.dtype(i).kind == 'b':
        return None
    return g.add(['elem', {'op': 'isnan'}, i])


class C05(Prop):
    id = 'C05'
    rule = ('expressions with every kind of sharing, some with many chunks, '
            'some with faults, unsupported operations or interrupted '
            'callers, evaluated by 1-2 callers; non-trivial: at least 3 '
            'context switches between threads')
    interrupts = True
    fault_p = 0.6

    def scenario(self, rng):
        masked = rng.random() < 0.5
        cap = 90
        x = rng.random()
        if x < 0.3:
            # Long streams: many more chunks than the queues hold.
            g, out = grown(rng, masked, (1, 2), (1, 5), weights=SHARING,
                           ndims=[1, 2, 2, 3], max_dim=9)
        elif x < 0.33:
            # Many workers.
            g, out = wide(rng, masked)
            cap = 6
        else:
            g, out = grown(rng, masked, (1, 2), (1, 6), weights=SHARING)
        if cap == 6:
            roots = out
        else:
            roots = [out[-1]] if rng.random() < 0.4 else joint_roots(rng, g)
        if rng.random() < 0.5:
            c = add_custom(rng, g)
            if c is not None:
                roots = [c] + roots[1:]
        if masked and rng.random() < 0.2:
            u = add_unsupported(rng, g)
            if u is not None:
                roots[rng.randrange(len(roots))] = u
        chunk = pick_chunk(rng, g, cap=cap)
        clients = []
        for _ in range(1 if rng.random() < 0.8 else 2):
            clients.append([
                {'do': 'eval', 'args': roots, 'masked': masked,
                 'how': rng.choice(['joint', 'joint', 'method'])}
                for _ in range(rng.randint(1, 2))])
        faults = []
        if rng.random() < self.fault_p:
            faults = pick_faults(rng, g, chunk, roots=roots, n=(1, 3))
        if self.interrupts and rng.random() < 0.15:
            faults.append({'site': 'interrupt/0', 'exc': 'kbint',
                           'at': int(10 ** rng.uniform(0, 2.7))})
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': clients,
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g), 'faults': faults})

    def check(self, run):
        return self.hang(run)


class C06(C05):
    id = 'C06'
    interrupts = False
    rule = ('as C05; after the callers are done the simulation runs until no '
            'thread can take another step; non-trivial: at least 3 context '
            'switches')

    def check(self, run):
        msg = self.hang(run)
        if msg:
            return msg
        left = [b for b in run.sim.blocked_at_end if not b[2]]
        if left:
            return 'leaked worker: blocked for ever after every call ' \
                'ended: {}'.format(', '.join(run.where_blocked()))
        return None


class SaveRun(Run):
    def after_op(self, run, r):
        """The state of the target at the moment save returns."""
        if r.op['do'] == 'save' and r.op['target'] in self.targets:
            t = self.targets[r.op['target']]
            r.extra = (t.data.copy(), t.counts.copy(), len(t.writes))


def compare_target(run, i, data, masked):
    want = execute.ref_value(run.ref, i, masked)
    if not masked:
        data = np.ma.getdata(data)
    return expr.compare(data, want, masked, None, run.bounds.tol(i, masked))


class C07(Prop):
    id = 'C07'
    run_class = SaveRun
    rule = ('2-4 callers evaluate, save, build and inspect shared and private '
            'expressions through the default engine at once (mostly with '
            'preemption between source lines); non-trivial: calls of '
            'different callers overlapped in time')
    line = 0.7

    def scenario(self, rng):
        masked = rng.random() < 0.4
        g, out = grown(rng, masked, (1, 2), (2, 5), weights=SHARING,
                       max_elems=90)
        if rng.random() < 0.35:
            parts(rng, g)
        cands = expr_nodes(g)
        n = rng.choice([2, 2, 2, 3, 4])
        clients = []
        faults = []
        chunk = pick_chunk(rng, g, cap=25)
        private = None
        if rng.random() < 0.3:
            private = g.src()
            extra = [private] + [j for j in [g.unary(private),
                                             g.agg(private)]
                                 if j is not None]
            faults = [{'site': 'src/n{}'.format(private), 'exc': 'io',
                       'at': rng.randint(0, 3),
                       'sticky': rng.random() < 0.5}]
        for c in range(n):
            ops = []
            for _ in range(rng.randint(1, 2)):
                x = rng.random()
                k = rng.randint(1, 3)
                pool = cands[-4:] if rng.random() < 0.7 else cands
                args = [rng.choice(pool) for _ in range(k)]
                if x < 0.65:
                    ops.append({'do': 'eval', 'args': args,
                                'masked': masked,
                                'how': rng.choice(['joint', 'joint',
                                                   'method'])})
                elif x < 0.77:
                    ops.append({'do': 'save', 'node': args[0],
                                'masked': masked,
                                'target': 't{}{}'.format(c, len(ops))})
                elif x < 0.87:
                    ops.append({'do': 'meta', 'args': args})
                else:
                    ops.append({'do': 'build', 'args': args})
            if c == 0 and private is not None:
                ops.insert(rng.randint(0, len(ops)), {
                    'do': 'eval', 'args': [extra[-1]], 'masked': masked,
                    'how': rng.choice(['joint', 'method'])})
            clients.append(ops)
        scn = {'nodes': g.nodes, 'chunk': chunk, 'clients': clients,
               'sched': pick_sched(rng, self.line),
               'delay': pick_delay(rng, g, 0.3), 'faults': faults}
        if rng.random() < 0.7:
            scn['prebuild'] = sorted({i for ops in clients for op in ops
                                      for i in op_nodes(op)})
        return compact(scn)

    def specific(self, run):
        for r in run.history:
            if r.op['do'] == 'save' and r.status == 'ok':
                d = compare_target(run, r.op['node'], r.extra[0],
                                   bool(r.op.get('masked')))
                if d:
                    return 'wrong data saved: ' + d
        return None

    def may_fail(self, run, r):
        nodes = run.scn['nodes']
        for f in run.scn.get('faults', ()):
            i = int(f['site'].split('/n')[1])
            for a in op_nodes(r.op):
                if i in descend(nodes, a):
                    return True
        return False

    def nontrivial(self, run):
        rs = [r for r in run.history if r.op['do'] in ('eval', 'save')]
        for a in rs:
            for b in rs:
                if a.client < b.client and a.start < b.end and \
                        b.start < a.end:
                    return True
        return False


def clone_program(g, upto):
    """A copy of the first nodes with other source data: {old: new}."""
    new = {}
    n0 = len(g.nodes)
    for i in range(upto):
        node = g.nodes[i]
        p = dict(node[1])
        if node[0] == 'src':
            p['seed'] = p['seed'] + 1
        j = g.try_add([node[0], p] + [new[c] for c in node[2:]])
        if j is None:
            while len(g.nodes) > n0:
                g.drop_last()
            return {}
        new[i] = j
    return new


class C08(Prop):
    id = 'C08'
    rule = ('a session: evaluations that fail or whose caller is interrupted '
            'while waiting, then evaluations of the same and of related '
            'expressions without faults, repeatedly, with expressions dropped '
            'and identities reused in between; non-trivial: a fault fired '
            'or an identity was reused before a successful evaluation')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        reuse = rng.random() < 0.25
        g, out = grown(rng, masked, (1, 2), (1, 5), weights=SHARING,
                       max_elems=120)
        roots = [out[-1]] if rng.random() < 0.5 else joint_roots(rng, g, 1, 3)
        if not reuse and rng.random() < 0.6:
            c = add_custom(rng, g)
            if c is not None:
                roots = [c] + roots[1:]
        hows = ['joint', 'joint', 'method']
        if rng.random() < 0.25:
            j = parts(rng, g)
            if j is not None:
                roots = [j] + roots[:rng.randint(0, 1)]
                hows = ['joint', 'method', 'method']
        n0 = len(g.nodes)
        chunk = pick_chunk(rng, g, cap=40)

        def ev(args):
            return {'do': 'eval', 'args': list(args), 'masked': masked,
                    'how': rng.choice(hows)}
        ops = []
        faults = []
        if reuse:
            new = clone_program(g, n0)
            ops.append(ev(roots))
            if rng.random() < 0.3:
                ops.append(ev(roots))
            ops.append({'do': 'forget', 'nodes': list(range(n0))})
            ops.append(ev([new.get(i, i) for i in roots]))
            if rng.random() < 0.5:
                ops.append({'do': 'forget',
                            'nodes': list(range(len(g.nodes)))})
                ops.append(ev(roots))
        else:
            x = rng.random()
            if x < 0.7:
                faults = pick_faults(rng, g, chunk, roots=roots)
            if x > 0.5:
                faults.append({'site': 'interrupt/0', 'exc': 'kbint',
                               'at': int(10 ** rng.uniform(0, 2.5))})
            ops.append(ev(roots))
            if rng.random() < 0.4:
                ops.append(ev(roots))
            ops.append({'do': 'arm', 'on': False})
            for _ in range(rng.randint(1, 3)):
                x = rng.random()
                if x < 0.5:
                    ops.append(ev(roots))
                elif x < 0.8:
                    ops.append(ev([rng.choice(expr_nodes(g))]))
                elif x < 0.9:
                    ops.append({'do': 'forget', 'nodes': roots})
                    ops.append(ev(roots))
                else:
                    ops.append({'do': 'chunk',
                                'n': pick_chunk(rng, g, cap=40)})
                    ops.append(ev(roots))
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': [ops],
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.25), 'faults': faults})

    def nontrivial(self, run):
        return bool(run.world.fired) or run.ids.reused > 0


def buffers(a):
    if isinstance(a, np.ma.MaskedArray):
        out = [np.ma.getdata(a)]
        m = np.ma.getmask(a)
        if m is not np.ma.nomask:
            out.append(m)
        return out
    return [a]


class C09(Prop):
    id = 'C09'
    rule = ('expressions (sources themselves and repeats included) are '
            'evaluated, the caller overwrites results it received, and '
            'evaluates again; non-trivial: a result was overwritten or two '
            'results were compared for shared memory')

    class run_class(Run):
        def engine_owned(self, r):
            nodes = self.scn['nodes']
            if r.op['do'] != 'eval':
                return False
            return r.op.get('how') == 'joint' or \
                all(nodes[i][0] in COMPUTED for i in r.op['args'])

        def after_op(self, run, r):
            """Runs right after each operation of a client."""
            if r.status != 'ok' or not self.engine_owned(r):
                return
            mine = [(j, b) for j, v in enumerate(r.value)
                    for b in buffers(v)]
            for j, b in mine:
                if not b.flags.writeable:
                    self.notes.append('not the caller\'s own: result {} is '
                                      'read-only'.format(j))
                    return
                for i, (data, _, _) in self.pristine.items():
                    for s in buffers(data):
                        if np.shares_memory(b, s):
                            self.notes.append(
                                'not the caller\'s own: result {} shares '
                                'memory with source n{}'.format(j, i))
                            return
                if np.ma.masked is not None and np.shares_memory(
                        b, np.ma.getdata(np.ma.masked)):
                    self.notes.append('not the caller\'s own: result {} is '
                                      'numpy.ma.masked'.format(j))
                    return
            for j, b in mine:
                for other in self.history:
                    if other.status != 'ok' or not self.engine_owned(other):
                        continue
                    for k, v in enumerate(other.value):
                        if other is r and k <= j:
                            continue
                        for s in buffers(v):
                            if s is b or np.shares_memory(b, s):
                                self.notes.append(
                                    'not the caller\'s own: result {} shares '
                                    'memory with result {} of op {}'.format(
                                        j, k, other.index))
                                return

    def scenario(self, rng):
        masked = rng.random() < 0.55
        g, out = grown(rng, masked, (1, 2), (0, 5), odd='both',
                       weights=SHARING +
                       [('maskeq', 1), ('astype', 1), ('unary', 1)],
                       src_kinds=['mem', 'mem', 'file', 'ortho'],
                       max_elems=120, power=False) \
            if rng.random() < 0.85 else self.plain(rng, masked)
        ops = []
        for k in range(rng.randint(1, 3)):
            args = joint_roots(rng, g, 1, 4)
            how = 'joint' if rng.random() < 0.7 else 'method'
            if how == 'method':
                args = [i for i in args if g.nodes[i][0] in COMPUTED] or args
            ops.append({'do': 'eval', 'args': args,
                        'masked': masked if rng.random() < 0.8
                        else not masked, 'how': how})
            if ops[-1]['masked'] and any(isinstance(
                    g.ref.ma[i], expr.Unsupported) for i in args):
                ops[-1]['masked'] = False
            if rng.random() < 0.6 and (
                    how == 'joint' or
                    all(g.nodes[i][0] in COMPUTED for i in args)):
                op = {'do': 'scribble', 'of': len(ops) - 1}
                if rng.random() < 0.6:
                    op['only'] = rng.randrange(len(args))
                ops.append(op)
        args = joint_roots(rng, g, 1, 3)
        if not (masked and any(isinstance(g.ref.ma[i], expr.Unsupported)
                               for i in args)):
            ops.append({'do': 'eval', 'args': args, 'masked': masked,
                        'how': rng.choice(['joint', 'method'])})
        if rng.random() < 0.2:
            ops.insert(rng.randrange(len(ops)), {
                'do': 'save', 'node': rng.choice(expr_nodes(g)),
                'target': 't0'})
            for k, op in enumerate(ops):
                if op['do'] == 'scribble':
                    at = ops.index([o for o in ops if o['do'] == 'save'][0])
                    if at <= op['of']:
                        op['of'] += 1
        return compact({
            'nodes': g.nodes, 'chunk': pick_chunk(rng, g, cap=30),
            'clients': [ops], 'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.15)})

    def plain(self, rng, masked):
        g = gen_mod.Gen(rng, masked, max_elems=60, src_kinds=['mem'],
                        power=False,
                        mask_p=0.7)
        i = g.src()
        out = [i]
        for _ in range(2):
            j = rng.choice([g.index, g.transpose, g.astype, g.maskeq,
                            g.bcast])(rng.choice(out))
            if j is not None:
                out.append(j)
        return g, out

    def specific(self, run):
        if run.notes:
            return run.notes[0]
        for i, (data, copy, fill) in sorted(run.pristine.items()):
            if data.dtype != copy.dtype or data.shape != copy.shape:
                return 'source modified: n{} changed shape or dtype'.format(i)
            a, b = np.ma.getdata(data), np.ma.getdata(copy)
            if a.tobytes() != b.tobytes():
                return 'source modified: data of n{}: {} was {}'.format(
                    i, a.tolist(), b.tolist())
            if isinstance(data, np.ma.MaskedArray):
                if not np.array_equal(np.ma.getmaskarray(data),
                                      np.ma.getmaskarray(copy)):
                    return 'source modified: mask of n{}'.format(i)
                if np.asarray(data.fill_value).tobytes() != \
                        np.asarray(copy.fill_value).tobytes():
                    return 'source modified: fill value of n{}'.format(i)
        # Results the caller did not touch stay as they were returned.
        for r in run.history:
            if r.extra is None or r.status != 'ok':
                continue
            touched = {o.op.get('only', 'all') for o in run.history
                       if o.op['do'] == 'scribble' and o.op['of'] == r.index
                       and o.status == 'ok'}
            if 'all' in touched:
                continue
            masked = bool(r.op.get('masked'))
            for j, v in enumerate(r.value):
                if j in touched:
                    continue
                d = expr.compare(v, r.extra[j], masked)
                if d:
                    return 'not the caller\'s own: result {} of op {} ' \
                        'changed with another: {}'.format(j, r.index, d)
        return None

    def nontrivial(self, run):
        return any(r.op['do'] == 'scribble' for r in run.history) or \
            sum(len(r.op['args']) for r in run.history
                if r.op['do'] == 'eval') >= 2


class C10(Prop):
    id = 'C10'
    rule = ('1-2 callers index, combine, copy, inspect, save and evaluate a '
            'family of related expressions in random order, invalid requests '
            'and failing evaluations included; afterwards every expression '
            'is inspected and evaluated; non-trivial: at least 4 operations')
    line = 0.15

    class run_class(Run):
        def setup(self):
            Run.setup(self)
            self.meta = {}
            self.orig = {}
            get = self.builder._build

            def build(i):
                a = get(i)
                if self.scn['nodes'][i][0] not in expr.OPERANDS:
                    self.meta.setdefault(i, self.look(a))
                return a
            self.builder._build = build

        @staticmethod
        def look(a):
            return (tuple(a.shape), str(a.dtype), a.ndim, a.nbytes,
                    str(a.fill_value))

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (3, 7), odd='both', max_elems=120,
                       power=False)
        cands = expr_nodes(g)
        faults = []
        chunk = pick_chunk(rng, g, cap=30)

        def mode(nodes):
            # Mostly the same kind of evaluation.
            if rng.random() < 0.8:
                return masked
            return not masked and not any(isinstance(
                g.ref.ma[i], expr.Unsupported) for i in nodes)
        if rng.random() < 0.4:
            c = add_custom(rng, g)
            if c is not None:
                cands.append(c)
            faults = pick_faults(rng, g, chunk,
                                 kinds=('src', 'op', 'calc'))
        clients = []
        names = 0
        for c in range(1 if rng.random() < 0.75 else 2):
            ops = []
            mine = []
            for _ in range(rng.randint(3, 6)):
                x = rng.random()
                i = rng.choice(cands)
                if x < 0.35:
                    args = [rng.choice(cands)
                            for _ in range(rng.randint(1, 3))]
                    ops.append({'do': 'eval', 'args': args,
                                'masked': mode(args),
                                'how': rng.choice(['joint', 'method'])})
                elif x < 0.5:
                    ops.append({'do': 'build', 'args': [i]})
                elif x < 0.6:
                    ops.append({'do': 'meta', 'args': [i]})
                elif x < 0.7 and len(g.shape(i)):
                    n = g.shape(i)
                    k = rng.randrange(len(n))
                    keys = [expr.enc_key(slice(None))] * k + [
                        expr.enc_key(n[k] + rng.randint(0, 2))]
                    if rng.random() < 0.3:
                        keys = keys + [0] * (len(n) + 1)
                    ops.append({'do': 'badindex', 'node': i, 'keys': keys})
                elif x < 0.8:
                    name = 'c{}'.format(names)
                    names += 1
                    ops.append({'do': 'copy', 'node': i, 'name': name})
                    mine.append((name, i))
                elif x < 0.88 and mine:
                    name, j = rng.choice(mine)
                    ops.append({'do': 'evalcopy', 'name': name, 'node': j,
                                'masked': mode([j])})
                else:
                    ops.append({'do': 'save', 'node': i, 'masked': masked,
                                'target': 't{}{}'.format(c, len(ops))})
            clients.append(ops)
        tail = [{'do': 'arm', 'on': False}]
        for _ in range(rng.choice([1, 1, 2])):
            args = sorted(set(rng.choice(cands) for _ in range(4)))
            tail.append({'do': 'eval', 'args': args, 'masked': mode(args),
                         'how': rng.choice(['joint', 'method'])})
        if rng.random() < 0.4:
            # The same expressions with masks, without and with again.
            for i in rng.sample(cands, min(4, len(cands))):
                first = rng.random() < 0.5
                for flag in (first, not first, first):
                    if not flag or masked or not isinstance(
                            g.ref.ma[i], expr.Unsupported):
                        tail.append({'do': 'eval', 'args': [i],
                                     'masked': flag,
                                     'how': rng.choice(['joint', 'method',
                                                        'method'])})
        clients[0] = clients[0] + tail
        scn = {'nodes': g.nodes, 'chunk': chunk, 'clients': clients,
               'sched': pick_sched(rng, self.line),
               'delay': {}, 'faults': faults}
        if rng.random() < 0.4:
            scn['prebuild'] = sorted(set(rng.choice(cands)
                                         for _ in range(3)))
        return compact(scn)

    def must_fail(self, run, r):
        return Prop.must_fail(self, run, r)

    def may_fail(self, run, r):
        if len(run.scn['clients']) > 1 and run.scn.get('faults'):
            return True
        return r.fired > 0

    def op_result(self, run, r):
        if r.op['do'] == 'badindex':
            if r.status == 'ok' and r.value is None:
                return None       # N04: not the business of this property
            return None if r.status == 'ok' else Prop.op_result(self, run, r)
        if r.op['do'] == 'evalcopy' and r.status == 'raised' and \
                isinstance(r.exc, KeyError) and r.op['name'] in str(r.exc):
            return None           # the copy was never made (dropped op)
        return Prop.op_result(self, run, r)

    def specific(self, run):
        for i, was in sorted(run.meta.items()):
            now = run.run_look = run.look(run.builder.built[i])
            if now != was:
                return 'expression changed: node {} was {} and is ' \
                    '{}'.format(i, was, now)
            if now[0] != run.ref.shape[i]:
                return 'expression changed: node {} has shape {}'.format(
                    i, now[0])
        return None

    def nontrivial(self, run):
        return sum(len(c) for c in run.scn['clients']) >= 5


class C11(Prop):
    id = 'C11'
    rule = ('an expression is built in steps with inspections in between (no '
            'source may be read), restricted by integers and slices, and '
            'evaluated (no source element outside the selection may be '
            'read); non-trivial: the selection leaves some element of a '
            'source out')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        while True:
            g, out = grown(rng, masked, (1, 2), (1, 5), tuples=False, empty=0,
                           bools=False,
                           max_elems=120,
                           mask_kinds=['none', 'few', 'rand', 'lead'])
            i = out[-1]
            ok = None
            for _ in range(rng.randint(1, 3)):
                j = g.index(i)
                if j is not None:
                    ok = i = j
            if ok is not None:
                if rng.random() < 0.4:
                    j = rng.choice([g.unary, g.agg, g.binary])(ok)
                    ok = ok if j is None else j
                break
        root = ok
        ops = []
        for i in sorted(descend(g.nodes, root)):
            if g.nodes[i][0] not in expr.OPERANDS and \
                    rng.random() < 0.3:
                ops.append({'do': rng.choice(['build', 'meta']),
                            'args': [i]})
        if rng.random() < 0.3:
            ops.append({'do': 'copy', 'node': root, 'name': 'c'})
        ops.append({'do': 'meta', 'args': [root]})
        ops.append({'do': 'eval', 'args': [root], 'masked': masked,
                    'how': rng.choice(['joint', 'method', 'method'])})
        return compact({
            'nodes': g.nodes, 'chunk': pick_chunk(rng, g, cap=40),
            'clients': [ops], 'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.15)})

    def domain(self, scn):
        for node in scn['nodes']:
            if node[0] == 'index' and any(isinstance(k, dict) and 's' not in k
                                          for k in node[1]['keys']):
                return False
        return True

    def specific(self, run):
        tags = {r.tag: r for r in run.history}
        for rd in run.world.reads:
            r = tags.get(rd[4])
            if r is None or r.op['do'] != 'eval':
                return 'not lazy: {} reads {} elements of {}'.format(
                    None if r is None else r.op['do'], rd[3], rd[2])
        deps = Deps(run.scn['nodes'])
        need = {}
        for r in run.history:
            if r.op['do'] == 'eval':
                for i in r.op['args']:
                    for s, m in deps.needed(i).items():
                        need[s] = m if s not in need else need[s] | m
        run.left_out = any(not m.all() for m in need.values())
        for s, src in sorted(run.sources.items()):
            if s not in need:
                continue
            extra = (src.counts > 0) & ~need[s]
            if extra.any():
                return 'reads too much: element {} of source n{} is not ' \
                    'needed'.format([int(a[0]) for a in
                                     np.nonzero(np.atleast_1d(extra))], s)
        return None

    def nontrivial(self, run):
        return getattr(run, 'left_out', False)


class Streams(object):
    """Programs whose sources are traversed once, all in the same order."""

    def make(self, rng, masked, n_src, shape, agg_p=0.5, slow_op=False,
             views=False, post=True):
        g = gen_mod.Gen(rng, masked, max_elems=400, empty=0,
                        dtypes=['f8', 'f4', 'i4', 'i8'])
        srcs = [g.src(shape) for _ in range(n_src)]
        level = list(srcs)
        agg_axis = rng.randrange(len(shape)) if shape else None

        def pair(a, b):
            return g.try_add(['elem', {'op': rng.choice(
                ['add', 'subtract', 'maximum', 'minimum', 'multiply'])},
                a, b])
        # Join all the sources into one connected graph.
        joined = level[0]
        for s in level[1:]:
            x = s
            if rng.random() < 0.3:
                x = g.try_add(['elem', {'op': 'negative'}, s])
            if x is None:
                x = s
            j = pair(*((joined, x) if rng.random() < 0.5 else (x, joined)))
            if j is None:
                return None
            joined = j
        level = srcs + [joined]
        for _ in range(rng.randint(0, 3)):
            x = rng.random()
            a = rng.choice(level)
            if x < 0.4:
                j = g.unary(a)
            elif x < 0.6:
                j = g.try_add(['oper', {'op': rng.choice('+-*'),
                                        'swap': rng.random() < .5}, a,
                               g.scalar()])
            else:
                j = pair(a, rng.choice(level))
            if j is not None:
                level.append(j)
        return g, srcs, joined, level, agg_axis


class C12(Prop, Streams):
    id = 'C12'
    rule = ('(a) expressions over every kind of view, evaluated with a limit: '
            'no read may exceed it; (b) 40-120 chunk streams in which one '
            'source or one operator is slow: no other source may get ahead of '
            'it by more than 8 chunks per edge of the graph; non-trivial: '
            'at least 10 reads')

    PER_EDGE = 8

    def scenario(self, rng):
        masked = rng.random() < 0.5
        if rng.random() < 0.5:
            return self.bounded(rng, masked)
        return self.ahead(rng, masked)

    def bounded(self, rng, masked):
        while True:
            g, out = grown(rng, masked, (1, 2), (1, 5), tuples=False, empty=0,
                           bools=False)
            roots = [i for i in out if g.nodes[i][0] in COMPUTED]
            if roots:
                break
        root = roots[-1]
        ops = [{'do': 'eval', 'args': [root], 'masked': masked,
                'how': rng.choice(['joint', 'method'])}]
        return compact({
            'nodes': g.nodes, 'mode': 'bounded',
            'chunk': pick_chunk(rng, g, nodes=descend(g.nodes, root)),
            'clients': [ops], 'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.2)})

    def ahead(self, rng, masked):
        while True:
            n = rng.randint(40, 120)
            shape = rng.choice([[n], [n], [n, 2], [2, n // 2],
                                [n // 2, 3]])
            made = self.make(rng, masked, rng.choice([1, 2, 2, 3]), shape)
            if made is None:
                continue
            g, srcs, joined, level, axis = made
            roots = [joined] if joined not in srcs else []
            slow = None
            if len(srcs) == 1 or rng.random() < 0.4:
                if g.dtype(joined).kind == 'b':
                    continue
                slow = g.try_add(['elem', {'op': 'custom1'}, joined])
                if slow is None:
                    continue
                roots = [slow]
                level.append(slow)
            for _ in range(rng.randint(0, 2)):
                roots.append(rng.choice(level))
            if rng.random() < 0.5 and len(shape) == 2:
                j = g.agg(rng.choice(roots), axis=1)
                if j is not None:
                    roots.append(j)
            elif rng.random() < 0.4 and len(shape) == 1:
                j = g.agg(rng.choice(roots), axis=0)
                if j is not None:
                    roots.append(j)
            break
        site = 'op/{}'.format(slow) if slow is not None else \
            'src/n{}'.format(rng.choice(srcs))
        limit = rng.choice([1, 1, 2, shape[-1]]) if len(shape) == 2 \
            else rng.choice([1, 1, 2])
        delay = {site: [10.0 ** rng.uniform(-2, 2)]}
        if rng.random() < 0.5:
            delay[site] = [0] * rng.randint(1, 20) + [1e4]
        scn = {
            'nodes': g.nodes, 'mode': 'ahead', 'chunk': limit,
            'clients': [[{'do': 'eval', 'args': roots, 'masked': masked,
                          'how': 'joint'}]],
            'sched': pick_sched(rng, 0), 'delay': delay}
        if rng.random() < 0.15:
            scn['watch'] = rng.randint(40, 100)
        return compact(scn)

    def domain(self, scn):
        if scn['mode'] == 'bounded':
            return True
        nodes = scn['nodes']
        if not scn.get('delay'):
            return False
        if len({tuple(n[1]['shape']) for n in nodes if n[0] == 'src'}) > 1:
            return False
        return consistent(nodes, [i for c in scn['clients'] for op in c
                                  for i in op.get('args', ())], True)

    def specific(self, run):
        scn = run.scn
        limit = scn['chunk']
        for rd in run.world.reads:
            if rd[3] > limit:
                return 'unbounded read: {} elements of {} in one read ' \
                    '(limit {})'.format(rd[3], rd[2], limit)
        if scn['mode'] != 'ahead':
            return None
        nodes = scn['nodes']
        edges = sum(len(n[2:]) for n in nodes) + sum(
            len(op.get('args', ())) for c in scn['clients'] for op in c)
        bound = self.PER_EDGE * edges
        events = sorted([(rd[0], 0, rd[2]) for rd in run.world.reads] +
                        [(step, 1, site) for step, site
                         in run.world.opcalls])
        counts = {'n{}'.format(i): 0 for i, n in enumerate(nodes)
                  if n[0] == 'src'}
        for i, n in enumerate(nodes):
            if n[0] == 'elem' and n[1]['op'].startswith('custom'):
                counts['op/{}'.format(i)] = 0
        worst = 0
        for _, _, name in events:
            counts[name] += 1
            gap = max(counts.values()) - min(counts.values())
            worst = max(worst, gap)
        run.world.fired['gap {}'.format(worst // 4 * 4)] = 1
        held = run.world.held
        if held is not None:
            run.world.fired['held {}'.format(held // 4 * 4)] = 1
            if held > bound:
                return 'memory grows: {} of the {} chunks handed out so far ' \
                    'are still held (bound {} for {} edges)'.format(
                        held, scn['watch'], bound, edges)
        if worst > bound:
            return 'read ahead: {} chunks ahead of the slowest part ' \
                '(bound {} for {} edges)'.format(worst, bound, edges)
        return None

    def nontrivial(self, run):
        return len(run.world.reads) >= 10


def consistent(nodes, roots, agg_any=False):
    """
    Whether a program consists only of elementwise operations on sources of
    one shape, and statistics over one axis of them.
    """
    shapes = {}
    axis = None
    orders = set()
    for i, n in enumerate(nodes):
        kind, p, ch = n[0], n[1], n[2:]
        if kind == 'src':
            shapes[i] = (tuple(p['shape']), 0)
        elif kind == 'scalar':
            shapes[i] = None
        elif kind in ('elem', 'oper'):
            ss = {shapes[c] for c in ch if shapes[c] is not None}
            if len(ss) != 1:
                return False
            shapes[i] = ss.pop()
        elif kind == 'agg':
            s, level = shapes[ch[0]]
            a = p['axis'] % len(s)
            if level or (axis is not None and axis != a):
                return False
            axis = a
            shapes[i] = (s[:a] + s[a + 1:], 1)
        else:
            return False
    if len({n[1]['shape'].__repr__() for n in nodes if n[0] == 'src'}) > 1:
        return False
    for r in roots:
        orders.add(shapes[r][1])
    if len(orders) > 1 and axis is not None:
        # Plain elements and statistics are traversed alike only when the
        # aggregated axis varies fastest anyway.
        s = next(shapes[i][0] for i, n in enumerate(nodes)
                 if n[0] == 'src')
        if axis != len(s) - 1 and not agg_any:
            return False
    return True


class C13(Prop, Streams):
    id = 'C13'
    rule = ('elementwise operations on shared sources of one shape, and '
            'statistics over one axis of them, 1-5 in one call; every '
            'source element must be read exactly once; non-trivial: some '
            'source is used more than once')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        while True:
            g0 = gen_mod.Gen(rng, masked, ndims=[1, 2, 2, 3], empty=0)
            shape = g0.rand_shape()
            made = self.make(rng, masked, rng.choice([1, 1, 2, 3]), shape)
            if made is None:
                continue
            g, srcs, joined, level, axis = made
            mode = rng.random()
            big = rng.randint(15, 40) if rng.random() < 0.04 else 0
            roots = []
            for _ in range(big):
                # Many workers.
                j = g.unary(rng.choice(level)) if rng.random() < 0.4 else \
                    g.try_add(['elem', {'op': rng.choice(
                        ['add', 'subtract', 'maximum'])},
                        rng.choice(level), rng.choice(level)])
                if j is not None:
                    level.append(j)
            if mode < 0.4:
                for _ in range(big or rng.randint(1, 5)):
                    roots.append(rng.choice(level))
            else:
                aggs = []
                for _ in range(big or rng.randint(1, 4)):
                    j = g.agg(rng.choice(level), axis=axis)
                    if j is not None:
                        aggs.append(j)
                if not aggs:
                    continue
                for _ in range(rng.randint(0, 2)):
                    a = rng.choice(aggs)
                    x = rng.random()
                    if x < 0.4:
                        j = g.unary(a)
                    else:
                        j = g.try_add(['elem', {'op': rng.choice(
                            ['add', 'subtract', 'maximum'])}, a,
                            rng.choice(aggs)])
                    if j is not None:
                        aggs.append(j)
                for _ in range(big or rng.randint(1, 4)):
                    roots.append(rng.choice(aggs))
                if axis == len(shape) - 1 and rng.random() < 0.4:
                    roots.append(rng.choice(level))
            break
        scn = compact({
            'nodes': g.nodes, 'chunk': pick_chunk(rng, g, 8 if big else 70),
            'clients': [[{'do': 'eval', 'args': roots, 'masked': masked,
                          'how': 'joint'}]],
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g)})
        return scn

    def domain(self, scn):
        return consistent(scn['nodes'], [
            i for c in scn['clients'] for op in c
            for i in op.get('args', ())])

    def specific(self, run):
        n = sum(1 for r in run.history if r.op['do'] == 'eval')
        for i, src in sorted(run.sources.items()):
            c = src.counts
            if c.size and (c.max() != n or c.min() != n):
                return 'not read once: elements of source n{} are read {} ' \
                    'to {} times'.format(i, int(c.min()), int(c.max()))
        return None

    def nontrivial(self, run):
        nodes = run.scn['nodes']
        use = {}
        roots = [i for op in run.scn['clients'][0]
                 for i in op.get('args', ())]
        for n in nodes:
            for c in n[2:]:
                use[c] = use.get(c, 0) + 1
        for r in roots:
            use[r] = use.get(r, 0) + 1
        return any(use.get(i, 0) > 1 for i, n in enumerate(nodes)
                   if n[0] in ('src', 'elem', 'oper'))


class C14(Prop):
    id = 'C14'
    run_class = SaveRun
    rule = ('an expression is saved to a logged target (by 1-2 callers); at '
            'the moment save returns every element has been written exactly '
            'once, correctly, in writes within the limit; non-trivial: at '
            'least 2 writes')

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (0, 5)) \
            if rng.random() < 0.9 else self.single(rng, masked)
        root = out[-1]
        sub = descend(g.nodes, root)
        chunk = pick_chunk(rng, g, nodes=sub, cap=30)
        clients = []
        for c in range(1 if rng.random() < 0.85 else 2):
            ops = [{'do': 'save', 'node': root, 'masked': masked,
                    'target': 't{}'.format(c)}]
            if rng.random() < 0.25:
                ops.append({'do': 'chunk', 'n': pick_chunk(
                    rng, g, nodes=sub, cap=30)} if c == 0 and
                    len(clients) == 0 and False else
                    {'do': 'sleep', 't': 1.0})
                ops.append({'do': 'save', 'node': rng.choice(out),
                            'masked': masked, 'target': 'u{}'.format(c)})
            clients.append(ops)
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': clients,
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.3, ['tgt/t0', 'tgt/t1'])})

    def single(self, rng, masked):
        g = gen_mod.Gen(rng, masked)
        return g, [g.src()]

    def specific(self, run):
        limit = run.scn['chunk']
        for r in run.history:
            if r.op['do'] != 'save' or r.status != 'ok':
                continue
            i = r.op['node']
            masked = bool(r.op.get('masked'))
            data, counts, n = r.extra
            if counts.size and (counts.min() != 1 or counts.max() != 1):
                return 'not written once: elements were written {} to {} ' \
                    'times when save returned'.format(int(counts.min()),
                                                      int(counts.max()))
            d = compare_target(run, i, data, masked)
            if d:
                return 'wrong data saved: ' + d
            t = run.targets[r.op['target']]
            if len(t.writes) != n:
                return 'late write: {} writes after save returned'.format(
                    len(t.writes) - n)
            for _, _, k in t.writes:
                if k > limit:
                    return 'unbounded write: {} elements in one write ' \
                        '(limit {})'.format(k, limit)
        return None

    def nontrivial(self, run):
        return sum(len(t.writes) for t in run.targets.values()) >= 2


class C15(Prop):
    id = 'C15'
    run_class = SaveRun
    rule = ('a save during which reads, operators, allocations, thread '
            'starts or writes (before, after or in the middle of storing) '
            'fail or the process dies, then a repeated save; non-trivial: a '
            'fault fired during the first save')

    def scenario(self, rng):
        masked = rng.random() < 0.4
        g, out = grown(rng, masked, (1, 2), (1, 4), max_elems=100)
        root = out[-1]
        if rng.random() < 0.4:
            c = add_custom(rng, g)
            root = root if c is None else c
        sub = descend(g.nodes, root)
        chunk = pick_chunk(rng, g, nodes=sub, cap=20)
        faults = []
        m = n_chunks(g.ref.shape[root], chunk)
        if rng.random() < 0.6:
            f = {'site': 'tgt/t0', 'at': rng.randint(0, m),
                 'exc': rng.choice(['io', 'io', 'crash', 'mem']),
                 'how': rng.choice(['before', 'after', 'torn', 'torn'])}
            if f['how'] == 'torn':
                f['part'] = rng.choice([0, 0.2, 0.5, 0.8, 1.0])
            faults.append(f)
        if not faults or rng.random() < 0.3:
            fs = pick_faults(rng, g, chunk, roots=[root], n=(1, 1))
            for f in fs:
                if f['site'].startswith('src') and rng.random() < 0.3:
                    f['exc'] = 'crash'
            faults += fs
        if rng.random() < 0.1:
            faults.append({'site': 'interrupt/0', 'exc': 'kbint',
                           'at': int(10 ** rng.uniform(0, 2.5))})
        ops = [{'do': 'save', 'node': root, 'masked': masked,
                'target': 't0'}]
        if rng.random() < 0.3:
            ops.append(dict(ops[0]))
        ops.append({'do': 'arm', 'on': False})
        if rng.random() < 0.4:
            ops.append({'do': 'chunk',
                        'n': pick_chunk(rng, g, nodes=sub, cap=20)})
        ops.append(dict(ops[0]))
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': [ops],
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.2, ['tgt/t0']), 'faults': faults})

    def op_result(self, run, r):
        if r.op['do'] == 'save' and r.status == 'ok' and r.fired:
            return 'failure hidden: {} during a save which returned ' \
                'normally'.format(', '.join(run.world.fired_in.get(r.tag, ())))
        return Prop.op_result(self, run, r)

    def specific(self, run):
        for r in run.history:
            if r.op['do'] != 'save' or r.extra is None:
                continue
            i = r.op['node']
            masked = bool(r.op.get('masked'))
            data = r.extra[0]
            if r.status == 'ok':
                d = compare_target(run, i, data, masked)
                if d:
                    return 'wrong data saved: ' + d
                continue
            t = run.targets[r.op['target']]
            want = execute.ref_value(run.ref, i, masked)
            old = t.prev
            tol = np.broadcast_to(np.asarray(run.bounds.tol(i, masked)),
                                  data.shape)
            bad = ~(same(data, want, tol, masked) |
                    same(data, old, 0, masked))
            if bad.any():
                return 'wrong data after a failed save: {} where it should ' \
                    'be {} (or as before)'.format(
                        expr.describe(data), expr.describe(want))
        return None

    def nontrivial(self, run):
        return any(r.fired for r in run.history if r.op['do'] == 'save')


def same(a, b, tol, masked):
    """Element by element equality of target contents."""
    da, db = np.ma.getdata(a), np.ma.getdata(b)
    with np.errstate(all='ignore'):
        eq = (da == db)
        if db.dtype.kind in 'fc' and da.dtype.kind in 'fc':
            eq = eq | (np.abs(da - db) <= tol) | (np.isnan(da) & np.isnan(db))
    if masked:
        ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        eq = (ma == mb) & (ma | eq)
    return np.asarray(eq)


class C16(Prop):
    id = 'C16'
    rule = ('1-4 expressions evaluated with the Dask engine on a simulated '
            'scheduler: 1-3 workers, tasks run in random, first-in, last-in '
            'or random-priority order; non-trivial: at least 4 tasks were '
            'executed')
    line = 0.05

    def scenario(self, rng):
        masked = rng.random() < 0.5
        if rng.random() < 0.01:
            return self.many(rng, masked)
        g, out = grown(rng, masked, (1, 2), (1, 4), max_elems=70,
                       weights=gen_mod.Gen.WEIGHTS + [('agg', 2),
                                                      ('binary', 2)])
        roots = [out[-1]] if rng.random() < 0.6 else \
            joint_roots(rng, g, 2, 4)
        if rng.random() < 0.015:
            g, roots = wide(rng, masked)
            roots = roots[:20]
        chunk = pick_chunk(rng, g, cap=24 if len(roots) < 8 else 3)
        ops = [{'do': 'eval', 'args': roots, 'masked': masked,
                'engine': 'dask'}]
        x = rng.random()
        if x < 0.2:
            ops.append({'do': 'eval', 'args': roots[::-1], 'masked': masked,
                        'engine': 'dask'})
        elif x < 0.3:
            # The same identities, other data.
            n0 = len(g.nodes)
            new = clone_program(g, n0)
            ops.append({'do': 'forget', 'nodes': list(range(n0))})
            ops.append({'do': 'eval', 'args': [new.get(i, i) for i in roots],
                        'masked': masked, 'engine': 'dask'})
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': [ops],
            'dask': {'seed': rng.randrange(2 ** 31),
                     'workers': rng.choice([1, 1, 2, 3]),
                     'order': rng.choice(['random', 'random', 'fifo', 'lifo',
                                          'prio', 'prio'])},
            'sched': pick_sched(rng, self.line),
            'delay': pick_delay(rng, g, 0.2)})

    def many(self, rng, masked):
        """Hundreds of chunks in one dimension."""
        while True:
            g = gen_mod.Gen(rng, masked, max_elems=700, empty=0)
            shape = [rng.randint(130, 320)]
            if rng.random() < 0.4:
                shape.insert(rng.randint(0, 1), rng.randint(1, 2))
            i = g.src(shape)
            if rng.random() < 0.5:
                i = g.unary(i)
            else:
                i = g.try_add(['elem', {'op': 'add'}, i, g.src(shape)])
            if i is not None and rng.random() < 0.4:
                i = g.agg(i)
            if i is not None:
                break
        return compact({
            'nodes': g.nodes,
            'chunk': rng.choice([1, 1, 2]),
            'clients': [[{'do': 'eval', 'args': [i], 'masked': masked,
                          'engine': 'dask'}]],
            'dask': {'seed': rng.randrange(2 ** 31),
                     'workers': rng.choice([1, 2]),
                     'order': rng.choice(['random', 'fifo', 'lifo',
                                          'prio'])},
            'sched': pick_sched(rng), 'delay': {}})

    def nontrivial(self, run):
        return sum(c.executed for c in run.clusters.values()) >= 4


class C17(Prop):
    id = 'C17'
    rule = ('as C16, with lost workers (their results are lost and computed '
            'again), tasks run twice, failing reads with and without task '
            'retries, and whole graphs computed again; non-trivial: some '
            'task was executed more than once')
    line = 0.25

    class run_class(Run):
        custom_ops = {
            'recompute': lambda run, rec, op: run.recompute(rec, op),
            'spoil': lambda run, rec, op: run.spoil(rec, op)}

        def results(self):
            for r in self.history:
                if r.status == 'ok' and r.value and \
                        r.op['do'] in ('eval', 'recompute'):
                    yield r, (r.value if r.op['do'] == 'eval'
                              else r.value[1])

        def spoil(self, rec, op):
            """The caller changes the results it got so far."""
            for r, vals in list(self.results()):
                if r.extra is None:
                    r.extra = [v.copy() for v in vals]
                for v in vals:
                    execute.scribble(v)

        def recompute(self, rec, op):
            cl = self.clusters.get('dask')
            if cl is None or not cl.calls:
                return None
            k = op['which'] % len(cl.calls)
            dsk, keys, owner = cl.calls[k]
            return owner, list(cl.compute(dsk, keys))

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (1, 4), max_elems=60,
                       weights=gen_mod.Gen.WEIGHTS + [('agg', 4),
                                                      ('binary', 2)])
        if rng.random() < 0.2:
            c = add_custom(rng, g)
            if c is not None:
                out.append(c)
        roots = [out[-1]] if rng.random() < 0.6 else \
            joint_roots(rng, g, 2, 3)
        chunk = pick_chunk(rng, g, cap=20)
        cfg = {'seed': rng.randrange(2 ** 31),
               'workers': rng.choice([1, 2, 2, 3]),
               'order': rng.choice(['random', 'fifo', 'lifo', 'prio'])}
        if rng.random() < 0.6:
            cfg['crash'] = sorted({rng.randrange(12)
                                   for _ in range(rng.randint(1, 4))})
        if rng.random() < 0.5:
            cfg['dup'] = rng.choice([0.1, 0.3, 0.7])
        faults = []
        if rng.random() < 0.35:
            faults = pick_faults(rng, g, chunk, n=(1, 2),
                                 kinds=('src', 'op', 'calc'),
                                 roots=roots)
            for f in faults:
                f.pop('sticky', None)
                if f['exc'] == 'sysexit':
                    f['exc'] = 'io'
            if rng.random() < 0.6:
                cfg['retries'] = rng.randint(1, 3)
        ops = [{'do': 'eval', 'args': roots, 'masked': masked,
                'engine': 'dask'}]
        for _ in range(rng.randint(0, 2)):
            x = rng.random()
            if x < 0.7:
                if x < 0.3:
                    ops.append({'do': 'spoil'})
                ops.append({'do': 'recompute', 'which': 0})
            else:
                ops.append(dict(ops[0]))
        if faults:
            ops.append({'do': 'arm', 'on': False})
            ops.append(dict(ops[0]) if rng.random() < 0.6 else
                       {'do': 'recompute', 'which': rng.randrange(3)})
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': [ops], 'dask': cfg,
            'sched': pick_sched(rng, self.line), 'faults': faults,
            'delay': pick_delay(rng, g, 0.15)})

    def may_fail(self, run, r):
        # A fault which was retried must not fail the evaluation.
        cl = run.clusters.get('dask')
        # (Operators are also tried out while the graph is made.)
        return r.fired > 0 and (cl is None or r.tag in cl.gave_up or
                                r.tag not in [c[2] for c in cl.calls])

    def op_result(self, run, r):
        if r.status == 'ok' and r.op['do'] in ('eval', 'recompute'):
            cl = run.clusters.get('dask')
            if cl is not None and r.tag in cl.gave_up:
                return 'failure hidden: a task failed for good but the ' \
                    'call returned'
        if r.status == 'ok' and r.op['do'] == 'recompute' and r.value:
            owner, vals = r.value
            if r.extra is not None:
                vals = r.extra
            orig = next(x for x in run.history if x.tag == owner)
            masked = bool(orig.op.get('masked'))
            for j, (i, got) in enumerate(zip(orig.op['args'], vals)):
                want = execute.ref_value(run.ref, i, masked)
                d = expr.compare(got, want, masked,
                                 run.ref.dtype[i], run.bounds.tol(i, masked))
                if d:
                    return 'wrong result: of a graph computed again: ' + d
            return None
        return Prop.op_result(self, run, r)

    def specific(self, run):
        for r, vals in run.results():
            for v in vals if r.extra is not None else ():
                want = v.copy()
                execute.scribble(want)
                if expr.compare(v, want, bool(r.op.get('masked'))
                                if r.op['do'] == 'eval' else
                                isinstance(v, np.ma.MaskedArray)):
                    return 'result changed: computing the graph again wrote ' \
                        'to a result the caller had already'
        return None

    def nontrivial(self, run):
        return any(c.reexecuted or len(c.runs) > 1
                   for c in run.clusters.values())


class C18(Prop):
    id = 'C18'
    rule = ('a session in which the installed engine is replaced between (or '
            'during) building and evaluating: default, a new threaded '
            'engine, Dask on the simulated scheduler, a counting engine '
            'which may fail at its n-th call, an engine which always '
            'refuses; non-trivial: an evaluation ran on an engine other '
            'than the default')

    class run_class(Run):
        def setup(self):
            Run.setup(self)
            self.default_calls = []
            self.installed = {}
            eng = execute.DEFAULT_ENGINE

            def wrap(name):
                orig = getattr(type(eng), name)

                def call(*arrays):
                    t = self.sim.running
                    self.default_calls.append(None if t is None else t.tag)
                    return orig(eng, *arrays)
                return call
            for name in ('ndarrays', 'masked_arrays'):
                eng.__dict__[name] = wrap(name)

        def teardown(self):
            for name in ('ndarrays', 'masked_arrays'):
                execute.DEFAULT_ENGINE.__dict__.pop(name, None)

        def do(self, rec, op):
            if op['do'] in ('eval', 'save'):
                # (several clients: whatever is installed at the start)
                rec.engine_name = self.which_engine()
            return Run.do(self, rec, op)

        def which_engine(self):
            for name, e in self.engines.items():
                if e is execute.biggus.engine:
                    return name
            return 'default'

    ENGINES = ['default', 'threaded', 'dask', 'spy', 'spy', 'fail']

    def scenario(self, rng):
        masked = rng.random() < 0.5
        g, out = grown(rng, masked, (1, 2), (1, 5), max_elems=70)
        roots = [out[-1]] if rng.random() < 0.6 else \
            joint_roots(rng, g, 2, 3)
        chunk = pick_chunk(rng, g, cap=20)
        concurrent = rng.random() < 0.15
        ops = []
        faults = []
        if rng.random() < 0.5:
            ops.append({'do': 'build', 'args': roots})
        for k in range(rng.randint(1, 3)):
            ops.append({'do': 'engine', 'which': rng.choice(
                self.ENGINES[:3] if concurrent else self.ENGINES)})
            x = rng.random()
            if x < 0.8:
                ops.append({'do': 'eval', 'args': roots, 'masked': masked,
                            'how': rng.choice(['joint', 'method'])})
            else:
                ops.append({'do': 'save', 'node': roots[0],
                            'masked': masked, 'target': 't{}'.format(k)})
        clients = [ops]
        if concurrent:
            clients.append([{'do': 'eval', 'args': roots, 'masked': masked,
                             'how': rng.choice(['joint', 'method'])}
                            for _ in range(2)])
        elif rng.random() < 0.3:
            faults = [{'site': 'engine', 'at': rng.randint(0, 4),
                       'exc': 'io'}]
        return compact({
            'nodes': g.nodes, 'chunk': chunk, 'clients': clients,
            'dask': {'seed': rng.randrange(2 ** 31), 'workers': 1,
                     'order': rng.choice(['random', 'fifo', 'lifo'])},
            'sched': pick_sched(rng, self.line), 'faults': faults,
            'delay': pick_delay(rng, g, 0.2)})

    def op_result(self, run, r):
        if r.op['do'] not in ('eval', 'save') or \
                len(run.scn['clients']) > 1:
            return Prop.op_result(self, run, r)
        which = (r.engine_name or 'default')
        roots = r.op['args'] if r.op['do'] == 'eval' else [r.op['node']]
        if getattr(run, 'deps', None) is None:
            run.deps = Deps(run.scn['nodes'])
        need = any(run.deps.computed(i) for i in roots) or \
            r.op.get('how') == 'joint'
        if which == 'fail':
            if r.status == 'ok' and need:
                return 'engine ignored: the installed engine refuses, but ' \
                    'the evaluation succeeded'
            if r.status == 'raised':
                if not isinstance(r.exc, SimEngineError):
                    return 'engine error lost: {}: {}'.format(
                        type(r.exc).__name__, r.exc)
                return None
        elif which != 'default' and r.tag in run.default_calls:
            return 'engine ignored: the default engine was called while ' \
                '{} was installed'.format(which)
        if which == 'spy' and need and \
                r.tag not in run.spies['spy'].calls:
            return 'engine ignored: the installed engine was not called'
        if which == 'spy' and r.fired and r.status == 'ok':
            return 'failure hidden: the engine failed but the call returned'
        return Prop.op_result(self, run, r)

    def specific(self, run):
        for r in run.history:
            if r.op['do'] == 'save' and r.status == 'ok':
                t = run.targets[r.op['target']]
                d = compare_target(run, r.op['node'], t.data,
                                   bool(r.op.get('masked')))
                if d:
                    return 'wrong data saved: ' + d
        return None

    def nontrivial(self, run):
        return any((r.engine_name or 'default') != 'default'
                   for r in run.history)


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10,
                             C11, C12, C13, C14, C15, C16, C17, C18)}
