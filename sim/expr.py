"""
Expression programs: a JSON-able description of a DAG of lazy arrays, how to
build it with biggus, and an eager NumPy reference evaluation.

A node is a list  [kind, params, child, child, ...]  whose children are
indices of earlier nodes.  The reference value of a node is a pair
(nd, ma): what `ndarray()` and what `masked_array()` should return, computed
by applying NumPy operations eagerly to the complete data.
"""
import functools
import warnings

import numpy as np

# -- keys -------------------------------------------------------------------


def enc_key(key):
    if key is None:
        return 'n'
    if key is Ellipsis:
        return 'e'
    if isinstance(key, slice):
        return {'s': [key.start, key.stop, key.step]}
    if isinstance(key, tuple):
        return {'t': [int(k) for k in key]}
    if isinstance(key, np.ndarray):
        return {'b': [bool(k) for k in key]}
    if isinstance(key, np.integer):
        return {'i': int(key)}
    return int(key)


def dec_key(k):
    if k == 'n':
        return None
    if k == 'e':
        return Ellipsis
    if isinstance(k, dict):
        if 's' in k:
            return slice(*k['s'])
        if 't' in k:
            return tuple(k['t'])
        if 'i' in k:
            return np.int64(k['i'])
        return np.array(k['b'], dtype=bool)
    return k


def dec_keys(ks):
    return tuple(dec_key(k) for k in ks)


def full_keys(keys, ndim):
    """Expand Ellipsis and missing trailing keys (newaxis kept)."""
    n = len([k for k in keys if k is not None and k is not Ellipsis])
    out = []
    seen = False
    for k in keys:
        if k is Ellipsis:
            if not seen:
                out.extend([slice(None)] * (ndim - n))
                seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (ndim - n))
    return out


def ortho_index(a, keys):
    """Orthogonal indexing of a NumPy (masked) array; returns an array."""
    keys = full_keys(keys, a.ndim)
    first = tuple(k if isinstance(k, slice) else slice(None)
                  for k in keys if k is not None)
    a = a[first + (Ellipsis,)]
    axis = a.ndim - 1
    for k in reversed([k for k in keys if k is not None]):
        pre = (slice(None),) * axis
        if isinstance(k, slice):
            pass
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            a = a[pre + (np.nonzero(k)[0],)]
        elif isinstance(k, tuple):
            a = a[pre + (np.array(k, dtype=int),)]
        else:
            # Keep arrays (never scalars): slice, then drop the axis.
            i = int(k)
            n = a.shape[axis]
            if not -n <= i < n:
                raise IndexError('index out of range')
            i = i % n
            a = a[pre + (slice(i, i + 1),)]
            shape = list(a.shape)
            del shape[axis]
            a = a.reshape(shape)
        axis -= 1
    if any(k is None for k in keys):
        a = a[tuple(None if k is None else slice(None) for k in keys
                    if k is None or not isinstance(k, (int, np.integer)))]
    return a


# -- data -------------------------------------------------------------------


def make_data(spec):
    """Deterministic source data from a JSON-able spec."""
    rng = np.random.RandomState(spec['seed'] % (2 ** 32))
    shape = tuple(spec['shape'])
    dtype = np.dtype(spec['dtype'])
    lo, hi = spec.get('range', (-9, 9))
    n = int(np.prod(shape)) if shape else 1
    if dtype.kind == 'b':
        data = rng.randint(0, 2, n).astype(bool)
    elif dtype.kind == 'u':
        data = rng.randint(0, hi + 1, n).astype(dtype)
    elif dtype.kind == 'c':
        data = (rng.randint(lo, hi + 1, n) +
                1j * rng.randint(lo, hi + 1, n)).astype(dtype)
    else:
        data = rng.randint(lo, hi + 1, n).astype(dtype)
    if spec.get('unique'):
        data = (np.arange(n) + 1).astype(dtype)
    if spec.get('nan') and dtype.kind == 'f' and n:
        data[rng.randint(0, n, max(1, n // 7))] = np.nan
        data[rng.randint(0, n, n // 9)] = np.inf
    data = data.reshape(shape)
    kind = spec.get('mask')
    if kind:
        if kind == 'none':
            mask = np.ma.nomask
        elif kind == 'false':
            mask = np.zeros(shape, bool)
        elif kind == 'all':
            mask = np.ones(shape, bool)
        elif kind == 'most':
            mask = rng.rand(*shape) < 0.8
        elif kind == 'few':
            mask = rng.rand(*shape) < 0.1
        elif kind == 'lines' and shape:
            ax = rng.randint(0, len(shape))
            sel = rng.rand(shape[ax]) < 0.5
            sh = [1] * len(shape)
            sh[ax] = shape[ax]
            mask = np.zeros(shape, bool) | sel.reshape(sh)
        elif kind == 'lead' and shape:
            # The leading part of every line along one axis is masked.
            ax = rng.randint(0, len(shape))
            cut = rng.randint(0, shape[ax] + 1)
            sel = np.arange(shape[ax]) < cut
            sh = [1] * len(shape)
            sh[ax] = shape[ax]
            mask = np.zeros(shape, bool) | sel.reshape(sh)
        else:
            mask = rng.rand(*shape) < 0.4
        if mask is not np.ma.nomask:
            mask = np.asarray(mask, bool).reshape(shape)
        data = np.ma.array(data, mask=mask)
        if 'fill' in spec:
            data.set_fill_value(spec['fill'])
    return data


# -- operations ---------------------------------------------------------------

# name -> (numpy function, result kept exact for small integers)
UNARY = {'negative': np.negative, 'absolute': np.absolute,
         'square': np.square, 'sign': np.sign, 'sqrt': np.sqrt,
         'exp': np.exp, 'floor': np.floor, 'ceil': np.ceil,
         'rint': np.rint, 'trunc': np.trunc, 'sin': np.sin,
         'arctan': np.arctan, 'isnan': np.isnan, 'isinf': np.isinf,
         'logical_not': np.logical_not, 'invert': np.invert,
         'cosh': np.cosh, 'tanh': np.tanh, 'expm1': np.expm1,
         'deg2rad': np.deg2rad, 'cos': np.cos, 'log': np.log,
         'conj': np.conj, 'reciprocal': np.reciprocal, 'exp2': np.exp2,
         'log2': np.log2, 'log10': np.log10, 'tan': np.tan,
         'sinh': np.sinh, 'arcsinh': np.arcsinh, 'arccosh': np.arccosh,
         'arcsin': np.arcsin, 'arccos': np.arccos, 'arctanh': np.arctanh,
         'rad2deg': np.rad2deg, 'isreal': np.isreal,
         'iscomplex': np.iscomplex, 'signbit': np.signbit}
BINARY = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply,
          'divide': np.divide, 'true_divide': np.true_divide,
          'floor_divide': np.floor_divide, 'maximum': np.maximum,
          'minimum': np.minimum, 'greater': np.greater,
          'greater_equal': np.greater_equal, 'less': np.less,
          'less_equal': np.less_equal, 'equal': np.equal,
          'not_equal': np.not_equal, 'logical_and': np.logical_and,
          'logical_or': np.logical_or, 'logical_xor': np.logical_xor,
          'fmax': np.fmax, 'fmin': np.fmin, 'hypot': np.hypot,
          'arctan2': np.arctan2, 'bitwise_and': np.bitwise_and,
          'bitwise_or': np.bitwise_or, 'bitwise_xor': np.bitwise_xor,
          'power': np.power, 'copysign': np.copysign, 'sub': np.subtract,
          'left_shift': np.left_shift, 'right_shift': np.right_shift,
          'fmod': np.fmod, 'nextafter': np.nextafter}
# Nodes which are only operands, not lazy arrays.
OPERANDS = ('scalar', 'raw')
# Wrapped without a version for masked arrays.
NO_MA_NAME = {'isnan', 'isinf', 'copysign', 'isreal', 'iscomplex', 'signbit',
              'fmod', 'nextafter'}

OPERATORS = {'+': 'add', '-': 'subtract', '*': 'multiply',
             '//': 'floor_divide', '/': 'true_divide', '**': 'power'}


def py_operator(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '//':
        return a // b
    if op == '/':
        return a / b
    if op == '**':
        return a ** b
    raise ValueError(op)


def ma_equiv(name):
    if name in NO_MA_NAME:
        return None
    fn = UNARY.get(name) or BINARY.get(name)
    return getattr(np.ma, fn.__name__, None)


class Unsupported(Exception):
    """The reference says: evaluating this masked must raise TypeError."""


def sim_op1(x):
    """Custom unary operator (fails on demand in fault runs)."""
    return x * 2 + 1


def sim_op2(x, y):
    return x * 2 - y


def apply_elem(name, nds):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'custom1':
            return sim_op1(*nds)
        if name == 'custom2':
            return sim_op2(*nds)
        fn = UNARY.get(name) or BINARY.get(name)
        return np.asarray(fn(*nds))


def apply_elem_ma(name, mas):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'custom1':
            return np.ma.asarray(sim_op1(*mas))
        if name == 'custom2':
            return np.ma.asarray(sim_op2(*mas))
        fn = ma_equiv(name)
        if fn is None:
            raise Unsupported(name)
        return np.ma.asarray(fn(*mas))


def agg_dtype(name, dtype):
    if name == 'count':
        return np.dtype('i')
    if name in ('mean', 'std', 'var'):
        return (np.zeros(1, dtype) / 1.).dtype
    return dtype


def ref_agg(name, p, nd):
    axis = p['axis']
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'count':
            shape = list(nd.shape)
            n = shape.pop(axis)
            return np.full(shape, n, dtype='i')
        if name == 'min':
            r = np.min(nd, axis=axis)
        elif name == 'max':
            r = np.max(nd, axis=axis)
        elif name == 'sum':
            r = np.sum(nd, axis=axis)
        elif name == 'mean':
            r = np.mean(nd.astype(_wide(nd.dtype)), axis=axis)
        elif name == 'std':
            r = np.std(nd.astype(_wide(nd.dtype)), axis=axis,
                       ddof=p.get('ddof', 0))
        elif name == 'var':
            r = np.var(nd.astype(_wide(nd.dtype)), axis=axis,
                       ddof=p.get('ddof', 0))
        return np.asarray(r).astype(agg_dtype(name, nd.dtype))


def _wide(dtype):
    return np.complex128 if dtype.kind == 'c' else np.float64


def ref_agg_ma(name, p, m):
    """Element by element definition of the masked statistics."""
    axis = p['axis'] % m.ndim
    mask = np.moveaxis(np.ma.getmaskarray(m), axis, 0)
    data = np.moveaxis(np.ma.getdata(m), axis, 0)
    n = data.shape[0]
    have = (~mask).sum(axis=0)
    dtype = agg_dtype(name, m.dtype)
    out_mask = have == 0
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'count':
            return np.ma.array(have.astype('i'), mask=False)
        if name in ('min', 'max'):
            op = np.minimum if name == 'min' else np.maximum
            out = np.zeros(data.shape[1:], m.dtype)
            seen = np.zeros(data.shape[1:], bool)
            for i in range(n):
                d, ok = data[i], ~mask[i]
                out = np.where(ok, np.where(seen, op(out, d), d), out)
                seen = seen | ok
            return np.ma.array(out.astype(dtype), mask=out_mask)
        wide = np.where(mask, 0, data).astype(_wide(m.dtype))
        total = wide.sum(axis=0)
        if name == 'sum' and m.dtype.kind in 'iu':
            total = np.where(mask, 0, data).sum(axis=0, dtype=m.dtype)
        if name == 'sum':
            return np.ma.array(total.astype(dtype), mask=out_mask)
        mean = total / np.where(out_mask, 1, have)
        if name == 'mean':
            mdtol = p.get('mdtol', 1)
            if mdtol < 1:
                out_mask = out_mask | (((n - have) / float(n)) > mdtol)
            return np.ma.array(mean.astype(dtype), mask=out_mask)
        dev = np.where(mask, 0, wide - mean)
        denom = have - p.get('ddof', 0)
        out_mask = out_mask | (denom <= 0)
        var = (np.abs(dev) ** 2).sum(axis=0) / np.where(denom <= 0, 1, denom)
        if name == 'std':
            var = np.sqrt(var)
        return np.ma.array(var.astype(dtype), mask=out_mask)


# -- reference evaluation -----------------------------------------------------

def _nd(x):
    return np.ma.filled(x) if isinstance(x, np.ma.MaskedArray) else x


# Elementwise operations (and statistics) which are exact on small integers.
EXACT = {'negative', 'absolute', 'square', 'sign', 'floor', 'ceil', 'rint',
         'trunc', 'logical_not', 'invert', 'isnan', 'isinf', 'conj', 'add',
         'subtract', 'multiply', 'maximum', 'minimum', 'greater',
         'greater_equal', 'less', 'less_equal', 'equal', 'not_equal',
         'logical_and', 'logical_or', 'logical_xor', 'fmax', 'fmin',
         'bitwise_and', 'bitwise_or', 'bitwise_xor', 'copysign', 'sub',
         'left_shift', 'right_shift', 'isreal', 'iscomplex', 'signbit',
         'floor_divide', 'custom1', 'custom2', 'count', 'min', 'max', 'sum'}


_NOISE = np.random.RandomState(5).uniform(0.3, 1.0, 20000)
_NOISE *= np.random.RandomState(6).choice([-1.0, 1.0], 20000)


class Ref(object):
    """
    Reference values (and errors) of every node of a program.

    With `perturb` the result of every inexact operation is disturbed, which
    shows how much rounding errors can matter to the final result.
    """

    def __init__(self, nodes, perturb=None, base=None):
        self.nodes = nodes
        self.perturb = perturb
        self.base = base          # the undisturbed reference
        self.nd = []
        self.ma = []
        self.dtype = []
        self.shape = []
        self.inexact = []
        self.single = []
        for i in range(len(nodes)):
            self._eval(i)

    LISTS = ('nd', 'ma', 'dtype', 'shape', 'inexact', 'single')

    def truncate(self, n):
        for name in self.LISTS:
            del getattr(self, name)[n:]

    def _disturb(self, i, x, inputs):
        if isinstance(x, Unsupported):
            return x
        data = np.ma.getdata(x)
        if data.dtype.kind not in 'fc':
            return x
        eps = (1e-11, 1e-5, 1e-3)[self.single[i]]
        n = data.size
        at = (self.perturb // 2 * 7919 + i * 1009) % (len(_NOISE) // 2)
        if at + n > len(_NOISE):
            u = np.resize(_NOISE, n).reshape(data.shape)
        else:
            u = _NOISE[at:at + n].reshape(data.shape)
        if self.perturb % 2:
            u = -u
        scale = 0.0
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for y in list(inputs) + [x]:
                if isinstance(y, Unsupported):
                    continue
                y = np.ma.filled(y, 0) if isinstance(
                    y, np.ma.MaskedArray) else np.asarray(y)
                y = np.abs(y[np.isfinite(y)]) if y.size else y
                if y.size:
                    scale = max(scale, float(y.max()))
            out = (data + eps * u * (np.abs(data) + 0.1 * scale)
                   ).astype(data.dtype)
        if isinstance(x, np.ma.MaskedArray):
            out = np.ma.array(out, mask=np.ma.getmask(x))
            out._fill_value = x._fill_value
        return out

    def add(self):
        self._eval(len(self.nd))

    def _eval(self, i):
        base = self.base
        if base is not None and not base.inexact[i]:
            for name in self.LISTS:
                getattr(self, name).append(getattr(base, name)[i])
            return
        node = self.nodes[i]
        kind, p = node[0], node[1]
        ch = node[2:]
        if kind == 'bcast' and p['axes']:
            # Broadcasting a broadcast: the axes are those of the original
            # array (so not ones of which we'd know the meaning here).
            j = ch[0]
            while self.nodes[j][0] in ('index', 'dup', 'bcast'):
                if self.nodes[j][0] == 'bcast' and self.nodes[j][1]['lead']:
                    raise ValueError('broadcast of leading axes')
                j = self.nodes[j][2]
        nds = [self.nd[c] for c in ch]
        mas = [self.ma[c] for c in ch]
        err = next((m for m in mas if isinstance(m, Unsupported)), None)
        ma = None
        if kind in ('src', 'raw'):
            raw = make_data(p)
            nd = _nd(raw)
            ma = np.ma.asarray(raw)
        elif kind == 'const':
            nd = np.full(tuple(p['shape']), p['value'],
                         dtype=np.dtype(p['dtype']))
            ma = np.ma.asarray(nd)
        elif kind == 'scalar':
            nd = p['value']        # a Python scalar operand
            ma = p['value']
        elif kind in ('elem', 'oper'):
            name = p['op'] if kind == 'elem' else OPERATORS[p['op']]
            args = nds
            margs = mas
            if p.get('swap'):
                args, margs = args[::-1], margs[::-1]
            nd = apply_elem(name, args)
            if any(np.ndim(a) == 0 for a in args):
                # NumPy looks at the values of 0-dimensional operands to
                # choose a dtype; stay away from where that matters.
                dt = apply_elem(name, [
                    np.ones(1, a.dtype) if isinstance(a, np.ndarray) else a
                    for a in args]).dtype
                if dt != nd.dtype:
                    raise ValueError('dtype depends on the value')
            if nd.dtype == np.float16:
                raise ValueError('half precision')
            if err is None:
                try:
                    ma = apply_elem_ma(name, margs)
                except Unsupported as e:
                    err = e
        elif kind == 'agg':
            nd = ref_agg(p['op'], p, nds[0])
            if err is None:
                ma = ref_agg_ma(p['op'], p, mas[0])
        else:
            fn = functools.partial(_VIEWS[kind], p)
            nd = fn(nds)
            if err is None:
                if kind == 'maskeq':
                    ma = np.ma.masked_equal(mas[0], p['value'])
                    if np.ma.getmask(mas[0]) is not np.ma.nomask:
                        ma = np.ma.array(ma.data, mask=np.ma.getmaskarray(ma))
                else:
                    ma = fn(mas)
        inexact = any(self.inexact[c] for c in ch)
        if kind in ('elem', 'oper', 'agg'):
            name = p['op'] if kind != 'oper' else OPERATORS[p['op']]
            inexact = inexact or name not in EXACT
        if kind == 'scalar':
            single = 0
        else:
            single = {'float16': 2, 'float32': 1, 'complex64': 1}.get(
                np.asarray(nd).dtype.name, 0)
        single = max([single] + [self.single[c] for c in ch])
        self.inexact.append(inexact)
        self.single.append(single)
        if inexact and self.perturb is not None and \
                kind in ('elem', 'oper', 'agg', 'astype'):
            nd = self._disturb(i, nd, nds)
            if err is None:
                ma = self._disturb(i, ma, mas)
        self.nd.append(nd)
        self.ma.append(err if err is not None else ma)
        if kind == 'scalar':
            self.dtype.append(None)
            self.shape.append(())
        else:
            self.dtype.append(np.asarray(nd).dtype)
            self.shape.append(tuple(np.shape(nd)))


def _cat(arrs, axis):
    if any(isinstance(a, np.ma.MaskedArray) for a in arrs):
        out = np.ma.concatenate(arrs, axis=axis)
    else:
        out = np.concatenate(arrs, axis=axis)
    # (NumPy changes the byte order.)
    return out if out.dtype == arrs[0].dtype else out.astype(arrs[0].dtype)


def _v_stack(p, xs):
    shape = tuple(p['shape'])
    if p.get('order') == 'F':
        at = np.arange(len(xs)).reshape(shape, order='F')
        xs = [xs[k] for k in at.ravel()]
    flat = _cat([x[None] for x in xs], 0)
    return flat.reshape(shape + xs[0].shape)


def _v_bcast(p, xs):
    x = xs[0]
    shape = list(x.shape)
    for ax, n in p['axes'].items():
        shape[int(ax)] = n
    shape = tuple(p['lead']) + tuple(shape)
    if isinstance(x, np.ma.MaskedArray):
        return np.ma.array(np.broadcast_to(x.data, shape),
                           mask=np.broadcast_to(np.ma.getmaskarray(x), shape))
    return np.broadcast_to(x, shape)


def _v_newaxes(p, xs):
    x = xs[0]
    shape = []
    for i, n in enumerate(p['axes']):
        shape.extend([1] * n)
        if i < x.ndim:
            shape.append(x.shape[i])
    return x.reshape(tuple(shape))


_VIEWS = {
    'index': lambda p, xs: ortho_index(xs[0], dec_keys(p['keys'])),
    'transpose': lambda p, xs: xs[0].transpose(p['axes']),
    'astype': lambda p, xs: xs[0].astype(p['dtype']),
    'maskeq': lambda p, xs: xs[0],
    'stack': _v_stack,
    'mosaic': lambda p, xs: _cat(xs, p['axis']),
    'bcast': _v_bcast,
    'newaxes': _v_newaxes,
    'dup': lambda p, xs: xs[0],
}


# -- building with biggus -------------------------------------------------------

class Bounds(object):
    """How far off the results of a program may be, element by element."""

    SEEDS = (2, 3, 4)

    def __init__(self, nodes, ref=None):
        self.ref = ref or Ref(nodes)
        self.nodes = nodes
        self.alts = [Ref(nodes, seed, self.ref) for seed in self.SEEDS]

    def add(self):
        for a in self.alts:
            a.add()

    def truncate(self, n):
        for a in self.alts:
            a.truncate(n)

    def _one(self, i, masked):
        """Tolerances for one kind of result; None: ill-conditioned."""
        base = self.ref.ma[i] if masked else self.ref.nd[i]
        if isinstance(base, Unsupported):
            return 0.0
        data = np.ma.getdata(base)
        keep = ~np.ma.getmaskarray(base)
        if not self.ref.inexact[i]:
            alts = []
        else:
            alts = [(a.ma[i] if masked else a.nd[i]) for a in self.alts]
        tol = np.zeros(data.shape)
        for a in alts:
            if np.shape(a) != data.shape:
                return None
            if masked and not np.array_equal(np.ma.getmaskarray(a), ~keep):
                return None
            with np.errstate(all='ignore'):
                ad = np.ma.getdata(a)
                if data.dtype.kind not in 'fc':
                    if not np.array_equal(ad[keep], data[keep]):
                        return None
                    continue
                same_nan = np.isnan(ad) & np.isnan(data)
                diff = np.where(same_nan | ~keep | (ad == data), 0,
                                np.abs(ad - data))
                if not np.all(np.isfinite(diff)):
                    return None
                if np.any(diff > 1e-2 * (1 + np.abs(np.where(
                        np.isfinite(data), data, 0)))):
                    return None
                tol = np.maximum(tol, diff)
        if data.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                size = np.where(np.isfinite(data) & keep, np.abs(data), 0)
            # The biggus array may be of higher precision than the reference.
            eps = (1e-12, 1e-6, 2e-3)[self.ref.single[i]]
            tol = 10 * tol + eps * size
        return tol

    def tol(self, i, masked):
        t = self._one(i, masked)
        # (Ill-conditioned: any value will do.)
        return np.inf if t is None else t

    def well_conditioned(self, i):
        if self.ref.dtype[i] is None:
            return True
        return self._one(i, False) is not None and \
            self._one(i, True) is not None


def well_conditioned(nodes):
    b = Bounds(nodes)
    return all(b.well_conditioned(i) for i in range(len(nodes)))


class Builder(object):
    """Builds the biggus arrays of a program, node by node, on demand."""

    def __init__(self, nodes, biggus, sources):
        self.nodes = nodes
        self.biggus = biggus
        self.sources = sources      # callable(node index, spec) -> concrete
        self.built = {}

    def get(self, i):
        if i not in self.built:
            self.built[i] = self._build(i)
        return self.built[i]

    def _build(self, i):
        bg = self.biggus
        init = bg._init
        node = self.nodes[i]
        kind, p = node[0], node[1]
        ch = [self.get(c) for c in node[2:]]
        if kind == 'src':
            concrete = self.sources(i, p)
            if p.get('adapter') == 'ortho':
                return bg.OrthoArrayAdapter(concrete)
            return bg.NumpyArrayAdapter(concrete)
        if kind == 'const':
            if p.get('how') == 'zeros':
                return bg.zeros(tuple(p['shape']), dtype=p['dtype'])
            if p.get('how') == 'ones':
                return bg.ones(tuple(p['shape']), dtype=p['dtype'])
            return bg.ConstantArray(tuple(p['shape']), p['value'],
                                    dtype=p['dtype'])
        if kind == 'scalar':
            return p['value']
        if kind == 'raw':
            return self.operand(i, p)
        if kind == 'elem':
            if p.get('swap'):
                ch = ch[::-1]
            name = p['op']
            if name == 'custom1':
                fn = self.custom(i, sim_op1)
                return init._Elementwise(ch[0], None, fn, fn)
            if name == 'custom2':
                fn = self.custom(i, sim_op2)
                return init._Elementwise(ch[0], ch[1], fn, fn)
            return getattr(bg, name)(*ch)
        if kind == 'oper':
            if p.get('swap'):
                ch = ch[::-1]
            return py_operator(p['op'], *ch)
        if kind == 'agg':
            kw = {}
            if 'mdtol' in p:
                kw['mdtol'] = p['mdtol']
            if 'ddof' in p:
                kw['ddof'] = p['ddof']
            return getattr(bg, p['op'])(ch[0], axis=p['axis'], **kw)
        if kind == 'index':
            keys = dec_keys(p['keys'])
            if len(keys) == 1 and p.get('bare'):
                keys = keys[0]
            return ch[0][keys]
        if kind == 'transpose':
            return ch[0].transpose(p['axes'])
        if kind == 'astype':
            return ch[0].astype(np.dtype(p['dtype']))
        if kind == 'maskeq':
            return bg.masked_equal(ch[0], p['value'])
        if kind == 'stack':
            shape = tuple(p['shape'])
            if p.get('how') == 'multidim':
                return bg.ArrayStack.multidim_array_stack(
                    ch, shape, order=p.get('order', 'C'))
            arr = np.empty(len(ch), dtype='O')
            for j, c in enumerate(ch):
                arr[j] = c
            return bg.ArrayStack(arr.reshape(shape))
        if kind == 'mosaic':
            tiles = np.empty(len(ch), dtype='O')
            for j, c in enumerate(ch):
                tiles[j] = c
            return bg.LinearMosaic(tiles, p['axis'])
        if kind == 'bcast':
            return bg.BroadcastArray(
                ch[0], {int(k): v for k, v in p['axes'].items()},
                tuple(p['lead']))
        if kind == 'newaxes':
            return init.NewAxesArray(ch[0], list(p['axes']))
        if kind == 'dup':
            import copy
            return copy.copy(ch[0])
        raise ValueError(kind)

    def custom(self, i, fn):
        return fn

    def operand(self, i, p):
        return make_data(p)


# -- comparison ---------------------------------------------------------------

def describe(x):
    if isinstance(x, np.ma.MaskedArray):
        return 'data={} mask={}'.format(
            np.ma.getdata(x).tolist(), np.ma.getmaskarray(x).tolist())
    return str(np.asarray(x).tolist())


def compare(got, want, masked, dtype=None, tol=0.0):
    """None if equal, else a description of the difference."""
    if masked and not isinstance(got, np.ma.MaskedArray):
        return 'result is {} not a MaskedArray'.format(type(got).__name__)
    if not masked and (not isinstance(got, np.ndarray) or
                       isinstance(got, np.ma.MaskedArray)):
        return 'result is {} not an ndarray'.format(type(got).__name__)
    if tuple(got.shape) != tuple(want.shape):
        return 'shape {} instead of {}'.format(got.shape, want.shape)
    if dtype is not None and got.dtype != dtype:
        return 'dtype {} instead of {}'.format(got.dtype, dtype)
    if np.ndim(tol) == 0 and tol == np.inf:
        return None
    g = np.ma.getdata(got)
    w = np.ma.getdata(want)
    t = np.broadcast_to(np.asarray(tol), w.shape)
    if masked:
        gm = np.ma.getmaskarray(got)
        wm = np.ma.getmaskarray(want)
        if not np.array_equal(gm, wm):
            return 'mask {} instead of {}'.format(gm.tolist(), wm.tolist())
        keep = ~wm
        g, w, t = g[keep], w[keep], t[keep]
    if g.dtype.kind in 'mM' or w.dtype.kind in 'mM':
        ok = not w.size or g.dtype == w.dtype and np.array_equal(
            g.view('i8'), w.view('i8'))
    elif g.dtype.kind in 'fc' or w.dtype.kind in 'fc':
        with np.errstate(all='ignore'):
            bad = ~((g == w) | (np.abs(g - w) <= t))
            if w.dtype.kind in 'fc' and g.dtype.kind in 'fc':
                bad &= ~(np.isnan(g) & np.isnan(w))
        ok = not np.any(bad)
    else:
        ok = np.array_equal(g, w)
    if not ok:
        return 'values {} instead of {}'.format(describe(got),
                                                describe(want))
    return None
