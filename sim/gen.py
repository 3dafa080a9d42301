"""
Seeded generator of expression programs.  It only consults the reference
evaluation, never the code under test.
"""
import numpy as np

from . import expr

SAFE_UNARY = ['negative', 'absolute', 'square', 'sign', 'floor', 'ceil',
              'rint', 'trunc', 'logical_not', 'sin', 'arctan', 'tanh',
              'conj', 'deg2rad', 'cos', 'isnan', 'isinf', 'invert', 'sqrt',
              'exp', 'log', 'reciprocal', 'exp2', 'log2', 'log10', 'tan',
              'sinh', 'arcsinh', 'arccosh', 'arcsin', 'arctanh', 'rad2deg',
              'isreal', 'iscomplex', 'signbit']
SAFE_BINARY = ['add', 'subtract', 'multiply', 'true_divide', 'divide',
               'floor_divide', 'maximum', 'minimum', 'greater',
               'greater_equal', 'less', 'less_equal', 'equal', 'not_equal',
               'logical_and', 'logical_or', 'logical_xor', 'fmax', 'fmin',
               'hypot', 'arctan2', 'copysign', 'sub', 'bitwise_and',
               'bitwise_or', 'bitwise_xor', 'power', 'fmod', 'nextafter',
               'left_shift', 'right_shift']
AGGS = ['count', 'min', 'max', 'sum', 'mean', 'std', 'var']


class Gen(object):
    def __init__(self, rng, masked=False, **cfg):
        self.rng = rng
        self.masked = masked          # will be evaluated as masked arrays
        self.nodes = []
        self.ref = expr.Ref(self.nodes)
        self.bounds = expr.Bounds(self.nodes, self.ref)
        self.cfg = cfg
        self.max_elems = cfg.get('max_elems', 240)
        self.max_dim = cfg.get('max_dim', 6)
        self.dtypes = cfg.get('dtypes', ['f8'] * 12 + ['f4'] * 5 +
                              ['i4'] * 5 + ['i8'] * 5 +
                              ['i2', 'i1', 'u1', 'u2', 'u4', '>f8', '>i4',
                               'b1', 'c16'])
        if self.r() < cfg.get('empty', 0.03):
            # Arrays without elements (as far as those are supported).
            self.cfg = cfg = dict(cfg, zero_p=0.4, tuples=False,
                                  newaxis=False)
            for name in ('stack', 'mosaic', 'bcast', 'newaxes',
                         'share', 'nest'):
                setattr(self, name, lambda i: None)
        elif self.r() < cfg.get('nans', 0.03):
            # Values which are not numbers (not in statistics: what they
            # make of those is not specified).
            self.cfg = cfg = dict(cfg, nan=True)
            for name in ('agg', 'share'):
                setattr(self, name, lambda i, *args, **kw: None)
        self.kinds = cfg.get('src_kinds', ['mem', 'file', 'ortho', 'nc'])
        self.mask_p = cfg.get('mask_p', 0.6 if masked else 0.2)
        self.mask_kinds = cfg.get('mask_kinds', [
            'none', 'false', 'all', 'most', 'few', 'lines', 'lead', 'rand',
            'rand'])

    # -- helpers ---------------------------------------------------------

    def r(self):
        return self.rng.random()

    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def add(self, node):
        self.nodes.append(node)
        try:
            self.ref.add()
            self.bounds.add()
        except Exception:
            self.drop_last()
            raise
        return len(self.nodes) - 1

    def drop_last(self):
        n = len(self.nodes) - 1
        self.nodes.pop()
        self.ref.truncate(n)
        self.bounds.truncate(n)

    def shape(self, i):
        return self.ref.shape[i]

    def dtype(self, i):
        return self.ref.dtype[i]

    def ok(self, i):
        """Values are finite and well away from overflow."""
        if isinstance(self.ref.ma[i], expr.Unsupported):
            if self.masked:
                return False
        vals = [np.asarray(self.ref.nd[i])]
        if not isinstance(self.ref.ma[i], expr.Unsupported):
            m = self.ref.ma[i]
            if isinstance(m, np.ma.MaskedArray):
                vals.append(np.ma.filled(m, 1) if m.dtype.kind != 'b'
                            else np.ma.filled(m, True))
        for v in vals:
            if v.size > 3 * self.max_elems:
                return False
            if v.dtype.kind in 'fc':
                if not self.cfg.get('nan') and not np.all(np.isfinite(v)):
                    return False
                with np.errstate(all='ignore'):
                    if np.any(np.abs(v) >
                                          self.cfg.get('limit', 1e5)):
                        return False
            elif v.dtype.kind in 'iu' and v.size and \
                    not self.cfg.get('full'):
                # Accumulations stay inside the type: no wrap around.
                lim = min(np.iinfo(v.dtype).max // 64,
                          self.cfg.get('limit', 10 ** 6))
                if v.dtype.itemsize == 1:
                    lim = 12
                if np.any(v.astype('i8') > lim) or \
                        np.any(v.astype('i8') < -lim):
                    return False
            elif v.dtype.kind == 'O':
                return False
        if self.ref.inexact[i] and not self.bounds.well_conditioned(i):
            return False
        return True

    def try_add(self, node):
        # (np.ma.power returns `masked` for any 0-dimensional operand with a
        # mask, which an element of an array may be or not be.)
        if node[1].get('op') in ('power', '**') and \
                (self.masked or self.cfg.get('power') is False):
            return None
        try:
            i = self.add(node)
        except Exception:
            return None
        if not self.ok(i):
            self.drop_last()
            return None
        return i

    # -- leaves ----------------------------------------------------------

    def rand_shape(self, ndim=None, lo=1):
        if ndim is None:
            ndim = self.pick(self.cfg.get('ndims', [1, 1, 2, 2, 2, 3, 3, 4]))
        while True:
            shape = [self.rng.randint(lo, self.max_dim) for _ in range(ndim)]
            if ndim and self.r() < 0.25:
                shape[self.rng.randrange(ndim)] = \
                    self.rng.randint(1, 3 * self.max_dim)
            if ndim and self.r() < self.cfg.get('zero_p', 0):
                shape[self.rng.randrange(ndim)] = 0
            if int(np.prod(shape)) <= self.max_elems:
                return shape

    def src(self, shape=None, dtype=None, **kw):
        if shape is None:
            shape = self.rand_shape()
        p = {'shape': list(shape), 'dtype': dtype or self.pick(self.dtypes),
             'seed': self.rng.randrange(2 ** 31)}
        k = self.pick(self.kinds)
        p['kind'] = k
        p['adapter'] = 'ortho' if k in ('ortho', 'nc') else 'numpy'
        d = np.dtype(p['dtype'])
        if self.cfg.get('full') and d.kind in 'iu':
            # Whatever the type can hold.
            info = np.iinfo(d)
            p['range'] = [max(int(info.min), -2 ** 62),
                          min(int(info.max), 2 ** 62)]
            if self.cfg['full'] == 'high':
                p['range'][0] = p['range'][1] // 2
        elif d.itemsize == 1 and d.kind != 'b':
            p['range'] = [-3, 3] if d.kind == 'i' else [0, 3]
        elif 'range' in self.cfg:
            p['range'] = self.cfg['range']
        if self.r() < self.mask_p:
            p['mask'] = self.pick(self.mask_kinds)
            if self.r() < 0.3 and d.kind != 'b':
                p['fill'] = 7
            elif d.kind == 'b':
                p['fill'] = True
            else:
                # Keep filled data small.
                p['fill'] = 9
        if self.cfg.get('nan') and self.r() < 0.6:
            p['nan'] = True
        p.update(kw)
        return self.add(['src', p])

    def const(self, shape=None, dtype=None):
        if shape is None:
            shape = self.rand_shape()
        dtype = dtype or self.pick(self.dtypes)
        if np.dtype(dtype).kind in 'mM':
            return self.src(shape, dtype)    # (there are no such constants)
        how = self.pick(['const', 'zeros', 'ones'])
        value = {'zeros': 0, 'ones': 1}.get(how, self.rng.randint(-5, 5))
        if np.dtype(dtype).kind == 'u':
            value = abs(value)
        return self.add(['const', {'shape': list(shape), 'dtype': dtype,
                                   'value': value, 'how': how}])

    # -- keys ------------------------------------------------------------

    def key_slice(self, n):
        if self.r() < 0.3:
            return slice(None)
        if n == 0:
            return slice(None)
        if self.r() < self.cfg.get('zero_p', 0) / 2:
            a = self.rng.randint(0, n)
            return slice(a, self.rng.randint(0, a))
        neg = self.cfg.get('neg_step', True) and self.r() < 0.2
        step = self.pick([None, None, 1, 2, 3])
        a = self.rng.randint(0, n - 1)
        b = self.rng.randint(a + 1, n)
        if neg:
            step = -(step or 1)
            start = b - 1
            stop = a - 1 if a > 0 else None
            if self.r() < 0.3:
                start = None
                stop = None
            return slice(start, stop, step)
        start, stop = a, b
        if self.r() < 0.3:
            start = None
        if self.r() < 0.3:
            stop = None
        if start is not None and self.r() < 0.2:
            start = start - n
        if stop is not None and stop < n and self.r() < 0.2:
            stop = stop - n
        return slice(start, stop, step)

    def keys(self, shape, tuples=True, scalars=True, newaxis=False,
             bools=False):
        out = []
        ndim = len(shape)
        nk = ndim if self.r() < 0.7 else self.rng.randint(0, ndim)
        # Lists of positions in most of the dimensions at once?
        fancy = tuples and self.r() < 0.1
        for n in shape[:nk]:
            x = self.r()
            if fancy and self.r() < 0.6:
                x = 0.3 if not bools or self.r() < 0.7 else 0.4
            if scalars and x < 0.25 and n:
                k = self.rng.randint(-n if self.cfg.get('neg_scalar', True)
                                     else 0, n - 1)
                if self.r() < 0.15:
                    k = np.int64(k)
            elif tuples and x < (0.35 if fancy else 0.38) and n:
                m = self.rng.randint(1, n)
                if self.r() < 0.5:
                    k = tuple(sorted(self.rng.sample(range(n), m)))
                else:
                    k = tuple(self.rng.randint(-n, n - 1) for _ in range(m))
            elif bools and x < 0.45 and n:
                b = [self.r() < 0.6 for _ in range(n)]
                if not any(b):
                    b[0] = True
                k = np.array(b)
            else:
                k = self.key_slice(n)
            out.append(k)
        if self.r() < 0.15:
            if nk == ndim:
                out.append(Ellipsis)
            else:
                m = self.rng.randint(0, nk)
                out = out[:m] + [Ellipsis]
                # Right aligned remainder must match the trailing sizes.
        if newaxis and self.r() < 0.5:
            out.insert(self.rng.randint(0, len(out)), None)
        if not out:
            out = [Ellipsis]
        return tuple(out)

    # -- composite nodes -------------------------------------------------

    def caps(self, i):
        """What kinds of key the node supports: set of 'tuple', 'bool'."""
        kind, p = self.nodes[i][0], self.nodes[i][1]
        ch = self.nodes[i][2:]
        if kind == 'src':
            return {'tuple', 'bool'} if p.get('kind') != 'mem1' else set()
        if kind == 'const':
            return {'tuple'}
        if kind in ('bcast',):
            return set()
        if kind in ('stack',):
            return set()
        out = {'tuple', 'bool'}
        for c in ch:
            if self.nodes[c][0] not in expr.OPERANDS:
                out &= self.caps(c)
        if kind in ('newaxes', 'mosaic'):
            out -= {'bool'}
        if kind in ('elem', 'oper') and len(ch) == 2:
            s = [self.shape(c) for c in ch]
            if s[0] != s[1]:
                out = set()
        if kind == 'index' and any(k == 'n' for k in p['keys']):
            out -= {'bool'}
        if kind == 'index' and self.has_new(i) and any(
                isinstance(k, dict) and 't' in k for k in p['keys']):
            # (A list of positions along a new axis makes it a broadcast
            # axis.)
            return set()
        return out

    def has_new(self, i):
        kind, p = self.nodes[i][0], self.nodes[i][1]
        return kind == 'newaxes' or (
            kind == 'index' and any(k == 'n' for k in p['keys'])) or any(
                self.has_new(c) for c in self.nodes[i][2:])

    def index(self, i):
        shape = self.shape(i)
        caps = self.caps(i)
        ks = self.keys(shape, tuples='tuple' in caps and
                       self.cfg.get('tuples', True),
                       bools='bool' in caps and self.cfg.get('bools', True),
                       newaxis=self.cfg.get('newaxis', True))
        p = {'keys': [expr.enc_key(k) for k in ks]}
        if len(ks) == 1 and self.r() < 0.5 and \
                not isinstance(ks[0], tuple):
            p['bare'] = True
        b = self.try_add(['index', p, i])
        if b is not None and self.r() < 0.15 and len(self.shape(b)):
            # ... and a part of that part.
            b2 = self.index(b)
            b = b if b2 is None else b2
        return b

    def transpose(self, i):
        n = len(self.shape(i))
        if n == 0:
            return None
        axes = list(range(n))
        if self.r() < 0.3:
            axes = None
        else:
            self.rng.shuffle(axes)
        return self.try_add(['transpose', {'axes': axes}, i])

    def astype(self, i):
        d = self.dtype(i)
        if d.kind in 'bc':
            return None
        return self.try_add(['astype', {'dtype': self.pick(
            ['f8', 'f4', 'i8', 'i4'])}, i])

    def maskeq(self, i):
        if self.dtype(i).kind in 'bfc':
            return None      # exact comparison needs exact values
        vals = np.asarray(self.ref.nd[i]).ravel()
        if not vals.size:
            return None
        return self.try_add(['maskeq', {'value': float(
            vals[self.rng.randrange(vals.size)]) if
            self.dtype(i).kind == 'f' else int(
            vals[self.rng.randrange(vals.size)])}, i])

    def same_type(self, i):
        return [j for j in range(len(self.nodes))
                if self.nodes[j][0] not in expr.OPERANDS and
                self.shape(j) == self.shape(i) and
                self.dtype(j) == self.dtype(i)]

    def clone_src(self, shape, dtype):
        dtype = np.dtype(dtype)
        if dtype.kind in 'bc':
            return None
        return self.src(shape, dtype.str.lstrip('<|'))

    def stack(self, i):
        n = self.pick([1, 2, 2, 3, 3, 4, 4, 6])
        items = [i]
        cands = self.same_type(i)
        while len(items) < n:
            if self.r() < 0.5:
                items.append(self.pick(cands))
            else:
                c = self.clone_src(self.shape(i), self.dtype(i))
                items.append(c if c is not None else i)
        self.rng.shuffle(items)
        shape = [n]
        if n == 4 and self.r() < 0.5:
            shape = [2, 2]
        elif n == 6:
            shape = self.pick([[2, 3], [3, 2], [6]])
        p = {'shape': shape}
        if self.r() < 0.3:
            p['how'] = 'multidim'
            if self.r() < 0.3:
                p['order'] = 'F'
        return self.try_add(['stack', p] + items)

    def mosaic(self, i):
        shape = self.shape(i)
        if not shape or 0 in shape:
            return None
        axis = self.rng.randrange(len(shape))
        n = self.rng.randint(1, 3)
        items = [i]
        for _ in range(n - 1):
            s = list(shape)
            s[axis] = self.rng.randint(1, self.max_dim)
            c = self.clone_src(s, self.dtype(i))
            items.append(c if c is not None else i)
        self.rng.shuffle(items)
        return self.try_add(['mosaic', {'axis': axis}] + items)

    def bcast(self, i):
        shape = self.shape(i)
        if 0 in shape:
            return None
        axes = {}
        for ax, n in enumerate(shape):
            if n == 1 and self.r() < 0.7:
                axes[str(ax)] = self.rng.randint(1, 4)
        lead = [self.rng.randint(1, 3)] if self.r() < 0.5 else []
        if not axes and not lead:
            return None
        return self.try_add(['bcast', {'axes': axes, 'lead': lead}, i])

    def nest(self, i):
        """
        A broadcast or new axis which is broadcast again by an operation.
        """
        shape = self.shape(i)
        if 0 in shape or len(shape) > 3:
            return None
        n0 = len(self.nodes)
        if self.r() < 0.3:
            # One broadcast after the other.
            s = [self.pick([1, 1, self.rng.randint(1, 4)])
                 for _ in range(self.rng.randint(2, 4))]
            ones = [ax for ax, n in enumerate(s) if n == 1]
            if len(ones) < 2:
                return None
            self.rng.shuffle(ones)
            b = self.src(s)
            if self.r() < 0.3:
                b = self.unary(b) or b
            for ax in ones[:self.pick([2, 2, 3])]:
                b = self.try_add(['bcast', {
                    'axes': {str(ax): self.rng.randint(2, 3)},
                    'lead': []}, b]) or b
        elif self.r() < 0.5:
            b = self.newaxes(i)
            if b is not None and self.r() < 0.4:
                b = self.index(b)
        else:
            axes = {str(ax): self.rng.randint(1, 3)
                    for ax, n in enumerate(shape)
                    if n == 1 and self.r() < 0.5}
            lead = [self.pick([1, 1, 2, 3])
                    for _ in range(self.rng.randint(0 if axes else 1, 2))]
            b = self.try_add(['bcast', {'axes': axes, 'lead': lead}, i])
            if b is not None and self.r() < 0.3:
                b = self.transpose(b)
        if b is None or 0 in self.shape(b):
            while len(self.nodes) > n0:
                self.drop_last()
            return None
        s = [self.rng.randint(1, 4) if n == 1 else
             self.pick([n, n, 1]) for n in self.shape(b)]
        if self.r() < 0.4:
            s = [self.rng.randint(1, 3)] + s
        if int(np.prod(s)) > self.max_elems:
            return b
        j = self.src(s)
        out = self.try_add(['elem', {'op': self.pick(
            ['add', 'subtract', 'maximum', 'multiply']),
            'swap': self.r() < 0.5}, b, j])
        if out is None:
            self.drop_last()
            return b
        return out

    def newaxes(self, i):
        n = len(self.shape(i))
        if n > 3:
            return None
        axes = [0] * (n + 1)
        axes[self.rng.randrange(n + 1)] = self.rng.randint(1, 2)
        return self.try_add(['newaxes', {'axes': axes}, i])

    def unary(self, i):
        op = self.pick(self.cfg.get('unary', SAFE_UNARY))
        return self.try_add(['elem', {'op': op}, i])

    def scalar(self):
        v = self.pick([2, 3, -1, 1, 0.5, 2.5, 4])
        return self.add(['scalar', {'value': v}])

    def raw(self, shape):
        """A NumPy array, used as an operand as it is."""
        j = self.src(shape)
        self.nodes[j][0] = 'raw'
        return j

    def partner(self, i):
        """A node that broadcasts with i (itself, another, or a new one)."""
        shape = self.shape(i)
        x = self.r()
        if x < 0.05:
            s = list(shape)
            return self.raw(s[self.rng.randint(0, len(s)):])
        x = self.r()
        if x < 0.45:
            same = [j for j in range(len(self.nodes))
                    if self.nodes[j][0] not in expr.OPERANDS and
                    self.shape(j) == shape]
            return self.pick(same)
        if x < 0.6:
            return self.src(shape)
        if x < 0.7:
            return self.const(shape)
        if x < 0.8:
            # (Nothing can be broadcast to no elements.)
            cands = [j for j in range(len(self.nodes))
                     if self.nodes[j][0] not in expr.OPERANDS and
                     _bcast(self.shape(j), shape) is not None and
                     0 not in self.shape(j)]
            return self.pick(cands)
        s = list(shape)
        s = s[self.rng.randint(0, len(s)):]
        for a in range(len(s)):
            if self.r() < 0.3:
                s[a] = 1
        return self.src(s)

    def binary(self, i):
        n0 = len(self.nodes)
        if self.cfg.get('zero_p'):
            # (Nothing can be broadcast to no elements.)
            j = self.pick([j for j in range(n0)
                           if self.nodes[j][0] not in expr.OPERANDS and
                           self.shape(j) == self.shape(i)])
            return self.try_add(['elem', {'op': self.pick(
                ['add', 'subtract', 'maximum'])}, i, j])
        if self.r() < self.cfg.get('scalar_p', 0.2):
            j = self.scalar()
            out = self.try_add(['oper', {'op': self.pick(self.cfg.get(
                'opers', ['+', '-', '*', '/', '+', '*', '**'])),
                'swap': self.r() < 0.4}, i, j])
        elif self.r() < 0.5:
            j = self.partner(i)
            ops = self.cfg.get('opers', [
                '+', '-', '*', '+', '-', '/', '//', '+', '-', '**'])
            swap = self.r() < 0.4 and self.nodes[j][0] != 'raw'
            out = self.try_add(['oper', {'op': self.pick(ops),
                                         'swap': swap}, i, j])
        else:
            j = self.partner(i)
            out = self.try_add(['elem', {'op': self.pick(
                self.cfg.get('binary', SAFE_BINARY)),
                'swap': self.r() < 0.4}, i, j])
        if out is None:
            while len(self.nodes) > n0:
                self.drop_last()
        return out

    def agg(self, i, op=None, axis=None, **kw):
        shape = self.shape(i)
        if not shape or self.dtype(i).kind == 'c':
            return None
        if axis is None:
            axis = self.rng.randrange(len(shape))
            if self.r() < 0.3:
                axis -= len(shape)
        if shape[axis] == 0 or 0 in shape:
            return None
        op = op or self.pick(self.cfg.get('aggs', AGGS))
        if op == 'sum' and self.dtype(i).kind == 'b':
            return None      # not supported by biggus (raises)
        p = {'op': op, 'axis': axis}
        if op == 'mean' and self.r() < 0.5:
            p['mdtol'] = self.pick([0, 0.25, 0.5, 0.75, 1])
        if op in ('std', 'var') and self.r() < 0.5:
            p['ddof'] = 1
        p.update(kw)
        if p.get('ddof') == 1 and shape[axis] == 1:
            p['ddof'] = 0
        return self.try_add(['agg', p, i])

    def share(self, i):
        """
        Several uses of one array which want it in different orders, or at
        different times, put together in one expression.
        """
        cands = [j for j in range(len(self.nodes))
                 if self.nodes[j][0] not in expr.OPERANDS and
                 len(self.shape(j)) >= 2 and 0 not in self.shape(j)]
        square = [j for j in cands if self.shape(j)[-1] == self.shape(j)[-2]]
        x = self.r()
        n0 = len(self.nodes)
        if x < 0.35 or not cands:
            # The same extent in several dimensions.
            k = self.rng.randint(2, 6)
            a = self.pick(square) if square and self.r() < 0.5 else \
                self.src(self.pick([[k, k], [k, k], [2, k, k], [k, k, k]]))
        else:
            a = i if i in cands and self.r() < 0.5 else self.pick(cands)
        nd = len(self.shape(a))

        def end(j):
            if j is None:
                while len(self.nodes) > n0:
                    self.drop_last()
            return j
        axes = list(range(nd))
        self.rng.shuffle(axes)
        x = self.r()
        p = self.agg(a, axis=axes[0])
        if p is None:
            return end(None)
        if x < 0.5:
            q = self.agg(a, axis=axes[1])
            if q is None:
                return end(None)
            if self.shape(p) != self.shape(q):
                return q
        elif x < 0.75:
            q = a                       # the array and its own statistic
        else:
            b = self.transpose(a)
            q = None if b is None else self.agg(b, axis=axes[0])
            if q is None or self.shape(p) != self.shape(q):
                return end(None)
        if _bcast(self.shape(p), self.shape(q)) is None:
            return p
        out = self.try_add(['elem', {'op': self.pick(
            ['add', 'subtract', 'maximum', 'minimum', 'multiply']),
            'swap': self.r() < 0.5}, p, q])
        return p if out is None else out

    WEIGHTS = [('binary', 5), ('unary', 2), ('agg', 4), ('index', 3),
               ('transpose', 1), ('astype', 0.7), ('maskeq', 0.6),
               ('stack', 0.8), ('mosaic', 0.8), ('bcast', 0.6),
               ('newaxes', 0.5), ('share', 0.7), ('nest', 0.4)]

    def grow(self, n, weights=None):
        """Add up to n composite nodes on top of what there is."""
        weights = weights or self.cfg.get('weights') or self.WEIGHTS
        names = [w[0] for w in weights]
        total = float(sum(w[1] for w in weights))
        out = []
        for _ in range(n):
            x = self.r() * total
            for name, w in weights:
                x -= w
                if x <= 0:
                    break
            cands = [j for j in range(len(self.nodes))
                     if self.nodes[j][0] not in expr.OPERANDS]
            # Prefer recent nodes: deeper graphs.
            if self.r() < 0.6:
                cands = cands[-3:]
            i = self.pick(cands)
            j = getattr(self, name)(i)
            if j is not None:
                out.append(j)
        return out


def _bcast(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            return None
    return True
