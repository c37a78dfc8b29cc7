"""Stand-in for the paramz object layer (parameter tree, notification, index
operations).  The transformations module is the installed paramz source run
through the facades; this file models only the tree and its notifications."""
import types

import numpy as np

from . import sym as S
from . import fnp
from .fnp import VArr, mk, _raw
from .sym import Unsupported

FIXED = 'fixed'


class PIO:
    """ParameterIndexOperations: property -> sorted array of flat indices."""

    def __init__(self, constraints=None):
        self._props = {}
        if constraints is not None:
            for t, i in constraints.items():
                self.add(t, i)

    def items(self):
        for p, ix in list(self._props.items()):
            if len(ix):
                yield p, fnp.wrap(np.array(sorted(ix), dtype=int))

    def properties(self):
        return [p for p, _ in self.items()]

    def indices(self):
        return [i for _, i in self.items()]

    def clear(self):
        self._props.clear()

    @property
    def size(self):
        return sum(len(i) for _, i in self.items())

    def properties_for(self, index):
        if callable(index):
            index = [index]
        out = np.empty(len(index), dtype=object)
        for k, i in enumerate(index):
            out[k] = [p for p, ix in self._props.items() if not callable(i) and int(i) in ix]
        return out

    def add(self, prop, indices):
        self._props.setdefault(prop, set()).update(int(i) for i in indices)

    def remove(self, prop, indices):
        cur = self._props.get(prop, set())
        rm = {int(i) for i in indices} & cur
        left = cur - rm
        if left:
            self._props[prop] = left
        else:
            self._props.pop(prop, None)
        return np.array(sorted(rm), dtype=int)

    def update(self, other, offset=0):
        for p, i in other.items():
            self.add(p, [int(x) + offset for x in i])

    def __getitem__(self, prop):
        return np.array(sorted(self._props.get(prop, ())), dtype=int)

    def __delitem__(self, prop):
        self._props.pop(prop, None)


class PIOView:
    """What a node shows: the index operations of its leaves, offset."""

    def __init__(self, node, name):
        self.node = node
        self.name = name

    def _merged(self):
        out = PIO()
        off = 0
        for leaf in self.node._leaves():
            own = leaf._own_io.get(self.name)
            if own is not None:
                out.update(own, off)
            off += int(leaf.size)
        return out

    def items(self): return self._merged().items()
    def properties(self): return self._merged().properties()
    def indices(self): return self._merged().indices()
    def properties_for(self, index): return self._merged().properties_for(index)
    def __getitem__(self, p): return self._merged()[p]
    @property
    def size(self): return self._merged().size

    def _each(self, indices):
        off = 0
        ix = [int(i) for i in indices]
        for leaf in self.node._leaves():
            n = int(leaf.size)
            loc = [i - off for i in ix if off <= i < off + n]
            if loc:
                yield off, leaf._own_io.setdefault(self.name, PIO()), loc
            off += n

    def add(self, prop, indices):
        for _, io, loc in self._each(indices):
            io.add(prop, loc)

    def remove(self, prop, indices):
        out = []
        for off, io, loc in self._each(indices):
            out += [int(i) + off for i in io.remove(prop, loc)]
        return np.array(sorted(out), dtype=int)

    def clear(self):
        for leaf in self.node._leaves():
            leaf._own_io[self.name] = PIO()


class _Lifecycle:
    """Shared behaviour of leaves and nodes."""


class Parameterizable:
    _update_on = True
    _in_init_ = False
    _parent_ = None

    def __init__(self, name=None, default_constraint=None, *a, **kw):
        if a or kw:
            raise TypeError('unexpected arguments %r %r' % (a, kw))
        d = self.__dict__
        d['_name'] = name
        d['_parent_'] = None
        d.setdefault('_own_io', {})
        d['parameters'] = []
        d['_ios'] = {}
        d['_observers'] = []
        self.add_index_operation('constraints', PIO())
        if default_constraint is not None:
            self.constrain(default_constraint)

    # -- names
    @property
    def name(self):
        return self.__dict__.get('_name')

    @name.setter
    def name(self, v):
        self.__dict__['_name'] = v

    def hierarchy_name(self, *a, **k):
        return '%s.%s' % (self._parent_.hierarchy_name(), self.name) if self._parent_ is not None else self.name

    # -- tree
    def _leaves(self):
        out = []
        for p in self.parameters:
            out.extend(p._leaves())
        return out

    @property
    def flattened_parameters(self):
        return self._leaves()

    @property
    def _highest_parent_(self):
        p = self
        while p._parent_ is not None:
            p = p._parent_
        return p

    def has_parent(self):
        return self._parent_ is not None

    # -- index operations
    def add_index_operation(self, name, operations):
        self._own_io.setdefault(name, PIO())
        self._ios[name] = PIOView(self, name)

    @property
    def constraints(self):
        return self._ios['constraints']

    @property
    def priors(self):
        if 'priors' not in self._ios:
            raise AttributeError('priors')
        return self._ios['priors']

    def _raveled_index(self):
        return np.arange(sum(int(l.size) for l in self._leaves()))

    def _add_to_index_operations(self, which, reconstrained, what, warning):
        ix = self._raveled_index()
        which.add(what, ix)
        return ix

    def _remove_from_index_operations(self, which, transforms):
        if len(transforms) == 0:
            transforms = which.properties()
        rm = []
        for t in list(transforms):
            rm += list(which.remove(t, self._raveled_index()))
        return np.array(sorted(set(rm)), dtype=int)

    # -- constraints
    def constrain(self, transform, warning=True, trigger_parent=True):
        if isinstance(transform, str) and transform == FIXED:
            return self.fix()
        if not hasattr(transform, 'initialize'):
            raise ValueError('Can only constrain with paramz.transformations.Transformation object')
        for l in self._leaves():
            v = transform.initialize(mk(_raw(l)))
            VArr.__setitem__(l, Ellipsis, v)
        rc = self.unconstrain()
        added = self._add_to_index_operations(self.constraints, rc, transform, warning)
        self.trigger_update(trigger_parent)
        return added

    def unconstrain(self, *transforms):
        return self._remove_from_index_operations(self.constraints, transforms)

    def constrain_positive(self, warning=True, trigger_parent=True):
        self.constrain(TRANSFORMS.Logexp(), warning, trigger_parent)

    def constrain_negative(self, warning=True, trigger_parent=True):
        self.constrain(TRANSFORMS.NegativeLogexp(), warning, trigger_parent)

    def constrain_bounded(self, lower, upper, warning=True, trigger_parent=True):
        raise Unsupported('constrain_bounded')

    def constrain_fixed(self, value=None, warning=True, trigger_parent=True):
        if value is not None:
            self[:] = value
        ix = self._add_to_index_operations(self.constraints, np.empty(0), FIXED, warning)
        self._notify()
        return ix
    fix = constrain_fixed

    def unconstrain_fixed(self):
        return self.unconstrain(FIXED)
    unfix = unconstrain_fixed

    @property
    def is_fixed(self):
        ls = self._leaves()
        return bool(ls) and all(len(l._own_io['constraints'][FIXED]) == l.size for l in ls)

    # -- notification
    def update_model(self, updates=None):
        if updates is None:
            return self._update_on
        assert isinstance(updates, bool), 'updates are either on (True) or off (False)'

        def visit(n):
            n.__dict__['_update_on'] = updates
            for c in n.parameters:
                visit(c)
        visit(self._highest_parent_)
        self.trigger_update()

    def trigger_update(self, trigger_parent=True):
        if not self.update_model() or self._in_init_:
            return
        self._trigger_params_changed(trigger_parent)

    def _trigger_params_changed(self, trigger_parent=True):
        for p in self.parameters:
            if not p.is_fixed:
                p._trigger_params_changed(False)
        if trigger_parent:
            self._notify()
        else:
            self.parameters_changed()

    def parameters_changed(self):
        pass

    def add_observer(self, observer, callble, priority=0):
        self._observers.append((observer, callble))

    def remove_observer(self, observer, callble=None):
        self.__dict__['_observers'] = [o for o in self._observers if o[0] is not observer]

    def _notify(self):
        if not self._update_on:
            return
        n = self
        while n is not None:
            for _, c in list(n.__dict__.get('_observers', ())):
                c(self, which=self)
            n.__dict__['_opt_stale'] = True
            n.parameters_changed()
            n = n._parent_

    notify_observers = lambda self, *a, **k: self._notify()

    def num_params(self): return len(self.parameters)
    def checkgrad(self, *a, **k): raise Unsupported('checkgrad')


class Param(Parameterizable, VArr):
    def __new__(cls, name, input_array, default_constraint=None, *a, **kw):
        arr = fnp._tof(fnp.atleast_1d(fnp.asarray(input_array)))
        arr = fnp.mk(np.array(_raw(arr), dtype=object, copy=True))
        obj = np.ndarray.view(_raw(arr), cls)
        obj._kind = 'f'
        return obj

    def __init__(self, name, input_array, default_constraint=None, *a, **kw):
        super().__init__(name=name, default_constraint=default_constraint, *a, **kw)

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', None)

    def _leaves(self):
        return [self]

    @property
    def parameters(self):
        return ()

    @parameters.setter
    def parameters(self, v):
        pass

    @property
    def values(self):
        return mk(_raw(self))

    @property
    def param_array(self):
        return self

    @property
    def gradient(self):
        g = self.__dict__.get('_grad')
        if g is None:
            g = fnp.zeros(self.shape)
            self.__dict__['_grad'] = g
        return g

    @gradient.setter
    def gradient(self, v):
        self.gradient[...] = v

    def __getitem__(self, idx):
        r = VArr.__getitem__(mk(_raw(self)), idx)
        if isinstance(r, np.ndarray) and r.ndim:
            v = np.ndarray.view(_raw(r), ParamView)
            v._kind = 'f'
            v.__dict__['_base_param'] = self
            return v
        return r

    def __setitem__(self, idx, v):
        VArr.__setitem__(self, idx, v)
        self._notify()

    def _inplace(op):
        def f(self, o):
            r = getattr(mk(_raw(self)), op)(o)
            VArr.__setitem__(self, Ellipsis, r)
            self._notify()
            return self
        return f
    __iadd__ = _inplace('__add__')
    __isub__ = _inplace('__sub__')
    __imul__ = _inplace('__mul__')
    __itruediv__ = _inplace('__truediv__')
    __ipow__ = _inplace('__pow__')
    del _inplace

    def copy(self, order='C'):
        return mk(_raw(self)).copy()

    def __reduce__(self):
        return (mk, (_raw(self),))

    def __hash__(self):
        return id(self)

    def __str__(self):
        return self.name or 'param'
    __repr__ = __str__


class ParamView(VArr):
    """A slice of a Param: same memory; writes notify the parameter."""

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', None)

    def __setitem__(self, idx, v):
        VArr.__setitem__(self, idx, v)
        b = self.__dict__.get('_base_param')
        if b is not None:
            b._notify()

    @property
    def values(self):
        return mk(_raw(self))


class Meta(type):
    def __call__(cls, *a, **kw):
        init = kw.pop('initialize', True)
        obj = cls.__new__(cls, *a, **kw)
        obj.__dict__['_in_init_'] = True
        cls.__init__(obj, *a, **kw)
        obj.__dict__['_in_init_'] = False
        if init:
            obj.initialize_parameter()
        return obj


class Parameterized(Parameterizable, metaclass=Meta):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, name=None, parameters=(), *a, **kw):
        super().__init__(name=name, *a, **kw)
        self.link_parameters(*parameters)

    def initialize_parameter(self):
        self.trigger_update()

    def link_parameter(self, param, index=None):
        if any(p is param for p in self.parameters):
            return
        if not isinstance(param, Parameterizable):
            raise RuntimeError('Parameter being added should be a Parameterizable')
        if param._parent_ is not None:
            param._parent_.unlink_parameter(param)
        names = [p.name for p in self.parameters]
        nm = param.name
        k = 1
        while nm in names:
            nm = '%s_%d' % (param.name, k)
            k += 1
        if nm != param.name:
            param.__dict__['_name'] = nm
        if index is None:
            self.parameters.append(param)
        else:
            self.parameters.insert(index, param)
        param.__dict__['_parent_'] = self

        on = self._update_on

        def visit(n):
            n.__dict__['_update_on'] = on
            for c in n.parameters:
                visit(c)
        visit(param)
        object.__setattr__(self, str(nm).replace(' ', '_'), param) \
            if not hasattr(type(self), str(nm)) else None

    def link_parameters(self, *ps):
        for p in ps:
            self.link_parameter(p)

    def unlink_parameter(self, param):
        self.__dict__['parameters'] = [p for p in self.parameters if p is not param]
        param.__dict__['_parent_'] = None

    @property
    def size(self):
        return sum(int(l.size) for l in self._leaves())

    def _gather(self, f):
        parts = [_raw(f(l)).reshape(-1) for l in self._leaves()]
        if not parts:
            return fnp.zeros(0)
        return mk(np.concatenate(parts))

    @property
    def param_array(self):
        return self._gather(lambda l: l)

    @property
    def gradient(self):
        return self._gather(lambda l: l.gradient)

    @gradient.setter
    def gradient(self, v):
        self._scatter(v, lambda l, x: l.gradient.__setitem__(Ellipsis, x))

    def _scatter(self, v, put):
        n = self.size
        v = np.broadcast_to(_raw(fnp.asarray(v)).reshape(-1) if np.ndim(v) else
                            _raw(fnp.atleast_1d(fnp.asarray(v))), (n,))
        off = 0
        for l in self._leaves():
            k = int(l.size)
            put(l, mk(np.array(v[off:off + k], dtype=object).reshape(l.shape)))
            off += k

    def __setitem__(self, idx, v):
        if isinstance(idx, str):
            raise Unsupported('regexp parameter access')
        cur = self.param_array
        cur[idx] = v
        self._scatter(cur, lambda l, x: VArr.__setitem__(l, Ellipsis, x))
        self.trigger_update()

    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise Unsupported('regexp parameter access')
        return self.param_array[idx]

    def __setattr__(self, name, val):
        ps = self.__dict__.get('parameters')
        if ps:
            for p in ps:
                if p.name == name:
                    p[:] = val
                    return
        object.__setattr__(self, name, val)

    # -- optimizer side
    def _size_transformed(self):
        keep = np.ones(self.size, dtype=bool)
        for c, ix in self.constraints.items():
            if isinstance(c, str):
                keep[_raw(ix)] = False
        return int(keep.sum())

    @property
    def optimizer_array(self):
        x = self.param_array
        keep = np.ones(len(x), dtype=bool)
        for c, ix in self.constraints.items():
            if isinstance(c, str):
                keep[_raw(ix)] = False
                continue
            fnp.np_put(x, ix, c.finv(self.param_array[ix]))
        return x if keep.all() else mk(_raw(x)[keep])

    @optimizer_array.setter
    def optimizer_array(self, p):
        x = self.param_array
        keep = np.ones(len(x), dtype=bool)
        for c, ix in self.constraints.items():
            if isinstance(c, str):
                keep[_raw(ix)] = False
        x[np.flatnonzero(keep)] = p
        for c, ix in self.constraints.items():
            if not isinstance(c, str):
                ii = np.array([int(i) for i in ix if keep[int(i)]], dtype=int)
                fnp.np_put(x, ii, c.f(x[ii]))
        self._scatter(x, lambda l, v: VArr.__setitem__(l, Ellipsis, v))
        self.trigger_update()

    def _transform_gradients(self, g):
        for c, i in self.constraints.items():
            if not isinstance(c, str):
                fnp.np_put(g, i, c.gradfactor(self.param_array[i], g[i]))
        keep = np.ones(len(g), dtype=bool)
        for c, i in self.constraints.items():
            if isinstance(c, str):
                keep[_raw(i)] = False
        return g if keep.all() else mk(_raw(g)[keep])

    def __str__(self):
        return self.name or 'node'
    __repr__ = __str__


class Model(Parameterized):
    def __init__(self, name, *a, **kw):
        super().__init__(name, *a, **kw)
        self.optimization_runs = []
        self.preferred_optimizer = 'lbfgsb'
        self.obj_grads = None

    def log_likelihood(self):
        raise NotImplementedError

    def _grads(self, x):
        self.optimizer_array = x
        self.obj_grads = self._transform_gradients(self.objective_function_gradients())
        return self.obj_grads

    def _objective(self, x):
        self.optimizer_array = x
        return self.objective_function()

    def _objective_grads(self, x):
        self.optimizer_array = x
        g = self._transform_gradients(self.objective_function_gradients())
        return self.objective_function(), g

    def objective_function(self):
        return -float(self.log_likelihood())

    def objective_function_gradients(self):
        return -self.gradient

    def optimize(self, optimizer=None, start=None, messages=False, max_iters=1000, ipython_notebook=True,
                 clear_after_finish=False, **kw):
        if self.is_fixed or self.size == 0:
            return None
        if not self.update_model():
            self.update_model(True)
        if start is None:
            start = self.optimizer_array
        if not isinstance(optimizer, Optimizer):
            raise Unsupported('built-in paramz optimizer')
        optimizer.model = self
        optimizer.run(start, f_fp=self._objective_grads, f=self._objective, fp=self._grads)
        self.optimizer_array = optimizer.x_opt
        self.optimization_runs.append(optimizer)
        return optimizer


class Optimizer:
    def __init__(self, messages=False, max_f_eval=1e4, max_iters=1e3, ftol=None, gtol=None, xtol=None, bfgs_factor=None):
        self.opt_name = None
        self.x_opt = None
        self.f_opt = None
        self.status = None
        self.max_iters = max_iters

    def run(self, x_init, **kw):
        self.x_init = x_init
        self.opt(self.x_init, **kw)

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        raise NotImplementedError


TRANSFORMS = None      # set by the loader: the real transformations module


def modules(load_source):
    """Module objects by dotted name.  load_source(name, relpath) executes the
    installed paramz source through the facades."""
    global TRANSFORMS
    M = {}

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        M[name] = m
        return m
    root = mod('paramz', Param=Param, Parameterized=Parameterized, Model=Model)
    mod('paramz.core', Parameterizable=Parameterizable)
    mod('paramz.core.index_operations', ParameterIndexOperations=PIO)
    mod('paramz.core.parameter_core', Parameterizable=Parameterizable)
    mod('paramz.param', Param=Param)
    mod('paramz.parameterized', Parameterized=Parameterized)
    mod('paramz.model', Model=Model)
    mod('paramz.optimization', Optimizer=Optimizer)
    return M, root


def set_transforms(m):
    global TRANSFORMS
    TRANSFORMS = m
