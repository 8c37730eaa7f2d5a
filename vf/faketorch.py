"""The part of PyTorch that an adaptor to numpy needs, on top of numpy.

PyTorch is not installed in this sandbox.  This stand-in follows its
documented semantics: `tensor` copies and `from_numpy` shares memory, only
leaves keep a gradient, gradients accumulate over backward passes, `view`
needs contiguous data.  What is missing raises Unsupported, upon which a case
is set aside instead of judged.
"""
import contextlib
import sys
import types

import numpy as np


class Unsupported(Exception):
    pass


class dtype:
    def __init__(self, name):
        self.np = np.dtype(name)
        self.is_floating_point = self.np.kind == "f"

    def __repr__(self):
        return "torch." + self.np.name


class device:
    def __init__(self, name="cpu"):
        self.type = name.type if isinstance(name, device) else str(name).split(":")[0]

    def __eq__(self, other):
        return isinstance(other, (device, str)) and device(other).type == self.type

    def __hash__(self):
        return hash(self.type)


DTYPES = {n: dtype(n) for n in ("float32", "float64", "int64", "int32", "bool")}
OF = {d.np: d for d in DTYPES.values()}
GRAD = [True]


def _unbroadcast(g, shape):
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g


class Tensor:
    def __init__(self, data, parents=(), dev="cpu"):
        self._d = data
        self._dev = device(dev)
        self._parents = [p for p in parents if p[0].requires_grad] if GRAD[0] else []
        self._leaf = not self._parents
        self._rg = bool(self._parents)
        self._grad = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Tensor." + name)

    # ------------------------------------------------------------- properties
    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        if not self._leaf and not v:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        if v and self._d.dtype.kind != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self._rg = bool(v)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    @property
    def grad(self):
        return self._grad if self._leaf else None

    @grad.setter
    def grad(self, g):
        self._grad = g

    is_leaf = property(lambda self: self._leaf)
    shape = property(lambda self: self._d.shape)
    ndim = property(lambda self: self._d.ndim)
    dtype = property(lambda self: OF[self._d.dtype])
    device = property(lambda self: self._dev)
    data = property(lambda self: self.detach())

    def size(self):
        return self._d.shape

    def numel(self):
        return self._d.size

    def dim(self):
        return self._d.ndim

    # ------------------------------------------------------------- conversions
    def numpy(self):
        if self._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if self._dev.type != "cpu":
            raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu()" % self._dev.type)
        return self._d

    def __array__(self, dtype=None, copy=None):
        return np.array(self.numpy(), dtype=dtype)

    def item(self):
        if self._d.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self._d.size)
        return self._d.reshape(-1)[0].item()

    def __float__(self):
        return float(self.item())

    def tolist(self):
        return self._d.tolist()

    def detach(self):
        return Tensor(self._d, dev=self._dev)

    def clone(self):
        return Tensor(self._d.copy(), [(self, lambda g: g)], self._dev)

    def contiguous(self):
        return self if self._d.flags.c_contiguous else Tensor(self._d.copy(), [(self, lambda g: g)], self._dev)

    def to(self, *args, dtype=None, device=None, **kw):
        for a in args:
            if isinstance(a, globals()["dtype"]):
                dtype = a
            else:
                device = a
        out = self
        if dtype is not None and dtype.np != out._d.dtype:
            src = out
            out = Tensor(src._d.astype(dtype.np), [(src, lambda g, t=src._d.dtype: g.astype(t))], out._dev)
        if device is not None and globals()["device"](device) != out._dev:
            out = Tensor(out._d.copy(), [(out, lambda g: g)], device)
        return out

    def cpu(self):
        return self.to("cpu")

    def cuda(self):
        return self.to("cuda")

    def double(self):
        return self.to(DTYPES["float64"])

    def float(self):
        return self.to(DTYPES["float32"])

    def type(self, t):
        return self.to(t)

    # ------------------------------------------------------------- shapes
    def _shaped(self, shape):
        old = self._d.shape
        return Tensor(self._d.reshape(shape), [(self, lambda g: g.reshape(old))], self._dev)

    def view(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        if not self._d.flags.c_contiguous:
            raise RuntimeError("view size is not compatible with input tensor's size and stride")
        return self._shaped(shape)

    def reshape(self, *shape):
        return self._shaped(tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape)

    def flatten(self):
        return self._shaped((-1,))

    def ravel(self):
        return self._shaped((-1,))

    def squeeze(self):
        return self._shaped(np.squeeze(self._d).shape)

    def __len__(self):
        return len(self._d)

    def transpose(self, a, b):
        return Tensor(np.swapaxes(self._d, a, b), [(self, lambda g: np.swapaxes(g, a, b))], self._dev)

    def t(self):
        return self.transpose(0, 1)

    T = property(lambda self: Tensor(self._d.T, [(self, lambda g: g.T)], self._dev))

    def __getitem__(self, i):
        def back(g):
            out = np.zeros(self._d.shape, g.dtype)
            np.add.at(out, i, g)
            return out
        return Tensor(np.asarray(self._d[i]), [(self, back)], self._dev)

    # ------------------------------------------------------------- arithmetic
    def _two(self, other, f, da, db):
        o = other if isinstance(other, Tensor) else Tensor(np.asarray(other, dtype=self._d.dtype), dev=self._dev)
        if o._dev != self._dev and o._d.ndim and self._d.ndim:
            raise RuntimeError("Expected all tensors to be on the same device")
        a, b = self._d, o._d
        return Tensor(np.asarray(f(a, b)), [(self, lambda g: _unbroadcast(g * da(a, b), a.shape)),
                                            (o, lambda g: _unbroadcast(g * db(a, b), b.shape))], self._dev)

    def __add__(self, o):
        return self._two(o, np.add, lambda a, b: 1, lambda a, b: 1)

    def __mul__(self, o):
        return self._two(o, np.multiply, lambda a, b: b, lambda a, b: a)

    def __sub__(self, o):
        return self._two(o, np.subtract, lambda a, b: 1, lambda a, b: -1)

    def __truediv__(self, o):
        return self._two(o, np.divide, lambda a, b: 1 / b, lambda a, b: -a / b ** 2)

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return self * -1.0

    def __rsub__(self, o):
        return -self + o

    def __pow__(self, k):
        return self._one(lambda a: a ** k, lambda a: k * a ** (k - 1))

    def _one(self, f, df):
        a = self._d
        return Tensor(np.asarray(f(a)), [(self, lambda g: g * df(a))], self._dev)

    def sin(self):
        return self._one(np.sin, np.cos)

    def exp(self):
        return self._one(np.exp, np.exp)

    def abs(self):
        return self._one(np.abs, np.sign)

    def sum(self):
        a = self._d
        return Tensor(np.asarray(a.sum()), [(self, lambda g: np.broadcast_to(g, a.shape).astype(a.dtype))], self._dev)

    def mean(self):
        return self.sum() / float(self._d.size)

    def __matmul__(self, o):
        a, b = self._d, o._d
        if a.ndim != 2 or b.ndim != 2:
            raise Unsupported("matmul of other than matrices")
        return Tensor(a @ b, [(self, lambda g: g @ b.T), (o, lambda g: a.T @ g)], self._dev)

    # ------------------------------------------------------------- autograd
    def _walk(self):
        order, seen = [], set()

        def visit(t):
            if id(t) in seen:
                return
            seen.add(id(t))
            for p, _ in t._parents:
                visit(p)
            order.append(t)
        visit(self)
        return order[::-1]

    def _grads(self, start):
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if start is None:
            if self._d.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            start = np.ones_like(self._d)
        got = {id(self): start}
        order = self._walk()
        for t in order:
            for p, back in t._parents:
                g = np.asarray(back(got[id(t)]), dtype=p._d.dtype)
                got[id(p)] = got[id(p)] + g if id(p) in got else g
        return order, got

    def backward(self, gradient=None, retain_graph=None, create_graph=False):
        if getattr(self, "_freed", False):
            raise RuntimeError("Trying to backward through the graph a second time")
        order, got = self._grads(gradient)
        for t in order:
            if t._leaf and t._rg:
                g = np.array(got[id(t)]).reshape(t._d.shape)
                if t._grad is None:
                    t._grad = Tensor(g, dev=t._dev)
                else:
                    # in place, as PyTorch does
                    t._grad._d += g
        self._freed = not retain_graph

    def zero_(self):
        self._d[...] = 0
        return self

    def fill_(self, v):
        self._d[...] = v
        return self

    def copy_(self, o):
        self._d[...] = o._d
        return self


Tensor._freed = False


def tensor(data, dtype=None, device="cpu", requires_grad=False):
    if isinstance(data, Tensor):
        data = data._d
    keep = isinstance(data, (np.ndarray, np.generic))
    if keep and any(k < 0 for k in np.asarray(data).strides):
        raise ValueError("At least one stride in the given numpy array is negative")
    a = np.array(data, dtype=None if dtype is None else dtype.np, order="C")
    if dtype is None and not keep and a.dtype == np.float64:
        a = a.astype(np.float32)
    if a.dtype not in OF:
        raise TypeError("can't convert np.ndarray of type %s" % a.dtype)
    out = Tensor(a, dev=device)
    out.requires_grad = requires_grad
    return out


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if any(s < 0 for s in a.strides):
        raise ValueError("At least one stride in the given numpy array is negative")
    return Tensor(a)


def as_tensor(a, dtype=None, device="cpu"):
    if isinstance(a, Tensor):
        return a.to(device, **({} if dtype is None else {"dtype": dtype}))
    if isinstance(a, np.ndarray) and (dtype is None or dtype.np == a.dtype):
        return from_numpy(a).to(device)
    return tensor(a, dtype, device)


@contextlib.contextmanager
def _mode(v):
    old, GRAD[0] = GRAD[0], v
    try:
        yield
    finally:
        GRAD[0] = old


def grad(outputs, inputs, **kw):
    one = isinstance(inputs, Tensor)
    _, got = outputs._grads(None)
    out = []
    for t in [inputs] if one else inputs:
        if id(t) not in got:
            raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph")
        out.append(Tensor(np.array(got[id(t)]).reshape(t._d.shape), dev=t._dev))
    return tuple(out)


def module():
    m = types.ModuleType("torch")
    m.__dict__.update(DTYPES, double=DTYPES["float64"], float=DTYPES["float32"], Tensor=Tensor, tensor=tensor, from_numpy=from_numpy,
                      as_tensor=as_tensor, device=device, dtype=dtype, sum=Tensor.sum, mean=Tensor.mean, sin=Tensor.sin,
                      exp=Tensor.exp, abs=Tensor.abs, no_grad=lambda: _mode(False), enable_grad=lambda: _mode(True),
                      set_grad_enabled=_mode, is_tensor=lambda t: isinstance(t, Tensor), get_default_dtype=lambda: DTYPES["float32"])
    m.autograd = types.ModuleType("torch.autograd")
    m.autograd.grad = grad

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("torch." + name)
    m.__getattr__ = missing
    m.autograd.__getattr__ = missing
    return m


@contextlib.contextmanager
def installed():
    """the stand-in as `torch`, and copt.utils_pytorch on top of it"""
    import importlib
    names, torch = ("torch", "torch.autograd"), module()
    old = {n: sys.modules.get(n) for n in names}
    sys.modules.update(zip(names, (torch, torch.autograd)))
    sys.modules.pop("copt.utils_pytorch", None)
    try:
        yield torch, importlib.import_module("copt.utils_pytorch")
    finally:
        for n in names:
            del sys.modules[n]
            if old[n] is not None:
                sys.modules[n] = old[n]
