"""A simulated accelerator: tensors that live on a second device.

A tensor of that device claims the device "lazy:0" and keeps its values in an ordinary tensor nobody
else can reach.  Operations follow the rules of a real accelerator: operands on different
devices are refused (zero-dimensional CPU operands excepted), results live where the operands
live, values leave only through .cpu()/.to("cpu")/.item() or .numpy(force=True).
The values are computed by the same kernels, so results can be compared to double precision.
"""
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

DEVICE = torch.device("lazy:0")
aten = torch.ops.aten
# both operands may live on different devices
CROSS = {aten._to_copy.default, aten.copy_.default}
# indices may live on the CPU
INDEX = {aten.index.Tensor, aten.index_put.default, aten.index_put_.default, aten._index_put_impl_.default, aten._unsafe_index.Tensor}
# no exception for zero-dimensional CPU operands
STRICT = {aten.cat.default, aten.stack.default, aten.mm.default, aten.bmm.default, aten.mv.default, aten.dot.default, aten.addmm.default, aten.baddbmm.default,
          aten.gather.default, aten.index_select.default, aten.scatter.src, aten.searchsorted.Tensor, aten.bucketize.Tensor}


class DeviceError(RuntimeError):
    pass


class _Wrapper(torch.Tensor):
    """only used to build: the finished object is an ordinary torch.Tensor for every type test"""

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return _run(func, args, kwargs or {})


def _make(elem):
    r = torch.Tensor._make_wrapper_subclass(_Wrapper, elem.size(), strides=elem.stride(), storage_offset=elem.storage_offset(), dtype=elem.dtype,
                                            layout=elem.layout, device=DEVICE, requires_grad=False)
    r.__class__ = torch.Tensor
    r.elem = elem
    return r


def is_dev(t):
    return isinstance(t, torch.Tensor) and t.device.type == DEVICE.type


def _plain(t):
    return isinstance(t, torch.Tensor) and not is_dev(t)


def _run(func, args, kwargs):
    flat, _ = tree_flatten((args, kwargs))
    dev = [t for t in flat if is_dev(t)]
    cpu = [t for t in flat if _plain(t)]
    target = kwargs.get("device", None)
    if target is not None:
        target = torch.device(target)
        if target.type not in ("cpu", DEVICE.type):
            raise DeviceError(f"{func}: unexpected device {target}")
        kwargs = {**kwargs, "device": torch.device("cpu")}
    if dev and cpu and func not in CROSS:
        bad = cpu
        if func in INDEX:
            if not is_dev(args[0]):
                raise DeviceError(f"{func}: indices on {DEVICE}, tensor on cpu")
            val = args[2] if len(args) > 2 else None
            bad = [val] if _plain(val) else []
        if func not in STRICT:
            bad = [t for t in bad if t.dim() > 0]
        muts = func._schema.is_mutable and _plain(args[0])
        if bad or muts:
            raise DeviceError(f"Expected all tensors to be on the same device, but found {DEVICE} and cpu ({func})")
    out_dev = bool(dev)
    if target is not None:
        out_dev = target.type == DEVICE.type
    elif func is aten.copy_.default:
        out_dev = is_dev(args[0])
    un = lambda t: t.elem if is_dev(t) else t
    a, k = tree_map(un, args), tree_map(un, kwargs)
    out = func(*a, **k)
    if not out_dev:
        if dev and func is aten._to_copy.default:
            return out.clone() if any(out is t.elem for t in dev) else out
        if func._schema.is_mutable and args and isinstance(args[0], torch.Tensor):
            return args[0]
        return out

    def wrap(t):
        if not isinstance(t, torch.Tensor):
            return t
        t = t.resolve_conj().resolve_neg()
        return _make(t)

    if func._schema.is_mutable:
        # in place: hand back the very tensors that were given
        names = [q for q in func._schema.arguments if q.alias_info is not None and q.alias_info.is_write]
        if len(names) == 1 and func._schema.arguments[0] is not None and names[0].name == func._schema.arguments[0].name:
            return args[0]
        raise DeviceError(f"{func}: out= form is not simulated")
    return tree_map(wrap, out)


class Device(TorchDispatchMode):
    """while active, factories accept the simulated device"""

    def __enter__(self):
        self.lift = torch._C._only_lift_cpu_tensors()
        torch._C._set_only_lift_cpu_tensors(True)  # torch.tensor(..., device=...) first builds on the CPU
        self.text = torch._tensor_str._str  # printing suspends the mode
        old = torch.Tensor.tolist
        torch.Tensor.tolist = lambda t: old(t.elem if is_dev(t) else t)
        num = torch.Tensor.numpy

        def numpy(t, *, force=False):
            if is_dev(t):
                if not force:
                    raise DeviceError(f"cannot convert a tensor on {DEVICE} to numpy")
                t = t.detach().elem.clone()  # what .detach().cpu() gives
            return num(t, force=force)

        torch.Tensor.numpy = numpy
        torch._tensor_str._str = lambda t, **k: self.text(t.elem if is_dev(t) else t, **k)
        return super().__enter__()

    def __exit__(self, *a):
        torch._C._set_only_lift_cpu_tensors(self.lift)
        torch._tensor_str._str = self.text
        del torch.Tensor.tolist
        del torch.Tensor.numpy
        return super().__exit__(*a)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return _run(func, args, kwargs or {})


def put(t, grad=False):
    """the tensor on the simulated device, as a leaf"""
    d = _make(torch.as_tensor(t).detach().clone().resolve_conj())
    return d.requires_grad_(True) if grad else d


def value(t):
    """values of a tensor wherever it lives"""
    return t.elem.detach() if is_dev(t) else t.detach()
