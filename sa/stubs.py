"""Meaning of the external classes that the analysed code builds on (interpreted, never executed)."""
import collections
import torch


def initial(salt, shape):
    """the start value of a layer's parameter; sa.rules.c21.initial is the same function"""
    n = 1
    for s in shape:
        n = n * s
    return torch.tensor([((i * 37 + salt * 11) % 41 - 20) / 32 for i in range(n)]).view(shape)


def pair(v, k):
    if isinstance(v, int):
        return (v,) * k
    return tuple(v)


class Module:
    pass


class Linear:
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        self.weight = initial(1, (out_features, in_features))
        self.bias = initial(2, (out_features,)) if bias else None


class _Conv:
    D = 1

    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True):
        self.weight = initial(1, (out_channels, in_channels // groups) + pair(kernel_size, self.D))
        self.bias = initial(2, (out_channels,)) if bias else None


class Conv1d(_Conv):
    D = 1


class Conv2d(_Conv):
    D = 2


class BatchNorm1d:
    def __init__(self, num_features, eps=1e-05, momentum=0.1, affine=True, track_running_stats=True):
        self.weight = torch.ones(num_features)
        self.bias = torch.zeros(num_features)
        self.running_mean = torch.zeros(num_features)
        self.running_var = torch.ones(num_features)


class Optimizer:
    def __init__(self, params, defaults):
        self.defaults = defaults
        self.state = collections.defaultdict(dict)
        self.param_groups = []
        groups = list(params)
        if len(groups) == 0:
            raise ValueError("optimizer got an empty parameter list")
        if not isinstance(groups[0], dict):
            groups = [{"params": groups}]
        for group in groups:
            self.add_param_group(group)


class ModuleList:
    def _get_abs_string_index(self, idx):
        if not (-len(self) <= idx < len(self)):
            raise IndexError("index is out of range")
        if idx < 0:
            idx += len(self)
        return str(idx)

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return self.__class__(list(self._modules.values())[idx])
        return self._modules[self._get_abs_string_index(idx)]

    def __setitem__(self, idx, module):
        return setattr(self, self._get_abs_string_index(idx), module)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __iadd__(self, modules):
        return self.extend(modules)

    def insert(self, index, module):
        for i in range(len(self._modules), index, -1):
            self._modules[str(i)] = self._modules[str(i - 1)]
        self._modules[str(index)] = module

    def append(self, module):
        self.add_module(str(len(self)), module)
        return self

    def extend(self, modules):
        offset = len(self)
        for i, module in enumerate(modules):
            self.add_module(str(offset + i), module)
        return self


class ModuleDict:
    def __getitem__(self, key):
        return self._modules[key]

    def __setitem__(self, key, module):
        self.add_module(key, module)

    def __delitem__(self, key):
        del self._modules[key]

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules)

    def __contains__(self, key):
        return key in self._modules

    def clear(self):
        self._modules.clear()

    def pop(self, key):
        v = self[key]
        del self[key]
        return v

    def keys(self):
        return self._modules.keys()

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()

    def update(self, modules):
        for key, module in modules.items():
            self[key] = module

    def forward(self):
        raise NotImplementedError()

