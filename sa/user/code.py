"""Code a user of the library might write; analysed together with it."""
import torch
from torch import nn


class Table(nn.Module):
    """One trainable vector per index."""

    def __init__(self, table):
        super().__init__()
        self.table = nn.Parameter(table)

    def forward(self, x):
        return self.table[x[..., 0]]


class OneHotLinear(nn.Module):
    """Linear function of the one-hot form of an index."""

    def __init__(self, weight, num):
        super().__init__()
        self.weight = nn.Parameter(weight)
        self.num = num

    def forward(self, x):
        hot = torch.nn.functional.one_hot(x[..., 0], self.num).to(self.weight.dtype)
        return hot @ self.weight


class Affine(nn.Module):
    """x -> x * w + v for a number or a batch of numbers in a last axis of size one."""

    def __init__(self, w, v):
        super().__init__()
        self.w = nn.Parameter(w)
        self.v = nn.Parameter(v)

    def forward(self, x):
        return x * self.w + self.v


class Phase(nn.Module):
    """x -> (exp(i w x)) for several trainable frequencies."""

    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(w)

    def forward(self, x):
        return torch.exp(1j * x * self.w)


class Frozen(nn.Module):
    """A module without parameters."""

    def forward(self, x):
        return torch.cat([torch.cos(x), torch.sin(x)], dim=-1)


class FrozenMap(nn.Module):
    """The same as a plain function of the data: the new axis is its own."""

    def forward(self, x):
        return torch.stack([torch.cos(x), torch.sin(x)], dim=-1)
