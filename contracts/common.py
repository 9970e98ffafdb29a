"""Value classes and helpers shared by the contracts."""
import jax
import jax.numpy as jnp
import numpy as np

from jxv.contract import (  # noqa: F401
    A, And, Case, Count, FALSE, Iff, Implies, Ite, NS, Not, Or, S, TRUE, V, bv, leaves, lit, map_tree, same_tree, sds,
)
from xtructure import FieldDescriptor, xtructure_dataclass

F = FieldDescriptor


@xtructure_dataclass
class One:
    a: F.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Byte:
    a: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class Inner:
    p: F.scalar(dtype=jnp.int16)
    q: F.tensor(dtype=jnp.uint8, shape=(2,))


@xtructure_dataclass
class Mixed:
    """scalar, vector, float, bool and nested fields"""

    a: F.scalar(dtype=jnp.uint32)
    b: F.tensor(dtype=jnp.float32, shape=(2,))
    c: F.scalar(dtype=jnp.bool_)
    d: F.scalar(dtype=Inner)


@xtructure_dataclass
class Mat:
    """matrix field whose intrinsic shape can collide with batch sizes"""

    m: F.tensor(dtype=jnp.int32, shape=(2, 3))
    s: F.scalar(dtype=jnp.uint8)


def inst(cls, batch=()):
    """abstract instance of cls with the given batch shape (real Class.default)"""
    return sds(jax.eval_shape(lambda: cls.default(batch)))


def row(tree, i):
    """static row i of every leaf"""
    return map_tree(tree, lambda x: x[i] if not isinstance(x[i], V) else A0(x[i]))


def A0(v):
    from jxv.interp import SArr

    e = np.empty((), dtype=object)
    e[()] = v.e
    return A(SArr(v.dt, el=e))


def row_at(tree, v):
    """row at a (symbolic) index V of every leaf; index must be in range"""
    def f(x):
        r = x.at(v)
        return A0(r) if isinstance(r, V) else r

    return map_tree(tree, f)


def u32(x):
    return lit(x, np.uint32)


def rand_tree(rng, tmpl):
    from jxv.runcase import rand_leaf

    return jax.tree_util.tree_map(lambda l: rand_leaf(rng, l.shape, l.dtype), tmpl)


@xtructure_dataclass
class Deep:
    """two levels of nesting, one-field inner class"""

    n: F.scalar(dtype=Mixed)
    o: F.scalar(dtype=One)


@xtructure_dataclass(aggregate_bitpack=True)
class Agg:
    """aggregate bit-packed: 1, 3, 12 and 17 bit fields (79 bits, word straddling, 2 tail bytes)"""

    flag: F.scalar(dtype=jnp.bool_, bits=1)
    small: F.tensor(dtype=jnp.uint8, shape=(3,), bits=3)
    mid: F.tensor(dtype=jnp.uint16, shape=(2, 2), bits=12)
    big: F.scalar(dtype=jnp.uint32, bits=21)


def same_struct(a, b):
    """same field paths, shapes and dtypes"""
    la, lb = leaves(a), leaves(b)
    return [p for p, _ in la] == [p for p, _ in lb] and all(x.shape == y.shape and x.dtype == y.dtype for (_, x), (_, y) in zip(la, lb))


def const_val(c, dt):
    """the Python constant c converted to dtype dt"""
    return lit(np.asarray(c).astype(dt)[()], dt)


def same_content(a, b):
    """two unbatched entries have bitwise equal fields"""
    return same_tree(a, b)


BITS = {"flag": 1, "small": 3, "mid": 12, "big": 21}


def within_bits(x, bits):
    """every element of every field fits its declared bit width"""
    out = []
    for p, l in leaves(x):
        n = bits[p if len(p) > 1 else p[0]] if (p if len(p) > 1 else p[0]) in bits else bits[p[-1]]
        w = l.flat()[0].w if l.flat() else 0
        if w and n < w:
            out += [(v >> lit(n, v.dt)) == lit(0, v.dt) if np.dtype(v.dt).kind == "u" else (v.raw() >> lit(n, v.raw().dt)) == lit(0, v.raw().dt) for v in l.flat()]
    return And(out)
