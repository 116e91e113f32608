"""C01: MPI.distribute splits work into a balanced, exact, ordered partition."""
import numpy as np
from engine.contract import contract, bounded
import elphmod


@contract('C01', trials=60)
def distribute_bounds(V):
    chunks = V.dim('chunks', small=(1, 9))
    size = V.int('size', lo=0, small=(0, 30))
    sizes, b = V.call(elphmod.MPI.distribute, size, bounds=True, chunks=chunks)
    V.eq('one size per chunk', V.shape(sizes)[0], chunks)
    V.eq('one bound more than chunks', V.shape(b)[0], chunks + 1)
    V.eq('the first chunk starts at zero', b[0], 0)
    V.eq('the last chunk ends at size', b[chunks], size)
    V.forall('chunk i spans bounds[i]..bounds[i+1]', [chunks], lambda i: (b[i + 1], b[i] + sizes[i]))
    V.forall('no negative chunk', [chunks], lambda i: sizes[i] >= 0)
    V.forall('balanced: sizes differ by at most one', [chunks, chunks],
             lambda i, j: V.and_(sizes[i] - sizes[j] <= 1, sizes[j] - sizes[i] <= 1))
    V.eq('sizes add up to size', V.sum(chunks, lambda i: sizes[i]), size)


@contract('C01', trials=60)
def distribute_sizes(V):
    chunks = V.dim('chunks', small=(1, 9))
    size = V.int('size', lo=0, small=(0, 30))
    sizes = V.call(elphmod.MPI.distribute, size, chunks=chunks)
    s2, b = V.call(elphmod.MPI.distribute, size, bounds=True, chunks=chunks)
    V.eq('with and without bounds agree', sizes, s2)
