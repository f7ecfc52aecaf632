"""Cyclic buffer: the last elements in order."""

import numpy as np
from hypothesis import strategies as st

from building3d.types.cyclic_buffer import convert_to_contiguous, cyclic_buf

from ..core import Sub, check


@st.composite
def spec(draw):
    size = draw(st.integers(10, 300) if draw(st.integers(0, 7)) == 7 else st.integers(1, 9))
    return {"size": size, "width": draw(st.integers(1, 3)), "n": draw(st.integers(0, 4 * size + 2 if size < 10 else 2 * size + 5)),
            "start": draw(st.integers(0, size - 1)), "dtype": draw(st.sampled_from(["float64", "float32", "int32", "int64"])),
            "look": draw(st.sampled_from([1, 2, 5] if size < 10 else [50, 99]))}


def buffer(s, ctx):
    size, w = s["size"], s["width"]
    buf = np.full((size, w), -7, dtype=s["dtype"])
    head = tail = s["start"]
    items = []
    check(len(convert_to_contiguous(buf, head, tail)) == 0, "empty buffer is not empty")
    for i in range(s["n"]):
        x = np.array([3 * i + k for k in range(w)], dtype=s["dtype"])
        buf, head, tail = cyclic_buf(buf, head, tail, x, size)
        check(0 <= head < size and 0 <= tail < size, "head %s, tail %s", head, tail)
        items = (items + [x.tolist()])
        if i % s["look"] and i != s["n"] - 1:
            continue
        keep = items[-(size - 1):] if size > 1 else []
        got = convert_to_contiguous(buf, head, tail)
        check(got.dtype == buf.dtype and got.shape == (len(keep), w), "contents have the shape %s and type %s", got.shape, got.dtype)
        check(got.tolist() == keep, "contents are %s, expected %s", got.tolist(), keep)
        # The whole array holds the last `size` elements
        check(sorted(r for r in buf.tolist() if r[0] != -7) == sorted(items[-size:]), "array holds %s", buf.tolist())
        check(buf[(head - 1) % size].tolist() == items[-1], "the newest element is not before the head")
    ctx.label("wrapped" if s["n"] >= size else "not full")
    ctx.mark(s["n"] > size > 1)


SUBS = [Sub("buffer", spec, buffer, 1500, 30000, "more elements than places")]
