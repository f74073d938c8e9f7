"""Representation of an abstract state in a concrete record, proposed by running the native code and proved afterwards:
every component of the specification state is looked up as a slot (offset, size) of the record that holds it."""
import random
from .sym import *


def slots(size):
    for w in (8, 4, 2, 1):
        for o in range(0, size - w + 1, w): yield o, w


def match(comps, traces, size):
    """comps: names;  traces: list of (record bytes, {comp: value});  returns {comp: (off, width)}"""
    out = {}
    for cn in comps:
        ok = []
        for o, w in slots(size):
            if all(int.from_bytes(b[o:o + w], 'little') == (v[cn] & mask(8 * w)) and (v[cn] < (1 << 8 * w)) for b, v in traces): ok.append((o, w))
        # widest slot that never holds anything else wins; a component that is constant in all traces is not trusted
        if len({v[cn] for _, v in traces}) < 2: ok = []
        if ok:
            # prefer the narrowest representation whose neighbours differ, then the widest
            ok.sort(key=lambda x: -x[1]); out[cn] = ok[0]
    return out
