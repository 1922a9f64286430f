"""What checks do in other processes, and header formats which can be imported there."""

import os
import pickle

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16
from segpy.header import field
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness.observe import content


class WideRev1(TraceHeaderRev1):
    """Revision 1 with the unassigned bytes."""
    unassigned_3 = field(NNInt16, offset=239, default=0, documentation="Unassigned 3")
    unassigned_1 = field(Int16, offset=233, default=7, documentation="Unassigned 1")
    unassigned_2 = field(Int32, offset=235, default=0, documentation="Unassigned 2")


class LinesRev0(TraceHeaderRev0):
    """Revision 0 with line numbers elsewhere."""
    crossline_number = field(Int32, offset=233, default=0, documentation="Crossline")
    inline_number = field(Int32, offset=237, default=0, documentation="Inline")


class WideBinary(BinaryReelHeader):
    extra_b = field(Int32, offset=3597, default=0, documentation="At the end")
    extra_a = field(Int16, offset=3261, default=-3, documentation="Just after the assigned part")


TRACE = {'rev0': TraceHeaderRev0, 'rev1': TraceHeaderRev1, 'wide': WideRev1, 'lines0': LinesRev0}
BINARY = {'standard': BinaryReelHeader, 'wide': WideBinary}


def arguments(a):
    """Arguments for create_reader() from a plain dictionary."""
    a = dict(a)
    a['trace_header_format'] = TRACE[a.pop('trace', 'rev1')]
    a['binary_reel_header_format'] = BINARY[a.pop('binary', 'standard')]
    return a


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('error', type(e).__name__)


def read(path, a):
    """The outcome of creating a reader and reading everything."""
    with open(path, 'rb') as f:
        return outcome(lambda: content(create_reader(f, **arguments(a))))


def read_many(path, a, times):
    return [read(path, a) for _ in range(times)]


def unpickle_reader(data):
    reader = pickle.loads(data)
    return content(reader)


def unpickle(data):
    return pickle.loads(data)
