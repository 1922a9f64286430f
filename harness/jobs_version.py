"""A process in which segpy has another version."""

import io
import pickle
import sys


class Apart(pickle.Pickler):
    """Leaves headers and packers within other objects out of a pickle, so that each class is judged by itself."""

    def __init__(self, file, protocol, whole, live):
        super().__init__(file, protocol)
        self._whole = whole
        self._live = live

    def persistent_id(self, obj):
        from segpy.header import Header
        from segpy.packer import HeaderPacker
        if obj is not self._whole and isinstance(obj, (Header, HeaderPacker)):
            self._live.append(obj)
            return str(len(self._live) - 1)
        return None


class Together(pickle.Unpickler):

    def __init__(self, file, live):
        super().__init__(file)
        self._live = live

    def persistent_load(self, pid):
        return self._live[int(pid)]


def unpickle_with_versions(versions, items, protocol):
    import segpy
    import segpy.reader, segpy.header, segpy.packer, segpy.binary_reel_header, segpy.trace_header, harness.jobs
    pickles = []
    names = []
    for data in items:
        obj = pickle.loads(data)
        names.append(type(obj).__name__)
        live = []
        f = io.BytesIO()
        Apart(f, protocol, obj, live).dump(obj)
        pickles.append((f.getvalue(), live))

    def restore():
        out = []
        for data, (alone, live) in zip(items, pickles):
            for load in (lambda: pickle.loads(data), lambda: Together(io.BytesIO(alone), live).load()):
                try:
                    load()
                    out.append('accepted')
                except Exception as e:
                    out.append(type(e).__name__)
        return out

    results = {None: restore()}
    changed = 0
    for version in versions:
        for name, module in list(sys.modules.items()):
            if (name == 'segpy' or name.startswith('segpy.')) and hasattr(module, '__version__'):
                module.__version__ = version
                changed += 1
        results[version] = restore()
    return changed, names, results
