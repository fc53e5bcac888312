"""Saving which fails some times."""
import contextlib
import os

import h5py


@contextlib.contextmanager
def failing_saves(rng, *, first, number, on_failure=lambda: None):
    """
    The saves from the first one (by the number of renames, or of files which are
    opened for writing) fail as if the disk was full. Ends when 'armed' is set to
    False in the yielded dictionary.
    """
    state = dict(armed=True, calls=0, failed=0)
    where = ['rename', 'open', 'write'][int(rng.integers(3))]
    within = int(rng.integers(0, 4))
    writes = [0]

    def save_starts():
        """Returns True if this save fails."""
        if not state['armed']:
            return False
        idx = state['calls']
        state['calls'] += 1
        return first <= idx < first + number

    def fail():
        state['failed'] += 1
        on_failure()
        raise OSError(28, 'No space left on device (injected)')

    saved = []

    def patch(obj, name, wrapper):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, wrapper)

    if where == 'rename':
        for name in ('rename', 'replace'):
            def rename(*args, _orig=getattr(os, name), **kwargs):
                if save_starts():
                    fail()
                return _orig(*args, **kwargs)

            patch(os, name, rename)
    else:
        orig_open, orig_set = h5py.File.__init__, h5py.Group.__setitem__

        def open_file(self, name, mode='r', *args, **kwargs):
            if mode != 'r':
                failing = save_starts()
                if failing and where == 'open':
                    fail()
                writes[0] = within + 1 if failing else 0
            return orig_open(self, name, mode, *args, **kwargs)

        def set_item(self, *args):
            if writes[0]:
                writes[0] -= 1
                if not writes[0] and state['armed']:
                    fail()
            return orig_set(self, *args)

        patch(h5py.File, '__init__', open_file)
        patch(h5py.Group, '__setitem__', set_item)
    try:
        yield state
    finally:
        for obj, name, orig in saved:
            setattr(obj, name, orig)
