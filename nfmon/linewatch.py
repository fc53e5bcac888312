"""
Line events of the code which is involved in saving, by means of sys.monitoring.
"""
import os
import sys

from .core import REPO

_DIRS = (os.path.join(REPO, 'nodefinder') + os.sep, )
_PARTS = ('/fsc/hdf5_io/', '/fsc/async_tools/', '/h5py/_hl/')
_NAMES = ('tempfile.py', 'shutil.py', 'pathlib.py', 'os.py', 'queue.py')
# the minimization itself is not interesting
_EXCLUDE = ('/_minimization/_nelder_mead.py', )

TOOL = 4


def kind_of(code):
    """'save', 'io', 'search' or None if not of interest."""
    name = code.co_filename
    own = name.startswith(_DIRS)
    if own and any(x in name for x in _EXCLUDE):
        return None
    if own:
        return 'save' if code.co_name == 'save' else 'search'
    if any(p in name for p in _PARTS):
        return 'io'
    if os.path.basename(name) in _NAMES and '/lib/python3' in name:
        return 'io'
    return None


class LineWatch:
    """Calls `callback(index, kind)` for each executed line of interest."""
    def __init__(self, callback):
        self.callback = callback
        self.index = 0
        self.busy = False
        self.kinds = {}

    def _event(self, code, line):
        if self.busy:
            return None
        try:
            kind = self.kinds[code]
        except KeyError:
            kind = self.kinds[code] = kind_of(code)
        if kind is None:
            return sys.monitoring.DISABLE
        self.busy = True
        try:
            self.callback(self.index, kind)
            self.index += 1
        finally:
            self.busy = False
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'nfmon')
        mon.register_callback(TOOL, mon.events.LINE, self._event)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
