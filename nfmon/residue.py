"""
Monitors for what an operation leaves behind in the process: threads, tasks, event
loops, open files, files, and changed settings.
"""
import asyncio
import contextlib
import gc
import logging
import os
import signal
import sys
import tempfile
import threading
import time
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from .core import Violation

SIGNALS = [
    s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGCHLD,
                signal.SIGUSR1, signal.SIGXFSZ, signal.SIGPIPE)
]


def open_files():
    """Descriptors and what they refer to."""
    out = {}
    for name in os.listdir('/proc/self/fd'):
        try:
            out[int(name)] = os.readlink('/proc/self/fd/' + name)
        except OSError:
            # the one which lists the directory
            pass
    return out


def tree(path):
    out = []
    for root, dirs, files in os.walk(path):
        out += [os.path.join(root, f) for f in files + dirs]
    return sorted(out)


def settings():
    """Settings of the process, by name."""
    umask = os.umask(0o077)
    os.umask(umask)
    out = dict(
        directory=os.getcwd(),
        environment=dict(os.environ),
        umask=umask,
        floating_point_errors=np.geterr(),
        print_options=str(np.get_printoptions()),
        warning_filters=[str(f) for f in warnings.filters],
        random_state=hash(np.random.get_state()[1].tobytes()),  # pylint: disable=no-member
        signals=[str(signal.getsignal(s)) for s in SIGNALS],
        recursion_limit=sys.getrecursionlimit(),
        switch_interval=sys.getswitchinterval(),
        hooks=[str(h) for h in (sys.excepthook, threading.excepthook, sys.unraisablehook)],
        garbage_collector=gc.isenabled(),
        plot_settings=dict(
            (k, str(v)) for k, v in matplotlib.rcParams.items()
        ),
        backend=matplotlib.get_backend(),
        root_log=[logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        log=[logging.getLogger('nodefinder').level, len(logging.getLogger('nodefinder').handlers)],
        event_loop_policy=id(asyncio.get_event_loop_policy()),
        streams=[id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        temporary_directory=tempfile.gettempdir(),
        search_path=list(sys.path),
    )
    return out


class Noise(logging.Handler):
    """Collects complaints about what was left over."""
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def unraisable(self, args):
        self.lines.append('{}: {!r}'.format(args.err_msg, args.exc_value))


@contextlib.contextmanager
def nothing_left(what, *, figures=0, allowed_files=(), allowed_noise=None, details=None):
    """
    Check that the block leaves nothing behind. `figures` is the number of new
    figures, `allowed_noise` a text in messages which are allowed.
    """
    details = details or {}
    noise = Noise()
    gc.collect()
    log = logging.getLogger('asyncio')
    log.addHandler(noise)
    threads = set(threading.enumerate())
    files = open_files()
    before = settings()
    figs = list(plt.get_fignums())
    content = tree(os.getcwd())
    hook = sys.unraisablehook
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always', ResourceWarning)
            # 'coroutine was never awaited'
            warnings.filterwarnings('always', message='.*never.*', category=RuntimeWarning)
            inner = settings()
            sys.unraisablehook = noise.unraisable
            try:
                yield noise
            finally:
                gc.collect()
                sys.unraisablehook = hook
            after = settings()
    finally:
        log.removeHandler(noise)
        sys.unraisablehook = hook
    for name, val in after.items():
        if name in ('hooks', ):
            continue
        if val != inner[name]:
            old = inner[name]
            if isinstance(val, dict):
                old = {k: v for k, v in old.items() if val.get(k) != v}
                val = {k: v for k, v in val.items() if k in old or k not in inner[name]}
            raise Violation('{} changes the {} of the process'.format(what, name.replace('_', ' ')),
                            before=old, after=val, **details)
    if settings()['hooks'] != before['hooks']:
        raise Violation('{} changes hooks of the process'.format(what), **details)
    left = [t for t in threading.enumerate() if t not in threads]
    if left:
        raise Violation('{} leaves threads behind'.format(what), threads=[str(t) for t in left], **details)
    for _ in range(5):
        new_files = {k: v for k, v in open_files().items() if k not in files}
        if not new_files:
            break
        # other threads of the check can open a file for a short time
        time.sleep(0.01)
    if new_files:
        raise Violation('{} leaves open files'.format(what), files=new_files, **details)
    now = tree(os.getcwd())
    allowed = set(os.path.abspath(f) for f in allowed_files)
    extra = [f for f in now if f not in content and f not in allowed]
    if extra:
        raise Violation('{} leaves files behind'.format(what), files=extra, **details)
    gone = [f for f in content if f not in now and f not in allowed]
    if gone:
        raise Violation('{} removes files'.format(what), files=gone, **details)
    new_figs = len(plt.get_fignums()) - len(figs)
    if new_figs != figures:
        raise Violation('{} opens {} figures'.format(what, new_figs), expected=figures, **details)
    bad = [str(c.message) for c in caught if issubclass(c.category, ResourceWarning)]
    bad += [str(c.message) for c in caught
            if issubclass(c.category, RuntimeWarning) and 'never' in str(c.message)]
    if bad:
        raise Violation('{} leaves something unclosed'.format(what), messages=bad, **details)
    if allowed_noise is not None:
        noise.lines = [line for line in noise.lines if allowed_noise not in line]
    if noise.lines:
        raise Violation('{} leaves unfinished tasks or unretrieved exceptions'.format(what),
                        messages=noise.lines, **details)


def alive(refs):
    """The weak references (with name) to objects which are kept alive."""
    left = []
    for wait in [0., 0.02, 0.1, 0.5]:
        # the watchdog can hold the current frames for a short time
        time.sleep(wait)
        gc.collect()
        left = [(ref, name) for ref, name in refs if ref() is not None]
        if not left:
            break
    return left


def require_freed(refs, message, obs, **details):
    for ref, name in alive(refs):
        raise Violation(
            message.format(name),
            referrers=[repr(type(r)) + repr(r)[:200] for r in gc.get_referrers(ref())][:6],
            **details
        )
    obs.count('freed', len(refs))
