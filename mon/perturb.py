"""
Perturbed schedules of threads: a thread may pause before any line of rf

A pause lets the other threads run, so that an update which is not atomic is
seen half done.  The main thread is not delayed.
"""
import contextlib
import os
import random
import sys
import threading
import time

TOOL = 3


@contextlib.contextmanager
def perturbed(root, seed, p=.2, pause=2e-4, lines=False):
    """
    yields a dict counting the pauses, does nothing for p == 0

    Each execution of a line is delayed with probability p, or with lines=True
    the first executions of a random selection of lines.
    """
    count = {'pauses': 0, 'lines': set()}
    mon = getattr(sys, 'monitoring', None)
    if not p or mon is None or mon.get_tool(TOOL) is not None:
        yield count
        return
    base = os.path.join(os.path.realpath(root), 'rf') + os.sep
    rng = random.Random(seed)
    main = threading.get_ident()

    def start(code, offset):
        if code.co_filename.startswith(base):
            mon.set_local_events(TOOL, code, mon.events.LINE)
            codes.append(code)
        return mon.DISABLE

    def line(code, ln):
        if threading.get_ident() == main:
            return
        if lines:
            key = code.co_name, ln
            n = left.get(key)
            if n is None:
                n = 60 if random.Random('%s %s %d' % (
                    seed, *key)).random() < p else 0
            left[key] = n - 1
            delay = n > 0
        else:
            delay = rng.random() < p
        if delay:
            count['pauses'] += 1
            count['lines'].add((code.co_name, ln))
            time.sleep(pause * rng.random())
    codes = []
    left = {}
    mon.use_tool_id(TOOL, 'perturb')
    try:
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.PY_START)
        yield count
    finally:
        mon.set_events(TOOL, 0)
        for code in codes:
            mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
