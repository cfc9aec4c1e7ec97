"""
Which lines of rf are executed by the workload (sys.monitoring, Python 3.12)

Lines are recorded only to report the reach of the workload in the evidence,
no verdict depends on them.
"""
import os
import sys

TOOL = 4
_lines = set()
_root = None


def _start(code, offset):
    if code.co_filename.startswith(_root):
        sys.monitoring.set_local_events(TOOL, code,
                                        sys.monitoring.events.LINE)
    return sys.monitoring.DISABLE


def _line(code, line):
    _lines.add((code.co_filename[len(_root):], line))
    return sys.monitoring.DISABLE


def start(root):
    global _root
    mon = getattr(sys, 'monitoring', None)
    if mon is None or mon.get_tool(TOOL) is not None:
        return
    _root = os.path.join(os.path.realpath(root), 'rf') + os.sep
    mon.use_tool_id(TOOL, 'reach')
    mon.register_callback(TOOL, mon.events.PY_START, _start)
    mon.register_callback(TOOL, mon.events.LINE, _line)
    mon.set_events(TOOL, mon.events.PY_START)


def lines():
    return sorted(_lines)


def _functions(code, top=True):
    """lines of all functions below the code of a module"""
    out = set()
    for const in code.co_consts:
        if hasattr(const, 'co_code'):
            if const.co_flags & 2:  # optimized: a function, no class body
                out |= {ln for *_, ln in const.co_lines() if ln and
                        ln != const.co_firstlineno}
            out |= _functions(const, False)
    return out


def possible(root):
    """lines of functions of rf which can be executed"""
    out = {}
    base = os.path.join(os.path.realpath(root), 'rf')
    for name in sorted(os.listdir(base)):
        if name.endswith('.py') and name != '__init__.py':
            with open(os.path.join(base, name), encoding='utf-8') as f:
                src = f.read()
            try:
                out[name] = _functions(compile(src, name, 'exec'))
            except SyntaxError:
                pass
    return out
