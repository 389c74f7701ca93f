"""Fresh, instrumented instances of the code under test.

Every execution imports `aiuti` anew from <repo>/aiuti; all code objects of the
package carry PEP 669 LINE events, each of which is a preemption point when it
fires in a managed thread.
"""
import os
import sys
import types
import importlib.abc
import importlib.util

from . import sim

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'aiuti')

_mon = sys.monitoring
TOOL = 3
_code = {}                 # module name -> (code, path, is_pkg)
lines_hit = set()          # (file, line) executed in managed threads
line_hook = None           # optional callable(code, line) (C13)


def _all_codes(co):
    yield co
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            yield from _all_codes(c)


def _on_line(code, line):
    s = sim._sim
    if s is None:
        if line_hook is not None:
            line_hook(code, line)
        else:
            lines_hit.add((code.co_filename, line))
        return
    mt = sim._managed.get(sim._get_ident())
    if mt is None:
        return
    if not code.co_filename.startswith(PKG):
        if s.deep:
            s.deep_points += 1
            s.point(mt)
        return
    lines_hit.add((code.co_filename, line))
    if s.on_line is not None and not s.aborting:
        s.on_line()
    s.point(mt)


def _on_c_return(code, offset, callee, arg0):
    """Within a line, CPython can switch threads after any call to C."""
    s = sim._sim
    if s is None or not s.fine:
        return
    mt = sim._managed.get(sim._get_ident())
    if mt is not None:
        s.fine_points += 1
        s.point(mt)


EVENTS = _mon.events.LINE | _mon.events.CALL


def _setup():
    _mon.use_tool_id(TOOL, 'vf')
    _mon.register_callback(TOOL, _mon.events.C_RETURN, _on_c_return)
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)


def instrument(co, only=None):
    for c in _all_codes(co):
        if only is None or c.co_name in only:
            _mon.set_local_events(TOOL, c, _mon.events.LINE)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != 'aiuti' and not name.startswith('aiuti.'):
            return None
        if name == 'aiuti._version':
            return importlib.util.spec_from_loader(name, self)
        rel = name.split('.')[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base):
            f, pkg = os.path.join(base, '__init__.py'), True
        else:
            f, pkg = base + '.py', False
        if not os.path.isfile(f):
            return None
        spec = importlib.util.spec_from_file_location(
            name, f, loader=self,
            submodule_search_locations=[base] if pkg else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        if name == 'aiuti._version':
            module.get_versions = lambda: {'version': '0'}
            return
        co = _code.get(name)
        if co is None:
            path = module.__spec__.origin
            with open(path, 'rb') as fh:
                src = fh.read()
            co = compile(src, path, 'exec', dont_inherit=True)
            for c in _all_codes(co):
                # module bodies and class bodies run at import: no events
                if c.co_flags & 0x2:      # CO_NEWLOCALS: functions
                    _mon.set_local_events(TOOL, c, EVENTS)
            _code[name] = co
        exec(co, module.__dict__)


_setup()
sys.meta_path.insert(0, _Finder())


def _plumbing():
    """Code objects of Python's own loop, future and executor plumbing."""
    import asyncio.base_events as be
    import asyncio.futures as fu
    import asyncio.tasks as tk
    import concurrent.futures._base as cb
    import concurrent.futures.thread as ct
    import queue
    import threading
    B = be.BaseEventLoop
    for f in (B.run_forever, B.run_until_complete, B.close, B.stop, B.is_running,
              B.call_soon_threadsafe, B.call_soon, B._call_soon, B._check_closed,
              B._check_running, B._run_once, B.create_task, tk.run_coroutine_threadsafe,
              fu._chain_future, fu.wrap_future, ct._worker, ct._WorkItem.run,
              *vars(cb.Future).values(), *vars(ct.ThreadPoolExecutor).values(),
              *vars(queue.Queue).values(), *vars(threading.Event).values()):
        if isinstance(f, types.FunctionType):
            yield from _all_codes(f.__code__)


_stdlib = [None, False]


def preempt_stdlib(on):
    """Preemption points there, too (or no more)."""
    if on == _stdlib[1]:
        return
    if _stdlib[0] is None:
        _stdlib[0] = list(_plumbing())
    for c in _stdlib[0]:
        _mon.set_local_events(TOOL, c, _mon.events.LINE if on else 0)
    _stdlib[1] = on


def fresh(*names):
    """Import the package anew; returns the requested submodules."""
    for m in [m for m in sys.modules if m == 'aiuti' or m.startswith('aiuti.')]:
        del sys.modules[m]
    out = []
    for n in names:
        out.append(importlib.import_module('aiuti.' + n))
    return out[0] if len(out) == 1 else out


def line_table(*names):
    """All (file, line) pairs of function bodies of the given modules."""
    res = set()
    for n in names:
        co = _code.get('aiuti.' + n)
        if co is None:
            continue
        for c in _all_codes(co):
            if c.co_flags & 0x2:
                for _, _, ln in c.co_lines():
                    if ln and ln != c.co_firstlineno:
                        res.add((c.co_filename, ln))
    return res
