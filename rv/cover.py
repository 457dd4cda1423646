"""Which lines of freegs were executed while the monitors watched.

Uses sys.monitoring (each line reports once per process, so it costs next to nothing). Evidence only: no verdict depends on it.
"""

import glob
import os
import sys

TOOL = 4
seen = set()


def start(repo):
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(TOOL) is not None:
        return
    root = os.path.join(os.path.realpath(repo), "freegs") + os.sep

    def line(code, no):
        if os.path.realpath(code.co_filename).startswith(root):
            seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE

    mon.use_tool_id(TOOL, "rv")
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)


def possible(repo):
    """(file, line) of all statements inside functions"""
    out = {}
    for path in sorted(glob.glob(os.path.join(repo, "freegs", "*.py"))):
        name = os.path.basename(path)
        lines, functions = set(), {}

        def walk(code, inside, qual):
            own = {n for _, _, n in code.co_lines() if n and n != code.co_firstlineno} if inside else set()
            lines.update(own)
            if inside and own and not code.co_name.startswith("<"):
                functions[qual + code.co_name] = own
            for c in code.co_consts:
                if hasattr(c, "co_lines"):
                    is_class = "__qualname__" in c.co_names and "__module__" in c.co_names
                    walk(c, not is_class, qual if not inside and code.co_name == "<module>" else qual + code.co_name + ".")

        try:
            walk(compile(open(path).read(), path, "exec"), False, "")
        except (OSError, SyntaxError):
            continue
        if lines and name != "_version.py" and not name.startswith("test_"):
            out[name] = (lines, functions)
    return out


def report(repo, executed):
    out = {}
    for name, (lines, functions) in possible(repo).items():
        got = {n for f, n in executed if f == name} & lines
        if got:
            out[name] = "%d of %d lines, %d of %d functions" % (len(got), len(lines), sum(1 for v in functions.values() if v & got), len(functions))
    return out


def missing(repo, executed):
    return {name: sorted(lines - {n for f, n in executed if f == name}) for name, (lines, _) in possible(repo).items()}
