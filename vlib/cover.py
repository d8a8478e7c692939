"""Development helper: which lines of nimble ran while a monitor watched.

With VERIF_COV=<directory> every worker writes the lines of /repo/nimble it
executed, one json file for each worker. Each line costs one event, so the
speed of a check hardly changes."""
import json
import os
import sys

from vlib import env

_lines = {}
_on = False


def start():
    """Begin recording, if asked to."""
    global _on
    if not os.environ.get('VERIF_COV') or _on:
        return
    _on = True
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, 'verif')
    root = os.path.join(env.REPO, 'nimble') + os.sep

    def line(code, number):
        name = code.co_filename
        if name.startswith(root):
            _lines.setdefault(name[len(root):], set()).add(number)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)


def dump(label):
    """Write what this process executed."""
    if not _on:
        return
    target = os.path.join(os.environ['VERIF_COV'],
                          f'{label}-{os.getpid()}.json')
    with open(target, 'w') as out:
        json.dump({k: sorted(v) for k, v in _lines.items()}, out)
