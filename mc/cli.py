"""Runs the command-line programs of the repository in a scratch directory."""

import csv
import io
import os
import shutil
import sys
import tempfile

from . import core

_CODE = {}
_DIR = {}


def scratch():
    pid = os.getpid()
    if pid not in _DIR:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _DIR[pid] = tempfile.mkdtemp(prefix = 'mc-cli-', dir = base)
    return _DIR[pid]


def cleanup():
    d = _DIR.pop(os.getpid(), None)
    if d is not None:
        shutil.rmtree(d, ignore_errors = True)


core.CLEANUP.append(cleanup)


class Outcome(object):
    def __init__(self, code, text, written, error):
        self.code, self.text, self.written, self.error = code, text, written, error


def run(tool, args, files, stale = None):
    """Run a program with inputs {name: bytes}; args use the names (and 'OUT' for the output)."""
    d = scratch()
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    for name, data in files.items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(data)
        os.chmod(os.path.join(d, name), 0o444)
    out = os.path.join(d, 'OUT')
    if stale is not None:
        with open(out, 'wb') as f:
            f.write(stale)
    if tool not in _CODE:
        path = os.path.join(core.REPO, tool)
        with open(path, encoding = 'utf-8') as f:
            _CODE[tool] = compile(f.read(), path, 'exec')
    argv, stdout, stderr = sys.argv, sys.stdout, sys.stderr
    sys.argv = [tool] + [os.path.join(d, a) if a in files or a == 'OUT' else a for a in args]
    text = io.StringIO()
    sys.stdout = text
    sys.stderr = text
    code, error = 0, None
    ns = {'__name__': '__main__', '__file__': os.path.join(core.REPO, tool)}
    try:
        exec(_CODE[tool], ns)
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        error = e
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, stdout, stderr
    for k in ('output_file', 'input_file', 'input_mft', 'input_file_volume'):
        if hasattr(ns.get(k), 'close') and error is not None:
            try:
                ns[k].close()
            except Exception:
                pass
    written = None
    for name in os.listdir(d):
        path = os.path.join(d, name)
        if name == 'OUT':
            with open(path, 'rb') as f:
                written = f.read()
        elif name in files:
            with open(path, 'rb') as f:
                if f.read() != files[name]:
                    raise core.Violation('the input file {} was modified'.format(name))
        else:
            raise core.Violation('an unexpected file was created: {}'.format(name))
    for name in files:
        if not os.path.exists(os.path.join(d, name)):
            raise core.Violation('the input file {} was removed'.format(name))
    return Outcome(code, text.getvalue(), written, error)


def rows(outcome):
    if outcome.error is not None:
        import traceback
        raise core.Violation('the program ended with an error: ' + ''.join(traceback.format_exception(outcome.error))[-1500:])
    if outcome.written is None:
        raise core.Violation('no report was written')
    return list(csv.reader(io.StringIO(outcome.written.decode('utf-8'), newline = '')))
