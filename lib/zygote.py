"""Runs cases in processes where nothing but the package has been imported.

``run("lib.declcheck:history", case)`` starts (once per calling process) a
helper that has imported ``normalize`` only, and forks it for every case."""
import atexit
import os
import pickle
import signal
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_helper = {}


class Lost(Exception):
    """the process running a case died"""


def _read(f, n):
    data = b""
    while len(data) < n:
        x = f.read(n - len(data))
        if not x:
            raise EOFError
        data += x
    return data


def _get(f):
    return pickle.loads(_read(f, struct.unpack("!I", _read(f, 4))[0]))


def _put(f, x):
    data = pickle.dumps(x)
    f.write(struct.pack("!I", len(data)) + data)
    f.flush()


def run(target, case, imports=("normalize",)):
    key = (os.getpid(), imports)
    if key not in _helper:
        p = subprocess.Popen(
            [sys.executable, "-c",
             "import sys; sys.path.insert(0, %r); from lib import zygote; "
             "zygote.main(%r)" % (VERIF, imports)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _helper[key] = p
        atexit.register(_stop, key)
    p = _helper[key]
    _put(p.stdin, (target, case))
    kind, value = _get(p.stdout)
    if kind == "lost":
        raise Lost("the process running it died (status %r)" % (value,))
    return kind, value


def _stop(key):
    p = _helper.pop(key, None)
    if p and key[0] == os.getpid():
        p.stdin.close()
        p.wait()


def main(imports):
    import importlib
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import warnings
    warnings.simplefilter("ignore")
    for name in imports:
        importlib.import_module(name)
    fin, fout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            target, case = _get(fin)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(60)
            try:
                mod, fn = target.split(":")
                try:
                    res = ("ok", getattr(importlib.import_module(mod), fn)(
                        case))
                except AssertionError as e:
                    res = ("violation", str(e))
                except BaseException as e:
                    import traceback
                    res = ("error", "%s: %s\n%s" % (
                        type(e).__name__, e, traceback.format_exc()[-1500:]))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        _put(fout, pickle.loads(data) if data else ("lost", status))
