"""A server that evaluates calls in processes in which nothing else was computed before."""
import atexit
import os
import pickle
import signal
import struct
import subprocess
import sys

from .engine import HarnessError

_server = None


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _receive(fd):
    return pickle.loads(_read(fd, struct.unpack('<q', _read(fd, 8))[0]))


def serve(module, function):
    """Main loop of the server process."""
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    fin, fout = os.dup(0), os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    fn = getattr(importlib.import_module(module), function)
    while True:
        try:
            arg = _receive(fin)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            signal.alarm(55)
            try:
                result = ('ok', fn(arg))
            except BaseException as e:
                result = ('error', repr(e))
            try:
                _send(fout, result)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _send(fout, ('error', 'ended with status %d' % status))


def stop():
    global _server
    if _server is not None and _server[0] == os.getpid():
        _server[1].stdin.close()
        _server[1].kill()
        _server[1].wait()
        _server[1].stdout.close()
    _server = None


def call(module, function, arg):
    """The result of function(arg) in a process of its own."""
    global _server
    if _server is not None and (_server[0] != os.getpid() or _server[2] != (module, function)):
        stop()
    if _server is None:
        code = 'import sys; sys.path[:] = %r; from vp import clean; clean.serve(%r, %r)' % (sys.path, module, function)
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, bufsize=0)
        _server = (os.getpid(), p, (module, function))
        atexit.register(stop)
    p = _server[1]
    try:
        _send(p.stdin.fileno(), arg)
        kind, value = _receive(p.stdout.fileno())
    except BaseException as e:
        stop()                  # whatever it was doing, answers would no longer match
        if isinstance(e, Exception):
            raise HarnessError('the clean process is gone: %r' % e) from e
        raise
    if kind != 'ok':
        raise HarnessError('the clean process failed: %s' % value)
    return value
