"""Results of parsing a field in a process where nothing was parsed before."""
import os, pickle, struct

_pipes = None
_cache = {}


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return None
        b += x
    return b


def _serve(rfd, wfd, fn):
    while True:
        h = _read(rfd, 4)
        if h is None:
            os._exit(0)
        req = _read(rfd, struct.unpack("<I", h)[0])
        pid = os.fork()
        if pid == 0:
            try:
                out = ("ok", fn(pickle.loads(req)))
            except BaseException as x:
                out = ("error", "%s: %s" % (type(x).__name__, x))
            b = pickle.dumps(out)
            os.write(wfd, struct.pack("<I", len(b)))
            while b:
                b = b[os.write(wfd, b):]
            os._exit(0)
        os.waitpid(pid, 0)


def start(fn):
    """Fork the server; must be called before the code under test has been used in this process."""
    global _pipes
    if _pipes is not None and _pipes[2] == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        try:
            _serve(r1, w2, fn)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _pipes = (w1, r2, os.getpid())
    _cache.clear()


def ask(req):
    if req in _cache:
        return _cache[req]
    b = pickle.dumps(req)
    os.write(_pipes[0], struct.pack("<I", len(b)) + b)
    out = pickle.loads(_read(_pipes[1], struct.unpack("<I", _read(_pipes[1], 4))[0]))
    if len(_cache) > 4000:
        _cache.clear()
    _cache[req] = out
    return out
