"""Interpreters with other hash seeds: each has imported cis once and serves requests by forking.

    python -m sim.zygote SOCKET        (PYTHONHASHSEED set by the caller; ends when its standard input does)

A request is pickled (module, function, args, directory); the answer is the pickled ("ok", value) or ("exc", name, text).
"""
import importlib
import os
import pickle
import select
import signal
import socket
import subprocess
import sys


def start(base, seeds):
    """In the master: one interpreter per hash seed; workers reach them through sockets below `base`."""
    procs = []
    for h in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        procs.append(subprocess.Popen([sys.executable, "-u", "-m", "sim.zygote", path(base, h)], env=env, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, cwd=base))
    for p in procs:
        if p.stdout.readline().strip() != b"ready":
            raise RuntimeError("interpreter did not start")
    os.environ["VSIM_ZYGOTES"] = base
    return procs


def path(base, h):
    return os.path.join(base, "z%d" % h)


def call(h, module, function, args, directory):
    s = socket.socket(socket.AF_UNIX)
    s.connect(path(os.environ["VSIM_ZYGOTES"], h))
    try:
        send(s, (module, function, args, directory))
        return recv(s)
    finally:
        s.close()


def send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(len(b).to_bytes(8, "big") + b)


def recv(s):
    def n(k):
        out = b""
        while len(out) < k:
            c = s.recv(min(1 << 16, k - len(out)))
            if not c:
                raise EOFError("interpreter went away")
            out += c
        return out
    return pickle.loads(n(int.from_bytes(n(8), "big")))


def main(sock):
    from sim import core, seam
    core.preload()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    l = socket.socket(socket.AF_UNIX)
    l.bind(sock)
    l.listen(64)
    print("ready")
    while True:
        rd, _, _ = select.select([l, 0], [], [])
        if 0 in rd:
            return
        c, _ = l.accept()
        if os.fork() == 0:
            code = 0
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                module, function, args, d = recv(c)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                if not os.environ.get("VSIM_STDERR"):
                    os.dup2(devnull, 2)
                os.chdir(d)
                seam.reset()
                seam.scope(d)
                seam.clock()
                try:
                    out = ("ok", getattr(importlib.import_module(module), function)(*args))
                except BaseException as e:
                    import traceback
                    out = ("exc", type(e).__name__, traceback.format_exc()[-2000:])
                send(c, out)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        c.close()


if __name__ == "__main__":
    main(sys.argv[1])
