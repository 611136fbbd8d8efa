"""Simulated operating system surfaces: the graphviz child process, the file system calls made
below a per-run scratch directory, and the notebook front-end."""
import builtins
import errno
import hashlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import types

from .kernel import Violation, MON, SimKeyboardInterrupt, SimMemoryError

PIPE_CAP = 65536
_real_open = builtins.open
_real_Popen = subprocess.Popen


# ----------------------------------------------------------------- virtual graphviz

def render(dot_bytes, fmt, engine, pad=0):
    """What the virtual graphviz prints for this input: a deterministic function of all three"""
    h = hashlib.sha1(dot_bytes + b"|" + fmt.encode() + b"|" + engine.encode()).hexdigest()
    if fmt == "svg":
        s = (
            '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n'
            '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN">\n'
            f'<svg width="8pt" id="{h}" xmlns="http://www.w3.org/2000/svg">\n'
            f'<!-- {engine} -->\n<text>\u03b5\u2192{len(dot_bytes)}</text>\n'
            + "<g/>\n" * (pad // 5) + '</svg>\n'
        )
        return s.encode("utf-8")
    if fmt in ("png", "pdf", "gif", "jpg"):
        return b"\x89PNG\r\n\x1a\n\xff\xfe\x00" + h.encode() + b"\x80\x81" * (pad // 2 + 1) + b"\r\nIEND"
    return f"# {fmt} {h} \u03b5\n".encode("utf-8") + b"x\n" * (pad // 2)


class Process:
    """Plan of one virtual child"""

    def __init__(self):
        self.spawn_error = None
        self.status = 0
        self.truncate = None       # fraction of stdout written before dying (thousandths)
        self.stderr = b""
        self.pad = 0
        self.dies_early = False    # dies before consuming its stdin
        self.garble = False        # stdout is not UTF-8
        self.interrupt = None      # raised in the parent while it waits for the child
        self.kind = None


class SimOS:
    def __init__(self, c):
        self.c = c
        self.calls = []
        self.plan = []            # plans of the next spawns
        self.children = []
        self.html = []
        self.display_fault = None
        self.dir = None
        self.open_log = []
        self.fs_plans = {}
        self.task_plan = {}       # simulated thread -> plans of its next spawns
        self.stderr = io.StringIO()

    def task(self):
        s = MON.sched
        return s.cur.i if s is not None and s.in_task() else None

    def next_plan(self):
        t = self.task()
        todo = self.plan if t is None else self.task_plan.get(t, [])
        return todo.pop(0) if todo else Process()

    # -------- plan the next child
    def plan_process(self, faulty, task=None):
        c = self.c
        p = Process()
        if c.flag(0.15):
            p.pad = c.pick([10, 70000, 200000])
        if c.flag(0.3):
            p.stderr = c.pick([b"Warning: node 1\n", "Warning: \u00e9\n".encode("utf-8"),
                               b"Warning: \xe9\xff\n", b"w" * 70000])
        if faulty:
            k = c.pick(["exit", "signal", "enoent", "enomem", "eacces", "partial", "early", "garbled", "interrupt"])
            if k == "exit":
                p.status = c.pick([1, 2, 127, 255])
                p.truncate = 0
            elif k == "partial":
                p.status = c.pick([1, 3])
                p.truncate = c.int(1, 1000)
            elif k == "signal":
                p.status = c.pick([-9, -11, -15])
                p.truncate = c.int(0, 1000)
            elif k == "enoent":
                p.spawn_error = FileNotFoundError(errno.ENOENT, "No such file or directory", "dot")
            elif k == "eacces":
                p.spawn_error = PermissionError(errno.EACCES, "Permission denied", "dot")
            elif k == "enomem":
                p.spawn_error = OSError(errno.ENOMEM, "Cannot allocate memory")
            elif k == "early":
                p.status = c.pick([1, -13])
                p.dies_early = True
                p.truncate = 0
            elif k == "garbled":
                p.garble = True
            elif k == "interrupt":
                p.interrupt = c.pick([SimKeyboardInterrupt, SimMemoryError])()
            if k not in ("garbled", "interrupt") and c.flag(0.5):
                p.stderr = c.pick([b"Error: syntax error in line 1 near '}'\n", b"Error: \xe9\xff bad\n",
                                   "Erreur: \u00e9\n".encode()])
            p.kind = k
        else:
            p.kind = None
        (self.plan if task is None else self.task_plan.setdefault(task, [])).append(p)
        return p

    def install(self):
        c = self.c
        sim = self

        class Popen(SimPopen):
            os_ = sim
        subprocess.Popen = Popen
        c.cleanups.append(lambda: setattr(subprocess, "Popen", _real_Popen))
        for name, mod in list(sys.modules.items()):
            if name == "pybgl" or name.startswith("pybgl."):
                d = mod.__dict__
                for k, v in list(d.items()):
                    if v is _real_Popen:
                        d[k] = Popen
        # file system
        saved_err = sys.stderr
        sys.stderr = self.stderr
        c.cleanups.append(lambda: setattr(sys, "stderr", saved_err))
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="pybglsim-", dir=base)
        scratch = self.dir
        c.cleanups.append(lambda: shutil.rmtree(scratch, ignore_errors=True))

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            p = file
            if isinstance(p, (str, bytes, os.PathLike)):
                p = os.fsdecode(os.fspath(p))
                ap = os.path.abspath(p)
                if ap.startswith(sim.dir + os.sep) and any(m in mode for m in "wax+"):
                    return sim.open_write(ap, mode, buffering, encoding, errors, newline)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        builtins.open = sim_open
        io.open = sim_open

        def restore():
            builtins.open = _real_open
            io.open = _real_open
        c.cleanups.append(restore)
        # notebook front-end
        saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
        ip = types.ModuleType("IPython")
        ipd = types.ModuleType("IPython.display")

        class HTML:
            def __init__(self, data=None, *a, **k):
                self.data = data

        def display(*objs, **k):
            for o in objs:
                if sim.display_fault is not None:
                    e, sim.display_fault = sim.display_fault, None
                    c.fault("display-failure")
                    raise e
                sim.on_display(getattr(o, "data", o))
        ipd.HTML, ipd.display = HTML, display
        ip.display = ipd
        ip.get_ipython = lambda: None
        sys.modules["IPython"], sys.modules["IPython.display"] = ip, ipd

        def restore_ip():
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        c.cleanups.append(restore_ip)

    def on_display(self, data):
        self.html.append(data)

    # -------- files
    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        with _real_open(self.path(name), "wb") as f:
            f.write(data)

    def content(self, name):
        try:
            with _real_open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def disk_fault(self, kind):
        self.c.fault("disk-" + kind)

    def plan_fs(self, task=None):
        """Choose the disk fault of the next file opened for writing"""
        c = self.c
        p = self.fs_plans[task] = {
            "kind": c.pick(["enospc", "eio", "close", "open", "short"]),
            "after": c.pick([0, 1, 7, 100, 5000, 9000]),
            "errno": c.pick([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS]),
        }
        return p

    def open_write(self, ap, mode, buffering, encoding, errors, newline):
        plan = self.fs_plans.pop(self.task(), None)
        self.open_log.append((os.path.relpath(ap, self.dir), mode))
        if plan and plan["kind"] == "open":
            self.disk_fault("open")
            raise OSError(plan["errno"], os.strerror(plan["errno"]), ap)
        raw = FaultyRaw(self, plan, ap, mode.replace("t", "").replace("b", ""))
        if buffering == 0:
            return raw
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


class FaultyRaw(io.FileIO):
    def __init__(self, sim, plan, path, mode):
        self.sim, self.plan, self.written = sim, plan, 0
        super().__init__(path, mode)

    def write(self, b):
        p = self.plan
        b = bytes(b)
        if p:
            k, after = p["kind"], p["after"]
            if k == "short" and len(b) > 1:
                self.sim.disk_fault("short-write")
                b = b[:max(1, len(b) // 2)]
            elif k in ("enospc", "eio") and self.written + len(b) > after:
                room = after - self.written
                if k == "enospc" and room > 0:
                    self.sim.disk_fault("torn-write")
                    n = super().write(b[:room])
                    self.written += n
                    return n
                self.sim.disk_fault(k)
                no = errno.ENOSPC if k == "enospc" else errno.EIO
                raise OSError(no, os.strerror(no))
        yield_()
        n = super().write(b)
        self.written += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            if self.plan and self.plan["kind"] == "close":
                self.plan = None
                self.sim.disk_fault("close")
                raise OSError(errno.EIO, os.strerror(errno.EIO))


# ----------------------------------------------------------------- subprocess

class _Child:
    """The virtual child process: consumes stdin until EOF, then emits, over bounded pipes"""

    def __init__(self, plan, cmd, os_, caps):
        self.plan, self.cmd, self.os = plan, cmd, os_
        self.stdin_data = bytearray()
        self.eof = False
        self.started = False
        self.exited = False
        self.out_todo = b""
        self.err_todo = b""
        self.pipe = {"out": bytearray(), "err": bytearray()}
        self.caps = caps            # 'pipe' | 'null' | 'merge'
        self.reaped = False

    def _start(self):
        self.started = True
        p = self.plan
        data = bytes(self.stdin_data)
        fmt, engine = parse_cmd(self.cmd)
        self.os.calls.append({"cmd": list(self.cmd), "stdin": data, "format": fmt, "engine": engine,
                              "task": self.os.task()})
        out = render(data, fmt, engine, p.pad)
        if p.garble:
            out = out[: len(out) // 2] + b"\xff\xfe\xe9" + out[len(out) // 2:]
        if p.truncate is not None:
            out = out[: len(out) * p.truncate // 1000]
        self.full = out
        self.out_todo, self.err_todo = out, p.stderr
        if p.kind and p.kind != "interrupt":
            self.os.c.fault("process-" + p.kind)

    def advance(self):
        """Run the child until it blocks or exits; returns False if it made no progress"""
        if self.exited:
            return False
        progressed = False
        if not self.started:
            if not (self.eof or self.plan.dies_early):
                return False
            self._start()
            progressed = True
        for which, attr in (("err", "err_todo"), ("out", "out_todo")):
            todo = getattr(self, attr)
            if not todo:
                continue
            mode = self.caps[which]
            if mode == "null":
                setattr(self, attr, b"")
                progressed = True
                continue
            buf = self.pipe["out" if mode == "merge" else which]
            room = PIPE_CAP - len(buf)
            if room > 0:
                buf += todo[:room]
                setattr(self, attr, todo[room:])
                progressed = True
            if getattr(self, attr):
                return progressed
        self.exited = True
        return True


def parse_cmd(cmd):
    if isinstance(cmd, str):
        import shlex
        cmd = shlex.split(cmd)
    fmt, engine = "dot", os.path.basename(str(cmd[0]))
    it = iter([str(x) for x in cmd[1:]])
    for a in it:
        if a.startswith("-T"):
            fmt = a[2:] or next(it, "")
        elif a.startswith("-K"):
            engine = a[2:] or next(it, "")
        elif a.startswith("-"):
            pass
        else:
            # dot reads the named file rather than its standard input
            pass
    return fmt, engine


def yield_():
    if MON.sched is not None:
        MON.sched.maybe_yield()


class _PipeOut(io.RawIOBase):
    def __init__(self, child, which):
        self.child, self.which = child, which

    def readable(self):
        return True

    def readinto(self, b):
        ch = self.child
        buf = ch.pipe[self.which]
        while not buf:
            if ch.exited:
                return 0
            if not ch.advance() and not buf:
                raise Violation("deadlock", "blocked forever on the rendering process' pipes")
        n = min(len(b), len(buf))
        b[:n] = buf[:n]
        del buf[:n]
        return n

    def close(self):
        if not self.closed:
            # nobody reads any more: what the child still prints is lost (it may die of SIGPIPE)
            self.child.caps[self.which] = "null"
            super().close()


class _PipeIn(io.RawIOBase):
    def __init__(self, child):
        self.child = child

    def writable(self):
        return True

    def write(self, b):
        if self.child.plan.dies_early:
            self.child.eof = True
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.closed:
            raise ValueError("write to closed file")
        self.child.stdin_data += bytes(b)
        return len(b)

    def close(self):
        if not self.closed:
            self.child.eof = True
            super().close()


class SimPopen:
    os_ = None

    @property
    def os(self):
        return self.os_

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 *a, text=None, universal_newlines=None, encoding=None, errors=None, **kw):
        sim = self.os_
        self.args = args
        self.returncode = None
        self.pid = 4000 + len(sim.children)
        plan = sim.next_plan()
        yield_()
        self.plan = plan
        if plan.spawn_error is not None:
            sim.c.fault("process-spawn-" + type(plan.spawn_error).__name__)
            sim.children.append(None)
            raise plan.spawn_error
        caps = {"out": "pipe" if stdout == subprocess.PIPE else "null",
                "err": "pipe" if stderr == subprocess.PIPE else
                       "merge" if stderr == subprocess.STDOUT else "null"}
        cmd = [args] if isinstance(args, str) and not kw.get("shell") else args
        self.child = _Child(plan, cmd, sim, caps)
        sim.children.append(self.child)
        if stdin != subprocess.PIPE:
            self.child.eof = True
            if hasattr(stdin, "read"):
                d = stdin.read()
                self.child.stdin_data += d.encode() if isinstance(d, str) else d
        self.stdin = self.stdout = self.stderr = None
        is_text = bool(text or universal_newlines or encoding or errors)
        self.text = is_text
        self.encoding = encoding or ("utf-8" if is_text else None)
        self.errors = errors or ("strict" if is_text else None)

        def wrap(raw, w):
            b = (io.BufferedWriter if w else io.BufferedReader)(raw)
            return io.TextIOWrapper(b, self.encoding, self.errors, write_through=w) if is_text else b
        if stdin == subprocess.PIPE:
            self.stdin = wrap(_PipeIn(self.child), True)
        if stdout == subprocess.PIPE:
            self.stdout = wrap(_PipeOut(self.child, "out"), False)
        if stderr == subprocess.PIPE:
            self.stderr = wrap(_PipeOut(self.child, "err"), False)

    # real communicate() multiplexes: it never deadlocks on pipe capacity
    def communicate(self, input=None, timeout=None):
        ch = self.child
        yield_()
        self._interrupted()
        if self.stdin is not None and not self.stdin.closed:
            try:
                if input:
                    self.stdin.write(input)
                self.stdin.close()
            except BrokenPipeError:
                pass
            except OSError:
                raise
        ch.eof = True
        out, err = bytearray(), bytearray()
        while True:
            moved = ch.advance()
            out += ch.pipe["out"]
            err += ch.pipe["err"]
            n = len(ch.pipe["out"]) + len(ch.pipe["err"])
            ch.pipe["out"].clear()
            ch.pipe["err"].clear()
            if ch.exited and not n:
                break
            if not moved and not n:
                raise Violation("deadlock", "rendering process never exits")
        yield_()
        self._reap()

        def dec(b, f):
            if f is None:
                return None
            b = bytes(b)
            if not self.text:
                return b
            return b.decode(self.encoding, self.errors).replace("\r\n", "\n").replace("\r", "\n")
        return dec(out, self.stdout), dec(err, self.stderr)

    def _interrupted(self):
        e, self.plan.interrupt = self.plan.interrupt, None
        if e is not None:
            self.os.c.fault("process-interrupt")
            raise e

    def _reap(self):
        self.child.reaped = True
        self.returncode = self.plan.status

    def wait(self, timeout=None):
        ch = self.child
        if self.returncode is not None:
            return self.returncode
        self._interrupted()
        while not ch.exited:
            if not ch.advance():
                if timeout is not None:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                raise Violation("deadlock", "waiting for a rendering process that is blocked on its pipes")
        self._reap()
        return self.returncode

    def poll(self):
        if self.returncode is None:
            while self.child.advance():
                pass
            if self.child.exited:
                self._reap()
        return self.returncode

    def kill(self):
        self.child.exited = True
        self.plan.status = self.plan.status or -9

    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.plan.interrupt = None
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None and not f.closed:
                try:
                    f.close()
                except BrokenPipeError:
                    pass
        self.wait()
