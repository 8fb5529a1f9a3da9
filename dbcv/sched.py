"""Runs proof units in forked processes, discovering the contracts they rely on and adding the units that verify those."""
import os
import pickle
import signal
import sys
import time

from . import core


def _child(ctx, unit, wfd, scale):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    core.TIME_SCALE = scale
    try:
        r = core.run_unit(ctx, unit)
    except BaseException as e:      # noqa
        r = core.UnitResult(unit.name)
        r.error = "%s: %s" % (type(e).__name__, e)
    try:
        data = pickle.dumps(r)
    except Exception as e:
        r2 = core.UnitResult(unit.name)
        r2.error = "result not transferable: %s" % e
        data = pickle.dumps(r2)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


class Pool:
    def __init__(self, ctx, registry, jobs, deadline, progress=None):
        self.ctx, self.reg, self.jobs, self.deadline, self.progress = ctx, registry, jobs, deadline, progress
        self.results = {}
        self.live = {}
        self.queue = []
        self.known = set()

    def add(self, name):
        if name not in self.known and name in self.reg:
            self.known.add(name)
            self.queue.append(name)

    def start(self, name, scale):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            _child(self.ctx, self.reg[name], wfd, scale)
        os.close(wfd)
        os.set_blocking(rfd, False)
        self.live[rfd] = [name, pid, [], time.time(), scale]

    def run(self, names, scale=1.0, follow=True):
        import select
        for n in names:
            self.add(n)
        order = {n: -u.weight for n, u in self.reg.items()}
        while self.queue or self.live:
            self.queue.sort(key=lambda n: order.get(n, 0))
            while self.queue and len(self.live) < self.jobs and time.time() < self.deadline:
                self.start(self.queue.pop(0), scale)
            if self.queue and not self.live:
                for n in self.queue:
                    r = core.UnitResult(n)
                    r.error = "not run: time budget exhausted"
                    self.results[n] = r
                self.queue = []
                break
            rs, _, _ = select.select(list(self.live), [], [], 0.5)
            for fd in rs:
                it = self.live[fd]
                try:
                    d = os.read(fd, 1 << 20)
                except BlockingIOError:
                    continue
                if d:
                    it[2].append(d)
                    continue
                os.close(fd)
                del self.live[fd]
                os.waitpid(it[1], 0)
                self.finish(it, follow)
            if time.time() > self.deadline + 20:
                for fd, it in list(self.live.items()):
                    self.kill(it)
                    os.close(fd)
                    del self.live[fd]
                    r = core.UnitResult(it[0])
                    r.error = "stopped: time budget exhausted"
                    self.results[it[0]] = r

    def kill(self, it):
        try:
            os.killpg(it[1], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(it[1], signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(it[1], 0)

    def finish(self, it, follow):
        try:
            r = pickle.loads(b"".join(it[2]))
        except Exception as e:
            r = core.UnitResult(it[0])
            r.error = "worker died: %s" % e
        self.results[it[0]] = r
        if follow:
            for k in r.contracts:
                self.add(k)
            for k in self.reg[it[0]].deps:
                self.add(k)
        if self.progress:
            self.progress(r)

    def retry(self, names, jobs, scale):
        """again, with fewer processes side by side and more solver time"""
        self.jobs = jobs
        for n in names:
            self.known.discard(n)
        self.run(names, scale)
