"""Controlled interleaving of worker threads, and crashing at chosen points (no code under test)."""
import os
import sys
import threading
import time


class Baton:
    """Lets one worker thread run at a time and hands over at planned points.

    A task is what a thread does between entering and leaving traced code. plan: task number (in
    order of starting) -> set of event numbers of that task at which another task continues.
    A thread that holds the baton without making progress (it waits for something) loses it.
    """
    def __init__(self, prefixes, plan, patience=.5):
        self.prefixes = tuple(prefixes)
        self.plan = {int(k): set(v) for k, v in plan.items()}
        self.patience = patience
        self.cond = threading.Condition()
        self.tasks = {}         # thread id -> [number, events, depth]
        self.order = []         # thread ids of active tasks, round robin
        self.current = None
        self.started = 0
        self.progress = 0
        self.main = threading.get_ident()
        self.switches = 0

    def install(self):
        threading.settrace(self.trace)

    def uninstall(self):
        threading.settrace(None)
        with self.cond:
            self.current = None
            self.order = []
            self.cond.notify_all()

    def trace(self, frame, event, _arg):
        if threading.get_ident() == self.main:
            return None
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        me = threading.get_ident()
        with self.cond:
            task = self.tasks.get(me)
            if task is None:
                task = self.tasks[me] = [self.started, 0, 0]
                self.started += 1
                self.order.append(me)
                if self.current is None:
                    self.current = me
                self.cond.notify_all()
            task[2] += 1
        self.point(me)
        return self.local

    def local(self, frame, event, _arg):
        me = threading.get_ident()
        if event == 'line':
            self.point(me)
        elif event == 'return':
            with self.cond:
                task = self.tasks.get(me)
                if task is None:
                    return self.local
                task[2] -= 1
                if task[2] == 0:
                    del self.tasks[me]
                    if me in self.order:
                        k = self.order.index(me)
                        self.order.remove(me)
                        if self.current == me:
                            self.current = self.order[k % len(self.order)] if self.order else None
                    self.cond.notify_all()
        return self.local

    def point(self, me):
        with self.cond:
            task = self.tasks.get(me)
            if task is None:
                return
            task[1] += 1
            self.progress += 1
            if task[1] in self.plan.get(task[0], ()) and self.current == me:
                if len(self.order) == 1:
                    self.cond.wait_for(lambda: len(self.order) > 1, timeout=.2)
                if len(self.order) > 1:
                    self.current = self.order[(self.order.index(me) + 1) % len(self.order)]
                    self.switches += 1
                    self.cond.notify_all()
            while self.current not in (me, None) and me in self.order:
                seen = self.progress
                if not self.cond.wait_for(
                        lambda: self.current in (me, None), timeout=self.patience):
                    if self.progress == seen:
                        self.current = me


class Counter:
    """Counts line events of the given files in all threads; ends the process at one of them."""
    def __init__(self, prefixes, interesting, stop_at=None):
        self.prefixes = tuple(prefixes)
        self.interesting = tuple(interesting)
        self.stop_at = stop_at
        self.n = 0
        self.marks = []
        self.lock = threading.Lock()

    def install(self):
        threading.settrace(self.trace)
        sys.settrace(self.trace)

    def uninstall(self):
        threading.settrace(None)
        sys.settrace(None)

    def trace(self, frame, _event, _arg):
        name = frame.f_code.co_filename
        if name.startswith(self.prefixes) or name.endswith(self.interesting):
            self.count(name)
            return self.local
        return None

    def local(self, frame, event, _arg):
        if event == 'line':
            self.count(frame.f_code.co_filename)
        return self.local

    def count(self, name):
        with self.lock:
            self.n += 1
            if name.endswith(self.interesting):
                self.marks.append(self.n)
            if self.stop_at is not None and self.n >= self.stop_at:
                os._exit(77)


def in_child(func, timeout=120):
    """runs func in a forked child; (exit code, what it returned as text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            os.setsid()
            text = func() or ''
            os.write(w, text.encode()[:60000])
            code = 0
        except BaseException as e:  # pylint: disable=broad-except
            try:
                os.write(w, ('%s: %s' % (type(e).__name__, e)).encode()[:60000])
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    out = b''
    deadline = time.time() + timeout
    import select
    while True:
        ready, _, _ = select.select([r], [], [], max(0, deadline - time.time()))
        if not ready:
            os.killpg(pid, 9)
            break
        chunk = os.read(r, 65536)
        if not chunk:
            break
        out += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return (os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)), out.decode()
