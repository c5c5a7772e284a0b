"""Deterministic threads: one runs at a time, the harness decides which one goes on.

A thread gives up control in Event.wait, before every operation on a shared deque and when it asks for a result of the
pool.  By default the thread that waited goes to the back of the line; `delays` times the schedule may deviate from
that (every place and every other thread is explored).  A thread that has polled several times without any change of
the shared state is not run again before there is one; when no thread can run, the program hangs."""
import collections
import threading


class Kill(BaseException):
    pass


class Hang(Exception):
    pass


class Sched(object):
    def __init__(self, c, delays=0, timeouts=1, first=None, steps=3000):
        self.c, self.delays, self.timeouts = c, delays, timeouts
        self.first = first  # (lo, hi): step range of the first deviation
        self.threads = []
        self.cur = None
        self.ver = 0
        self.n = 0
        self.k = 0
        self.steps = steps
        self.fatal = None
        self.errors = []
        self.dead = False
        self.main = threading.Semaphore(0)

    # -- called by the harness and by main-thread code
    def run(self, done):
        """let the threads run until done()"""
        while not done():
            live = [t for t in self.threads if t.started and not t.finished]
            can = [t for t in live if t.polls < 6 or t.seen != self.ver]
            if not can:
                self.stop()
                raise Hang('no thread can go on')
            self.n += 1
            if self.n > self.steps:
                self.stop()
                raise Hang('too many steps')
            t = self.choose(can)
            self.cur = t
            t.sem.release()
            self.main.acquire()
            if self.fatal is not None:
                e, self.fatal = self.fatal, None
                self.stop()
                raise e

    def choose(self, can):
        """default: the current thread if it did not wait, else the next one in line"""
        cur = self.cur
        if cur in can and not cur.waited:
            order = [cur] + [t for t in can if t is not cur]
        else:
            i = self.threads.index(cur) + 1 if cur is not None else 0
            order = sorted(can, key=lambda t: (self.threads.index(t) - i) % len(self.threads))
        if self.delays > 0 and len(order) > 1 and (self.first is None or self.n >= self.first[0]):
            if self.first is not None and self.n >= self.first[1]:
                self.delays = 0
                return order[0]
            j = self.c.pick('step%d' % self.n, list(range(len(order))))
            if j:
                self.delays -= 1
                self.first = None
                return order[j]
        return order[0]

    def stop(self):
        self.dead = True
        for t in self.threads:
            if t.started and not t.finished:
                t.sem.release()
        for t in self.threads:
            if t.started:
                t.os.join(10)

    # -- called by the threads
    def pause(self, waited=False):
        t = self.cur
        me = getattr(LOCAL, 'thread', None)
        if me is None or self.dead:  # main thread
            if self.dead and me is not None:
                raise Kill()
            return
        t.waited = waited
        if waited:
            if t.seen == self.ver:
                t.polls += 1
            else:
                t.seen, t.polls = self.ver, 1
        self.main.release()
        t.sem.acquire()
        if self.dead:
            raise Kill()

    def changed(self):
        self.ver += 1

    # -- stand-ins
    def Thread(sched):
        class Thread(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.name, self.args, self.kwargs, self.daemon = target, name, args, kwargs or {}, daemon
                self.started = self.finished = self.waited = False
                self.seen, self.polls = -1, 0
                self.sem = threading.Semaphore(0)
                sched.threads.append(self)

            def run(self):
                if self.target is not None:
                    self.target(*self.args, **self.kwargs)

            def _go(self):
                self.sem.acquire()
                LOCAL.thread = self
                try:
                    if not sched.dead:
                        self.run()
                except Kill:
                    pass
                except Exception as e:  # a thread that fails just ends
                    sched.errors.append(e)
                except BaseException as e:
                    sched.fatal = e
                self.finished = True
                sched.changed()
                sched.main.release()

            def start(self):
                self.started = True
                self.os = threading.Thread(target=self._go)
                self.os.daemon = True
                self.os.start()

            def join(self, timeout=None):
                if timeout is not None:
                    raise NotImplementedError
                sched.run(lambda: self.finished)

            def is_alive(self):
                return self.started and not self.finished

            isAlive = is_alive
        return Thread

    def Event(sched):
        class Event(object):
            def __init__(self):
                self.flag = False

            def set(self):
                sched.pause()
                if not self.flag:
                    self.flag = True
                    sched.changed()

            def clear(self):
                self.flag = False

            def is_set(self):
                sched.pause()
                return self.flag

            isSet = is_set

            def wait(self, timeout=None):
                if self.flag:
                    sched.pause()
                    return True
                sched.pause(True)
                while timeout is None and not self.flag:
                    sched.pause(True)
                return self.flag
        return Event

    def deque(sched):
        class Deque(object):
            def __init__(self, it=()):
                self.d = collections.deque(it)

            def __len__(self):
                sched.pause()
                return len(self.d)
        for n in ('append', 'appendleft', 'pop', 'popleft', 'clear', 'extend'):
            def f(self, *a, n=n):
                sched.pause()
                r = getattr(self.d, n)(*a)
                sched.changed()
                return r
            setattr(Deque, n, f)
        return Deque

    def Pool(sched, copy, fail):
        class Result(object):
            def __init__(self, f, args, kwds):
                self.f, self.args, self.kwds = f, args, kwds
                self.late = sched.timeouts
                self.done = False

            def ready(self):
                sched.pause()
                return True

            def get(self, timeout=None):
                if timeout is not None and not self.done and self.late and sched.delays > 0:
                    sched.k += 1
                    if sched.c.pick('late%d' % sched.k, [False, True]):
                        self.late -= 1
                        sched.delays -= 1
                        sched.changed()
                        sched.pause(True)
                        raise TimeoutError()
                sched.pause()
                if not self.done:
                    self.r = self.f(*self.args, **self.kwds)
                    self.done = True
                    sched.changed()
                return self.r

        class Pool(object):
            def __init__(self, n=None, *a, **k):
                self.open = True
                self.joined = False
                Pool.last = self

            def apply_async(self, f, args=(), kwds=None):
                return Result(f, tuple(copy(a) for a in args), {k: copy(v) for k, v in (kwds or {}).items()})

            def close(self):
                self.open = False

            terminate = close

            def join(self):
                self.joined = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        return Pool


LOCAL = threading.local()


def install(m, mod, s, copy):
    """the module under test uses the stand-ins"""
    pool = s.Pool(copy, None)
    for n, v in (('Thread', s.Thread()), ('Event', s.Event()), ('deque', s.deque()), ('Pool', pool), ('TimeoutError', TimeoutError)):
        if hasattr(mod, n):
            m.patch(mod, n, v)
        else:
            for o in ('threading', 'collections', 'multiprocessing'):
                if hasattr(mod, o) and hasattr(getattr(mod, o), n):
                    m.patch(getattr(mod, o), n, v)
    if m.symbolic:
        if hasattr(mod, 'cpu_count'):
            m.patch(mod, 'cpu_count', lambda: 2)
        m.hook('dill.dumps', lambda x, *a, **k: x)
        m.hook('dill.loads', lambda x, *a, **k: x)
    return pool
