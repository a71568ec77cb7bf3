"""A process pool under the control of the explorer: which worker takes which task, and in which order
the tasks run, is decided by a schedule.  Tasks really run in worker processes of their own (forked),
one task at a time, as with the pool it stands in for."""
import os
import pickle


class _Worker:
    def __init__(self, others=()):
        cr, self.w = os.pipe()
        self.r, cw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                fin, fout = os.fdopen(cr, 'rb'), os.fdopen(cw, 'wb')
                while True:
                    try:
                        job = pickle.load(fin)
                    except EOFError:
                        break
                    if job is None:
                        break
                    f, args, kw = job
                    try:
                        v = (True, f(*args, **kw))
                    except Exception as e:
                        v = (False, e)
                    pickle.dump(v, fout)
                    fout.flush()
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.fin, self.fout = os.fdopen(self.r, 'rb'), os.fdopen(self.w, 'wb')

    def call(self, f, args, kw):
        pickle.dump((f, args, kw), self.fout)
        self.fout.flush()
        return pickle.load(self.fin)

    def end(self):
        try:
            pickle.dump(None, self.fout)
            self.fout.flush()
        except (OSError, ValueError):
            pass
        for f in (self.fout, self.fin):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class Result:
    def __init__(self, ok, v):
        self.ok, self.v = ok, v

    def get(self, timeout=None):
        if not self.ok:
            raise self.v
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


class FakePool:
    """schedule: list of (task, worker), in the order the tasks run; used = how often a pool was used"""
    schedule = None
    used = 0
    hook = None            # called before every task

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.workers = {}
        self.init = (initializer, initargs)
        self.n = 0

    def _call(self, w, f, args, kw):
        FakePool.used += 1
        if FakePool.hook:
            FakePool.hook()
        if w not in self.workers:
            self.workers[w] = _Worker(list(self.workers.values()))
            if self.init[0]:
                self.workers[w].call(self.init[0], self.init[1], {})
        return self.workers[w].call(f, args, kw)

    def _all(self, f, argss):
        n = len(argss)
        sched = [(t, w) for t, w in (FakePool.schedule or []) if t < n]
        sched += [(t, t) for t in range(n) if t not in [x for x, _ in sched]]
        res = [None] * n
        for t, w in sched:
            res[t] = self._call(w, f, argss[t], {})
        for ok, v in res:
            if not ok:
                raise v
        return [v for _, v in res]

    def map(self, f, it, chunksize=None):
        return self._all(f, [(x,) for x in it])

    def starmap(self, f, it, chunksize=None):
        return self._all(f, [tuple(x) for x in it])

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    imap_unordered = imap

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        try:
            return Result(True, self.map(f, it))
        except Exception as e:
            return Result(False, e)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = Result(*self._call(self.n, f, tuple(args), dict(kwds)))
        self.n += 1
        return r

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()

    def close(self):
        for w in self.workers.values():
            w.end()
        self.workers = {}

    terminate = join = close

    def __del__(self):
        self.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(schedule=None, cores=8, hook=None):
    """put the pool under control, and make the machine one with so many cores"""
    import multiprocessing
    import multiprocessing.pool
    from pdf2docx import converter
    FakePool.schedule, FakePool.hook, FakePool.used = schedule, hook, 0
    multiprocessing.Pool = FakePool
    multiprocessing.pool.Pool = FakePool
    if hasattr(converter, 'Pool'):
        converter.Pool = FakePool
    set_cores(cores)


def set_cores(cores):
    import multiprocessing
    from pdf2docx import converter
    multiprocessing.cpu_count = lambda: cores
    os.cpu_count = lambda: cores
    if hasattr(converter, 'cpu_count'):
        converter.cpu_count = lambda: cores
