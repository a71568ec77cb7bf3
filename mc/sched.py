"""Runs several programs, each in a process of its own, one step at a time under a given schedule.

A step ends where a program is about to touch the file system (seen through the interpreter's audit
events, whatever function of the standard library is used), inside one of the watched folders."""
import os
import sys

EVENTS = {'open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.listdir', 'os.scandir', 'os.truncate', 'os.link',
          'os.symlink', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'tempfile.mkdtemp', 'tempfile.mkstemp'}


class Proc:
    def __init__(self, fn, watched):
        r, w = os.pipe()        # program -> controller
        gr, gw = os.pipe()      # controller -> program
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            os.close(gw)
            code = 7
            try:
                me = {'busy': False}
                watched = [os.path.realpath(x) for x in watched]

                def stop():
                    os.write(w, b's')
                    if os.read(gr, 1) != b'g':
                        os._exit(8)

                def hook(event, args):
                    if event not in EVENTS or me['busy']:
                        return
                    me['busy'] = True
                    try:
                        for a in args[:1 if event == 'open' else 2]:
                            if isinstance(a, bytes):
                                a = os.fsdecode(a)
                            if isinstance(a, str):
                                p = os.path.abspath(a)
                                if any(p == x or p.startswith(x + os.sep) for x in watched):
                                    stop()
                                    break
                    finally:
                        me['busy'] = False
                stop()
                sys.addaudithook(hook)
                fn()
                me['busy'] = True
                code = 0
                os.write(w, b'd')
            except BaseException as e:
                try:
                    os.write(w, b'x' + f'{type(e).__name__}: {e}'.encode()[:200])
                except OSError:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        os.close(gr)
        self.r, self.gw = r, gw
        self.done, self.err, self.steps = False, None, 0
        self._wait()

    def _wait(self):
        d = os.read(self.r, 300)
        if d == b's':
            return
        self.done = True
        if d and d != b'd':
            self.err = d.lstrip(b's')[1:].decode(errors='replace') or 'failed'
        _, st = os.waitpid(self.pid, 0)
        if st and not self.err:
            self.err = f'ended with status {st}'
        os.close(self.r)
        os.close(self.gw)

    def step(self):
        os.write(self.gw, b'g')
        self.steps += 1
        self._wait()


def run(fns, watched, plan):
    """plan: [(program, number of steps or None for 'to its end')]; what is left is run in order.
    -> [(steps, error)]"""
    ps = [Proc(f, watched) for f in fns]
    for i, n in plan:
        k = 0
        while not ps[i].done and (n is None or k < n):
            ps[i].step()
            k += 1
    for p in ps:
        while not p.done:
            p.step()
    return [(p.steps, p.err) for p in ps]
