from hypothesis import strategies as st
import collections, errno, time
from ..core import Check, Result, Violation
from ..procs import Server, short, readable

CAPACITY = 1024
ERR = [errno.ECONNABORTED, errno.EMFILE, errno.EINTR, errno.ENFILE, errno.EPROTO, errno.EAGAIN, errno.ENOMEM, errno.EPERM]


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 19))
        if k < 8: ops.append(["arrive", draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))])
        elif k < 14: ops.append(["finish", draw(st.one_of(st.integers(1, 6), st.integers(1, 40))), draw(st.integers(0, 1 << 16))])
        elif k < 15: ops.append(["fail", draw(st.sampled_from(ERR)), draw(st.integers(1, 2))])
        elif k < 17: ops.append(["mixed", draw(st.integers(1, 30)), draw(st.integers(1, 30)), draw(st.integers(0, 1 << 16))])
        elif k < 18: ops.append(["drain"])
        else: ops.append(["pad"])
    if draw(st.integers(0, 24)) == 0:
        at = draw(st.integers(0, len(ops)))
        ops.insert(at, ["flood", draw(st.integers(-2, 30))])
        if draw(st.booleans()):
            ops.insert(at + 1, ["brim", draw(st.integers(5, 60)), draw(st.integers(0, 1 << 16))])
            return [ops, draw(st.integers(1, 1 << 30)), 100]
    return [ops, draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 0, 100]))]


class C15(Check):
    pid = "C15"
    builds = ("server_p",)
    quick, thorough = 2500, 60000
    batch = 250
    replays = 6
    shrink_s = 30
    workers = 8
    rule = ("A history of connections that arrive one by one or in bursts (up to 1024 waiting and beyond), of accept failures and of workers that end, with a handler of our own that records "
            "which connection it was given; the server keeps running, so the queue wraps around. Non-trivial = connections had to wait.")
    assumptions = ["4 workers instead of 200, so that all are busy soon"]
    WORKERS = 4

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        s = Server(ctx, kind="server_p", gate=True, cap=self.WORKERS)
        s.n = 0
        s.reset_needed = False
        return s

    # The model: `busy` (id -> descriptor in the server), `waiting` in order
    def run(self, s, case):
        ops, seed, permille = case
        s.cmd("D", "%d %d" % (seed, permille))
        m = Model(s, self.WORKERS)
        lab, nt = set(), False
        try:
            for op in ops:
                m.trace.append(op)
                if op[0] == "arrive":
                    m.arrive(op[1])
                elif op[0] == "finish":
                    for i in range(op[1]):
                        m.finish(op[2] >> (i % 16))
                elif op[0] == "mixed":
                    m.mixed(op[1], op[2], op[3])
                elif op[0] == "fail":
                    for _ in range(op[2]):
                        s.accept_error(op[1])
                    m.settle()
                elif op[0] == "drain":
                    while m.busy:
                        m.finish(0)
                elif op[0] == "pad":
                    # whole rounds through the queue
                    for _ in range(20):
                        m.arrive(1)
                        m.finish(0)
                elif op[0] == "flood":
                    room = CAPACITY + self.WORKERS - len(m.busy) - len(m.waiting)
                    m.arrive(max(0, room + op[1]))
                    lab.add("queue full" if op[1] >= 0 else "queue nearly full")
                    if op[1] > 0: lab.add("dropped")
                elif op[0] == "brim":
                    lab.add("brim, %s" % ("some accepted" if m.brim(op[1], op[2]) else "all dropped"))
                lab.add(op[0])
                if m.waiting:
                    lab.add("waiting")
                    nt = True
            n = len(m.waiting)
            if n > 60:
                s.cmd("G", "-1")
                m.trace.append("release all")
                m.release_all()
            while m.busy:
                m.finish(0)
            m.settle()
        finally:
            m.close()
        if permille: lab.add("perturbed")
        return Result(sorted(lab), nt)


class Model:
    def __init__(self, s, workers):
        self.s, self.workers = s, workers
        self.busy = collections.OrderedDict()      # id -> (socket, descriptor)
        self.waiting = collections.OrderedDict()   # id -> socket
        self.trace = []

    def say(self, t):
        return "history %s: %s" % (short(self.trace, 1500), t)

    def new(self):
        self.s.n += 1
        return b"%08d" % (self.s.n % 100000000)

    def arrive(self, n):
        free = self.workers - len(self.busy)
        if 0 < free < n:
            # the free workers first, so that it is known how many wait
            self.arrive(free)
            n -= free
        cs = []
        for _ in range(n):
            i = self.new()
            c = self.s.inject(wait=False)
            try:
                c.sendall(i)
            except OSError:
                pass      # closed already: dropped
            cs.append((i, c))
            self.s.unacked > 200 and self.s.sync()
        self.s.sync()
        dropped = 0
        for i, c in cs:
            if len(self.waiting) < CAPACITY + self.workers - len(self.busy):
                self.waiting[i] = c
            else:
                # one beyond is closed at once
                self.s.read_all(c)
                c.close()
                dropped += 1
        self.settle()

    def settle(self):
        """All workers are given what waits, in order"""
        want = []
        while self.waiting and len(self.busy) + len(want) < self.workers:
            want.append(next(iter(self.waiting)))
            self.busy_next(want[-1])
        self.expect(want)

    def busy_next(self, i):
        self.pending = getattr(self, "pending", {})
        self.pending[i] = self.waiting.pop(i)

    def events(self):
        return [l.split() for l in self.s.cmd("T").decode("latin-1").splitlines()]

    def expect(self, want):
        want, got = set(want), set()
        end = time.time() + self.s.timeout
        quiet = 0
        while True:
            for fd, i, th in self.events():
                i = i.encode()
                if i in got or i in self.busy:
                    raise Violation(self.say("connection %s is handled twice" % i.decode()))
                if i not in want:
                    raise Violation(self.say("a worker is given %s, expected %s" % (i.decode(), sorted(want))))
                got.add(i)
                self.busy[i] = (self.pending.pop(i), int(fd), th)
            if got == want:
                break
            if time.time() > end:
                raise Violation(self.say("no worker is given %s" % sorted(want - got)), "hang")
            time.sleep(0.0003)
        ths = [b[2] for b in self.busy.values()]
        if len(set(ths)) != len(ths):
            raise Violation(self.say("one worker has two connections"))

    def finish(self, k):
        if not self.busy:
            return
        i = list(self.busy)[k % len(self.busy)]
        c, fd, _ = self.busy.pop(i)
        self.s.cmd("G", str(fd))
        self.closed(i, c)
        self.settle()

    def closed(self, i, c):
        r = self.s.read_all(c)
        c.close()
        if r:
            raise Violation(self.say("connection %s receives %s" % (i, short(r))))

    def mixed(self, n, k, seed):
        """Connections arrive while workers end: the order of what starts is not observed, that each is handled once is"""
        ids = []
        done = 0
        for j in range(max(n, k)):
            if j < n and len(self.waiting) < CAPACITY - 60:
                i = self.new()
                c = self.s.inject(wait=False)
                c.sendall(i)
                self.waiting[i] = c
            if j < k and self.busy:
                i = list(self.busy)[(seed >> j % 16) % len(self.busy)]
                c, fd, _ = self.busy.pop(i)
                self.s.cmd("G", str(fd))
                self.closed(i, c)
                done += 1
                if seed & 1 << j % 16:
                    # see what has been started meanwhile
                    self.absorb()
        self.s.sync()
        self.settle_any()

    def brim(self, n, seed):
        """With the queue full, connections arrive just when a worker takes one: each is closed or handled"""
        self.arrive(max(0, CAPACITY + self.workers - len(self.busy) - len(self.waiting)))
        accepted = 0
        for j in range(n):
            i, (c, fd, _) = list(self.busy.items())[(seed >> j % 16) % len(self.busy)]
            del self.busy[i]
            self.s.cmd("G", str(fd))
            new = []
            for _ in range(1 + (seed >> (j + 3) % 16 & 1)):
                k = self.new()
                x = self.s.inject(wait=False)
                try:
                    x.sendall(k)
                except OSError:
                    pass
                new.append((k, x))
            self.s.sync()
            for k, x in new:
                if readable(x):
                    self.closed(k, x)
                else:
                    self.waiting[k] = x
                    accepted += 1
            self.closed(i, c)
            self.settle_any()
        if len(self.waiting) > CAPACITY:
            raise Violation(self.say("%d connections wait" % len(self.waiting)))
        return accepted

    def absorb(self):
        for fd, i, th in self.events():
            i = i.encode()
            if i not in self.waiting:
                raise Violation(self.say("a worker is given %s, which is not waiting" % i.decode()))
            self.busy[i] = (self.waiting.pop(i), int(fd), th)
        if len(self.busy) > self.workers:
            raise Violation(self.say("%d connections are handled by %d workers" % (len(self.busy), self.workers)))

    def settle_any(self):
        end = time.time() + self.s.timeout
        while True:
            before = list(self.waiting)
            self.absorb()
            if not self.waiting or len(self.busy) == self.workers:
                return
            if time.time() > end:
                raise Violation(self.say("no worker is given %s" % [w.decode() for w in self.waiting][:5]), "hang")
            time.sleep(0.0003)

    def release_all(self):
        """Each of those that wait is handled once, by some worker"""
        left = dict(self.waiting)
        for i, b in self.busy.items():
            left[i] = b[0]
        seen = set(self.busy)
        self.busy.clear()
        self.waiting.clear()
        for i, c in left.items():
            self.closed(i, c)
        self.s.cmd("G", "-2")
        end = time.time() + self.s.timeout
        order = collections.defaultdict(list)
        while seen != set(left):
            for fd, i, th in self.events():
                i = i.encode()
                if i in seen or i not in left:
                    raise Violation(self.say("connection %s is handled twice, or was none" % i.decode()))
                seen.add(i)
                order[th].append(i)
            if time.time() > end:
                raise Violation(self.say("%s are never handled" % sorted(set(left) - seen)[:5]))
        for th, l in order.items():
            if l != sorted(l):
                raise Violation(self.say("a worker handles %s out of order" % l))

    def close(self):
        for c in list(self.waiting.values()) + [b[0] for b in self.busy.values()]:
            c.close()


CHECK = C15()
