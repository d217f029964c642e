from hypothesis import strategies as st
import calendar, os, re, shutil, time
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen

NAMES = ["TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"]
LCH = "".join(c for c in gen.NONUL if c not in "\n\r")
TEXT = st.one_of(gen.text(LCH, 5000, (63, 64, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096)), st.sampled_from(["", "%s%n%d%", "a: b: c", " lead and trail "]), st.integers(1, 40000).map(lambda n: "L" * n))
LINE = re.compile(r"(\d\d)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) (\d+) +(TRACE|DEBUG|INFO|WARN|ERROR|FATAL) *([^:]*):([^:]*):(-?\d+): (.*)\Z", re.S)


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 9))
        if k < 2: ops.append(["level", draw(st.integers(-1, 6))])
        elif k < 8: ops.append(["log", draw(st.integers(0, 4)), draw(st.sampled_from(["s", "s", "sd", "many", "const"])), draw(TEXT), draw(st.one_of(st.integers(0, 5), st.integers(-2**31, 2**31 - 1)))])
        elif k < 9: ops.append(["threads", draw(st.integers(2, 12)), draw(st.integers(1, 12)), draw(st.integers(0, 4)), draw(st.sampled_from([0, 1, 40, 400, 900])), draw(st.integers(1, 1 << 30)), draw(st.sampled_from([0, 200, 600]))])
        elif draw(st.booleans()): ops.append(["file", draw(st.sampled_from([0, 1, 2, 3] * 3 + [4, 5, 6, 7]))])
        else: ops.append(["close"])
    if draw(st.integers(0, 9)) == 0:
        ops.append(["fatal", draw(TEXT), draw(st.sampled_from([5, 5, 4, 3]))])
    return [draw(st.integers(0, 5)), ops, draw(st.integers(0, 59)) == 31]


class C19(Check):
    pid = "C19"
    builds = ("unit_p",)
    quick, thorough = 6000, 120000
    batch = 500
    replays = 6
    rule = ("A history of level changes, messages of all levels and formats, changes and closings of the file, threads that log at the same time with delays injected at library calls, and fatal messages "
            "(in a forked process); non-trivial = something was written and something dropped, or threads logged together.")
    assumptions = ["message texts have no line breaks", "the level is not changed while threads log"]

    def strategy(self, tier):
        return case()

    def open(self, ctx):
        u = Unit(ctx, kind="unit_p")
        u.log, u.opened, u.ctx = None, False, ctx
        u.pos = {}
        return u

    def select(self, u, n):
        # (those above 3 while another one is open)
        p = os.path.join(u.dir, "d/log%d" % (n % 4))
        if u.opened and n < 4:
            u("log_close")
        before = open(p, "rb").read() if os.path.exists(p) else b""
        u("log_file", p)
        u.opened, u.log = True, p
        after = open(p, "rb").read()
        if after != before:
            raise Violation("taking a log file of %d bytes into use leaves %d bytes in it, %s" % (len(before), len(after), short(after, 200)))
        u.pos[p] = len(after)

    def gained(self, u):
        with open(u.log, "rb") as f:
            f.seek(u.pos[u.log])
            t = f.read()
        u.pos[u.log] += len(t)
        return t.decode("latin-1")

    def run(self, u, case):
        level, ops, fresh = case
        if fresh:
            # a process that was not told a file yet
            v = Unit(u.ctx, kind="unit_p")
            v.opened, v.log, v.pos, v.ctx = False, v.err, {v.err: 0}, u.ctx
            try:
                return self.history(v, level, ops, "standard error")
            finally:
                v.close()
                shutil.rmtree(v.dir, ignore_errors=True)
        if not u.opened:
            self.select(u, 0)
        return self.history(u, level, ops)

    def history(self, u, level, ops, *labels):
        self.set(u, level)
        lab, wrote, dropped, together = set(labels), False, False, False
        for op in ops:
            t0 = time.time()
            what = short(op, 400)
            if op[0] == "level":
                level = op[1]
                self.set(u, level)
            elif op[0] == "file":
                self.select(u, op[1])
            elif op[0] == "close":
                # from now on standard error is written to
                u("log_close")
                lab.add("file closed" if u.opened else "closed while none is open")
                if u.opened:
                    u.opened, u.log = False, u.err
                    u.pos[u.err] = os.path.getsize(u.err)
            elif op[0] == "log":
                _, lv, fmt, text, d = op
                if fmt == "const":
                    text = "".join(c for c in text if c != ":")[:3000].lstrip(" ")
                u("log", lv, fmt, text, d)
                got = self.gained(u)
                if lv < level:
                    if got:
                        raise Violation("level %d, %s: below the level, but %s is written" % (level, what, short(got)))
                    dropped = True
                    lab.add("dropped")
                    continue
                if fmt == "s": f, fn, line, msg = None, "log_one", None, text
                elif fmt == "sd": f, fn, line, msg = "some/file.c", "func_name", d, "%s|%d| 1.50|%%|x" % (text, d)
                elif fmt == "many": f, fn, line, msg = "f.c", "g", d, "1 2 3 4 5 6 7 8 9 " + text
                else: f, fn, line, msg = text, "h", d, "constant text"
                self.one(got, lv, f, fn, line, msg, t0, "level %d, %s" % (level, what))
                wrote = True
                lab.add("written " + NAMES[lv])
                if len(msg) > 1023: lab.add("over 1023 bytes")
            elif op[0] == "threads":
                _, n, k, lv, size, seed, permille = op
                u("perturb", seed, permille)
                u("log_threads", n, k, lv, size)
                u("perturb", 1, 0)
                got = self.gained(u)
                if lv < level:
                    if got:
                        raise Violation("level %d, %s: below the level, but %s is written" % (level, what, short(got)))
                    continue
                together = True
                lab.add("threads perturbed" if permille else "threads")
                self.many(got, n, k, lv, size, t0, "level %d, %d threads that each write %d messages" % (level, n, k))
            else:
                _, text, lv = op
                rc = int(u("log_fatal", text, lv)[0])
                got = self.gained(u)
                if lv == 5:
                    # at level 6 even a fatal message is below the level
                    if level > 5:
                        continue
                    if rc != 1:
                        raise Violation("level %d, %s: the process ends with status %d" % (level, what, rc))
                    self.one(got, 5, None, "log_one", None, text, t0, "level %d, %s" % (level, what))
                    lab.add("fatal")
                elif rc != 77:
                    raise Violation("level %d, %s: the process ends with status %d" % (level, what, rc))
        return Result(sorted(lab), wrote and dropped or together)

    def set(self, u, level):
        r = [int(x) for x in u("log_level", level)]
        if [bool(x) for x in r] != [l >= level for l in range(6)]:
            raise Violation("with level %d, the enabled levels are %s" % (level, r))

    def head(self, l, t0, what):
        m = LINE.match(l)
        if not m:
            raise Violation("%s: the log gains the line %s" % (what, short(l)))
        d, mo, y, H, M, S = map(int, m.groups()[:6])
        t = calendar.timegm((2000 + y, mo, d, H, M, S)) if 1 <= mo <= 12 and 1 <= d <= 31 else 0
        if not int(t0 - 0.05) <= t <= time.time() + 1:
            raise Violation("%s: the line %s has another time than %s (UTC)" % (what, short(l, 200), time.strftime("%d-%m-%y %H:%M:%S", time.gmtime(t0))))
        return m.groups()[6:]

    def one(self, got, lv, f, fn, line, msg, t0, what):
        ls = got.split("\n")
        if len(ls) != 2 or ls[1]:
            raise Violation("%s: %s is written instead of one line" % (what, short(got)))
        th, ln, gf, gfn, gl, text = self.head(ls[0], t0, what)
        if ln != NAMES[lv] or fn != gfn or text != msg or (f is not None and f != gf) or (line is not None and str(line) != gl) or (f is None and not gf.endswith("unit.c")):
            raise Violation("%s: the line is %s; expected %s, file %s, function %s, line %s, text %s" % (what, short(ls[0], 600), NAMES[lv], f, fn, line, short(msg, 600)))

    def many(self, got, n, k, lv, size, t0, what):
        ls = got.split("\n")
        if ls[-1]:
            raise Violation("%s: the log ends in %s" % (what, short(ls[-1], 300)))
        nxt, ids = [0] * n, {}
        for l in ls[:-1]:
            th, ln, f, fn, line, text = self.head(l, t0, what)
            m = re.match(r"T(\d+) M(\d+) ([a-z]*)\|end\Z", text)
            i = int(m.group(1)) if m else -1
            if not m or not 0 <= i < n or m.group(3) != chr(97 + i % 26) * (size * (i + 1)) or ln != NAMES[lv] or f != "thread.c" or fn != "worker" or line != m.group(2):
                raise Violation("%s: the log gains the line %s" % (what, short(l, 600)))
            if int(m.group(2)) != nxt[i]:
                raise Violation("%s: message %s of thread %d follows %d" % (what, m.group(2), i, nxt[i] - 1))
            nxt[i] += 1
            ids.setdefault(i, set()).add(th)
        if nxt != [k] * n:
            raise Violation("%s: %s are written" % (what, nxt))
        if any(len(v) != 1 for v in ids.values()):
            raise Violation("%s: lines of one thread show different threads: %s" % (what, ids))


CHECK = C19()
