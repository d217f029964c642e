import json
from hypothesis import strategies as st
from ..core import Check, Result, Violation
from ..procs import Unit, short
from .. import gen

UTF8 = st.text(st.characters(min_codepoint=1, exclude_categories=["Cs"]), max_size=30)
NASTY = st.text(st.sampled_from("\"\\/\b\f\n\r\t\x01\x1f\x7f{}[],:'%\u00e9\u20ac\U0001f600 a"), max_size=20)
LONG = st.builds(lambda s, n: (s * (n // max(1, len(s)) + 1))[:n], st.text(st.sampled_from("ab\"\\\n\x02%\u00e9 ,"), min_size=1, max_size=7),
                 st.one_of(st.integers(0, 3000), st.sampled_from([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 20000])))
STR = st.one_of(UTF8, NASTY, LONG)
INT = st.one_of(st.integers(-9, 9), st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1, 0, -1, 10**9, -10**9]))
UINT = st.one_of(st.integers(0, 9), st.integers(0, 2**32 - 1), st.sampled_from([2**31 - 1, 2**31, 2**32 - 1]))
KEY = st.one_of(st.text(st.sampled_from(gen.ALNUM + "_-. "), max_size=24), st.builds(lambda n: "k" * n, st.integers(0, 600)))
JVAL = st.recursive(st.one_of(st.none(), st.booleans(), INT, NASTY), lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(st.text(st.sampled_from("abc"), max_size=4), c, max_size=4)), max_leaves=8)
LIST_N = st.one_of(st.integers(0, 6), st.integers(0, 60), st.sampled_from([0, 1, 2, 127, 128, 500]))


def enc(s):
    return s.encode("utf-8").decode("latin-1")


class C21(Check):
    pid = "C21"
    quick, thorough = 16000, 400000
    batch = 2000
    rule = ("One builder call per case: array of strings, of ints, list of entities, or a key with a string, int, unsigned or bool; "
            "non-trivial = the value is not the empty array and not a single short plain word.")
    assumptions = ["strings are valid UTF-8 without NUL (JSON text is defined over Unicode); keys are plain (no characters JSON escapes)"]

    def strategy(self, tier):
        @st.composite
        def case(draw):
            k = draw(st.sampled_from(["strings", "strings", "ints", "entities", "kv", "kv", "int", "uint", "bool", "null"]))
            if k == "strings":
                if draw(st.booleans()):
                    v = draw(st.lists(STR, max_size=8))
                else:
                    n, base = draw(LIST_N), draw(st.lists(STR, min_size=1, max_size=3))
                    v = [base[i % len(base)][:400] for i in range(n)]
            elif k == "ints":
                if draw(st.booleans()):
                    v = draw(st.lists(INT, max_size=12))
                else:
                    n, base = draw(LIST_N), draw(st.lists(INT, min_size=1, max_size=4))
                    v = [base[i % len(base)] for i in range(n)]
            elif k == "entities":
                if draw(st.booleans()):
                    v = draw(st.lists(JVAL, max_size=6))
                else:
                    n, base = draw(LIST_N), draw(st.lists(st.one_of(JVAL, LONG), min_size=1, max_size=3))
                    v = [base[i % len(base)] for i in range(n)]
            elif k == "kv":
                v = [draw(KEY), draw(st.one_of(STR, st.none()))]
            elif k == "int":
                v = [draw(KEY), draw(INT)]
            elif k == "uint":
                v = [draw(KEY), draw(UINT)]
            elif k == "bool":
                v = [draw(KEY), draw(st.booleans())]
            else:
                v = draw(st.integers(0, 5))
            return [k, v]
        return case()

    def open(self, ctx):
        return Unit(ctx)

    def run(self, u, case):
        k, v = case
        kv = False
        if k == "strings":
            r = u("json_strings", *[enc(x) for x in v])
            want = v
        elif k == "ints":
            r, want = u("json_ints", *v), v
        elif k == "entities":
            r, want = u("json_entities", *[enc(json.dumps(x, ensure_ascii=False)) for x in v]), v
        elif k == "kv":
            r, want, kv = u("json_kv", v[0], None if v[1] is None else enc(v[1])), {v[0]: v[1] or ""}, True
        elif k == "int":
            r, want, kv = u("json_kv_int", *v), {v[0]: v[1]}, True
        elif k == "uint":
            r, want, kv = u("json_kv_uint", *v), {v[0]: v[1]}, True
        elif k == "bool":
            r, want, kv = u("json_kv_bool", *v), {v[0]: v[1]}, True
        else:
            r = u("json_null", v)
            if r != ["[]", "[]", "[]"]:
                raise Violation("missing arrays give %s" % short(r))
            return Result([k], False)
        txt = r[0].encode("latin-1")
        try:
            got = json.loads((b"{" + txt + b"}" if kv else txt).decode("utf-8"), parse_constant=lambda c: 1 / 0)
        except Exception as e:
            raise Violation("%s of %s gives invalid JSON %s: %s" % (k, short(v), short(txt), e))
        if got != want or not same_types(got, want):
            raise Violation("%s of %s decodes to %s (text %s)" % (k, short(v), short(got), short(txt)))
        if v == [] and txt != b"[]":
            raise Violation("empty %s gives %s" % (k, short(txt)))
        labels = [k]
        flat = json.dumps(v, ensure_ascii=False)
        if "\\" in flat: labels.append("needs escape")
        if len(flat) > 512: labels.append("over 512 bytes")
        if isinstance(v, list) and not kv and len(v) > 20: labels.append("over 20 elements")
        return Result(labels, v != [] and len(flat) > 12)


def same_types(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, list):
        return all(same_types(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(same_types(a[k], b[k]) for k in a)
    return True


CHECK = C21()
