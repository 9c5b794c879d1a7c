import os

SHIFT = 0.0


def shift():
    return SHIFT


def note(log, *words):
    if log is not None:
        f = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(f, (" ".join(str(w) for w in words) + "\n").encode())
        os.close(f)


def stamp(t, kind):
    if kind == 1:
        return t.index * 0.25
    if kind == 2:
        return t.day
    if kind == 3:
        return t.month
    if kind == 4:
        return t.year - 2000
    if kind == 5:
        return t.day_of_year
    if kind == 6:
        return t.day_of_year_index
    if kind == 7:
        return t.fractional_day_of_year
    if kind == 8:
        return 4.0 if t.is_first else 0.0
    if kind == 9:
        return t.days
    if kind == 10:
        return 2.0 if t.is_leap_year else 1.0
    if kind == 11:
        d = t.date
        return d.toordinal() % 64 + d.hour + d.minute / 64
    return 0.0


EXPECTED = {
    "none": None,
    "flag": True,
    "off": False,
    "text": "h\u00e9llo \u2603 \"x\"",
    "big": 9007199254740993,
    "neg": -7,
    "top": 18446744073709551615,
    "nested": [1, [2.5, None, 2.0], {"x": [], "y": {"z": "w"}}],
}


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def check(opts):
    if opts is not None and not same(opts, EXPECTED):
        raise AssertionError(f"arguments are {opts!r}")


def work(info, phase, a, coefs, icoefs, k, ts, scen, ret, mod, opts, log, name, boom, more=0.0, count=0):
    t, s = info.timestep, info.scenario_index
    note(log, name, phase, s.simulation_id, t.index)
    check(opts)
    how = None
    if boom is not None and boom["step"] == t.index and boom["scen"] == s.simulation_id and boom["phase"] == phase:
        how = boom["how"]
    if how == "raise":
        raise ValueError("on purpose")
    if how == "metric":
        info.get_metric("not there")
    if how == "index":
        info.get_index("not there")
    v = a + k + more + shift() + stamp(t, ts)
    for key, c in coefs.items():
        v += c * info.get_metric(key)
    n = count + t.index + s.simulation_id
    for key, c in icoefs.items():
        i = info.get_index(key)
        if type(i) is not int:
            raise AssertionError(f"index is {i!r}")
        n += c * i
    n %= mod
    v += n * 0.25
    if scen:
        v += s.simulation_id * 0.5
        for j, x in enumerate(s.simulation_indices):
            v += (j + 1) * 0.25 * x
    if how == "text":
        return "1.5"
    if how == "none":
        return None
    if how == "list":
        return [v]
    if how == "nan":
        return {"v": float("nan"), "w": 0.0, "i": 0} if ret == "Dict" else float("nan")
    if how == "negative":
        return {"v": 0.0, "w": 0.0, "i": -1} if ret == "Dict" else -1
    if how == "nested":
        return {"v": v, "w": [v], "i": n}
    if ret == "Int":
        return n
    if ret == "Dict":
        return {"v": float(v), "w": float(v * 0.5 + a), "i": n}
    return v


def func(info, a, coefs, icoefs, *, k=0.0, ts=0, scen=False, ret="Float", mod=2, opts=None, log=None, name="", boom=None):
    return work(info, "before", a, coefs, icoefs, k, ts, scen, ret, mod, opts, log, name, boom)


class Base:
    def __init__(self, a, coefs, icoefs, *, acc=False, boom=None, **kwargs):
        if boom is not None and boom["how"] == "init":
            raise RuntimeError("no instance")
        self.a, self.coefs, self.icoefs, self.boom, self.kwargs = a, coefs, icoefs, boom, kwargs
        self.acc, self.past, self.count = acc, 0.0, {"before": 0, "after": 0}

    def run(self, info, phase):
        kw = dict(k=0.0, ts=0, scen=False, ret="Float", mod=2, opts=None, log=None, name="")
        kw.update(self.kwargs)
        count = self.count["before"] + 2 * self.count["after"] if self.acc else 0
        more = self.past if self.acc else 0.0
        v = work(info, phase, self.a, self.coefs, self.icoefs, boom=self.boom, more=more, count=count, **kw)
        self.count[phase] += 1
        x = info.get_metric("m0") if "m0" in self.coefs else self.a
        self.past = 0.5 * self.past + 0.25 * x
        return v


class B(Base):
    def before(self, info):
        return self.run(info, "before")


class A(Base):
    def after(self, info):
        return self.run(info, "after")


class AB(B, A):
    pass


class Nothing(Base):
    pass


def wsum(values, c, *, weights=False, boom=False):
    if boom:
        raise ValueError("on purpose")
    if type(values) is not list or not all(type(v) is float for v in values):
        raise AssertionError(f"values are {values!r}")
    return c + sum((j + 1) * 0.5 * v if weights else 0.5 * v for j, v in enumerate(values))


class Modulo:
    def __call__(self, values, mod, *, boom=False):
        if boom:
            raise ValueError("on purpose")
        if type(values) is not list or not all(type(v) is int for v in values):
            raise AssertionError(f"values are {values!r}")
        return (sum((j + 1) * v for j, v in enumerate(values)) + len(values)) % mod


modulo = Modulo()

if __name__ == "pvmod":
    with open(__file__) as f:
        CODE = compile(f.read(), "calc", "exec")
