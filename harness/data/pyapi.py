"""Uses the `pywr` module as a script of a user does; called by the monitor of C30."""

import json
import logging
import pathlib
import threading
from datetime import datetime

import pywr
from pywr import pywr as native

logging.disable(logging.CRITICAL)
NOTES = {}


class Broken(Exception):
    pass


def who(info, case):
    """A custom parameter that notes the thread it is calculated in."""
    NOTES.setdefault(case, set()).add(threading.get_native_id())
    return info.timestep.index + 100.0 * info.scenario_index.simulation_id


class Meets:
    """Waits, the first time, until it is calculated in two threads at once."""

    barriers = {}

    def __init__(self, case, seconds):
        self.barrier = Meets.barriers.setdefault(case, threading.Barrier(2, timeout=seconds))
        self.waited = False

    def before(self, info):
        if not self.waited:
            self.waited = True
            try:
                self.barrier.wait()
            except threading.BrokenBarrierError:
                pass
        return 1.0


def do_met(case):
    return not Meets.barriers.pop(case).broken


def do_native(names):
    return [n for n in names if not isinstance(getattr(native, n, None), type)]


def stop(info, step, scenario):
    if info.timestep.index == step and info.scenario_index.simulation_id == scenario:
        raise Broken(f"stopped in step {step}")
    return 1.0


class Refuses:
    def __init__(self, text):
        raise Broken(text)

    def before(self, info):
        return 0.0


class Counts:
    """Keeps a state of its own."""

    def __init__(self, start, step=1.0):
        self.value = start
        self.step = step

    def before(self, info):
        self.value += self.step
        return self.value


def exc(e):
    d = {
        "type": type(e).__name__,
        "bases": [c.__name__ for c in type(e).__mro__],
        "msg": str(e.args[0]) if e.args else "",
    }
    if e.__cause__ is not None:
        d["cause"] = exc(e.__cause__)
    return d


def attempt(f):
    try:
        return {"ok": f()}
    except BaseException as e:  # a panic is no Exception
        return {"exc": exc(e)}


def call(name, args):
    return json.dumps(attempt(lambda: globals()["do_" + name](**json.loads(args))))


def cls(multi):
    return pywr.MultiNetworkModelSchema if multi else pywr.ModelSchema


def path(p, plain):
    return p if p is None or plain else pathlib.Path(p)


def schema(multi, text=None, file=None, plain=False):
    if file is not None:
        return cls(multi).from_path(path(file, plain))
    return cls(multi).from_json_string(text)


def do_schema(**source):
    s = schema(**source)
    a = s.to_json_string()
    b = cls(source["multi"]).from_json_string(a).to_json_string()
    return [a, b]


def do_new(multi, title, start, end):
    return cls(multi)(title, datetime.fromisoformat(start), datetime.fromisoformat(end)).to_json_string()


def do_build(source, data, output, plain):
    s = schema(**source)
    before = s.to_json_string()
    s.build(path(data, plain), path(output, plain))
    if s.to_json_string() != before:
        raise AssertionError("building changes the schema object")
    return True


def result(r, names):
    d = {"names": r.output_names(), "values": {}, "unknown": [attempt(lambda: r.aggregated_value("no such output")), attempt(lambda: r.to_dataframe("no such output"))]}
    for n in names:
        d["values"][n] = attempt(lambda: r.aggregated_value(n).hex())
    return d


def do_run(source, data, output, plain, solver, kwargs, names, networks, times, case, keyword):
    s = schema(**source)
    model = s.build(data_path=path(data, plain), output_path=path(output, plain))
    if type(model) is not (pywr.MultiNetworkModel if source["multi"] else pywr.Model):
        raise AssertionError(f"a {type(model)}")
    given = json.dumps(kwargs)
    runs = []
    for _ in range(times):
        NOTES.pop(case, None)

        def one():
            if keyword:
                r = model.run(solver_name=solver, solver_kwargs=kwargs)
            elif kwargs is None:
                r = model.run(solver)
            else:
                r = model.run(solver, kwargs)
            d = {"duration": r.timings.total_duration, "speed": r.timings.speed, "repr": repr(r), "timings": repr(r.timings)}
            if networks is None:
                d["networks"] = [result(r.network_result, names)]
            else:
                d["networks"] = [result(r.network_results(n), names) for n in networks]
                d["unknown"] = attempt(lambda: r.network_results("no such network"))
            return d

        x = attempt(one)
        x["kwargs_kept"] = json.dumps(kwargs) == given
        ids = NOTES.pop(case, set())
        x["caller"] = threading.get_native_id() in ids
        x["threads"] = len(ids)
        runs.append(x)
    return runs


def enum(e):
    """An enumeration of Rust: the name of the variant and its fields."""
    names = [n for n in dir(type(e)) if not n.startswith("_") and not isinstance(getattr(type(e), n), type)]
    d = {}
    for n in names:
        v = getattr(e, n)
        if isinstance(v, pathlib.PurePath):
            v = str(v)
        elif isinstance(v, native.ConversionError):
            v = enum(v)
        elif not (v is None or isinstance(v, (str, int, float, list, dict))):
            v = repr(v)
        d[n] = v
    return [type(e).__name__, d]


def do_v1(text):
    s, errors = pywr.convert_model_from_v1_json_string(text)
    if type(s) is not pywr.ModelSchema or not all(isinstance(e, pywr.ComponentConversionError) for e in errors):
        raise AssertionError("types of the conversion")
    return [s.to_json_string(), [enum(e) for e in errors]]


def do_v1_metric(text):
    return pywr.convert_metric_from_v1_json_string(text).to_json_string()


def do_export(file, plain):
    pywr.export_schema(path(file, plain))
    with open(file, encoding="utf-8") as f:
        return f.read()


def do_run_from_path(file, data, output, solver):
    kw = {}
    if data is not None:
        kw["data_path"] = pathlib.Path(data)
    if output is not None:
        kw["output_path"] = pathlib.Path(output)
    pywr.run_from_path(pathlib.Path(file), solver=solver, **kw)
    return True
