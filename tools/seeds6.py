F = "pywr-core/src/solvers/ipm_simd/mod.rs"
seed("c29-refill-rate", "C29", [(F, "NodeBounds::Volume(bounds) => (bounds.available / dt, bounds.missing / dt),", "NodeBounds::Volume(bounds) => (bounds.available / dt, bounds.missing),")],
 "Time-steps longer than a day and a storage that is nearly full and is worth filling.",
 "With the interior-point solver a storage is filled beyond its maximum volume, because the room left is taken as a rate per day.", r'''
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(4.0),"cost":lit(1.0)},
    {"meta":{"name":"res"},"type":"Storage","max_volume":lit(20.0),"cost":lit(-5.0),"initial_volume":{"type":"Absolute","volume":14.0}},
    {"meta":{"name":"out"},"type":"Output","max_flow":lit(1.0),"cost":lit(-10.0)}], [("in","res"),("res","out")],
  record=[{"type":"Node","name":"res","attribute":"Volume"}, {"type":"Node","name":"in"}], days=21,
  time={"start":"2020-01-01","end":"2020-01-21","timestep":{"type":"Days","days":7}})
rc, err = run(m, "ipm")
check(rc == 0, err)
v = [float(x["value"]) for x in rows() if x["name"] == "res"]
f = [float(x["value"]) for x in rows() if x["name"] == "in"]
check(len(v) == 3 and all(abs(x - 20) < 0.01 for x in v) and abs(f[0] - (6/7 + 1)) < 0.01, (v, f))
''')
seed("c29-lanes-that-look-equal", "C29", [(F, """        } else if ub.len() == 4 {
            f64x4::from(ub)
        } else {
            // Pad the last entry to ensure it is the full width
            let pad: Vec<_> = (0..4 - ub.len())""", """        } else if ub.len() == 4 {
            if ub[0] == ub[1] && ub[2] == ub[3] {
                // The bound is the same in every scenario
                f64x4::splat(ub[0])
            } else {
                f64x4::from(ub)
            }
        } else {
            // Pad the last entry to ensure it is the full width
            let pad: Vec<_> = (0..4 - ub.len())""")],
 "Four scenarios or more, whose limits are equal in the first two and in the last two of a group of four, but not in all.",
 "With the interior-point solver two of four scenarios get the limits of another scenario.", r'''
def m(vals):
    return model([{"meta":{"name":"in"},"type":"Input","max_flow":par("p")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
      parameters=[{"meta":{"name":"p"},"type":"ConstantScenario","scenario_group":"s","values":{"type":"Literal","values":vals}}],
      record=[{"type":"Node","name":"out"}], days=1, scenarios={"groups":[{"name":"s","size":len(vals)}]})
for vals in ([1.0, 2.0, 3.0, 4.0], [2.0, 2.0, 2.0, 2.0, 5.0], [2.0, 2.0, 5.0, 5.0], [1.0, 2.0, 2.0, 1.0, 3.0, 3.0, 4.0, 4.0]):
    rc, err = run(m(vals), "ipm")
    check(rc == 0, err)
    got = [float(x["value"]) for x in rows()]
    check(len(got) == len(vals) and all(abs(a - b) < 0.01 for a, b in zip(got, vals)), (vals, got))
''')
seed("c29-last-limit-of-a-row", "C29", [(F, """        self.row_upper[row] = self.row_upper[row].min(value);
""", """        self.row_upper[row] = value;
""")],
 "Two nodes one after the other (which share a row of the problem), of which the one listed first has the lower limit.",
 "With the interior-point solver only the limit of the node listed last is in force.", r'''
def m(a, b, c):
    return model([{"meta":{"name":"a"},"type":"Input","max_flow":lit(a)},{"meta":{"name":"b"},"type":"Link","max_flow":lit(b)},{"meta":{"name":"out"},"type":"Output","max_flow":lit(c),"cost":lit(-1.0)}], [("a","b"),("b","out")], record=[{"type":"Node","name":"out"}], days=1)
for l in ((5.0, 4.0, 3.0), (3.0, 3.0, 4.0), (2.0, 6.0, 4.0), (6.0, 2.0, 4.0)):
    rc, err = run(m(*l), "ipm")
    check(rc == 0, err)
    check(abs(float(rows()[0]["value"]) - min(l)) < 0.01, (l, rows()))
''')
seed("c29-last-cost-of-a-column", "C29", [(F, """        self.col_obj_coef[col] += value;
""", """        self.col_obj_coef[col] = value;
""")],
 "Nodes in a row (whose edges share a column of the problem) with costs of both signs.",
 "With the interior-point solver only the cost of the last edge of a chain counts.", r'''
def m(ca, cb, co):
    return model([{"meta":{"name":"a"},"type":"Input","max_flow":lit(5.0),"cost":lit(ca)},{"meta":{"name":"b"},"type":"Link","cost":lit(cb)},{"meta":{"name":"c"},"type":"Link"},{"meta":{"name":"out"},"type":"Output","cost":lit(co)}], [("a","b"),("b","c"),("c","out")], record=[{"type":"Node","name":"out"}], days=1)
for costs, want in (((0.0, 0.0, -10.0), 5.0), ((20.0, 0.0, -10.0), 0.0), ((0.0, 20.0, -10.0), 0.0), ((-20.0, 0.0, 10.0), 5.0)):
    rc, err = run(m(*costs), "ipm")
    check(rc == 0, err)
    check(abs(float(rows()[0]["value"]) - want) < 0.01, (costs, rows()))
''')
PYHEAD = r'''
import os, json, threading, pywr
from datetime import datetime
OUT = os.environ["OUT"]
def lit(x): return {"type": "Literal", "value": x}
def par(x): return {"type": "Parameter", "name": x}
def doc(parameters, metrics=None, metric_sets=None, outputs=(), days=3, scenarios=None, flow="p"):
    d = {"metadata": {"title": "t"}, "time": {"start": "2020-01-01", "end": f"2020-01-{days:02}", "timestep": {"type": "Days", "days": 1}},
      "network": {"nodes": [{"meta":{"name":"in"},"type":"Input","max_flow":par(flow)}, {"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}],
        "edges": [{"from_node":"in","to_node":"out"}], "parameters": parameters,
        "metric_sets": metric_sets or [{"name":"ms","metrics":[{"type":"Node","name":"out"}]}], "outputs": list(outputs)}}
    if scenarios: d["scenarios"] = scenarios
    return json.dumps(d)
def build(text):
    return pywr.ModelSchema.from_json_string(text).build(OUT, OUT)
'''
seed_py("c30-cause-of-metric-set", "C30", [("pywr-schema/src/network.rs", """            NetworkSchemaBuildError::AddParameterError { source, .. } => (*source).try_into(),
            NetworkSchemaBuildError::AddLocalParameterError { source, .. } => (*source).try_into(),
            NetworkSchemaBuildError::AddMetricSetError { source, .. } => (*source).try_into(),
""", """            NetworkSchemaBuildError::AddParameterError { source, .. }
            | NetworkSchemaBuildError::AddLocalParameterError { source, .. } => (*source).try_into(),
""")],
 "An exception in the user's Python code of a metric set's aggregator while the model is built.",
 "The exception raised has no cause: the user's own exception and its traceback are lost.", PYHEAD + r'''
open(os.path.join(OUT, "agg.py"), "w").write("raise ZeroDivisionError('mine')\n")
C = {"meta":{"name":"p"},"type":"Constant","value":lit(1.0)}
F = {"type":"Python","source":{"type":"Path","path":"agg.py"},"object":"f"}
def cause(text):
    try:
        build(text)
    except RuntimeError as e:
        return e.__cause__
    raise AssertionError("no exception")
c = cause(doc([{"meta":{"name":"p"},"type":"Aggregated","phase":"Before","agg_func":F,"metrics":[lit(1.0)]}]))
assert isinstance(c, ZeroDivisionError) and str(c) == "mine", c
c = cause(doc([C], metric_sets=[{"name":"ms","metrics":[{"type":"Node","name":"out"}],"aggregator":{"freq":{"type":"Monthly"},"func":F}}]))
assert isinstance(c, ZeroDivisionError) and str(c) == "mine", c
''')
seed_py("c30-threads-without-parallel", "C30", [("pywr-core/src/solvers/highs/settings.rs", """            builder = builder.threads(threads.extract::<usize>()?);
""", """            let threads = threads.extract::<usize>()?;
            builder = builder.threads(threads);
            if threads > 1 {
                builder = builder.parallel();
            }
""")],
 "`threads` given to run without `parallel`, several scenarios, and user code that notes its thread.",
 "The run is parallel although `parallel` was not asked for: Python code of the user is called from several threads.", PYHEAD + r'''
import time
SEEN = set()
open(os.path.join(OUT, "noting.py"), "w").write("import threading, time\nSEEN = set()\ndef f(info):\n    SEEN.add(threading.get_native_id())\n    time.sleep(0.002)\n    return 1.0\ndef n(info):\n    return float(len(SEEN))\n")
P = [{"meta":{"name":"p"},"type":"Python","source":{"type":"Path","path":"noting.py"},"object":{"type":"Function","function":"f"}},
     {"meta":{"name":"n"},"type":"Python","source":{"type":"Path","path":"noting.py"},"object":{"type":"Function","function":"f2"}}]
def threads(kw):
    tag = os.path.join(OUT, "seen.txt")
    open(tag, "w").close()
    open(os.path.join(OUT, "noting.py"), "w").write(f"import threading, time\ndef f(info):\n    with open({tag!r}, 'a') as o: o.write(str(threading.get_native_id()) + chr(10))\n    time.sleep(0.002)\n    return 1.0\n")
    m = build(doc(P[:1], days=20, scenarios={"groups":[{"name":"s","size":12}]}))
    m.run("highs", solver_kwargs=kw)
    t = open(tag).read().split()
    assert len(t) == 240, len(t)
    return len(set(t))
assert threads(None) == 1
assert threads({"threads": 1}) == 1
assert threads({"threads": 4}) == 1, "several threads without parallel"
assert 1 <= threads({"threads": 4, "parallel": True}) <= 4
''')
seed_py("c30-conversion-errors-merged", "C30", [("pywr-python/src/lib.rs", """    let py_errors = errors
        .into_iter()
        .map(|e| e.into_pyobject(py))
""", """    let mut seen = std::collections::HashSet::new();
    let py_errors = errors
        .into_iter()
        // Report each kind of problem of a component once
        .filter(|e| seen.insert(std::mem::discriminant(e)))
        .map(|e| e.into_pyobject(py))
""")],
 "A Pywr 1 model in which several components of the same kind can not be converted.",
 "Only the first error of a kind is returned, so components are dropped without an error.", PYHEAD + r'''
def v1(bad):
    ps = {f"b{i}": {"type": "no such type", "x": i} for i in range(bad)}
    ps["good"] = {"type": "constant", "value": 2.0}
    return json.dumps({"metadata":{"title":"t","minimum_version":"1"},"timestepper":{"start":"2020-01-01","end":"2020-01-02","timestep":1},
      "nodes":[{"name":"in","type":"input","max_flow":"good"},{"name":"out","type":"output","cost":-1}],"edges":[["in","out"]],"parameters":ps})
for n in (0, 1, 3):
    schema, errors = pywr.convert_model_from_v1_json_string(v1(n))
    assert len(errors) == n, (n, errors)
    d = json.loads(schema.to_json_string())
    assert [p["meta"]["name"] for p in d["network"]["parameters"]] == ["good"], d
''')
