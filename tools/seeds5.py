# Planted changes for C18, C19 and C24 to C28.
VALGRIND = r'''
import re
def mem(model):
    p = os.path.join(OUT, "model.json"); json.dump(model, open(p, "w"))
    r = subprocess.run(["valgrind", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=none", "--num-callers=30", os.environ["VPDEMO"], p, DATA, OUT], capture_output=True, text=True, timeout=280, cwd=OUT)
    return r.stderr
'''
seed("c24-name-not-freed", "C24", [("pywr-core/src/solvers/highs/mod.rs", """        let c_filename = CString::new(filename).unwrap();
        let ret = unsafe { Highs_writeModel(self.ptr, c_filename.as_ptr()) };
""", """        let c_filename = CString::new(filename).unwrap().into_raw();
        let ret = unsafe { Highs_writeModel(self.ptr, c_filename) };
""")],
 "A time-step without a solution, for which the model is written to a file.",
 "The name of the file given to HiGHS is never freed.", VALGRIND + r'''
e = mem(model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(2.0)},{"meta":{"name":"out"},"type":"Output","min_flow":lit(3.0)}], [("in","out")], record=[{"type":"Node","name":"out"}], days=2))
check("ERROR SUMMARY" in e, e[-500:])
lost = e.split("definitely lost in loss record")[:-1]
check("write_model" not in e, e[:3000])
''')
REWRITE = r'''
def rewrite(m):
    a, b = os.path.join(OUT, "a.json"), os.path.join(OUT, "b.json")
    json.dump(m, open(a, "w"))
    if os.path.exists(b): os.remove(b)
    r = subprocess.run([os.environ["VPDEMO"], "rewrite", a, b], capture_output=True, text=True)
    return json.load(open(b)) if os.path.exists(b) else None
'''
seed("c18-rolling-initial", "C18", [("pywr-schema/src/parameters/rolling.rs", "    pub initial_value: u64,\n", "    #[serde(default)]\n    pub initial_value: u64,\n")],
 "A model file with a rolling index parameter that lacks its initial value.",
 "A file without a required field is accepted.", REWRITE + r'''
def m(**kw):
    return model([{"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output"}], [("in","out")],
      parameters=[{"meta":{"name":"r"},"type":"RollingIndex","metric":{"type":"Constant","value":1},"window_size":3,"agg_func":{"type":"Sum"},**kw}])
b = rewrite(m(initial_value=0))
check(b is not None and b["network"]["parameters"][0]["initial_value"] == 0, b)
check(rewrite(m()) is None, "accepted")
''')
seed("c18-blank-comment", "C18", [("pywr-schema/src/parameters/mod.rs", """    #[serde(skip_serializing_if = "Option::is_none")]
    pub comment: Option<String>,
    #[serde(default, skip_serializing_if = "HashMap::is_empty")]
    pub tags: HashMap<String, String>,
}
""", """    #[serde(skip_serializing_if = "is_blank")]
    pub comment: Option<String>,
    #[serde(default, skip_serializing_if = "HashMap::is_empty")]
    pub tags: HashMap<String, String>,
}

/// Comments without text are not written.
fn is_blank(comment: &Option<String>) -> bool {
    comment.as_ref().is_none_or(|c| c.trim().is_empty())
}
""")],
 "A parameter whose comment consists of white space.",
 "Writing the model loses a value.", REWRITE + r'''
def m(c):
    return model([{"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output"}], [("in","out")],
      parameters=[{"meta":{"name":"r","comment":c},"type":"Constant","value":lit(1.0)}])
for c in ("x", "", " \n"):
    b = rewrite(m(c))
    check(b["network"]["parameters"][0]["meta"].get("comment") == c, b)
''')
VISIT = r'''
def visit(m):
    a, b = os.path.join(OUT, "a.json"), os.path.join(OUT, "b.json")
    json.dump(m, open(a, "w"))
    r = subprocess.run([os.environ["VPDEMO"], "visit", a, b], capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    return json.load(open(b))
'''
seed("c19-edge-metric-rename", "C19", [("pywr-schema/src/visit.rs", """            Metric::VirtualNode(node_ref) => node_ref.visit_node_references_mut(visitor),
            Metric::Edge(edge_ref) => edge_ref.visit_node_references_mut(visitor),
            Metric::Literal { .. }
""", """            Metric::VirtualNode(node_ref) => node_ref.visit_node_references_mut(visitor),
            Metric::Edge(_)
            | Metric::Literal { .. }
""")],
 "Renaming the nodes of a model with a metric of the flow of an edge.",
 "The names of nodes in metrics of edges are read by visitors but not changed by mutating ones.", VISIT + r'''
m = model([{"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output"}], [("in","out")],
  parameters=[{"meta":{"name":"r"},"type":"Negative","parameter":{"type":"Edge","edge":{"from_node":"in","to_node":"out"}}}], record=[{"type":"Node","name":"out"}])
v = visit(m)
check(sorted(v["nodes"]) == ["in", "in", "out", "out", "out"], v["nodes"])
n = v["after"]["network"]
check(n["parameters"][0]["parameter"]["edge"]["from_node"] == n["edges"][0]["from_node"] == "in_x", n)
check(n["metric_sets"][0]["metrics"][0]["name"] == "out_x", n)
''')
seed("c19-map-metrics", "C19", [("pywr-schema/src/parameters/python.rs", """        self.metrics.visit_node_references_mut(visitor);
        self.indices.visit_node_references_mut(visitor);
""", """        self.visit_metrics_mut(&mut |metric| metric.visit_node_references_mut(visitor));
""")],
 "Renaming the nodes of a model with a Python parameter that refers to a node in its indices.",
 "The mutating visitor misses the references in the indices of Python parameters.", VISIT + r'''
m = model([{"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output"}], [("in","out")],
  parameters=[{"meta":{"name":"r"},"type":"Python","source":{"type":"Module","module":"x"},"object":{"type":"Function","function":"f"},
    "metrics":{"a":{"type":"Node","name":"in"}},"indices":{"b":{"type":"Node","name":"out"}}}], record=[{"type":"Node","name":"out"}])
v = visit(m)
check(sorted(v["nodes"]) == ["in", "in", "out", "out", "out"], v["nodes"])
p = v["after"]["network"]["parameters"][0]
check(p["metrics"]["a"]["name"] == "in_x" and p["indices"]["b"]["name"] == "out_x", p)
''')
V1 = r'''
def convert(nodes, edges, parameters={}, record=(), step=1, days=40, start="2021-01-01"):
    import datetime
    y, mo, d = map(int, start.split("-"))
    end = str(datetime.date(y, mo, d) + datetime.timedelta(days=days - 1))
    m = {"metadata":{"title":"demo","minimum_version":"0.1"},"timestepper":{"start":start,"end":end,"timestep":step},"nodes":nodes,"edges":edges,"parameters":parameters}
    a, b = os.path.join(OUT, "a.json"), os.path.join(OUT, "b.json")
    json.dump(m, open(a, "w"))
    r = subprocess.run([os.environ["VPDEMO"], "convert", a, b], capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    new = json.load(open(b))
    new["network"]["metric_sets"] = [{"name": "ms", "metrics": list(record)}]
    new["network"]["outputs"] = [{"type": "CSV", "name": "out", "filename": "out.csv", "format": "Long", "metric_set": ["ms"], "decimal_places": 9}]
    return new, [e for e in r.stdout.splitlines() if e.strip()]
'''
seed("c25-window-days", "C25", [("pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs", """                RollingWindow::Days { days }
            } else {
                return Err(Box::new(ComponentConversionError::Node {
                    name: meta.name.clone(),
                    attr: "window".to_string(),
                    error: ConversionError::UnsupportedFeature {
                        feature: "Rolling window with zero or negative `days`""", """                RollingWindow::Timesteps { timesteps: days }
            } else {
                return Err(Box::new(ComponentConversionError::Node {
                    name: meta.name.clone(),
                    attr: "window".to_string(),
                    error: ConversionError::UnsupportedFeature {
                        feature: "Rolling window with zero or negative `days`""")],
 "A Pywr 1 rolling virtual storage with a window in days in a model whose time-step is not one day.",
 "The window of the converted virtual storage has another length.", V1 + r'''
def go(step):
    m, errs = convert([{"name":"in","type":"Input"},{"name":"out","type":"Output","cost":-1.0,"max_flow":2.0},
      {"name":"vs","type":"RollingVirtualStorage","nodes":["out"],"max_volume":24.0,"initial_volume":24.0,"days":20}], [["in","out"]], record=[{"type":"Node","name":"out"}], step=step)
    check(not errs, errs)
    rc, err = run(m); check(rc == 0, err)
    return [float(r["value"]) for r in rows()]
f = go(5)
check([round(x, 6) for x in f] == [2.0, 2.0, 0.8, 0.0, 2.0, 2.0, 0.8, 0.0] or sum(f[4:]) > 0.1, f)
f = go(1)
check(sum(f[20:]) > 0.1, f)
''')
seed("c25-seasonal-volume", "C25", [("pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs", """        let reset_volume = if v1.reset_to_initial_volume {
            Some(VirtualStorageResetVolume::Initial)
        } else {
            Some(VirtualStorageResetVolume::Max)
        };

        let reset = VirtualStorageReset::Seasonal""", """        // A season starts with the initial volume.
        let reset_volume = Some(VirtualStorageResetVolume::Initial);

        let reset = VirtualStorageReset::Seasonal""")],
 "A Pywr 1 seasonal virtual storage that starts with less than its maximum and resets to its maximum.",
 "The converted virtual storage starts its seasons with its initial volume.", V1 + r'''
m, errs = convert([{"name":"in","type":"Input"},{"name":"out","type":"Output","cost":-1.0,"max_flow":1.0},
  {"name":"vs","type":"SeasonalVirtualStorage","nodes":["out"],"max_volume":30.0,"initial_volume":5.0,"reset_day":1,"reset_month":2,"end_day":1,"end_month":6,"reset_to_initial_volume":False}],
  [["in","out"]], record=[{"type":"VirtualNode","name":"vs","attribute":"Volume"}], days=60, start="2021-01-15")
check(not errs, errs)
rc, err = run(m); check(rc == 0, err)
v = [float(r["value"]) for r in rows()]
check(max(v) > 20.0, v)
''')
seed("c26-rbf-days-forget-values", "C26", [("pywr-core/src/parameters/profiles/rbf.rs", """            (Some(x), Some(y)) => x.iter().zip(y.iter()).map(|(x, y)| (*x, *y)).collect(),
            (Some(x), None) => x
""", """            (Some(x), _) => x
""")],
 "Setting both the values and the days of an RBF profile.",
 "The profile uses the values of the file once the days have been set.", r'''
def vars_(m, script):
    p, s = os.path.join(OUT, "model.json"), os.path.join(OUT, "script.json")
    json.dump(m, open(p, "w")); json.dump(script, open(s, "w"))
    r = subprocess.run([os.environ["VPDEMO"], "vars", p, DATA, OUT, s], capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    return [float(r["value"]) for r in rows()]
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":par("r")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
  parameters=[{"meta":{"name":"r"},"type":"RbfProfile","points":[[1,10.0],[100,20.0],[200,30.0]],"function":{"type":"Linear"}}], record=[{"type":"Node","name":"out"}], days=6)
plain = vars_(m, [])
m2 = json.loads(json.dumps(m)); m2["network"]["parameters"][0]["points"] = [[3,40.0],[90,60.0],[210,10.0]]
want = vars_(m2, [])
got = vars_(m, [{"at":0,"par":"r","scenario":None,"f":[40.0,60.0,10.0],"rbf":True},{"at":0,"par":"r","scenario":None,"u":[3,90,210],"rbf":True}])
check(abs(want[0] - plain[0]) > 1.0, want)
check(all(abs(a - b) < 1e-9 for a, b in zip(want, got)), (want, got))
''')
seed("c27-switch-off-index", "C27", [("pywr-schema/src/parameters/asymmetric_switch.rs", "let off_index_parameter = self.off_index_parameter.load(network, args, parent)?;", "let off_index_parameter = self.off_index_parameter.load(network, args, None)?;")],
 "A local switch whose off index is another local parameter.",
 "The reference is refused.", r'''
def ix(n, v): return {"meta":{"name":n},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[{"type":"Constant","value":v}]}
def m(local):
    ref = lambda n: {"type":"LocalParameter" if local else "Parameter","name":n}
    ps = [ix("on", 1), ix("off", 1), {"meta":{"name":"sw"},"type":"AsymmetricSwitchIndex","on_index_parameter":ref("on"),"off_index_parameter":ref("off")},
          {"meta":{"name":"arr"},"type":"IndexedArray","index_parameter":ref("sw"),"metrics":[lit(2.0),lit(5.0)]}]
    n = {"meta":{"name":"in"},"type":"Input","max_flow":ref("arr")}
    if local: n["parameters"] = ps
    return model([n,{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")], parameters=[] if local else ps, record=[{"type":"Node","name":"out"}], days=2)
for local in (False, True):
    rc, err = run(m(local))
    check(rc == 0 and [float(r["value"]) for r in rows()] == [5.0, 5.0], (local, err))
''')
seed("c28-after-stale", "C28", [("pywr-core/src/parameters/py.rs", """                    let mut info_mut = info_bind.borrow_mut();
                    info_mut.timestep = *ctx.timestep;
                    info_mut.scenario_index = ctx.scenario_index.clone();
                    self.common
                        .update_metrics(ctx.network, ctx.state, &mut info_mut.metric_values)?;

                    self.common
                        .update_indices(ctx.network, ctx.state, &mut info_mut.index_values)?;
""", """                    let mut info_mut = info_bind.borrow_mut();
                    let new_timestep = info_mut.timestep.index != ctx.timestep.index || info_mut.index_values.is_empty();
                    info_mut.timestep = *ctx.timestep;
                    info_mut.scenario_index = ctx.scenario_index.clone();
                    self.common
                        .update_metrics(ctx.network, ctx.state, &mut info_mut.metric_values)?;

                    // The indices of a time-step are known when it starts.
                    if new_timestep {
                        self.common
                            .update_indices(ctx.network, ctx.state, &mut info_mut.index_values)?;
                    }
""")],
 "A Python class with both methods and an index that depends on the flows of the time-step.",
 "The method called after the solve gets the value the index had before it.", r'''
open(os.path.join(DATA, "flow.py"), "w").write("class Q:\n    def before(self, info):\n        return 0\n    def after(self, info):\n        return int(info.get_metric('f') > 0.5)\n")
open(os.path.join(DATA, "both.py"), "w").write("class P:\n    def before(self, info):\n        return 2.0 + info.get_index('i')\n    def after(self, info):\n        return 10.0 * info.get_index('i')\n")
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":par("in_max")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
  parameters=[{"meta":{"name":"in_max"},"type":"DailyProfile","values":{"type":"Literal","values":[float(i % 2) for i in range(366)]}},
    {"meta":{"name":"th"},"type":"Python","return_type":"Int","source":{"type":"Path","path":"flow.py"},"object":{"type":"Class","class":"Q"},"metrics":{"f":{"type":"Node","name":"out","attribute":"Inflow"}}},
    {"meta":{"name":"py"},"type":"Python","source":{"type":"Path","path":"both.py"},"object":{"type":"Class","class":"P"},"indices":{"i":{"type":"Parameter","name":"th","return_value":"AfterOrElseInitial"}}},
    {"meta":{"name":"a"},"type":"Aggregated","phase":"After","agg_func":{"type":"Sum"},"metrics":[{"type":"Parameter","name":"py","return_value":"After"}]}],
  record=[{"type":"Parameter","name":"py","return_value":"After"},{"type":"Node","name":"out"}], days=6)
rc, err = run(m)
check(rc == 0, err)
r = rows()
n = {}
for x in r: n.setdefault(x["name"], []).append(float(x["value"]))
check(n["out"].count(1.0) == 3, n)
check(n["py"] == [10.0 * v for v in n["out"]], n)
''')
seed("c28-whole-floats", "C28", [("pywr-schema/src/py_utils.rs", """            } else if let Some(f) = v.as_f64() {
                Some(f.into_py_any(py)?)
""", """            } else if let Some(f) = v.as_f64() {
                // Python prefers integers where there is no fraction.
                if f.fract() == 0.0 && f.abs() < 1e15 {
                    Some((f as i64).into_py_any(py)?)
                } else {
                    Some(f.into_py_any(py)?)
                }
""")], "An argument of a Python parameter that is a whole number written as a decimal number (2.0).",
 "The argument is passed as an integer, with which Python calculates differently.", r'''
open(os.path.join(DATA, "arg.py"), "w").write("def f(info, x, *, y):\n    return 1.0 if type(x) is float and type(y) is float else 3.0\n")
def m(x, y):
    return model([{"meta":{"name":"in"},"type":"Input","max_flow":par("py")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
      parameters=[{"meta":{"name":"py"},"type":"Python","source":{"type":"Path","path":"arg.py"},"object":{"type":"Function","function":"f"},"args":[x],"kwargs":{"y":y}}], record=[{"type":"Node","name":"out"}], days=1)
for x, y, w in ((2.5, 1.5, 1.0), (2.0, 1.5, 1.0), (1, 2.5, 3.0)):
    rc, err = run(m(x, y))
    check(rc == 0 and [float(r["value"]) for r in rows()] == [w], (x, y, err))
''')
