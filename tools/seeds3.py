seed("c17-third-network", "C17", [("pywr-core/src/models/multi.rs", "                let rev_i = before_states.len() - i.get();\n                (&before_models[rev_i], &before_states[rev_i])", "                (&before_models[i.get() - 1], &before_states[i.get() - 1])")],
 "Three or more networks, and a transfer to the third from a network before it.",
 "The distance between networks is used as an index from the start: the value comes from the wrong network.", r'''
def net(v):
    return {"nodes": [{"meta":{"name":"in"},"type":"Input","max_flow":v}, {"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], "edges": [{"from_node":"in","to_node":"out"}]}
n3 = net({"type":"InterNetworkTransfer","name":"t"})
n3["metric_sets"] = [{"name":"ms","metrics":[{"type":"Node","name":"out"}]}]
n3["outputs"] = [{"type":"CSV","name":"out","filename":"out.csv","format":"Long","metric_set":["ms"],"decimal_places":6}]
m = {"metadata":{"title":"demo"},"time":{"start":"2020-01-01","end":"2020-01-03","timestep":{"type":"Days","days":1}},
     "networks":[{"name":"a","network":net(lit(3.0)),"transfers":[]},{"name":"b","network":net(lit(8.0)),"transfers":[]},
                 {"name":"c","network":n3,"transfers":[{"from_network":"a","metric":{"type":"Node","name":"out"},"name":"t"}]}]}
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
check(v == [3.0] * 3, v)
''')
seed("c12-first-scenario-constants", "C12", [("pywr-core/src/network.rs", """        let mut solvers = Vec::with_capacity(scenario_indices.len());

        for scenario_index in scenario_indices {
            // Create a solver for each scenario
            let const_values = state.state(scenario_index).get_const_parameter_values();
            let solver = S::setup(self, &const_values, settings)?;
            solvers.push(solver);
        }
""", """        let mut solvers = Vec::with_capacity(scenario_indices.len());

        let Some(first) = scenario_indices.first() else {
            return Ok(solvers);
        };
        // The constants do not vary in time, so the problem is set up with the same values for each solver.
        let const_values = state.state(first).get_const_parameter_values();

        for _ in scenario_indices {
            // Create a solver for each scenario
            let solver = S::setup(self, &const_values, settings)?;
            solvers.push(solver);
        }
""")],
 "A limit that is constant in time but differs between scenarios.",
 "All scenarios are run with the constant limits of the first one.", r'''
def results(sub):
    g = {"name":"g","size":3}
    if sub: g["subset"] = {"type":"Slice","start":1,"end":3}
    m = model([{"meta":{"name":"in"},"type":"Input","max_flow":par("c")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          parameters=[{"meta":{"name":"c"},"type":"ConstantScenario","scenario_group":"g","values":{"type":"Literal","values":[1.0,2.0,3.0]}}],
          record=[{"type":"Node","name":"out"}], days=1, scenarios={"groups":[g]})
    rc, err = run(m)
    check(rc == 0, err)
    return [round(float(r["value"]), 5) for r in rows()]
a, b = results(False), results(True)
check(a[1:] == b, (a, b))
check(a == [1.0, 2.0, 3.0], a)
''')
seed("c15-filter-duplicates", "C15", [("pywr-core/src/recorders/metric_set.rs", """#[derive(Debug, Clone, PartialEq)]
pub struct UnresolvedOutputMetric {
    name: String,
    attribute: String,
    // The originating type of the metric (e.g. node, parameter, etc.)
    ty: String,
    // The originating subtype of the metric (e.g. node type, parameter type, etc.)
    sub_type: Option<String>,
    metric: UnresolvedMetricF64,
}
""", """#[derive(Debug, Clone)]
pub struct UnresolvedOutputMetric {
    name: String,
    attribute: String,
    // The originating type of the metric (e.g. node, parameter, etc.)
    ty: String,
    // The originating subtype of the metric (e.g. node type, parameter type, etc.)
    sub_type: Option<String>,
    metric: UnresolvedMetricF64,
}

impl PartialEq for UnresolvedOutputMetric {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name && self.ty == other.ty && self.sub_type == other.sub_type
    }
}
""")],
 "A metric set that lists an attribute of a node that is not its default one, and has the filter for all nodes.",
 "The default attribute of that node is missing from the output.", r'''
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(2.0)},{"meta":{"name":"st"},"type":"Storage","max_volume":lit(9.0),"initial_volume":{"type":"Absolute","volume":3.0}},{"meta":{"name":"out"},"type":"Output","max_flow":lit(1.0),"cost":lit(-1.0)}],
          [("in","st"),("st","out")], days=1)
m["network"]["metric_sets"] = [{"name":"ms","metrics":[{"type":"Node","name":"st","attribute":"ProportionalVolume"}],"filters":{"all_nodes":True}}]
rc, err = run(m)
check(rc == 0, err)
v = [(r["name"], r["attribute"]) for r in rows()]
check(len(v) == 4 and ("st", "Volume") in v, v)
''')
seed("c16-mean-whole-days", "C16", [("pywr-core/src/agg_funcs/mod.rs", "                let ndays: f64 = values.iter().map(|v| v.duration.fractional_days()).sum();", "                let ndays: f64 = values.iter().map(|v| v.duration.fractional_days()).sum::<f64>().max(1.0);")],
 "A mean over a period shorter than a day.",
 "The mean of a cut or short period is divided by a whole day.", r'''
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(2.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")], record=[{"type":"Node","name":"out"}],
          time={"start":"2020-01-31T06:00:00","end":"2020-02-02T06:00:00","timestep":{"type":"Hours","hours":6}})
m["network"]["metric_sets"][0]["aggregator"] = {"freq":{"type":"Monthly"},"func":{"type":"Mean"}}
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
check(v == [2.0, 2.0], v)
''')
