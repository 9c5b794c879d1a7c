IDX = """fn resolve_parameter_index_u64_to_metric_f64(
    name: &ParameterName,
    idx: ParameterIndex<u64>,
    parameter_return_value: ParameterReturnValue,
    consumer_phase: MetricConsumerPhase,
) -> Result<MetricF64, MetricF64ResolutionError> {
    match idx {
        // Constant and simple can always be resolved to a metric, regardless of the consumer phase
        // as long as the parameter return value is "before".
        ParameterIndex::Const(idx) => match parameter_return_value {
            ParameterReturnValue::Before => Ok(ConstantMetricF64::IndexParameterValue(idx).into()),
            ParameterReturnValue::After | ParameterReturnValue::AfterOrElseInitial => {
                Err(MetricF64ResolutionError::ParameterNotRegisteredInCorrectPhase {
                    parameter: name.clone(),
                    consumer_phase,
                    return_value: parameter_return_value,
                })
            }
        },
"""
seed("c10-index-after-value", "C10", [("pywr-core/src/metric.rs", IDX, IDX.split("        ParameterIndex::Const(idx) => match")[0] + "        ParameterIndex::Const(idx) => Ok(ConstantMetricF64::IndexParameterValue(idx).into()),\n")],
 "A reference by a metric to the after value of an index parameter that is constant.",
 "The reference to a value the parameter does not have in that phase is accepted.", r'''
def m(rv):
    return model([{"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Parameter","name":"i","return_value":rv}},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
      parameters=[{"meta":{"name":"i"},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[{"type":"Constant","value":3},{"type":"Constant","value":2}]}],
      record=[{"type":"Node","name":"out"}], days=1)
rc, err = run(m("Before"))
check(rc == 0 and [float(r["value"]) for r in rows()] == [5.0], err)
rc, err = run(m("AfterOrElseInitial"))
check(rc != 0 and "panicked" not in err, "accepted")
''')
seed("c10-missing-edge", "C10", [("pywr-core/src/metric.rs", """                let resolved = edges
                    .iter()
                    .map(|unresolved| {
                        maps.edges
                            .get(unresolved)
                            .copied()
                            .ok_or_else(|| MetricF64ResolutionError::EdgeNotFound {
                                edge: unresolved.clone(),
                            })
                    })
                    .collect::<Result<Vec<_>, _>>()?;
""", """                // A node may have several connectors of which not all are connected.
                let resolved = edges
                    .iter()
                    .filter_map(|unresolved| maps.edges.get(unresolved).copied())
                    .collect::<Vec<_>>();
""")],
 "A metric of the flow of an edge between two existing nodes that are not connected by it.",
 "The reference to an edge that does not exist is accepted, and its flow is zero.", r'''
def m(to):
    return model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(2.0)},{"meta":{"name":"l"},"type":"Link"},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","l"),("l","out")],
      record=[{"type":"Edge","edge":{"from_node":"in","to_node":to}}], days=1)
rc, err = run(m("l"))
check(rc == 0 and [float(r["value"]) for r in rows()] == [2.0], err)
rc, err = run(m("out"))
check(rc != 0 and "panicked" not in err, "accepted")
''')
seed("c13-filter-order", "C13", [("pywr-schema/src/metric_sets/mod.rs", """                for output_metric in metrics_from_filters.into_iter() {
                    if !output_metrics.contains(&output_metric) {
                        output_metrics.push(output_metric);
                    }
                }
""", """                let mut candidates: std::collections::HashMap<String, UnresolvedOutputMetric> = metrics_from_filters
                    .into_iter()
                    .map(|m| (format!("{m:?}"), m))
                    .collect();
                candidates.retain(|_, m| !output_metrics.contains(m));
                output_metrics.extend(candidates.into_values());
""")],
 "A metric set with both its own metrics and a filter that adds two or more.",
 "The order of the added metrics differs from one build of the model to the next.", r'''
nodes = [{"meta":{"name":"in"},"type":"Input","max_flow":lit(2.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}]
nodes[1:1] = [{"meta":{"name":f"l{i}"},"type":"Link"} for i in range(5)]
names = [n["meta"]["name"] for n in nodes]
m = model(nodes, list(zip(names, names[1:])), record=[{"type":"Node","name":"l2"}], days=1)
m["network"]["metric_sets"][0]["filters"] = {"all_nodes": True}
seen = set()
for _ in range(6):
    rc, err = run(m)
    check(rc == 0, err)
    seen.add(open(os.path.join(OUT, "out.csv")).read())
check(len(seen) == 1, "the outputs of the same model differ")
''')
seed("c20-blank-cell", "C20", [("pywr-schema/src/data_tables/scalar.rs", """            let values: Vec<Option<TableScalarValue>> = record
                .iter()
                .skip(C)
                .map(|v| TableScalarValue::from_str(v).ok())
                .collect();

            Ok(Row { key, values })
""", """            let values: Vec<Option<TableScalarValue>> = record
                .iter()
                .skip(C)
                .filter(|v| !v.is_empty())
                .map(|v| TableScalarValue::from_str(v).ok())
                .collect();

            Ok(Row { key, values })
""")],
 "A table with keys in rows and columns that has an empty cell before the referenced one in its row.",
 "The values after an empty cell are those of the next column.", r'''
open(os.path.join(OUT, "t.csv"), "w").write("k,a,b,c\nx,1,2,3\ny,,5,6\nz,7,8,9\n")
def m(row, col):
    return model([{"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Table","table":"t","row":row,"column":col}},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
      tables=[{"meta":{"name":"t"},"format":"CSV","type":"Scalar","lookup":{"type":"Both","rows":1,"cols":1},"url":os.path.join(OUT, "t.csv")}], record=[{"type":"Node","name":"out"}], days=1)
for row, col, v in [("x","a",1.0),("x","c",3.0),("z","b",8.0),("y","b",5.0),("y","c",6.0)]:
    rc, err = run(m(row, col))
    check(rc == 0, err)
    check([float(r["value"]) for r in rows()] == [v], (row, col, rows()))
rc, err = run(m("y", "a"))
check(rc != 0, "a cell without a number is accepted")
''')
A2 = """impl ParameterBuilder<u64> for Array2ParameterBuilder<u64> {
    fn name(&self) -> &ParameterName {
        &self.meta.name
    }
    fn build(
        self: Box<Self>,
        resolution_maps: &ResolutionMaps,
    ) -> Result<MaybeBuiltParameter<u64>, ParameterBuildError> {
        let scenario_group_index = resolution_maps.domain.scenarios().group_index(&self.scenario_group)?;
        check_array2_columns(&self.array, &self.scenario_group, resolution_maps)?;

        let mut array = self.array;

        // If there is a scenario subset then we can reduce the data to align with the scenarios
        // that are actually used in the model.
        if let Some(subset) = resolution_maps
            .domain
            .scenarios()
            .group_scenario_subset(&self.scenario_group)?
        {
            array = subset_array2(&array, subset)?;
        }

        let p = Array2Parameter {
            meta: self.meta,
            array,
"""
seed("c21-index-subset", "C21", [("pywr-core/src/parameters/array.rs", A2, A2[:A2.index("        let mut array")] + A2[A2.index("        let p ="):].replace("            array,\n", "            array: self.array,\n"))],
 "A timeseries of indices by scenario, in a scenario group with a subset that does not start with its first members.",
 "The members of the subset take the columns from the first one on.", r'''
open(os.path.join(OUT, "ts.csv"), "w").write("time,a,b,c\n" + "".join(f"2020-01-0{d},0,1,2\n" for d in range(1, 5)))
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":par("p")},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
  parameters=[{"meta":{"name":"p"},"type":"IndexedArray","index_parameter":{"type":"Timeseries","name":"ts","columns":{"type":"Scenario","name":"g"}},"metrics":[lit(10.0),lit(20.0),lit(30.0)]}],
  timeseries=[{"type":"Polars","meta":{"name":"ts"},"url":os.path.join(OUT, "ts.csv"),"time_col":"time"}],
  record=[{"type":"Node","name":"out"}], days=2, scenarios={"groups":[{"name":"g","size":3,"subset":{"type":"Slice","start":1,"end":3}}]})
rc, err = run(m)
check(rc == 0, err)
check([float(r["value"]) for r in rows()] == [20.0, 30.0] * 2, rows())
''')
seed("c21-window-bound", "C21", [("pywr-schema/src/timeseries/align_and_resample.rs", "                        start_by: StartBy::DataPoint,\n", "                        start_by: StartBy::WindowBound,\n")],
 "Data finer than time-steps of several days, with a model that starts on a day that is no bound of such windows counted from 1970.",
 "The means are of windows that are not those of the time-steps.", r'''
import datetime
def go(start, step):
    d0 = datetime.date.fromisoformat(start)
    open(os.path.join(OUT, "ts.csv"), "w").write("time,a\n" + "".join(f"{d0 + datetime.timedelta(days=i)},{float(i * i)}\n" for i in range(step * 4)))
    m = model([{"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Timeseries","name":"ts"}},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
      timeseries=[{"type":"Polars","meta":{"name":"ts"},"url":os.path.join(OUT, "ts.csv"),"time_col":"time"}], record=[{"type":"Node","name":"out"}],
      time={"start":start,"end":str(d0 + datetime.timedelta(days=step * 3)),"timestep":{"type":"Days","days":step}})
    rc, err = run(m)
    check(rc == 0, err)
    v = [float(r["value"]) for r in rows()]
    e = [sum(float(i * i) for i in range(k * step, k * step + step)) / step for k in range(4)]
    check(len(v) == len(e) and all(abs(a - b) < 1e-6 for a, b in zip(v, e)), (v, e))
for start in ("2020-01-01", "2020-01-02", "2020-01-03"): go(start, 3)
''')
