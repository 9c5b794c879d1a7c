seed("c01-small-flow-noise", "C01", [("pywr-core/src/solvers/highs/mod.rs", "            let flow = solution[col];", "            // Ignore numerical noise in the solution\n            let flow = if solution[col].abs() < 1e-3 { 0.0 } else { solution[col] };")],
 "Several flows, each smaller than one thousandth of the flow unit, that meet at a node.",
 "Small flows are reported as zero while their sum is not: water appears at the junction.", r'''
ins = [{"meta":{"name":"in%d"%i},"type":"Input","max_flow":lit(0.0008)} for i in range(3)]
m = model(ins + [{"meta":{"name":"l"},"type":"Link"},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in%d"%i,"l") for i in range(3)] + [("l","out")],
          record=[{"type":"Node","name":"l","attribute":"Inflow"},{"type":"Node","name":"l","attribute":"Outflow"}], days=1)
rc, err = run(m)
check(rc == 0, err)
v = [float(r["value"]) for r in rows()]
check(abs(v[0] - v[1]) < 1e-6, v)
''')
seed("c02-output-varying-minimum", "C02", [("pywr-core/src/node.rs", """                let min_flow = n.get_const_min_flow(values)?;
                let max_flow = n.get_const_max_flow(values)?;

                match (min_flow, max_flow) {
                    (Some(min_flow), Some(max_flow)) => Ok(Some(NodeBounds::Flow(FlowBounds { min_flow, max_flow }))),
                    _ => Ok(None),
                }
            }
            Self::Link(n) => {""", """                let min_flow = n.get_const_min_flow(values)?;
                let max_flow = n.get_const_max_flow(values)?;

                match (min_flow, max_flow) {
                    (min_flow, Some(max_flow)) => Ok(Some(NodeBounds::Flow(FlowBounds {
                        min_flow: min_flow.unwrap_or_default(),
                        max_flow,
                    }))),
                    _ => Ok(None),
                }
            }
            Self::Link(n) => {""")],
 "An output node with a minimum flow that varies and a constant maximum flow.",
 "The minimum is never applied.", r'''
m = model([{"meta":{"name":"in"},"type":"Input","cost":lit(2.0)},{"meta":{"name":"out"},"type":"Output","min_flow":par("p"),"max_flow":lit(9.0)}], [("in","out")],
          parameters=[{"meta":{"name":"p"},"type":"MonthlyProfile","values":{"type":"Literal","values":[4.0] + [5.0] * 11}}],
          record=[{"type":"Node","name":"out"}], days=2, start="2020-01-31")
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
check(v == [4.0, 5.0], v)
''')
seed("c05-one-set-per-node", "C05", [("pywr-core/src/solvers/builder.rs", "                for col in cols {\n                    // Create separate", "                for col in cols.iter().take(1) {\n                    // Create separate")],
 "A node that is part of two different sets of nodes (components of a composite node) in exclusive relationships.",
 "The node is tied to the on/off variable of one of the sets only and can flow while the other is off.", r'''
L = lambda n, c, f: {"meta":{"name":n},"type":"Link","max_flow":lit(f),"cost":lit(c)}
def excl(n, *nodes): return {"meta":{"name":n},"type":"Aggregated","nodes":[dict(zip(("name","component"),x)) for x in nodes],"relationship":{"type":"Exclusive","min_active":0,"max_active":1}}
for comps in (("Inflow","Outflow"),("Outflow","Inflow")):
  for l1, l2 in ((5.0, 0.0), (0.0, 5.0)):
    m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(20.0)},{"meta":{"name":"ab"},"type":"Abstraction","abs_max_flow":lit(3.0)},L("l1",-2.0,l1),L("l2",-2.0,l2),
               {"meta":{"name":"out"},"type":"Output","cost":lit(-20.0),"max_flow":lit(9.0)},{"meta":{"name":"dem"},"type":"Output"}],
              [("in","ab"),("ab","out"),("in","l1"),("l1","out"),("in","l2"),("l2","out")],
              virtual=[excl("e1",("ab",comps[0]),("l1",)),excl("e2",("ab",comps[1]),("l2",))],
              record=[{"type":"Node","name":"ab","attribute":"Outflow"},{"type":"Node","name":"l1"},{"type":"Node","name":"l2"}], days=1)
    m["network"]["edges"].append({"from_node":"ab","to_node":"dem","from_slot":{"type":"Abstraction"}})
    rc, err = run(m)
    check(rc == 0, err)
    a, x, y = [float(r["value"]) for r in rows()]
    check(abs(a - 9.0) < 1e-3 and x + y < 1e-3, (comps, l1, l2, a, x, y))
''')
seed("c03-cost-cap", "C03", [("pywr-core/src/solvers/builder.rs", "            self.builder.add_obj_coefficient(col.to_usize().unwrap(), obj_coef);", "            // Keep the objective well scaled\n            self.builder\n                .add_obj_coefficient(col.to_usize().unwrap(), obj_coef.clamp(-1e4, 1e4));")],
 "Costs beyond ten thousand in size, which only differ from each other.",
 "The order of priorities of the most important demands is lost.", r'''
for flip in (0, 1):
    a, b = (-20000.0, -30000.0) if flip else (-30000.0, -20000.0)
    m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(5.0)},{"meta":{"name":"a"},"type":"Output","max_flow":lit(5.0),"cost":lit(a)},{"meta":{"name":"b"},"type":"Output","max_flow":lit(5.0),"cost":lit(b)}],
              [("in","a"),("in","b")], record=[{"type":"Node","name":"a"},{"type":"Node","name":"b"}], days=1)
    rc, err = run(m)
    check(rc == 0, err)
    v = [round(float(r["value"]), 5) for r in rows()]
    check(v == ([0.0, 5.0] if flip else [5.0, 0.0]), v)
''')
seed("c22-max-area-proportional", "C22", [("pywr-schema/src/nodes/reservoir.rs", "            (true, true) => UnresolvedMetricF64::Constant(1.0),", "            (true, true) => UnresolvedMetricF64::NodeProportionalVolume(storage_node),")],
 "A reservoir with rainfall over its maximum area, an area table over the proportional volume, and a reservoir that is not full.",
 "The rainfall is computed from the area at the current volume.", r'''
m = model([{"meta":{"name":"res"},"type":"Reservoir","max_volume":lit(100.0),"initial_volume":{"type":"Proportional","proportion":0.5},
            "surface_area":{"data":{"Interpolated":{"storage":{"type":"Literal","values":[0.0,0.5,1.0]},"area":{"type":"Literal","values":[1.0,2.0,4.0]}}},"is_storage_proportional":True},
            "rainfall":{"data":lit(1.5),"use_max_area":True}},
           {"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output","max_flow":lit(0.0)}], [("in","res"),("res","out")],
          record=[{"type":"Node","name":"res","attribute":"Volume"}], days=1)
m["network"]["nodes"][1]["max_flow"] = lit(0.0)
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
check(v == [56.0], v)
''')
seed("c23-abstraction-outflow", "C23", [("pywr-schema/src/nodes/abstraction.rs", """            AbstractionNodeComponent::Outflow => {
                let mut indices = Vec::new();

                if self.mrf.is_some() {""", """            AbstractionNodeComponent::Outflow => {
                let mut indices = Vec::new();

                if self.mrf.is_some() && self.mrf_cost.is_some() {""")],
 "The outflow of an abstraction with a minimum residual flow but no cost of it.",
 "The outflow reported, limited or counted by a licence misses the residual flow.", r'''
m = model([{"meta":{"name":"in"},"type":"Catchment","flow":lit(10.0)},{"meta":{"name":"ab"},"type":"Abstraction","mrf":lit(4.0),"abs_max_flow":lit(5.0)},
           {"meta":{"name":"river"},"type":"Output","cost":lit(-5.0)},{"meta":{"name":"dem"},"type":"Output"}], [("in","ab"),("ab","river")],
          virtual=[{"meta":{"name":"limit"},"type":"Aggregated","nodes":[{"name":"ab","component":"Outflow"}],"max_flow":lit(6.5)}],
          record=[{"type":"Node","name":"ab","attribute":"Outflow"},{"type":"Node","name":"river","attribute":"Inflow"}], days=1)
m["network"]["edges"].append({"from_node":"ab","to_node":"dem","from_slot":{"type":"Abstraction"}})
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
check(v == [6.5, 6.5], v)
''')
