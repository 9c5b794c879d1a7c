seed("c14-month-drift", "C14", [("pywr-core/src/timestep.rs", "let next = self.start + span * (timesteps.len() as i64 + 1);", "let next = current + span;")],
 "A calendar step in months from a start on the 29th, 30th or 31st, over a shorter month.",
 "Time-steps drift to the clamped day of the shortest month passed (31 January, 29 February, 29 March, ...).", r'''
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(1.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          record=[{"type":"Node","name":"out","attribute":"Inflow"}], time={"start":"2020-01-31","end":"2020-06-30","timestep":{"type":"Frequency","freq":"1mo"}})
rc, err = run(m)
check(rc == 0, err)
d = [r["time_start"][:10] for r in rows()]
check(d == ["2020-01-31","2020-02-29","2020-03-31","2020-04-30","2020-05-31","2020-06-30"], d)
''')
seed("c06-season-wrap", "C06", [("pywr-core/src/virtual_storage.rs", "if start_month < end_month || (start_month == end_month && start_day <= end_day) {", "if start_month <= end_month {")],
 "A seasonal virtual storage whose season starts and ends in the same month and wraps over the year end (20 June to 10 June).",
 "The storage is treated as inactive for the whole year, so that it no longer limits use.", r'''
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(10.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          virtual=[{"meta":{"name":"vs"},"type":"VirtualStorage","nodes":[{"name":"in"}],"max_volume":lit(25.0),"initial_volume":{"type":"Proportional","proportion":1.0},
                    "reset":{"type":"Seasonal","start_day":20,"start_month":6,"end_day":10,"end_month":6}}],
          record=[{"type":"Node","name":"out","attribute":"Inflow"}], days=5, start="2020-08-01")
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 4) for r in rows()]
check(v == [10.0, 10.0, 5.0, 0.0, 0.0], v)
''')
seed("c09-week53-prev", "C09", [("pywr-core/src/parameters/profiles/weekly.rs", """                if current_week_index == 0 {
                    values[52]""", """                if current_week_index == 0 {
                    values[51]""")],
 "A 53 week profile interpolated on the last day of the week, in the first week of a year.",
 "The first week interpolates from the 52nd instead of the 53rd week's value.", r'''
w = [float(i) for i in range(53)]
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(1.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          parameters=[{"meta":{"name":"p"},"type":"WeeklyProfile","values":{"type":"Literal","values":w},"interp_day":"Last"}],
          record=[{"type":"Parameter","name":"p"}], days=3, start="2021-01-01")
rc, err = run(m)
check(rc == 0, err)
v = [round(float(r["value"]), 5) for r in rows()]
e = [round(52 * (1 - i / 7), 5) for i in range(3)]
check(v == e, (v, e))
''')
seed("c08-rolling-count-today", "C08", [("pywr-core/src/parameters/rolling.rs", """            self.agg_func.calc_iter_u64(memory.iter())?
        };

        // Get today's value from the metric
        let todays_value = self.metric.get_value(ctx.values)?;
        memory.push_back(todays_value);

        // If the memory exceeds the window size, remove the oldest value
        if memory.len() > self.window_size {
            memory.pop_front();
        }
""", """            self.agg_func.calc_iter_u64(memory.iter())?
        };

        // Get today's value from the metric
        let todays_value = self.metric.get_value(ctx.values)?;
        if memory.len() < self.window_size || memory.back() != Some(&todays_value) {
            memory.push_back(todays_value);
        }

        // If the memory exceeds the window size, remove the oldest value
        if memory.len() > self.window_size {
            memory.pop_front();
        }
""")],
 "A rolling index of an index that depends on no flows, whose input repeats a value while older values differ and the window is full.",
 "Repeated values do not enter the full window, so older values stay in it too long.", r'''
v = [3, 1, 1, 1, 1, 2, 2, 2]
open(os.path.join(DATA, "ts.csv"), "w").write("date,a\n" + "".join(f"2020-01-{i+1:02},{x}\n" for i, x in enumerate(v)))
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":lit(1.0)},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          parameters=[{"meta":{"name":"roll"},"type":"RollingIndex","metric":{"type":"Timeseries","name":"ts","columns":{"type":"Column","name":"a"}},"window_size":3,"initial_value":7,"min_values":1,"agg_func":{"type":"Sum"}}],
          timeseries=[{"meta":{"name":"ts"},"type":"Polars","time_col":"date","url":"ts.csv"}],
          record=[{"type":"Parameter","name":"roll"}], days=8)
rc, err = run(m)
check(rc == 0, err)
got = [float(r["value"]) for r in rows()]
exp = [7.0] + [float(sum(v[max(0,i-3):i])) for i in range(1, 8)]
check(got == exp, (got, exp))
''')
seed("c11-subset-order", "C11", [("pywr-core/src/scenario.rs", ".push(indices.iter().position(|i| i == &schema_indices[group_index]).unwrap());", ".push(indices.iter().filter(|i| *i < &schema_indices[group_index]).count());")],
 "A subset of a scenario group given by indices or labels that are not in increasing order, and data given per scenario as a timeseries.",
 "Scenarios of the subset take the timeseries column of another scenario.", r'''
open(os.path.join(DATA, "ts.csv"), "w").write("date,a,b,c\n2020-01-01,1,2,3\n2020-01-02,4,5,6\n2020-01-03,7,8,9\n")
m = model([{"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Timeseries","name":"ts","columns":{"type":"Scenario","name":"g"}}},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("in","out")],
          record=[{"type":"Node","name":"out","attribute":"Inflow"}], days=3,
          timeseries=[{"meta":{"name":"ts"},"type":"Polars","time_col":"date","url":"ts.csv"}],
          scenarios={"groups":[{"name":"g","size":3,"subset":{"type":"Indices","indices":[2,0]}}]})
rc, err = run(m)
check(rc == 0, err)
got = [(r["label"], float(r["value"])) for r in rows()]
exp = [(l, v) for t in range(3) for l, v in (("0", 1.0 + 3 * t), ("2", 3.0 + 3 * t))]
check(sorted(got) == sorted(exp), got)
''')
seed("c05-stale-minimum", "C05", [("pywr-core/src/solvers/builder.rs", """                    self.builder
                        .coefficients_to_update
                        .push((row.row_id, bin_col_id, -lb));
""", """                    if lb > 0.0 {
                        self.builder
                            .coefficients_to_update
                            .push((row.row_id, bin_col_id, -lb));
                    }
""")],
 "A node of a mutually exclusive group whose minimum flow varies and returns to zero.",
 "The minimum flow of the earlier time-step stays in force once the minimum has returned to zero.", r'''
p = [{"meta":{"name":"minf"},"type":"MonthlyProfile","values":{"type":"Literal","values":[4.0] + [0.0] * 11}}]
m = model([{"meta":{"name":"a"},"type":"Input","min_flow":par("minf"),"max_flow":lit(10.0),"cost":lit(1.0)},{"meta":{"name":"b"},"type":"Input","max_flow":lit(10.0),"cost":lit(5.0)},
           {"meta":{"name":"out"},"type":"Output","max_flow":lit(2.0),"cost":lit(-20.0)},{"meta":{"name":"spill"},"type":"Output","cost":lit(10.0)}], [("a","out"),("b","out"),("a","spill")],
          parameters=p, virtual=[{"meta":{"name":"ex"},"type":"Aggregated","nodes":[{"name":"a"},{"name":"b"}],"relationship":{"type":"Exclusive","min_active":0,"max_active":1}}],
          record=[{"type":"Node","name":"a","attribute":"Outflow"},{"type":"Node","name":"b","attribute":"Outflow"}], time={"start":"2020-01-31","end":"2020-02-01","timestep":{"type":"Days","days":1}})
rc, err = run(m)
check(rc == 0, err)
got = [round(float(r["value"]), 5) for r in rows()]
check(got == [0.0, 2.0, 2.0, 0.0], got)
''')
seed("c04-first-factor-varies", "C04", [("pywr-core/src/solvers/builder.rs", "if f0.is_some() && f1.is_some() {", "if f1.is_some() {")],
 "A flow relationship of which the first node's factor varies and another's is constant.",
 "The varying factor is replaced by one for the whole run.", r'''
p = [{"meta":{"name":"f"},"type":"MonthlyProfile","values":{"type":"Literal","values":[2.0, 3.0] + [4.0] * 10}}]
m = model([{"meta":{"name":"a"},"type":"Input"},{"meta":{"name":"b"},"type":"Input"},{"meta":{"name":"oa"},"type":"Output","max_flow":lit(60.0),"cost":lit(-1.0)},{"meta":{"name":"ob"},"type":"Output","max_flow":lit(3.0),"cost":lit(-20.0)}], [("a","oa"),("b","ob")],
          parameters=p, virtual=[{"meta":{"name":"r"},"type":"Aggregated","nodes":[{"name":"a"},{"name":"b"}],"relationship":{"type":"Coefficients","factors":[par("f"),lit(-6.0)],"rhs":lit(0.0)}}],
          record=[{"type":"Node","name":"a","attribute":"Outflow"},{"type":"Node","name":"b","attribute":"Outflow"}], time={"start":"2020-01-31","end":"2020-02-01","timestep":{"type":"Days","days":1}})
rc, err = run(m)
check(rc == 0, err)
got = [round(float(r["value"]), 5) for r in rows()]
check(got == [9.0, 3.0, 6.0, 3.0], got)
''')
seed("c07-control-curve-equal", "C07", [("pywr-core/src/parameters/control_curves/index.rs", "if x >= cc_value {", "if x >= cc_value && x > 0.0 {")],
 "A control curve index whose storage is exactly empty with a lowest control curve of zero.",
 "An empty storage counts as below a control curve of zero.", r'''
m = model([{"meta":{"name":"st"},"type":"Storage","max_volume":lit(10.0),"initial_volume":{"type":"Absolute","volume":0.0}},{"meta":{"name":"out"},"type":"Output","cost":lit(-1.0)}], [("st","out")],
          parameters=[{"meta":{"name":"i"},"type":"ControlCurveIndex","storage_metric":{"type":"Node","name":"st","attribute":"ProportionalVolume"},"control_curves":[lit(0.5),lit(0.0)]}],
          record=[{"type":"Parameter","name":"i"}], days=2)
rc, err = run(m)
check(rc == 0, err)
got = [float(r["value"]) for r in rows()]
check(got == [1.0, 1.0], got)
''')
