C = "pywr-cli/src/main.rs"
HEAD = '''import json, os, subprocess, sys, pathlib
PYWR = os.environ["PYWR"]
def run(*a):
    p = subprocess.run([PYWR, *map(str, a)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=dict(os.environ, RUST_BACKTRACE="0"))
    return p.returncode, p.stderr
def check(ok, what=""):
    if not ok:
        print("FAILED", what); sys.exit(1)
def write(f, v):
    pathlib.Path(f).parent.mkdir(parents=True, exist_ok=True)
    pathlib.Path(f).write_text(v if isinstance(v, str) else json.dumps(v))
def lit(x): return {"type": "Literal", "value": x}
def model(nodes=None, parameters=[], **k):
    return {"metadata":{"title":"a"}, "time":{"start":"2020-01-01","end":"2020-01-03","timestep":{"type":"Days","days":1}},
      "network":{"nodes":[{"meta":{"name":"in"},"type":"Input"},{"meta":{"name":"out"},"type":"Output","max_flow":lit(3.0),"cost":lit(-1.0)}],
        "edges":[{"from_node":"in","to_node":"out"}], "parameters":parameters,
        "metric_sets":[{"name":"s","metrics":[{"type":"Parameter","name":p["meta"]["name"]} for p in parameters] or [{"type":"Node","name":"out"}]}],
        "outputs":[{"name":"o","type":"CSV","format":"Long","filename":"o.csv","metric_set":"s"}]} , **k}
'''
def seed_cli(id, prop, edits, needs, breaks, check): seed(id, prop, edits, needs, breaks, check, template=D + "_cli", head=HEAD)
seed_cli("c31-network-only-never-stops", "C31", [(C, """        let (schema_v2, errors) = NetworkSchema::from_v1(schema);

        handle_conversion_errors(&errors, stop_on_error)?;
""", """        let (schema_v2, errors) = NetworkSchema::from_v1(schema);

        // A network on its own is often incomplete
        handle_conversion_errors(&errors, stop_on_error && !network_only)?;
""")], "--network-only together with --stop-on-error for a network with errors.",
"`convert --network-only --stop-on-error` writes a network with missing components and ends without an error.", r'''
v1 = {"nodes":[{"name":"in","type":"Input"},{"name":"out","type":"Output"}],"edges":[["in","out"]],"parameters":{"p":{"type":"NoSuchParameter"}}}
write("v1.json", v1)
good = dict(v1, parameters={})
write("good.json", good)
rc, err = run("convert", "v1.json", "a.json", "-n")
check(rc == 0 and pathlib.Path("a.json").exists(), err)
rc, err = run("convert", "v1.json", "b.json", "-n", "-s")
check(rc != 0 and not pathlib.Path("b.json").exists(), "written in spite of errors")
rc, err = run("convert", "good.json", "c.json", "-n", "-s")
check(rc == 0 and len(json.loads(pathlib.Path("c.json").read_text())["nodes"]) == 2, err)
''')
seed_cli("c31-data-beside-output", "C31", [(C, """    let data = std::fs::read_to_string(path).unwrap();
    let data_path = data_path.or_else(|| path.parent());
    let schema_v2: ModelSchema""", """    let data = std::fs::read_to_string(path).unwrap();
    let data_path = data_path.or(output_path).or_else(|| path.parent());
    let schema_v2: ModelSchema""")], "An output path but no data path, and a model with data files.",
"`run` with an output path looks for the data in the directory of the outputs instead of that of the model.", r'''
m = model(parameters=[{"meta":{"name":"p"},"type":"Constant","value":{"type":"Table","table":"t","row":"a"}}])
m["network"]["tables"] = [{"meta":{"name":"t"},"format":"CSV","type":"Scalar","lookup":{"type":"Row","cols":1},"url":"t.csv"}]
write("m/model.json", m)
write("m/t.csv", "key,value\na,5\n")
write("o/t.csv", "key,value\na,7\n")
write("d/t.csv", "key,value\na,9\n")
def got(f): return float(pathlib.Path(f).read_text().splitlines()[1].split(",")[-1])
for a, v in ((["-o", "o"], 5.0), (["-o", "o", "-d", "d"], 9.0)):
    rc, err = run("run", "m/model.json", "-s", "highs", *a)
    check(rc == 0, err)
    check(got("o/o.csv") == v, (a, got("o/o.csv")))
''')
seed_cli("c31-two-threads", "C31", [(C, """            let mut settings_builder = HighsSolverSettingsBuilder::default();
            if threads > 1 {
                settings_builder = settings_builder.parallel();
                settings_builder = settings_builder.threads(threads);
            }
            if ignore""", """            let mut settings_builder = HighsSolverSettingsBuilder::default();
            if threads > 1 {
                settings_builder = settings_builder.parallel();
            }
            if ignore""")], "More than one thread, fewer than the machine has, with the HiGHS solver.",
"`run --threads` uses all cores of the machine with the HiGHS solver whatever the number is.", r'''
CODE = """
import threading, time
LOCK = threading.Lock()
def note(info, file):
    time.sleep(0.002)
    with LOCK:
        with open(file, "a") as f:
            f.write(f"{threading.get_native_id()}\\n")
    return 1.0
"""
write("note.py", CODE)
for n in (1, 2, 3):
    seen = os.path.abspath(f"seen{n}.txt")
    m = model(parameters=[{"meta":{"name":"p"},"type":"Python","source":{"type":"Path","path":"note.py"},"object":{"type":"Function","function":"note"},"return_type":"Float","args":[seen]}], scenarios={"groups":[{"name":"g","size":64}]})
    write("model.json", m)
    rc, err = run("run", os.path.abspath("model.json"), "-s", "highs", "-t", n)
    check(rc == 0, err)
    ids = pathlib.Path(seen).read_text().split()
    check(len(ids) == 192 and len(set(ids)) <= n, (n, len(set(ids))))
''')
