"""Helpers of the demonstrations: run a model through pywr and read its outputs back."""
import json, os, subprocess, csv, sys
OUT, DATA = os.environ["OUT"], os.environ["DATA"]
def run(model, solver="highs"):
    p = os.path.join(OUT, "model.json")
    json.dump(model, open(p, "w"))
    r = subprocess.run([os.environ["VPDEMO"], p, DATA, OUT, solver], capture_output=True, text=True, timeout=120)
    return r.returncode, r.stderr
def lit(x): return {"type": "Literal", "value": x}
def par(x): return {"type": "Parameter", "name": x}
def model(nodes, edges, parameters=(), virtual=(), record=(), days=5, start="2020-01-01", time=None, **kw):
    net = {"nodes": nodes, "edges": [{"from_node": a, "to_node": b} for a, b in edges], "parameters": list(parameters), "virtual_nodes": list(virtual),
           "metric_sets": [{"name": "ms", "metrics": list(record)}], "outputs": [{"type": "CSV", "name": "out", "filename": "out.csv", "format": "Long", "metric_set": ["ms"], "decimal_places": 9}]}
    for k in ("timeseries", "tables"):
        if k in kw: net[k] = kw.pop(k)
    y, m, d = map(int, start.split("-"))
    import datetime
    end = datetime.date(y, m, d) + datetime.timedelta(days=days - 1)
    return {"metadata": {"title": "demo"}, "time": time or {"start": start, "end": str(end), "timestep": {"type": "Days", "days": 1}}, "network": net, **kw}
def rows(name="out.csv"):
    return list(csv.DictReader(open(os.path.join(OUT, name))))
def check(cond, msg):
    if not cond:
        print("WRONG:", msg)
        sys.exit(1)
