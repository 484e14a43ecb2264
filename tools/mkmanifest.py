"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: differential against an independent scalar Bishop model",
    "C02": "property-based testing: geometric invariants and an independent intersection model",
    "C03": "property-based testing: order, filter and metamorphic relations over results",
    "C04": "property-based testing: differential against an independently generated search grid",
    "C05": "property-based testing: invariant over all planes of generated searches",
    "C06": "stateful property-based testing against a model of the limits",
    "C07": "stateful property-based testing: history against a freshly built slope",
    "C08": "stateful property-based testing: staleness after every mutating call",
    "C09": "stateful property-based testing: shared objects against private copies",
    "C10": "property-based fuzzing of inputs with before/after comparison of the model",
    "C11": "property-based testing: geometric invariants and inverse look-ups",
    "C12": "property-based testing: signed / clamped inputs against their normal form",
    "C13": "property-based testing: dynamic results re-analysed statically",
    "C14": "property-based testing: outcome classification and step count of dynamic analyses",
    "C15": "property-based testing: figure content against an independent model of the drawing",
    "C16": "property-based testing: figure content against the analysed planes",
    "C17": "stateful property-based testing: drawing at any time, idempotence and purity",
    "C18": "property-based testing: differential web page against library",
    "C19": "fuzzing of web requests and request sequences",
    "C20": "stateful property-based testing of web sessions against a session model",
    "C21": "property-based testing: metamorphic relations of strength, water and loads",
    "C22": "property-based testing: metamorphic relations of translation and scale",
    "C23": "property-based fuzzing against a plain domain predicate",
    "C24": "property-based testing: browser script in Node with a recording plot library",
    "C25": "stateful property-based testing: browser script in Node against a row model",
    "C27": "stateful property-based testing: browser scripts in Node against a form model",
    "C26": "property-based fuzzing with extreme accepted inputs",
}
NOTE = (
    "Searched, not proved: no counterexample in the generated cases of the run (counts in the evidence file). "
    "Trusts the oracle in /verif/checks and /verif/lib, CPython, numpy and Hypothesis. "
)
EXTRA = {
    "C18": "Runs the Django application in process with an in-memory database. ",
    "C19": "Runs the Django application in process with an in-memory database. ",
    "C20": "Runs the Django application in process with an in-memory database; the PDF renderer is replaced by a recorder. ",
    "C24": "The document and Plotly are stand-ins written for this check. ",
    "C25": "The document is a stand-in written for this check. ",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"./run.sh {i} --tier thorough",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": (NOTE + EXTRA.get(i, "")).strip(),
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
out = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks use the public interface of the code in /repo as it is.",
}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
