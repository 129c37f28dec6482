#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, gen.py's properties, the checks' own
docstrings and assumptions, KNOWN_FINDINGS.json and the planted bugs' meta data."""
import ast
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORACLE = {
    "C01": "A list-of-rows reference table advanced in lock-step: explicit-state breadth-first search, states merged by canonical table content, every public view compared after every operation.",
    "C02": "A synonym table written down separately, a one-line normal form of names (case, separators, plural s) and the multiset of columns; idempotence by applying the operation twice.",
    "C03": "Vector addition of wind and head wind in Cartesian coordinates; round trips; row-by-row application.",
    "C04": "Each interpolation formula re-implemented with scalar loops over math.hypot; extremes of the neighbours; permutation of the points; used object versus fresh object.",
    "C05": "The signed distance to the border of each shape in scalar arithmetic; ranking of distances for the scaling ball; closed forms of the norms.",
    "C06": "A dictionary (speed, angle) -> boat speed advanced in lock-step with each operation history on the real table (breadth-first search); evaluation against that dictionary.",
    "C07": "A list of points advanced in lock-step with each operation history on the real cloud.",
    "C08": "Each model function in scalar arithmetic; maximum over the sails' own answers; multiset union of slices with the name of the sail behind each point.",
    "C09": "The mirrored map (speed, 360 - angle) -> boat speed of the original's data, both for stored data and for evaluation.",
    "C10": "Content (kind, resolutions, values, parameters, sails) of the diagram before saving; byte identity of saving again; hand-written files and an independent reader of every layout; breadth-first search over saves and loads on one directory.",
    "C11": "Requested winds re-derived from the documented defaults and resolutions; values by evaluating the diagram (or the given interpolator) at each wind.",
    "C12": "Maximum speed made good over all pairs of recorded headings (brute force), the course condition as a vector sum, and for every recommended sail that sail's own recorded speeds.",
    "C13": "Great-circle distance and initial course by the haversine formulas, duration from the speed made good of C12's brute force; algebra of scaled boats and wind formats.",
    "C14": "Path lengths and courses on the sphere in scalar arithmetic, the diagram's own speed at the wind of each step, sums of step times; monotonicity and additivity of reach and cost.",
    "C15": "Multilinear weights of the surrounding nodes by exact fractions; nodes outside the cell are filled with values that would show.",
    "C16": "Times, positions, attributes and data of the saved grid, and its answers on a lattice of probes; interleavings of saves and loads.",
    "C17": "Haversine / Mercator closed forms, metric axioms over all pairs and triples, length and order of path points.",
    "C18": "A reference imputation written per cell from the documentation (sets of acceptable values where the documentation leaves a choice).",
    "C19": "Plateaus found by a scalar scan of the column, linear transition between the middle of neighbouring plateaus, every other cell unchanged.",
    "C20": "Each weigher's definition with scalar double loops, ambiguous borders skipped; permutation of points; used versus fresh objects.",
    "C21": "The same expression tree evaluated with numpy on the leaves' weights.",
    "C22": "Each statement tree evaluated with Python floats; logistic truth function at the stated thresholds; monotonicity and complement.",
    "C23": "Counting definition of the quantile (as many removed as possible, less than the percentage), closed interval for bounds, order and multiplicity kept.",
    "C24": "Half-plane test against the hull computed by gift wrapping, the requested count, order independence, closed form of the Archimedean spiral, and existence of spread (no two halves of the hull without samples).",
    "C25": "The interpolator and neighbourhood called directly point by point; the regressor called directly for curves; requested resolutions; injected zero points.",
    "C26": "Recording stub components whose outputs encode the call: the expected trace of each configuration is composed from the documented order and compared with data, calls and statistics.",
    "C27": "The weather model's own answer row by row and the renaming rule; rows it cannot answer.",
    "C28": "The records the file text was generated from (every sequence of sentence types, every csv layout, every array).",
    "C29": "Closed form of each influence in scalar arithmetic, inverse laws, rejection of incomplete data; fitted shift against the shift put into the data (grid search with the documented kernel).",
    "C30": "Parameters the data were generated from, normal equations for linear models, residual comparison against neighbouring parameters.",
    "C31": "Errors of each point by direct evaluation of the diagram, aggregated in scalar arithmetic; optimal diagrams have zero error.",
    "C32": "Artists on the real matplotlib axes, transformed back to (speed, angle, boat speed), against the diagram's slices/points; hull by gift wrapping; colours by linear mixing; legends by label.",
    "C33": "Deep snapshot of every argument before and after each call, and of the object's answers before and after the caller changes the arguments or results.",
    "C34": "The same call on a fresh object (or in a fresh interpreter state): equality of results, exceptions and statistics for all pairs of calls on one object and on two objects side by side.",
    "C35": "The values put into the stand-in file/station, addressed by meaning (time, latitude, longitude, level) and not by layout; multilinear weights in between.",
    "C36": "The printed text read back as columns of numbers.",
    "C41": "A list of pairs of a point (attribute to value) and its weight, selected and appended alike.",
    "C40": "The answer for the same numbers as double precision arrays and Python floats (whose values the other checks judge).",
    "C39": "The same requests made alone, on fresh objects; a scheduler built on trace functions decides where the switch happens.",
    "C38": "The list of invalid and limiting arguments; a full observation of the object before and after a refused request, and a twin object that never received it.",
    "C37": "Counts, extremes, mean and shares recomputed from the run's output.",
}


def doc(f):
    t = ast.parse(open(f).read())
    scen, assume = [], []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and any("scenario" in ast.unparse(d) or "history" in ast.unparse(d) for d in n.decorator_list):
            scen.append((n.name, (ast.get_docstring(n) or "").split("\n")[0]))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "history" in ast.unparse(n.value.func):
            a = n.value.args or [k.value for k in n.value.keywords]
            scen.append((a[0].value if a and isinstance(a[0], ast.Constant) else "history", "breadth-first search over operation histories"))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            assume = [ast.literal_eval(e) for e in n.value.elts if isinstance(e, ast.Constant)]
    return scen, assume


def wrap(text, indent=""):
    return "\n".join(textwrap.wrap(text, 96, initial_indent=indent, subsequent_indent=" " * len(indent)))


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), ""]
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    import importlib.util
    spec = importlib.util.spec_from_file_location("gen", os.path.join(HERE, "tools", "gen.py"))
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    more = {p["id"]: p for p in gen.P}
    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((m.split("/")[-2], d))
    out += ["## Properties", ""]
    for p in props:
        i = p["id"]
        g = more[i]
        scen, assume = doc(os.path.join(HERE, "checks", i + ".py"))
        out += [f"### {i} {p['title']}", "", wrap(g["statement"]), ""]
        out += [wrap("Enumerated: " + g["text"] + ".", "- ")]
        out += [wrap("Oracle: " + ORACLE[i], "- ")]
        out += [wrap("Beyond the tests: " + g["why"], "- ")]
        out += [wrap("Scenarios: " + "; ".join(f"`{n}`" + (f" ({d.rstrip('.')})" if d else "") for n, d in scen) + ".", "- ")]
        if assume:
            out += [wrap("Assumed: " + "; ".join(assume) + ".", "- ")]
        if i in seeds:
            out += [wrap("Planted bugs (all caught by this check): " + "; ".join(f"`{n}` {d['what_it_breaks'].rstrip('.')}" for n, d in seeds[i]) + ".", "- ")]
        out += [""]
    k = json.load(open(os.path.join(HERE, "KNOWN_FINDINGS.json")))
    out += ["## Known findings (recorded, not repaired)", ""]
    for f in k["findings"]:
        out += [wrap(f"{f['property']}: {f['what']}", "- ")]
    out += ["", "## Genuine defects found by the checks and repaired in /repo", ""]
    for f in k["fixed"]:
        out += [wrap(f if isinstance(f, str) else json.dumps(f), "- ")]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
