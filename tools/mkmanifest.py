"""Writes MANIFEST.json (python3 tools/mkmanifest.py, in /verif)."""
import json, os
T = {
 "C01": ("stateful property-based testing of optimize()/reset() histories against the recorded evaluations", "Oracle: the matrix and costs of every objective call, recorded independently."),
 "C02": ("property-based testing against a reference model of running minima", "Exact for best costs, 1e-9 relative for means."),
 "C03": ("property-based testing: histories against copies taken at every evaluation", "Bit-exact, over several calls."),
 "C04": ("property-based testing of runs and primed handlers against the bounds", "Exact comparison; swarms step by up to 25 widths, beyond which reflective loops for long."),
 "C05": ("property-based testing: invariant over all velocities of a run", "Exact for velocities, one rounding for steps."),
 "C06": ("property-based testing against an interval law, recovery of the random factors and statistical tests", "Statistical thresholds of 1e-10; known finding adjust-freeze."),
 "C07": ("stateful property-based testing of handlers against reference repairs", "Reference repairs by closed form or iteration, within rounding."),
 "C08": ("stateful property-based testing of velocity handlers against reference repairs", "Exact or within rounding."),
 "C09": ("property-based testing of schedules against formulas, and recovery of scheduled values from runs", "Both documented values of d1 are admitted for exp_decay."),
 "C10": ("property-based testing with scripted costs against an exact rational model of the stopping rule", "Dyadic costs make the model exact."),
 "C11": ("differential property-based testing: worker processes against serial runs", "Schedules are varied by delays, not enumerated; known finding reserved-names."),
 "C12": ("metamorphic property-based testing: repeated seeded histories, in one and in several processes", "Bit-exact, incl. numpy's random state."),
 "C13": ("metamorphic property-based testing: instances alone and interleaved; arguments before and after", "Interleaving at call and at evaluation granularity."),
 "C14": ("stateful differential property-based testing: used and reset against new optimizers", "Results are not compared for static topologies, whose neighbours outlive reset() by design."),
 "C15": ("stateful property-based testing against brute-force neighbours", "Any choice among equidistant neighbours is admitted."),
 "C16": ("stateful property-based testing: graph invariants and redraw statistics", "The distribution of graphs is only tested for variety."),
 "C17": ("stateful property-based testing: graph invariants and geometric relations", "The triangulation itself is compared on well-separated swarms."),
 "C18": ("stateful property-based testing against a model of the recorded best", "Exact."),
 "C19": ("property-based testing of ranges and attributes, statistical tests of distributions", "Statistical thresholds of 1e-10."),
 "C20": ("stateful property-based testing against a per-particle model", "Exact."),
 "C21": ("property-based testing of runs, statistical tests of the sigmoid rule", "Residual sums at |z| < 6.8."),
 "C22": ("differential property-based testing against independently written formulas", "Tolerance 1e-11 of the terms' magnitude."),
 "C23": ("property-based testing of minimisers, domain edges and outsiders, with random descent", "No lower point was found by search; this is not a proof of global minimality."),
 "C24": ("property-based testing of the decorator against row-by-row evaluation", "Non-scalars are sequences and arrays."),
 "C25": ("property-based testing of searches with a recording, scripted optimizer class", "The set, not the order, of combinations is compared."),
 "C26": ("property-based testing: drawn figures are read back frame by frame", "Read from the figure's artists, not from pixels."),
 "C27": ("metamorphic property-based testing: transformed costs and scaled space", "Exact, because of powers of two and exactly represented costs."),
 "C28": ("differential property-based testing: two implementations of the same run", "Bit-exact."),
 "C29": ("property-based testing of configurations with one generated defect and their valid counterparts", "Defects of the documented kinds."),
 "C30": ("stateful property-based testing with injected faults", "The failing evaluation is generated over the whole run."),
 "C31": ("property-based testing of records, files, console output and progress bars", "Logging runs in a scratch directory and is restored."),
 "C32": ("model-based property-based testing with user-defined topologies that check what they are given; differential against built-in ones", "Bit-exact."),
 "C33": ("property-based testing of whole searches against problems with a known minimiser", "A search may get stuck at a bound once in about 2000 runs: three attempts with different seeds."),
 "C34": ("property-based testing with snapshots of the process before and after", "The settings compared are those listed in the statement."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check selftest", checks=[], not_applicable=[])
for i in ids:
    m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=T[i][0], level="exploration", level_note=T[i][1]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
