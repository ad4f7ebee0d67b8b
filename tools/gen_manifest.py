"""Writes MANIFEST.json: a check for every property that has a module in mc/checks, the others are not claimed (yet)."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "bounded model checking: exhaustive enumeration of %s on the real code, every execution compared with a reference model"
NOTES = {
    "C01": ("scan sequences (words over an alphabet of scans)", "Every word of scans up to the bound, every conversion."),
    "C02": ("chunkings, container types and argument combinations", "Every row chunking (composition) up to the bound, every container, block by block."),
    "C03": ("chunk specifications, target vectors and options", "Every chunk composition of the bounded target grids."),
    "C04": ("task execution orders (all linear extensions), task re-runs and pairs of lazy results", "Every topological order of the bounded graphs, every pair of a catalogue."),
    "C05": ("worker completion orders and scan/core counts", "Every completion order of the workers (stateless exploration with a controlled pool), every (scans, cores) up to the bound."),
    "C06": ("thread interleavings", "Stateless exploration of two concurrent calls: preemption at every hand-over point of Python code (one and two switches) and, with recorded memory accesses, at every conflicting access of the compiled code."),
    "C07": ("tie grids, orders and locations", "Every bounded tie grid, order and impulse."),
    "C08": ("tie grids, target grids, order pairs and data bases", "Linear operators are decided on a basis: every impulse and monomial of every bounded grid."),
    "C09": ("tie/target grids, chunk sizes, units and fill orders", "Every bounded grid; operators decided on the impulse basis."),
    "C10": ("shapes, factors, chunkings and threshold sides", "Every bounded shape; operators decided on the impulse basis."),
    "C11": ("grid shapes, node impulses and query position classes", "Every bounded grid shape in 1 to 4 dimensions."),
    "C12": ("operation sequences over several live objects", "Every sequence of operations up to the depth, compared step by step with a model whose state is the configuration."),
    "C13": ("longitude shifts, conventions, mirrorings and tie-point patterns", "Every element of the lattice of symmetries and every pattern over a location alphabet."),
    "C14": ("a longitude x latitude x threshold lattice", "Every node of the lattice, all conversions of the package."),
    "C15": ("swath widths, tie impulses and scan places", "Every width up to the bound, every tie point moved in turn."),
    "C16": ("zenith-angle patterns, tie-point impulses, widths and resolutions", "Every zenith pair of an alphabet, every tie point moved in turn, every fine pixel."),
    "C17": ("ill-formed shapes, arguments and containers", "Every shape, argument count and parameter value of the bounded lattice."),
    "C18": ("memory layouts, dtypes and aliasing", "Every layout combination of every argument of every function."),
    "C19": ("initial contents of allocated memory and call histories", "Every result with memory poisoned in several ways; index-checked build; every pair of calls."),
    "C20": ("single tie-point changes", "Every tie point changed and invalidated in turn, every target point compared."),
    "C21": ("scan counts and basis fields", "Every number of scans up to the bound, every basis field, every preset."),
}


def assumptions(pid):
    with open(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")) as f:
        src = f.read()
    m = re.search(r"^ASSUMPTIONS = (\[.*?^\])", src, re.S | re.M)
    return "; ".join(eval(m.group(1)))  # noqa: S307 - our own file


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    for pid in ids:
        if os.path.exists(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")):
            what, note = NOTES[pid]
            checks.append({
                "property": pid,
                "quick_cmd": "./check %s quick" % pid,
                "thorough_cmd": "./check %s thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": TECHNIQUE % what,
                "level": "model_checking",
                "level_note": note + " Bounds are in the evidence file. Trusts/assumes: " + assumptions(pid) + ".",
            })
        else:
            missing.append({"property": pid, "reason": "The check for this property is not built yet."})
    manifest = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": missing,
                "notes": "No hooks in /repo: the checks build the extension modules themselves into /verif/.build, "
                         "with instrumentation chosen by compiler flags. KNOWN_FINDINGS.txt lists the repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(missing), "not claimed")


if __name__ == "__main__":
    main()
