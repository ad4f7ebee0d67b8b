"""Command line: mc.run <property> [quick|thorough] | mc.run --replay <file> | mc.run --build."""
import importlib
import json
import os
import sys
import time


def main(argv):
    t0 = time.time()
    if argv[0] == "--build":
        from . import build
        for fl in build.FLAVOURS:
            print(fl, build.build(fl))
        return 0
    from . import build, core, env
    replay = None
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            replay = json.load(f)
        prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    name = "mc.checks." + prop.lower()
    flavour = _flavour(name)
    env.setup(flavour)
    mod = importlib.import_module(name)
    spaces = mod.spaces(tier, seed)
    if os.environ.get("MC_SPACE"):
        spaces = [s for s in spaces if os.environ["MC_SPACE"] in s.name]
    if replay:
        for space in spaces:
            if space.name == replay["space"]:
                rec, msg = core._run_case(space, _match(space, replay["case"]))
                print(msg or "no violation")
                return 1 if msg else 0
        print("no such space")
        return 2
    code, ev = core.explore(prop, spaces, tier, seed)
    ev["assumptions"] = list(mod.ASSUMPTIONS)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print("%s %s: %s states=%d transitions=%d traces=%d outcomes=%d cases=%d wall=%.1fs" % (
        prop, tier, "VIOLATED" if code else "held", c["states"], c["transitions"], c["traces_validated_against_impl"],
        c["distinct_outcomes"], c["cases"], ev["wall_s"]))
    if os.environ.get("MC_VERBOSE"):
        for s in c["spaces"]:
            print("   %(name)s: cases=%(cases)d/%(of)d states=%(states)d transitions=%(transitions)d traces=%(traces)d "
                  "outcomes=%(distinct_outcomes)d" % s)
    return code


def _match(space, case):
    want = json.dumps(case, sort_keys=True, default=str)
    for c in space.cases:
        if json.dumps(c, sort_keys=True, default=str) == want:
            return c
    return case


def _flavour(name):
    # read without importing: the check module may import geotiepoints
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", name.rsplit(".", 1)[1] + ".py")
    with open(path) as f:
        for line in f:
            if line.startswith("FLAVOUR = "):
                return line.split('"')[1]
    return "plain"


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Exception:  # not an answer about the code
        import traceback
        traceback.print_exc()
        sys.exit(2)
