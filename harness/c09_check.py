"""C09: PBT under sanitizers, then a libFuzzer campaign under sanitizers."""
import fuzz_stage
def check(run, args):
    return fuzz_stage.combined(run, args, "C09", False, 120000 if args.tier == "quick" else 6000000, 8)
