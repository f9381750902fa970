"""C03: PBT, then a libFuzzer campaign with the reference recogniser as the oracle."""
import fuzz_stage
def check(run, args):
    return fuzz_stage.combined(run, args, "C03", True, 300000 if args.tier == "quick" else 20000000, 8)
