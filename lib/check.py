import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, plans


def main():
    if sys.argv[1:] == ["--setup"]:
        core.build_harness()
        core.build_classes()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        c = core.Ctx(prop, tier, seed)
        try:
            plans.PLANS[prop](c, tier == "thorough")
        except core.Stop:
            pass
        return c.finish()
    except core.ToolError as e:
        core.log("TOOL ERROR: " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        core.cleanup()


sys.exit(main())
