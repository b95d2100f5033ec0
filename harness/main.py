"""python -m harness.main <property> [...]: run the checks of properties."""
import importlib
import sys
import traceback

from . import core
from .registry import CHECKS


def main(argv):
    worst = 0
    core.limited()
    for prop in argv or sorted(CHECKS):
        mod, fn = CHECKS[prop][:2]
        ctx = core.Ctx(prop)
        try:
            getattr(importlib.import_module("harness." + mod), fn)(ctx)
        except core.CheckError as err:
            print("CHECK ERROR %s: %s" % (prop, err))
            if not ctx.violations:
                worst = 2
                continue
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, FileNotFoundError, UnicodeError) as err:
            # what the library returned or wrote is not of the kind that it promises
            traceback.print_exc()
            ctx.violation("results that cannot be processed: %r" % err, {"traceback": traceback.format_exc()})
        except Exception:
            traceback.print_exc()
            print("CHECK ERROR " + prop)
            if not ctx.violations:
                worst = 2
                continue
        rc = ctx.finish()
        print("%s %s: %s in %.1f s" % (prop, ctx.tier, "violated" if rc else "held on everything explored",
                                       __import__("time").time() - ctx.t0))
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
