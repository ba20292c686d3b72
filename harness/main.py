import importlib
import logging
import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

from .core import Ctx, MachineryError
from .registry import REGISTRY


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    modname, fname, level = REGISTRY[prop]
    ctx = Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")), level)
    try:
        mod = importlib.import_module(f"harness.{modname}")
        getattr(mod, fname)(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception as x:
        traceback.print_exc()
        # An exception that the code under test let escape from a call that must not fail is an
        # observation about that code, not a failure of the machinery.
        frames = [f.filename for f in traceback.extract_tb(x.__traceback__)]
        if any(f.startswith("/repo/") for f in frames):
            ctx.violation("raised", f"{type(x).__name__}: {x}", traceback.format_exc())
            try:
                ctx._futures = []
                sys.exit_code = ctx.finish()
                ctx.cleanup()
                sys.stdout.flush()
                os._exit(1)
            except Exception:
                traceback.print_exc()
        print("MACHINERY ERROR")
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
