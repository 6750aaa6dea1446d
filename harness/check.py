"""check.py <property>: run one property's check (tier from VERIF_TIER)."""
import importlib
import os
import struct
import sys
import traceback
from xml.etree import ElementTree

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFB_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import logging  # noqa: E402
import warnings  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def run(prop):
    try:
        m = importlib.import_module("props." + prop.lower())
        m.main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        # An exception that escaped the code under test where the driver did not expect
        # one is behaviour of the code; anything else is a failure of the machinery.
        tb = traceback.extract_tb(e.__traceback__)
        from vlib import guard
        if isinstance(e, guard.Stuck):
            from vlib.report import Check
            c = Check(prop)
            c.samples.append({"calls": guard.hangs})
            c.violation(f"the code does not come back: {e}", {"traceback": traceback.format_exc()[-3000:]})
            c.finish()
        src = os.path.join(REPO, "src") + os.sep
        if any(f.filename.startswith(src) for f in tb) and not isinstance(
                e, KeyboardInterrupt):
            from vlib.report import Check
            c = Check(prop)
            c.samples.append({"exception": repr(e)})
            where = [f for f in tb if f.filename.startswith(src)][-1]
            c.violation(f"the code raised {type(e).__name__}: {e} at "
                        f"{os.path.relpath(where.filename, REPO)}:{where.name}",
                        {"traceback": traceback.format_exc()[-3000:]})
            c.finish()
        # What the code wrote is read with plain dictionaries and parsers.  They are the
        # same in every run, so where something is missing it is missing in the output.
        if isinstance(e, (LookupError, TypeError, ValueError, AttributeError, ElementTree.ParseError, struct.error)):
            from vlib.report import Check
            c = Check(prop)
            c.samples.append({"exception": repr(e)})
            c.violation(f"a result of the code does not have the expected form: {type(e).__name__}: {e} "
                        f"(in {tb[-1].name})", {"traceback": traceback.format_exc()[-3000:]})
            c.finish()
        traceback.print_exc()
        sys.exit(3)


if __name__ == "__main__":
    run(sys.argv[1])
