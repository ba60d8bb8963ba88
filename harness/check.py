"""check.py PROPERTY: decides one property; see DESIGN.md."""

import importlib
import os
import sys
import faulthandler, signal
faulthandler.register(signal.SIGUSR1)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from common import Check  # noqa: E402
from pool import Raised, Report  # noqa: E402

MODULES = {
    "C01": "check_lifecycle", "C02": "check_kernel", "C03": "check_kernel", "C04": "check_kernel",
    "C05": "check_kernel", "C06": "check_quiet", "C07": "check_reset", "C23": "check_kernel",
    "C09": "check_slots", "C11": "check_types",
    "C12": "check_exec", "C13": "check_race", "C14": "check_exec", "C15": "check_edit", "C16": "check_edit", "C17": "check_edit", "C24": "check_utility", "C08": "check_data", "C10": "check_wiring",
    "C20": "check_action", "C25": "check_store", "C21": "check_service", "C22": "check_topic", "C18": "check_load", "C19": "check_load", "C28": "check_compute", "C26": "check_subtree", "C27": "check_publish", "C29": "check_extract", "C30": "check_report", "C31": "check_server",
}


def main():
    prop = sys.argv[1]
    check = Check(prop)
    try:
        importlib.import_module(MODULES[prop]).run(check)
    except Raised as e:
        check.violation(f"the code raises {e}", {"raised": str(e), "tier": os.environ.get("VERIF_TIER", "quick"), "seed": os.environ.get("VERIF_SEED", "1")})
    except Exception as e:      # in this process
        r = Report(e)
        if not r.product:
            raise
        check.violation(f"the code raises {r.what}", {"raised": r.text})
    sys.stdout.flush()
    rc = check.finish()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
