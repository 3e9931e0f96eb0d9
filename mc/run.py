"""Entry point: python -m mc.run <property> [quick|thorough] [--only S] [-v]."""

from __future__ import annotations

import importlib
import os
import sys


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else None
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    from mc import core

    module = importlib.import_module(f"mc.{prop.lower()}")
    # Import the code under test once, before forking (no JAX backend is created).
    importlib.import_module("mc.lib")
    tasks = module.tasks(tier)
    return core.run_check(
        prop, tasks, tier, assumptions=module.ASSUMPTIONS,
        bounds=module.bounds(tier) if hasattr(module, "bounds") else None,
        only=only, verbose="-v" in argv,
    )


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
