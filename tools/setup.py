"""Checks that what the checks need is present (nothing has to be built)."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import scenario  # noqa: F401

print("ready")
