"""Checks that what the checks need is present (they build the transport
stand-in themselves, in a directory of their own)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "harness"))
import vworld  # noqa: E402,F401
print("ok")
