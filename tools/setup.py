#!/usr/bin/env python3
"""Builds the code under test and the drivers, and checks that the specifications parse."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from swc import common  # noqa: E402

if __name__ == "__main__":
    common.build(["driver", "cli", "web"])
