#!/usr/bin/env python3
"""Build the driver and the facts of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hopsa import facts
print(facts.produce())
