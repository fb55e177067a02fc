#!/usr/bin/env python3
"""Builds everything the checks need (they also build on demand)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import components, vf
vf.java_overrides()
for f in getattr(components, "EXES", [components.solver_exe]):
    print(f())
for n in components.CONTROL_CFG:
    print(n, len(components.control_scripts(n)["scripts"]), "behaviours")
for n in ("queue-two", "queue-three", "pool"):
    print(n, len(components.client_programs(n)["scripts"]), "programs")
