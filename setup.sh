#!/bin/sh
# Nothing to build: check that the tools and the code under verification load.
cd "$(dirname "$0")" && exec python3-vt -B -c "import pyvc.boot, pddl, z3, rt.objects, rt.texts; print('ok', z3.get_version_string())"
