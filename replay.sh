#!/bin/sh
# Replay a violation file written by a check: ./replay.sh replays/C01.json
cd "$(dirname "$0")" && exec python3-vt -B -m runner.main --replay "$1"
