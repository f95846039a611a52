#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json and commits
cd /verif && python3 tools/props.py && python3 tools/manifest.py && git add -A && git commit -qm "${1:-sync}" && git log --oneline | head -1
