#!/bin/bash
# Regenerate MANIFEST.json and known_findings.txt, commit.
cd "$(dirname "$0")/.." && /opt/venv/bin/python tools/gen_manifest.py && /opt/venv/bin/python tools/gen_known.py && git add -A && git commit -qm "${1:-update}" ; git status --short
