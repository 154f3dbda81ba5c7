#!/usr/bin/env python3
"""Builds everything the checks use (each check also builds what it needs itself)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
ids = [c['property'] for c in json.load(open(check.V + '/MANIFEST.json'))['checks']]
sys.exit(0 if check.build(ids) else 1)
