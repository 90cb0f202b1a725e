#!/usr/bin/env python3
"""usage: run.py <property> [quick|thorough]"""
import os, sys
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
sys.exit(props.run(sys.argv[1]))
