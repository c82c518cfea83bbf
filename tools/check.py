#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nv import runner, props
sys.exit(runner.main(props.PROPS))
