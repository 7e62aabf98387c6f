#!/usr/bin/env python3
"""check.py PROPERTY | check.py replay FILE"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
