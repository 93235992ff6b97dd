#!/usr/bin/env python3
"""build the MIR extraction driver"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import extract
print('driver:', extract.driver())
