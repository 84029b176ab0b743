#!/usr/bin/env python3
"""Run one property's check:  run.py <PROPERTY> [--tier quick|thorough] [--sub NAME] [--cases N]
Replay a saved failure:       run.py --replay FILE
List the checks:              run.py --list
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import boot

if __name__ == '__main__':
    boot.enter(sys.argv)
    from vf import core
    sys.exit(core.main(sys.argv[1:]))
