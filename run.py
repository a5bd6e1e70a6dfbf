#!/usr/bin/env python
"""
Entry point of every check:  run.py C01 --tier quick|thorough      run the check of property C01
                             run.py C01 --replay FILE              re-run one recorded violating case
                             run.py --setup                        self-test of the reference models

exit 0: held on everything explored; 1: VIOLATION line printed; 2: error in the machinery; 3: too little was observed.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
