# -*- coding: utf-8 -*-
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
