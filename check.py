#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import runner
sys.exit(runner.main(sys.argv[1:]))
