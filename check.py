#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import core
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
