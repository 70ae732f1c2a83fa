import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lbddv import runner
sys.stdout.reconfigure(line_buffering=True)
sys.exit(runner.check(sys.argv[1]))
