import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
sys.exit(harness.main(sys.argv[1:]))
