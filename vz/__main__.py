import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vz import runner
prop = sys.argv[1]
sys.exit(runner.main("checks." + prop.lower(), sys.argv[2:]))
