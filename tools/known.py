"""Prints the --known arguments for a property, one per line."""
import sys
sys.path.insert(0, '/verif/sim')
from run import known_findings
for k in known_findings(sys.argv[1]):
    print('--known'); print(k)
