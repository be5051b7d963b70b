"""baseline/hashes.json: normalised hashes of /repo's sources at the commit the checks were built for"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv.runner import hashes
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline', 'hashes.json')
json.dump(hashes(), open(p, 'w'), indent=1, sort_keys=True)
