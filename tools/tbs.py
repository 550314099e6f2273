"""show the tracebacks of a replay"""
import json, sys, collections
d=json.load(open(sys.argv[1])); c=collections.Counter()
def find(o):
    if isinstance(o,dict):
        if o.get('tb'): print(o.get('stop'), o['tb'][-1500:]); 
        for v in o.values(): find(v)
    elif isinstance(o,list):
        for v in o: find(v)
find(d)
