import json
loads = json.loads
dumps = json.dumps
load = json.load
dump = json.dump
