"""python -m vc.replay FILE : re-run the input of a replay file on the real code"""
import sys, json
from vc.main import replay_case
d = json.load(open(sys.argv[1]))
if d.get('case') is None:
    print('no input: failed obligation', d.get('obligation'), d.get('detail'), json.dumps(d.get('model'))[:2000])
else:
    print(replay_case(d['property'], d['case']))
