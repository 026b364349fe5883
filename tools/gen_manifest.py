import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/vt')
from props import *
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m=dict(version=1,setup_cmd='verus --version && clang++-18 --version && g++-14 --version && python3 -c "import json"',
 checks=[dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,technique=PROPS[i].get('technique',TECH),level=PROPS[i]['level'],level_note=PROPS[i]['note']) for i in ids if i in PROPS],
 not_applicable=[dict(property=i,reason=NA.get(i,NA_DEFAULT)) for i in ids if i not in PROPS],
 notes='Contract modules: vt/modules/*.py; translator: vt/cxx2verus.py; runner: check.py; concrete stage: harness/*.cpp; findings: known_findings.txt. No hooks are compiled into /repo.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
