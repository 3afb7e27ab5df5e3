"""tech.py ID TECHNIQUE NOTE: set the technique entry of a check and regenerate MANIFEST.json"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(HERE, 'technique.json')
d = json.load(open(p))
d['checks'][sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
subprocess.run([sys.executable, os.path.join(HERE, 'gen_manifest.py')], check=True)
