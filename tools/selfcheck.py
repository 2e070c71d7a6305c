"""Set-up: the checks are pure Python and build nothing; this makes sure that they compile and that their interpreter is there."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for chk in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
    path = os.path.join(V, 'vlib', 'checks', chk['property'].lower() + '.py')
    compile(open(path).read(), path, 'exec')
import numpy, scipy, pandas, dateutil  # noqa: E402,F401
print('ok')
