"""Adds every 'fix:' commit of /repo that is not listed yet to
known_findings.json (development helper, never run by a check)."""
import json, subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'known_findings.json')
data = json.load(open(path)) if os.path.exists(path) else {'findings': []}
default = sys.argv[1] if len(sys.argv) > 1 else 'C02'
have = {e.get('what', '') for e in data['findings']}
TABLE = [('printing a single feature', 'C24'),
         ('missing values of the feature merged', 'C09'), ('floor division of Sparse', 'C07'),
         ('merging', 'C09'), ('union merge', 'C09'), ('keras', 'C18'), ('non-finite', 'C20'), ('means none', 'C01'),
         ('negative step', 'C02'), ('groupByFeature', 'C15'),
         ('autoimpute', 'C14'), ('output of a learner', 'C18'),
         ('float indices', 'C02'), ('mapReduce', 'C02'),
         ('given to replace', 'C02'),
         ('that cannot be used before', 'C06'), ('queries', 'C13'), ('numpy booleans', 'C13'), ('False is given', 'C13'),
         ('merge', 'C09'), ('setNames of several', 'C03'),
         ('copying high', 'C04'), ('stretched operations do', 'C04'),
         ('saving', 'C04'), ('plot does', 'C04'), ('matrix multip', 'C04'),
         ('views reflect', 'C05'), ('numeric checks', 'C01'),
         ('inverse of a Sparse', 'C01'), ('zeros of a Sparse', 'C01'),
         ('modulo', 'C01'), ('combineBy', 'C01'), ('splitByColl', 'C01'),
         ('unflatten', 'C08'), ('nested data objects', 'C08'),
         ('Sparse views keep', 'C08'),
         ('a zero of a', 'C01'), ('transposed and high', 'C01'),
         ('setting several items', 'C02'),
         ('a boolean identifier', 'C02'),
         ('incremental training of one', 'C23'),
         ('one versus one training', 'C23'),
         ('incremental training that fails', 'C26'),
         ('single element is stretched', 'C07'),
         ('single element restores', 'C08'),
         ('parameters or defaults of a learner', 'C27'),
         ('type of a learner class', 'C27')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s'], capture_output=True,
                     text=True).stdout.splitlines()
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: ') or s[5:] in have:
        continue
    prop = next((q for pat, q in TABLE if pat in s), default)
    data['findings'].append({'id': 'F%02d' % (len(data['findings']) + 1),
                             'property': prop, 'status': 'fixed',
                             'commit': h, 'what': s[5:],
                             'line': f'fixed: property={prop} {h} {s[5:]}'})
    print('added', h, s)
hashes = dict(reversed(line.split(' ', 1)) for line in log)
for e in data['findings']:
    if e['status'] == 'fixed':
        e['commit'] = hashes['fix: ' + e['what']]
        e['line'] = (f"fixed: property={e['property']} {e['commit']} "
                     f"{e['what']}")
json.dump(data, open(path, 'w'), indent=1)
