"""Adds the 'fixed' records to known_findings.json (run by hand)."""
import json, os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {'3338f3d': 'C06', '649eddd': 'C07', 'a5b9493': 'C07', '65d9f94': 'C07', '29a55cd': 'C03', 'c520da2': 'C03 C10', 'bcb8fa6': 'C03 C11',
     '1954af8': 'C03', '13fc915': 'C04', '39553fb': 'C04', '6f36076': 'C08 C17', '4613022': 'C08 C10', '78152b6': 'C10 C18', '4088a18': 'C10',
     '63dccfa': 'C07', '2f3bcf4': 'C07', 'f9974d2': 'C07', '8af58cd': 'C19', '9db8f8f': 'C07', '29dd78c': 'C07', 'bf17c46': 'C03 C09 C11',
     'f88ed30': 'C09', '3b0e114': 'C09', 'f154a08': 'C01', '05f7e1c': 'C01', 'ea56831': 'C07', '16b1ad2': 'C07', 'eab3aec': 'C07',
     'c964c86': 'C07', 'f53a3fe': 'C03 C06', '58bc5f3': 'C18', '35c9d91': 'C17', '545278b': 'C03 C17', '7b55a2f': 'C14', '937f7ff': 'C13 C09',
     '197a5d9': 'C08 C07', '7dcc3f6': 'C20', 'd45dfed': 'C04', 'b66a412': 'C04', '54c5a5c': 'C05'}
EXTRA = os.path.join(D, 'tools', 'fixed_extra.json')
if os.path.exists(EXTRA):
    M.update(json.load(open(EXTRA)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
path = os.path.join(D, 'known_findings.json')
known = [k for k in (json.load(open(path))['findings'] if os.path.exists(path) else []) if k['status'] != 'fixed']
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    h7 = h[:7]
    if h7 not in M:
        raise SystemExit('no property for ' + l)
    for p in M[h7].split():
        fixed.append(dict(property=p, status='fixed', commit=h, what=s[5:], record='fixed: property=%s %s %s' % (p, h, s[5:])))
json.dump(dict(findings=known + fixed), open(path, 'w'), indent=1)
print(len(known), 'known', len(fixed), 'fixed')
