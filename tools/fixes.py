"""Regenerates the fixed: entries of known_findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import subprocess, json
MAP = {}	# file prefix -> property, by subject
P = {'Array': 'P02', 'StrVal': 'P06'}
RULES = [('cannot be instantiated', 'P18'), ('could not be instantiated', 'P18'), ('used freed memory', 'P01'), ('null body', 'P01'), ('slice may reach', 'P02'), ('slice, not its body', 'P02')]
def run(overrides):
    out = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], text=True)
    k = json.load(open('/verif/known_findings.json'))
    fs = [f for f in k['findings'] if f.get('status') != 'fixed']
    for l in out.splitlines():
        h, s = l.split(' ', 1)
        what = s[5:]
        prop = overrides.get(h)
        if not prop:
            print('no property for', l); continue
        fs.append(dict(property=prop, status='fixed', commit=h, what=what, entry='fixed: property=%s %s %s' % (prop, h, what)))
    json.dump({'findings': fs}, open('/verif/known_findings.json', 'w'), indent=1)
if __name__ == '__main__':
    run(json.load(open('/verif/tools/fixprops.json')))
