"""Writes sa/data/case.json: what each conversion and class says of every character, from Unicode data, restricted
to what the Unicode 3 tables of the library cover (stdin: 'ch upper lower title digit alpha' of every character, from the
pinned library), with the places where today's Unicode differs listed and kept as Unicode 3 had them."""
import sys, json, unicodedata as U
rows = [tuple(map(int, l.split())) for l in sys.stdin]
SIMPLE = {}		# simple mappings that Python's full mappings hide
def rng(items):
    out = []
    for c, v in items:
        if out and out[-1][1] == c - 1 and out[-1][2] == v:
            out[-1][1] = c
        else:
            out.append([c, c, v])
    return out
d = dict(upper=rng((r[0], r[1] - r[0]) for r in rows if r[1] != r[0]),
         lower=rng((r[0], r[2] - r[0]) for r in rows if r[2] != r[0]),
         title=rng((r[0], r[3] - r[0]) for r in rows if r[3] != r[0]),
         digit=rng((r[0], r[4] - r[0]) for r in rows if r[4] >= 0),
         alpha=rng((r[0], 1) for r in rows if r[5]))
diff = {}
f = lambda s, c: ord(s) if len(s) == 1 else None
for r in rows:
    ch = chr(r[0])
    if 0xD800 <= r[0] < 0xE000:
        continue
    for n, k, m in (('upper', 1, ch.upper()), ('lower', 2, ch.lower()), ('title', 3, ch.title())):
        if r[k] != r[0] and f(m, r[0]) not in (r[k], None):
            diff.setdefault(n, []).append([r[0], r[k]])
    if r[4] >= 0 and U.digit(ch, -1) != r[4] and U.numeric(ch, -1) != r[4]:
        diff.setdefault('digit', []).append([r[0], r[4]])
d['differs_from_unicode_15'] = diff
json.dump(d, open('sa/data/case.json', 'w'), separators=(',', ':'))
print(diff, {k: len(v) for k, v in d.items()})
