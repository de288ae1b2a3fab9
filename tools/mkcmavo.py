"""Extracts ref/cmavo.json (word -> [grammar class, printed class, English]) from cmavotab.c; run once, the result is frozen."""
import re, json
s = open('/repo/cmavotab.c').read()
names = re.findall(r'"([^"]*)"', re.sub(r'/\*.*?\*/', '', s[s.index('char *selmao_names[]'):], flags=re.S))
h = open('/repo/cmavotab.h').read()
ssm = re.findall(r'(SSM_\w+)\s*(?:=\s*(-?\d+))?', h[h.index('SSM_UNKNOWN'):]); n = -1; code = {}
seen = []
for k, v in ssm:
    if k in code: continue
    if v: n = int(v)
    code[k] = n; n += 1
out = {}
for m in re.finditer(r'\{\s*"([^"]+)"\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*"([^"]*)"', s):
    w, sel, cm, sm, mean = m.groups()
    out[w.replace("\\'", "'")] = [sel, names[code[sm]], mean.replace("\\'", "'")]
json.dump(out, open('/verif/ref/cmavo.json', 'w'), indent=0, sort_keys=True)
print(len(out))
