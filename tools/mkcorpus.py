#!/usr/bin/env python3
"""Collects the telegrams found in the repository's fixtures into corpus/frames.txt (one "name hex" per line)."""
import glob, json, os, re
out, seen = [], set()
def add(name, h):
    h = re.sub(r'0[xX]', '', h)
    h = re.sub(r'[^0-9A-Fa-f]', '', h).upper()
    if len(h) < 2 or len(h) % 2 or h in seen: return
    seen.add(h); out.append(f"{name} {h}")
for d in ('test-frames', 'error-frames', 'unsupported-frames'):
    for p in sorted(glob.glob(f'/repo/tests/rscada/{d}/*.hex')):
        add(d + '/' + os.path.basename(p)[:-4].replace(' ', '_'), open(p).read())
for i, v in enumerate(json.load(open('/repo/tests/wmbusmeters/test_vectors.json'))):
    add(f'wmbusmeters/{i}', v['input'])
for p in sorted(glob.glob('/repo/tests/*.rs') + glob.glob('/repo/src/*.rs') + glob.glob('/repo/crates/*/src/*.rs')+glob.glob('/repo/README.md')):
    t = open(p).read()
    for i, m in enumerate(re.finditer(r'"((?:[0-9A-Fa-f]{2}[ \n\\]*){9,})"', t)):
        add(f'{os.path.basename(p)}/{i}', m.group(1))
    for i, m in enumerate(re.finditer(r'\[((?:\s*0[xX][0-9A-Fa-f]{1,2}\s*,?){9,})\s*\]', t)):
        add(f'{os.path.basename(p)}/a{i}', ''.join(x.zfill(2) for x in re.findall(r'0[xX]([0-9A-Fa-f]{1,2})', m.group(1))))
open('/verif/corpus/frames.txt', 'w').write('\n'.join(out) + '\n')
print(len(out))
