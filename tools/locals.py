#!/usr/bin/env python3
"""Write specs/locals.json and specs/loops.json: the names the contracts know the local variables
and loop counters of the functions under contract by.  Run by hand after contracts or functions
change; never run by a check."""
import glob, json, os, subprocess, sys, tempfile
govc = sys.argv[1]
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
L, P = {}, {}
for f in sorted(glob.glob('*.spec')):
    if not open(f).read().lstrip().startswith('unit'):
        if not any(l.startswith('unit ') for l in open(f)):
            continue
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([govc, '-prelude', 'prelude.rs', '-out', d, '-write-locals', d + '/locals.json', f], check=True)
        L.update(json.load(open(d + '/locals.json')))
        P.update(json.load(open(d + '/loops.json')))
for n, m in (('locals', L), ('loops', P)):
    open(n + '.json', 'w').write(json.dumps(m, indent=1, sort_keys=True) + '\n')
