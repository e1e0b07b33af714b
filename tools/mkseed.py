#!/usr/bin/env python3
"""tools/mkseed.py SPEC.json-like python file: creates /verif/seeded/<id>/ from textual edits of /repo.
The spec file defines: id, property, needs, breaks, edits=[(file, old, new), ...], demo (TypeScript), libs=[harness files to copy beside it]."""
import sys, subprocess, os, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = '/repo'
assert not subprocess.check_output(['git', '-C', R, 'status', '--porcelain']).strip(), 'repo not clean'
d = f"/verif/seeded/{ns['id']}"
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns['edits']:
        p = f'{R}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    patch = subprocess.check_output(['git', '-C', R, 'diff'])
finally:
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(f'{d}/patch.diff', 'wb').write(patch)
json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
open(f'{d}/demo.ts', 'w').write(ns['demo'])
for l in ns.get('libs', []):
    shutil.copy(f'/verif/harness/lib/{l}', d)
open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
export HOME=/root DENO_DIR=/opt/deno/cache DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1 NO_COLOR=1 TZ=UTC
exec timeout 200 /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config /repo/deno.jsonc \\
  --import-map /opt/mtkruto-deps/import_map.json --unstable-kv --unstable-worker-options -A "$(dirname "$0")/demo.ts"
''')
os.chmod(f'{d}/demo.sh', 0o755)
print(ns['id'], patch.decode().count('\n'), 'patch lines')
