"""mkseed.mk(id, property, file, old, new, srcs, demo, needs, breaks): writes /verif/seeded/<id>/ from a textual edit of /repo (restored afterwards)."""
import json, os, subprocess
R = os.environ.get('MKREPO', '/repo') + '/'
SH = '''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
inc=(-I"$repo/vendor/rk" -I"$repo/vendor/crundec3" -I"$repo/vendor/crundec3/CRunDec3.1" -I"$(python3 -c 'import sysconfig;print(sysconfig.get_paths()["include"])')" -I"$here"); for d in "$repo"/projects/*/public; do inc+=(-I"$d"); done
g++ -std=c++17 -O1 -w "${inc[@]}" "$here/demo.cxx" -o "$tmp/demo" -L"$repo/_build" -Wl,-rpath,"$repo/_build" -lSIREN -Wl,--unresolved-symbols=ignore-all -lpthread || exit 99
cd "$tmp" && timeout 200 ./demo
'''
def mk(id, prop, edits, srcs, demo, needs, breaks, link="", demo_sh=None, extra=None):
    d = os.environ.get('MKVERIF', '/verif') + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = R + f; s = open(p).read(); first = old.startswith('@first'); old = old[6:] if first else old; assert s.count(old) == 1 or first and s.count(old) > 1, (id, f, s.count(old)); open(p, 'w').write(s.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(demo_sh or SH); os.chmod(d + '/demo.sh', 0o755)
    if demo: open(d + ('/demo.cxx' if not demo_sh else '/demo.py'), 'w').write(demo)
    for k, v in (extra or {}).items(): open(d + '/' + k, 'w').write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
