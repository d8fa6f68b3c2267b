#!/usr/bin/env python3
"""seed_new.py ID property needs what: stores /repo's uncommitted diff as a planted change, and undoes it. demo.cpp is written apart."""
import sys, os, json, subprocess
i, prop, needs, what, srcs, flags = (sys.argv[1:] + ['', ''])[:6]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
TMPL = r'''#!/bin/bash
# exit 0: the behaviour is right. Runs in /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=""
for d in src src/features/keypoints src/features/lines src/features/primitives src/pose_optimization src/map_management third_party src/tracking src/outputs src/utils src/coordinates; do inc="$inc -I$repo/$d"; done
export flags="-std=c++20 -O1 -w %s $inc -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -isystem /usr/include/flann" t
printf '%%s\n' "$here/demo.cpp" %s | xargs -P 8 -I{} bash -c 'g++ $flags -c "{}" -o "$t/$(basename "{}").o"' || exit 3
g++ "$t"/*.o -o "$t/demo" $(pkg-config --libs opencv4) -llz4 -lflann_cpp -ltbb -lpthread || exit 3
cd "$t" && timeout 200 ./demo
'''
open(d + '/demo.sh', 'w').write(TMPL % (flags, srcs))
