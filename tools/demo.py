"""demo templates"""
def cxx(body, inc):
    src = '#include <cstdio>\n#include <cstring>\n#include <cstdlib>\n#include <cmath>\n#include <cassert>\n#include <vector>\n' + ''.join('#include "%s"\n' % i for i in inc) + 'using namespace matersdk;\n' + body
    sh = '''#!/bin/bash
# exit 0: property holds; compiles the headers of the tree in the current directory
set -e
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/source" "$(dirname "$0")/demo.cc" -o "$d/demo"
"$d/demo"
'''
    return dict(demo=sh, files={'demo.cc': src})
def py(body):
    sh = '''#!/bin/bash
# exit 0: property holds; imports the package of the tree in the current directory
set -e
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$d" TREE="$PWD"
f=$(cd "$(dirname "$0")" && pwd)/demo.py
cd "$d"
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
$PY "$f"
'''
    return dict(demo=sh, files={'demo.py': body})
