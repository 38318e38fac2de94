#!/usr/bin/env python3
"""mk.py ID PROPERTY FILE — reads from stdin a JSON-ish python dict: edits [(file, old, new)], needs, breaks, demo (C++ text).
Writes /verif/seeded/ID. Not used by any check."""
import sys, os, json, subprocess, shutil, tempfile
def make(id, prop, edits, needs, breaks, demo, skip='asio_service.cxx', kit=True, sh=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r'])
    try:
        for f, a, b in edits:
            p = w + '/r/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    if kit:
        shutil.copy('/verif/demokit/kit.hpp', d)
    s = sh or open('/verif/demokit/demo.sh').read().replace('${SKIP:-asio_service.cxx}', skip or 'none')
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
