#!/usr/bin/env python3
"""Helper to write the planted bugs of /verif/seeded (see seeds_*.py beside it).  Not used by any check."""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '9e7a5d2'

RUN_PY = '''#!/usr/bin/env python3
# Builds demo.cpp with the sources of the repository (the current directory) that sources.txt lists, and runs it.
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
flags, srcs = [], []
for line in open(os.path.join(here, 'sources.txt')):
    line = line.strip()
    if line.startswith('-'):
        flags.append(line)
    elif line:
        srcs.append(os.path.join(repo, 'cpp_utils/src/cpp', line))
srcs += [os.path.join(here, 'stub/FastDdsLog.cpp'), os.path.join(here, 'demo.cpp')]
inc = ['-I' + os.path.join(here, 'stub'), '-I' + os.path.join(repo, 'cpp_utils/include'),
       '-I' + os.path.join(repo, 'cpp_utils/src/cpp'), '-I' + os.path.join(repo, 'thirdparty/filewatch'),
       '-I' + os.path.join(repo, 'thirdparty')]
with tempfile.TemporaryDirectory() as tmp:
    jobs, objs = [], []
    for k, src in enumerate(srcs):
        obj = os.path.join(tmp, '%d.o' % k)
        objs.append(obj)
        jobs.append(subprocess.Popen(['g++', '-std=c++17', '-O1', '-g', '-w', '-pthread'] + flags + inc
                                     + ['-c', src, '-o', obj]))
    if any([j.wait() for j in jobs]):
        sys.exit('demo: does not compile')
    exe = os.path.join(tmp, 'demo')
    if subprocess.call(['g++', '-pthread'] + flags + objs + ['-o', exe, '-ldl']):
        sys.exit('demo: does not link')
    try:
        rc = subprocess.call([exe], cwd=tmp, timeout=120)
    except subprocess.TimeoutExpired:
        sys.exit('demo: hangs')
    print('demo: exit', rc)
    sys.exit(1 if rc else 0)
'''

DEMO_HPP = '''#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "demo: line %d: expected: %s\\n", __LINE__, #c); \\
    std::_Exit(1); } } while (0)
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline long now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(
    std::chrono::steady_clock::now().time_since_epoch()).count(); }
'''


def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout


def original_lines(path):
    """line numbers of path at HEAD that come from the original repository"""
    out = sh('git', '-C', REPO, 'blame', '-l', '-s', BASE + '..HEAD', '--', path)
    return [l.startswith('^') for l in out.splitlines()]


def seed(sid, prop, edits, needs, breaks, demo, sources='', flags='', py=None, files=None):
    if os.environ.get("SEED_SKIP") or (len(sys.argv) > 1 and sid not in sys.argv[1:]):
        return
    d = os.path.join(VERIF, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch = '/tmp/seedwt'
    if not os.path.isdir(scratch):
        sh('git', '-C', REPO, 'worktree', 'add', '--detach', scratch)
    sh('git', '-C', scratch, 'checkout', '-q', '--detach', sh('git', '-C', REPO, 'rev-parse', 'HEAD').strip())
    sh('git', '-C', scratch, 'checkout', '-q', '--', '.')
    for f, old, new in edits:
        p = os.path.join(scratch, f)
        t = open(p, newline='').read()
        n = t.count(old)
        if n != 1:
            sys.exit('%s: %d occurrences in %s of: %s' % (sid, n, f, old))
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = sh('git', '-C', scratch, 'diff')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    # provenance of removed lines
    cur = None
    for l in sh('git', '-C', scratch, 'diff', '-U0').splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            orig = original_lines(cur)
        elif l.startswith('@@'):
            a = l.split()[1][1:].split(',')
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for k in range(start, start + n):
                if not orig[k - 1]:
                    print('%s: WARNING %s:%d is not an original line' % (sid, cur, k))
            if n == 0:
                print('%s: note: pure addition at %s:%d' % (sid, cur, start))
    sh('git', '-C', scratch, 'checkout', '-q', '--', '.')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=2)
    w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    if py is None:
        w('demo.sh', '#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n')
        w('run.py', RUN_PY)
        w('demo.hpp', DEMO_HPP)
        w('demo.cpp', '#include "demo.hpp"\n' + demo.lstrip('\n'))
        w('sources.txt', '\n'.join(flags.split() + ['utils.cpp', 'math/math_extension.cpp', 'time/time_utils.cpp', 'Formatter.cpp', 'exception/Exception.cpp']
                                   + sources.split()) + '\n')
        shutil.copytree(os.path.join(VERIF, 'stub'), os.path.join(d, 'stub'))
    else:
        w('demo.sh', '#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        w('demo.py', py.lstrip('\n'))
    for n, t in (files or {}).items():
        w(n, t)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    print('wrote', sid)
