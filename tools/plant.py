#!/usr/bin/env python3
"""Builds and verifies the planted bugs of bugs.py under /verif/seeded.

usage: plant.py make [ID...]     write seeded/<id>/ and verify each in a scratch copy
       plant.py run [ID...]      apply each to /repo, run its property's quick check, undo
No check reads anything this tool writes.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

SEEDED = '/verif/seeded'
SCRATCH = '/tmp/plant'
BASE = 'dcd9e63'

PRE = '''#![allow(unused_imports, unused_variables, dead_code)]
use dockerfile_parser::*;
use std::convert::{TryFrom, TryInto};
use std::collections::{HashMap, HashSet};

fn doc(s: &str) -> Dockerfile { Dockerfile::parse(s).expect("document must be accepted") }

fn main() {
'''

DEMO_SH = '''#!/bin/bash
# Run with the repository as the working directory: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; fi
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
dockerfile-parser = { path = "$repo" }
[workspace]
TOML
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$work/target}" CARGO_INCREMENTAL=0
cd "$work" || exit 9
if ! cargo build --offline -q; then echo "demo: build failed"; exit 9; fi
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd, str), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')


def fresh():
    copy = SCRATCH + '/repo'
    if not os.path.isdir(copy):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(['cp', '-a', '/repo', copy])
    sh('git fetch -q /repo HEAD && git checkout -q --force FETCH_HEAD && git checkout -q -- .', cwd=copy)
    return copy


def original_lines_only(copy, patch):
    """Every removed line must be one of the original repository's."""
    for f, old_no in removed(patch):
        out = sh(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (old_no, old_no), 'HEAD', '--', f], cwd=copy).stdout
        commit = out.split()[0].lstrip('^')
        r = sh(['git', 'merge-base', '--is-ancestor', commit, BASE], cwd=copy)
        if r.returncode != 0:
            return '%s:%d is not an original line (%s)' % (f, old_no, commit)
    return None


def removed(patch):
    f, n, out = None, 0, []
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            out.append((f, n)); n += 1
        elif line.startswith(' '):
            n += 1
    return out


def tests_pass(copy):
    env = dict(ENV, CARGO_TARGET_DIR=copy + '/target')
    log = copy + '/target/vp-test.log'
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=copy, env=env)
    open(log, 'w').write(r.stdout)
    out = SCRATCH + '/res.json'
    sh(['python3', '/opt/vp/results.py', out, 'cargo:' + log])
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    res = json.load(open(out))
    passed = set(res.get('passed', []))
    bad = [t for t in base if t not in passed]
    return bad


def demo(d, copy):
    env = dict(ENV, TMPDIR=SCRATCH + '/tmp', DEMO_TARGET_DIR=SCRATCH + '/demo-target')
    os.makedirs(SCRATCH + '/tmp', exist_ok=True)
    r = sh(['bash', d + '/demo.sh'], cwd=copy, env=env, timeout=300)
    shutil.rmtree(SCRATCH + '/tmp')
    return r


def make(bug):
    copy = fresh()
    d = '%s/%s' % (SEEDED, bug['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in bug['edits']:
        p = copy + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            return 'edit of %s matches %d times: %r' % (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    patch = sh(['git', 'diff'], cwd=copy).stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.rs', 'w').write(PRE + bug['demo'].strip('\n') + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(d + '/meta.json', 'w'), indent=2)
    why = original_lines_only(copy, patch)
    if why:
        return why
    bad = tests_pass(copy)
    if bad:
        return 'existing tests fail: %s' % bad[:4]
    with_bug = demo(d, copy)
    if with_bug.returncode == 0:
        return 'demo passes with the bug'
    if with_bug.returncode == 9:
        return 'demo does not build: ' + with_bug.stdout[-1500:]
    sh('git checkout -q -- .', cwd=copy)
    r = sh(['git', 'apply', '--check', d + '/patch.diff'], cwd=copy)
    if r.returncode:
        return 'patch does not apply'
    without = demo(d, copy)
    if without.returncode != 0:
        return 'demo fails on the unchanged tree: ' + without.stdout[-1500:]
    return None


def run(bug, extra=()):
    d = '%s/%s' % (SEEDED, bug['id'])
    t = time.time()
    r = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if r.returncode:
        return 'patch does not apply'
    try:
        r = sh(['python3', '/verif/check.py', bug['property'], *extra], cwd='/verif', timeout=1000)
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % bug['property'])]
    return '%s exit=%d %.0fs %s' % ('CAUGHT' if r.returncode == 1 and line else 'MISSED', r.returncode,
                                    time.time() - t, '' if line else r.stdout.strip()[-300:])


def main():
    verb, ids = sys.argv[1], sys.argv[2:]
    for bug in BUGS:
        if ids and bug['id'] not in ids:
            continue
        if verb == 'make':
            why = make(bug)
            print(bug['id'], 'ok' if why is None else 'REJECTED: ' + why, flush=True)
            if why is not None and os.path.isdir('%s/%s' % (SEEDED, bug['id'])):
                shutil.rmtree('%s/%s' % (SEEDED, bug['id']))
        else:
            if os.path.isdir('%s/%s' % (SEEDED, bug['id'])):
                print(bug['id'], run(bug), flush=True)


main()
