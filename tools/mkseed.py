"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and
confirms in a scratch copy that the demonstration tells the change apart."""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function
import logging, os, shutil, sys, tempfile, types
sys.dont_write_bytecode = True


class LeaveOut(object):
    """bassmine needs numpy, which Jython does not have"""
    def find_module(self, name, path=None):
        return self if name == "gsapi.bassmine" else None

    def load_module(self, name):
        m = sys.modules.setdefault(name, types.ModuleType(name))
        m.__loader__ = self
        return m


sys.meta_path.insert(0, LeaveOut())
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
from gsapi import gsdefs, gsutil, gspattern, gsio, gsdescriptors, gsstyles, gstransformers, gsdataset, gsextractors, midiio
from gsapi.gspattern import Pattern, Event
TMP = tempfile.mkdtemp()


def check(ok, what):
    if not ok:
        print("WRONG: " + what)
        shutil.rmtree(TMP)
        sys.stdout.flush()
        os._exit(1)


'''
END = '''
shutil.rmtree(TMP)
print("ok")
'''
SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec jython -B "$here/demo.py"\n'


def run(d, cwd):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, capture_output=True, text=True, timeout=280)


def main():
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            if want and not any(w in s['id'] for w in want):
                continue
            d = os.path.join(HERE, 'seeded', s['id'])
            work = '/tmp/seedwork/' + s['id']
            if os.path.isdir(work):
                shutil.rmtree(work)
            os.makedirs(work)
            subprocess.run('git -C /repo archive HEAD gsapi | tar x -C %s' % work, shell=True, check=True)
            for side in 'ab':
                os.makedirs(work + '/' + side)
                shutil.copytree(work + '/gsapi', work + '/' + side + '/gsapi')
            bad = None
            for name, old, new in s['edits']:
                p = work + '/b/gsapi/' + name
                t = open(p, encoding='utf-8').read()
                if t.count(old) != 1:
                    bad = 'text occurs %d times in %s: %r' % (t.count(old), name, old[:60])
                    break
                open(p, 'w', encoding='utf-8').write(t.replace(old, new))
            if bad:
                print(s['id'], 'BAD', bad, flush=True)
                continue
            diff = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=work, capture_output=True, text=True).stdout
            out = '\n'.join(l for l in diff.split('\n') if not l.startswith('diff -ru') and not l.startswith('Only in'))
            import re
            out = re.sub(r'^(---|\+\+\+) (\S+)\t.*$', r'\1 \2', out, flags=re.M)
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w', encoding='utf-8').write(out)
            open(d + '/demo.sh', 'w').write(SH)
            open(d + '/demo.py', 'w', encoding='utf-8').write(PRELUDE + s['demo'].strip('\n') + '\n' + END)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            ra, rb = run(d, work + '/a'), run(d, work + '/b')
            ok = ra.returncode == 0 and rb.returncode != 0
            ap = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
            print(s['id'], 'ok' if ok and ap.returncode == 0 else 'FAIL', '' if ok else (ra.returncode, ra.stdout[-300:], ra.stderr[-600:], rb.returncode), ap.stderr[:200],
                  (rb.stdout.strip().split('\n') or [''])[-1] or rb.stderr.strip().split('\n')[-1], flush=True)
            if not ok:
                shutil.rmtree(d)
            shutil.rmtree(work)


if __name__ == '__main__':
    main()
