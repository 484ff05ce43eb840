"""Which checks catch which planted bug:  python3 tools/runseeds.py [PART] [--all]
(works on scratch copies; by default only the check of the bug's property)"""
import json
import os
import shutil
import subprocess
import sys
import io
import contextlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SCRATCH = '/tmp/gsapi_seeds'


def main():
    part = [a for a in sys.argv[1:] if not a.startswith('-')]
    every = '--all' in sys.argv
    man = json.load(open(HERE + '/MANIFEST.json'))
    props = [c.get('property_id') or c.get('property') or c.get('id') for c in man['checks']]
    for sid in sorted(os.listdir(HERE + '/seeded')):
        if part and not any(p in sid for p in part):
            continue
        meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, sid)))
        d = SCRATCH + '/' + sid
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD gsapi | tar x -C %s && patch -s -p1 -d %s < %s/seeded/%s/patch.diff' % (d, d, HERE, sid), shell=True, check=True)
        out = []
        for p in (props if every else [meta['property']]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                from sa import prog
                prog.REPO = d
                from sa import runner, check, passes
                runner.REPO = d
                check.write_evidence = lambda *a: None
                check.HERE = d
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    try:
                        rc = check.main([p])
                    except Exception as x:
                        rc = repr(x)
                os.write(w, json.dumps([rc, buf.getvalue()[:60000]]).encode())
                os._exit(0)
            os.close(w)
            data = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.waitpid(pid, 0)
            rc, text = json.loads(data)
            if rc:
                line = [l for l in text.split('\n') if l.strip()]
                out.append('%s:%s %s' % (p, rc, line[0][:230] if line and not every else ''))
        print('%-42s %s' % (sid, ('CAUGHT ' if any(o.startswith(meta['property'] + ':1') for o in out) else 'MISSED ') + ' | '.join(out)), flush=True)
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
