"""valseed.py ID...: in a scratch copy of /repo confirm that a planted bug builds, passes the stable tests and that its demo
fails with it and passes without it"""
import json, os, subprocess, sys
B = json.load(open('/opt/vp/BASELINE.json'))
stable = set(B['stable'])


def main():
    for i in sys.argv[1:]:
        W = '/tmp/val_' + i
        subprocess.run(['rm', '-rf', W])
        subprocess.run(['cp', '-a', os.environ.get('SEED_FROM', '/repo'), W], check=True)
        env = dict(os.environ)
        vp = '/tmp/valvp_' + i
        subprocess.run(['rm', '-rf', vp]); subprocess.run(['cp', '-a', '/opt/vp', vp], check=True)
        for f in os.listdir(vp):
            p = vp + '/' + f
            if os.path.isfile(p):
                t = open(p, errors='surrogateescape').read()
                if '/repo' in t or '/opt/vp' in t:
                    open(p, 'w', errors='surrogateescape').write(t.replace('/repo', W).replace('/opt/vp', vp))
        r = subprocess.run('git apply /verif/seeded/%s/patch.diff && bash %s/build.sh' % (i, vp), shell=True, cwd=W, capture_output=True, text=True)
        if r.returncode:
            print(i, 'BUILD FAILS', r.stderr[-500:]); continue
        a = subprocess.run(['bash', '/verif/seeded/%s/demo.sh' % i], cwd=W, capture_output=True, text=True)
        b = subprocess.run(['bash', '/verif/seeded/%s/demo.sh' % i], cwd=os.environ.get('SEED_FROM', '/repo'), capture_output=True, text=True)
        r = subprocess.run(['bash', vp + '/test.sh', vp + '/out.json'], cwd=W, capture_output=True, text=True)
        o = json.load(open(vp + '/out.json'))
        bad = stable - set(o['passed'])
        print(i, 'demo with patch rc=%d (%s) without rc=%d' % (a.returncode, (a.stdout + a.stderr)[-80:].replace('\n', ' '), b.returncode), 'tests broken: %d %s' % (len(bad), sorted(bad)[:2]), flush=True)
        subprocess.run(['rm', '-rf', W, vp])


main()
