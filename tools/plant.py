"""Create and confirm planted bugs.  plant.py new <id> <spec.py> | plant.py try <id> [--no-qa] [checks...]

new: spec.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exits nonzero on the bug)
try: in a scratch copy of /repo, apply, run the demo (must fail), the QA scripts (must pass) and the checks; undo; run the demo (must pass)
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

V = '/verif/seeded'
R = ''      # the scratch copy of /repo in use

PRE = '#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD" TQDM_DISABLE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def new(i, spec):
    s = runpy.run_path(spec)
    d = f'{V}/{i}'
    os.makedirs(d, exist_ok=True)
    for f, old, new_ in s['EDITS']:
        p = f'{R}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new_))
    diff = sh(f'git -C {R} diff').stdout
    sh(f'git -C {R} checkout -- .')
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(PRE)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.py', 'w').write(s['DEMO'].lstrip())
    json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
    # lines the patch removes must be original lines
    added = set(l[1:].strip() for l in sh('git -C /repo diff ' + sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip() + ' HEAD -- meent').stdout.splitlines() if l.startswith('+'))
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() in added:
            print('WARNING: touches a line of a fix commit:', l)


def attempt(i, args):
    d = f'{V}/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    checks = [a for a in args if not a.startswith('-')] or [prop]
    r = sh(f'git -C {R} apply {d}/patch.diff')
    if r.returncode:
        print(i, 'does not apply', r.stderr)
        return
    try:
        dem = sh(f'bash {d}/demo.sh', cwd=R)
        qa = 'skipped'
        if '--no-qa' not in args:
            ps = []
            w = tempfile.mkdtemp()
            for f in ('QA/1d_pattern_in_1dc_and_2d.py', 'QA/autodiff_raster1.py', 'QA/autodiff_raster2.py', 'QA/autodiff_vector.py', 'QA/fourier_analysis_methods.py',
                      'examples/vector_1d_verification.py', 'examples/vector_2d_verification.py'):
                ps.append((f, subprocess.Popen(f'. /opt/vp/env.sh; export PYTHONPATH={R}; cd {w}; timeout 700 /opt/venv/bin/python {R}/{f}', shell=True, executable='/bin/bash', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            qa = [f for f, p in ps if p.wait() != 0]
        res = []
        for c in checks:
            x = sh(f'. /opt/vp/env.sh; export MEENT_REPO={R}; /opt/venv/bin/python /verif/run.py {c}', executable='/bin/bash')
            lines = [l for l in x.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  [')]
            res.append((c, x.returncode, lines[0][:160] if lines else x.stdout.splitlines()[-1][:160] if x.stdout else x.stderr[-200:]))
    finally:
        sh(f'git -C {R} checkout -- .')
    ok = sh(f'bash {d}/demo.sh', cwd=R)
    print(i, prop, 'demo patched', dem.returncode, (dem.stdout + dem.stderr).strip()[-120:].replace('\n', ' '), '| clean', ok.returncode, (ok.stderr[-200:] if ok.returncode else ''), '| QA failing:', qa)
    for r in res:
        print('   ', r, flush=True)


R = tempfile.mkdtemp(prefix='plant.') + '/repo'
sh(f'cp -a /repo {R}')
try:
    if sys.argv[1] == 'new':
        new(sys.argv[2], sys.argv[3])
    else:
        attempt(sys.argv[2], sys.argv[3:])
finally:
    shutil.rmtree(os.path.dirname(R))
