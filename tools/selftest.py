"""setup: parse every specification, so that a broken tool chain is noticed early."""
import os, subprocess, sys, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = os.path.join(root, 'spec')
J = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
for f in sorted(glob.glob(os.path.join(spec, '*.tla'))):
    r = subprocess.run(['java', '-cp', J, 'tla2sany.SANY', os.path.basename(f)], cwd=spec,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or 'rror' in r.stdout.replace('Semantic errors:', 'rror') and 'Semantic processing' not in r.stdout:
        print(f, r.stdout[-800:])
        bad = 1
sys.exit(bad)
