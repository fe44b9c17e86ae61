"""setup_cmd: parse all modules of the specification once (fails early if the
tool chain is not usable).  Checks are self-contained and need no build."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(V, 'spec', '*.tla')))
p = subprocess.run(['java', '-cp', J, 'tla2sany.SANY'] + mods, cwd=os.path.join(V, 'spec'),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode or '*** Errors' in p.stdout:
    print(p.stdout)
    sys.exit(1)
print('parsed %d modules' % len(mods))
