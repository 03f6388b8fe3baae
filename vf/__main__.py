import sys

from . import build, core

cmd = sys.argv[1]
if cmd == 'run':
    # run ID [TIER [SEED]]
    sys.exit(core.run(*sys.argv[2:5]))
elif cmd == 'replay':
    sys.exit(core.replay(sys.argv[2]))
elif cmd == 'setup':
    for v in ('plain', 'asan', 'tsan'):
        build.build(v)
    build.build_perturb()
