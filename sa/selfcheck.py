"""Set-up: nothing to build; checks that the framework can read both programs."""
import os
from .prog import Program, REPO
from .runner import SPEC, HERE

if __name__ == '__main__':
    for d in ('evidence', 'replay'):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    a, b = Program(SPEC), Program(REPO)
    print('reference: %d functions, code: %d functions' % (len(a.functions()), len(b.functions())))
