"""Install mc/cc.sh as the C compiler of this process and its children."""
import os
from .core import VERIF


def install(c):
    d = c.dir('cc-bin')
    for n in ('cc', 'gcc', 'x86_64-linux-gnu-gcc', 'c99'):
        if not os.path.exists(os.path.join(d, n)):
            os.symlink(os.path.join(VERIF, 'mc', 'cc.sh'), os.path.join(d, n))
    os.environ['PATH'] = d + ':' + os.environ['PATH']
    os.environ['MC_CC_CACHE'] = c.dir('cc-cache')
