"""The Unix adapter's sources, compiled for Linux with stub Windows/Cygwin headers."""
from common import *

UFLAGS = ['--target=x86_64-linux-gnu', '-std=c++11', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w',
          '-fno-strict-aliasing', '-fno-threadsafe-statics', '-fstandalone-debug', '-D__declspec(x)=', '-I' + os.path.join(VERIF, 'irv', 'unixstubs'), '-I' + os.path.join(REPO, 'src/include')]


def unix(name):
    TUS['unix:' + name] = (os.path.join(REPO, 'src/unix-adapter', name), UFLAGS)
    return 'unix:' + name
