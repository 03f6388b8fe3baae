"""Stand-ins for the two native modules, for checks of pure Python code."""
import sys
import types


def install():
    io = types.ModuleType('stempy._io')
    for name in ('_reader', '_sector_reader', '_pyreader', '_threaded_reader',
                 '_threaded_multi_pass_reader'):
        setattr(io, name, type(name, (), {}))
    sys.modules['stempy._io'] = io
    sys.modules['stempy._image'] = types.ModuleType('stempy._image')
