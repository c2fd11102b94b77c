"""Import hook: modules under the repository's source directory are always compiled from their source text.

Cached bytecode is validated by time stamp and size only, so a file edited twice within one clock tick could otherwise be run from a stale cache.
"""

import os
import sys
from importlib.machinery import FileFinder, SourceFileLoader


class _FreshLoader(SourceFileLoader):
    def path_stats(self, path):
        raise OSError("bytecode cache is not used")


def install(src_dir: str):
    src_dir = os.path.realpath(src_dir)

    def hook(path):
        real = os.path.realpath(path)
        if real == src_dir or real.startswith(src_dir + os.sep):
            return FileFinder(path, (_FreshLoader, [".py"]))
        raise ImportError

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    if src_dir in sys.path:
        sys.path.remove(src_dir)
    sys.path.insert(0, src_dir)
