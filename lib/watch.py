"""File-system monitor: audit-hook log of write attempts plus content snapshots of folders."""
import hashlib
import os
import sys
from contextlib import contextmanager
from pathlib import Path

_log = None
_hooked = False
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    if _log is None:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, (str, bytes, os.PathLike)) and ((isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & _WRITE)):
                _log.append(("open", os.path.abspath(os.fsdecode(path))))
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.utime"):
            p = args[0]
            if isinstance(p, (str, bytes, os.PathLike)):
                _log.append((event, os.path.abspath(os.fsdecode(p))))
        elif event in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
            if event in ("os.rename", "shutil.move"):
                _log.append((event, os.path.abspath(os.fsdecode(args[0]))))
            _log.append((event, os.path.abspath(os.fsdecode(args[1]))))
        elif event == "shutil.rmtree":
            _log.append((event, os.path.abspath(os.fsdecode(args[0]))))
    except Exception:
        pass


@contextmanager
def writes():
    """yields the list of (operation, absolute path) attempted in this process meanwhile"""
    global _log, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    _log, out = [], None
    out = _log
    try:
        yield out
    finally:
        _log = None


def snapshot(*roots, skip=()):
    """{path: digest} of all files (and folders) below the roots"""
    r = {}
    for root in roots:
        root = Path(root)
        if not root.exists():
            continue
        for p in sorted([root] + list(root.rglob("*"))):
            if any(s in p.parts for s in skip):
                continue
            r[str(p)] = "dir" if p.is_dir() else hashlib.sha1(p.read_bytes()).hexdigest()
    return r


def diff(a, b):
    return {"changed": sorted(k for k in a if k in b and a[k] != b[k]), "removed": sorted(k for k in a if k not in b), "added": sorted(k for k in b if k not in a)}
