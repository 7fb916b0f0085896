"""Run an engine on a tiny in-memory package, so that a rule whose expected
count on the tree is zero is seen to fire on every run."""

from __future__ import annotations

import tempfile
from pathlib import Path

from . import project as P


def project_from(files: dict[str, str]) -> P.Project:
    tmp = tempfile.TemporaryDirectory(prefix="kpstatic_")
    root = Path(tmp.name)
    pkg = root / "src" / P.PKG
    pkg.mkdir(parents=True)
    if "__init__.py" not in files:
        files = {"__init__.py": "", **files}
    for name, text in files.items():
        p = pkg / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
    old = P.REPO
    P.REPO = root
    try:
        proj = P.Project(root / "src")
        # touch relative paths while REPO points at the scratch package
        for m in proj.modules.values():
            m.__dict__["_rel"] = m.relpath
    finally:
        P.REPO = old
        tmp.cleanup()
    return proj
