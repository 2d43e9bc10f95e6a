"""Makes `hypothesis` importable for the interpreter calliope is installed in.

The repository's virtual environment has no hypothesis; the wheels committed in
/verif/vendor are unpacked (pure extraction, no network, no pip) into a private folder.
"""
import os
import pathlib
import sys
import tempfile
import zipfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEPS = ROOT / ".deps"


def ensure():
    if not (DEPS / "hypothesis" / "__init__.py").exists():
        tmp = pathlib.Path(tempfile.mkdtemp(prefix=".deps-", dir=ROOT))
        for wheel in sorted((ROOT / "vendor").glob("*.whl")):
            with zipfile.ZipFile(wheel) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:  # another process was faster
            import shutil

            shutil.rmtree(tmp, ignore_errors=True)
    if str(DEPS) not in sys.path:
        sys.path.append(str(DEPS))
    if str(ROOT) not in sys.path:
        sys.path.insert(0, str(ROOT))


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__)
