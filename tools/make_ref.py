"""Write /verif/ref: the reviewed reference form of the analysed sources.

Every module of the package (without tests) is copied.
"""
import sys
from pathlib import Path

SRC = Path(sys.argv[1] if len(sys.argv) > 1 else "/repo") / "src"
OUT = Path(__file__).resolve().parent.parent / "ref" / "src"


def main():
    for p in sorted((SRC / "cwl_utils").rglob("*.py")):
        rel = p.relative_to(SRC)
        if "tests" in rel.parts or "testdata" in rel.parts:
            continue
        text = p.read_text()
        q = OUT / rel
        q.parent.mkdir(parents=True, exist_ok=True)
        q.write_text(text)


main()
