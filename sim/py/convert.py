"""convert.py SRC DST: Python 3 copies of the parts of the project's Python 2 code that the simulator runs (lib2to3, nothing else changed)."""
import os, sys, warnings
warnings.simplefilter("ignore")
from lib2to3.refactor import RefactoringTool, get_fixers_from_package

src, dst = sys.argv[1:]
tool = RefactoringTool(get_fixers_from_package("lib2to3.fixes"))
bad = 0
for part in ("maputils", "utils"):
    os.makedirs(os.path.join(dst, part), exist_ok=True)
    for f in sorted(os.listdir(os.path.join(src, part))):
        if not f.endswith(".py"):
            continue
        raw = open(os.path.join(src, part, f), "rb").read()
        try:
            text = raw.decode("utf-8")
        except UnicodeDecodeError:
            text = raw.decode("latin-1")
        text = text.replace("\r\n", "\n")
        if text and not text.endswith("\n"):
            text += "\n"
        try:
            out = str(tool.refactor_string(text, f))
            compile(out, f, "exec")
        except Exception as e:
            print("%s: %s" % (f, e)); bad = 1
            continue
        open(os.path.join(dst, part, f), "w", encoding="utf-8").write(out)
sys.exit(bad)
