"""Records which lines of the code under test the checks reach (development aid).

VF_COV=DIR makes every process of a check add to a file of its own in DIR;
python3 tools/cov.py DIR [FILE...] then lists what was not reached.
"""

import ast
import os
import sys


def install(where, root):
    os.makedirs(where, exist_ok=True)
    out = open(os.path.join(where, f"{os.getpid()}.txt"), "a", buffering=1)
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "vf")

    def line(code, n):
        if code.co_filename.startswith(root):
            out.write(f"{code.co_filename[len(root) + 1:]}:{n}\n")
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def main():
    where, root = sys.argv[1], os.environ.get("VF_REPO", "/repo")
    hit = set()
    for f in os.listdir(where):
        with open(os.path.join(where, f)) as fh:
            hit.update(fh.read().split())
    files = sys.argv[2:] or sorted({h.split(":")[0] for h in hit})
    for name in files:
        src = open(os.path.join(root, name)).read()
        lines = src.split("\n")
        want = {}
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(node):
                    if isinstance(x, ast.stmt) and x is not node and not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue
                        want[x.lineno] = node.name
        miss = [n for n in sorted(want) if f"{name}:{n}" not in hit]
        print(f"== {name}: {len(want) - len(miss)} of {len(want)} statements")
        for n in miss:
            print(f"   {n:5d} {want[n]:25s} {lines[n - 1].strip()[:110]}")


if __name__ == "__main__":
    main()
