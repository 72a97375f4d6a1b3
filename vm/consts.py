"""Integer constants of the code under test: a dictionary for the size generators."""
import ast
import functools
import glob
import os

REPO = os.environ.get("VM_REPO", "/repo")


@functools.lru_cache(None)
def ints():
    out = set()
    for f in glob.glob(os.path.join(REPO, "impurityModel", "**", "*.py"), recursive=True):
        if os.sep + "test" + os.sep in f:
            continue
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) is int and 1 < node.value < 5000:
                out.add(node.value)
    return tuple(sorted(out))
