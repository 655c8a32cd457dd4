import sys
def sub(path, *pairs):
    s = open(path).read()
    for a, b in pairs:
        if a not in s:
            print("MISSING in", path, repr(a)[:80]); sys.exit(1)
        s = s.replace(a, b)
    open(path, "w").write(s)
