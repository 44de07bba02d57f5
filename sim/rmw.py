#!/usr/bin/env python3
"""rmw.py IN.ll OUT.ll: a call to sim_rmw(address, size) before every atomic
read-modify-write, which the compiler's own load and store callbacks leave out."""
import re, sys

SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "ptr": 8}
FORM = re.compile(r"^(\s+)(?:%\S+ = )?(?:atomicrmw(?: volatile)? \w+|cmpxchg(?: weak)?(?: volatile)?) ptr (.*)$")


def operand(rest):
    """The text up to the first comma outside brackets, and the type after it."""
    depth = 0
    quoted = False
    for i, c in enumerate(rest):
        if c == '"':
            quoted = not quoted
        elif quoted:
            pass
        elif c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        elif c == "," and depth == 0:
            return rest[:i], rest[i + 1 :].split()[0]
    raise SystemExit("rmw.py: cannot read " + rest)


def main():
    done = 0
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            m = FORM.match(line)
            if m:
                p, ty = operand(m.group(2))
                g.write("%scall void @sim_rmw(ptr %s, i64 %d)\n" % (m.group(1), p, SIZE.get(ty, 8)))
                done += 1
            g.write(line)
        if done:
            g.write("\ndeclare void @sim_rmw(ptr, i64) nounwind\n")
    print(done)


main()
