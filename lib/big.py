"""Files above 2 and 4 GiB: mostly holes, so that they take no space and little time, with a command after every hole."""
import math, os

HOLE = 1 << 18

def sparse(path, mib, every=1):
    """-> (size, lines, commands): M83, a move, then lines of 256 KiB of zeros each followed by a command, then a quarter circle of 40 moves"""
    lines = cmds = 0
    with open(path, "wb") as f:
        f.write(b"M83\nG1 X0 Y0 Z0.2 F1800\n"); lines += 2; cmds += 2
        for k in range(mib * 4):
            f.seek(HOLE - 1, 1); f.write(b"\nM105\n"); lines += 2; cmds += 1
        for k in range(1, 41):
            a = math.pi / 2 * k / 40
            f.write(b"G1 X%.3f Y%.3f E0.03\n" % (20 * math.sin(a), 20 - 20 * math.cos(a))); lines += 1; cmds += 1
    return os.path.getsize(path), lines, cmds

def judge(reports, size, lines, cmds, bad, least=4):
    """reports: [(percent, seconds elapsed, remaining, position, source size, lines, commands)] in order"""
    last = -1
    if len(reports) < least: bad("reports", "only %d reports during %d lines" % (len(reports), lines))
    for k, (pct, el, rem, pos, ssz, ln, gc) in enumerate(reports):
        if ssz != size: bad("size", "report %d states a source of %d bytes, it has %d" % (k, ssz, size)); return
        if not last <= pos <= size: bad("position", "report %d is at byte %d of %d, after %d" % (k, pos, size, last)); return
        if not abs(pct - 100.0 * pos / size) < 1e-6: bad("percent", "report %d states %r percent at byte %d of %d" % (k, pct, pos, size)); return
        if not (el >= 0 and rem >= 0): bad("time", "report %d: %r s elapsed, %r s remain" % (k, el, rem)); return
        # two lines take HOLE + 5 bytes
        want = ln / 2.0 * (HOLE + 5)
        if k + 1 < len(reports) and abs(pos - want) > 12 * HOLE: bad("position", "report %d after line %d is at byte %d, not near %d" % (k, ln, pos, want)); return
        last = pos
    if reports:
        pct, el, rem, pos, ssz, ln, gc = reports[-1]
        if (pos, ln, gc) != (size, lines, cmds): bad("last", "the last report is at byte %d, line %d, command %d, not %d, %d, %d" % (pos, ln, gc, size, lines, cmds))
