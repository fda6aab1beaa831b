"""Byte strings that no slicer writes: mutated programs, garbage, extreme numbers, long lines."""
import random
import gen, profiles

CMDS = ["G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G29", "G80", "G90", "G91", "G92", "M82", "M83", "M104", "M105", "M106", "M109", "M114", "M116", "M117", "M140", "M141", "M190", "M191", "M204",
        "M205", "M207", "M208", "M218", "M240", "M290", "M400", "M563", "T0", "T1", "T2", "T7", "T8", "T31", "T", "T?", "Tx", "TC", "@OCTOLAPSE", "@OCTOLAPSE TAKE-SNAPSHOT", "@pause", "G", "M", "G1.5", "G92.1", "N12 G1", "G01", "G001", "g1", "m82", "%", "O1000", "EXCLUDE_OBJECT_START NAME=a"]
LETTERS = "XYZEFIJRPSQTABCDHKLNOUVW"

def number(r):
    c = r.random()
    if c < 0.35: return "%.*f" % (r.randint(0, 8), r.uniform(-300, 300))
    if c < 0.45: return str(r.choice([0, 1, -1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**63, 2**64, 10**18, 10**25, 10**60]))
    if c < 0.5: return "9" * r.randint(1, 400)
    if c < 0.55: return "0." + "0" * r.randint(0, 330) + "1"
    if c < 0.6: return "1." + "3" * r.randint(1, 600)
    if c < 0.63: return "-" * r.randint(1, 3) + "1"
    if c < 0.66: return r.choice([".", "-", "+", "-.", "+.", "1.", ".5", "-.5", "1.2.3", "1e5", "nan", "inf", "0x10", "1,5", "- 5", "+ 5", "1 2", "1 . 5"])
    if c < 0.7: return "%.*f" % (r.randint(0, 3), r.uniform(-1, 1) * 10 ** r.randint(0, 40))
    if c < 0.74: return "-0" + r.choice(["", ".0", ".000"])
    if c < 0.76: return ""
    return "%.3f" % r.uniform(-5, 5)

def word_line(r):
    c = r.choice(CMDS)
    s = c + r.choice([" ", "", "  ", "\t"])
    for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5, 12])):
        l = r.choice(LETTERS if r.random() < 0.4 else "XYZEF")
        s += (l.lower() if r.random() < 0.1 else l) + number(r) + r.choice([" ", " ", " ", "", "\t", "*"])
    c = r.random()
    if c < 0.2: s += ";" + "".join(chr(r.randint(1, 255)) for _ in range(r.choice([0, 1, 5, 80]))).replace("\n", "")
    if c < 0.02: s += "x" * r.choice([1000, 20000, 200000])
    if c > 0.99: s = s.replace(" ", " " * r.randint(100, 5000))
    return s

def garbage(r):
    k = r.random()
    if k < 0.3: return bytes(r.randint(0, 255) for _ in range(r.randint(0, 600)))
    if k < 0.6: return "".join(r.choice("GMTXYZEFIJ0123456789.-+ ;\r\n\t@:*") for _ in range(r.randint(0, 1500))).encode("latin-1")
    return "\n".join(word_line(r) for _ in range(r.randint(0, 80))).encode("latin-1", "replace")

def mutate(r, data):
    b = bytearray(data)
    for _ in range(r.choice([1, 2, 4, 10, 40])):
        if not b: break
        k = r.random(); p = r.randrange(len(b))
        if k < 0.25: b[p] = r.randint(0, 255)
        elif k < 0.4: b[p] = ord(r.choice("0123456789.-GXYEFZ;\n \r"))
        elif k < 0.5: del b[p:p + r.choice([1, 1, 3, 20])]
        elif k < 0.6:
            q = r.randrange(len(b)); n = r.choice([5, 30, 200]); b[p:p] = b[q:q + n]
        elif k < 0.75: b[p:p] = number(r).encode("latin-1")
        else:
            q = b.find(b"\n", p)
            if q >= 0: b[q:q] = b"\n" + word_line(r).encode("latin-1", "replace")
    if r.random() < 0.1: del b[r.randrange(len(b) + 1):]
    return bytes(b)

def scaled(r):
    """regular arcs at magnitudes from nanometres to light years"""
    import math
    R = 10.0 ** r.uniform(-9, 30); d = r.choice([0, 3, 6, 9, 12]); n = r.randint(3, 60); cx, cy = [R * r.uniform(-1, 1) * 10 ** r.uniform(-3, 6) for _ in "xy"]
    out = ["G90", r.choice(["M82", "M83"]), "G1 X%.*f Y%.*f F%s" % (d, cx + R, d, cy, number(r) if r.random() < 0.2 else "1800")]
    e = 0.0
    for i in range(1, n):
        a = i * 2 * math.pi / n * r.choice([1, 1, 1, 0.5]); e += R * r.choice([1e-3, 1, 1e6])
        out.append("G1 X%.*f Y%.*f E%.*f" % (d, cx + R * math.cos(a), d, cy + R * math.sin(a), r.choice([3, 5, 9]), e))
    return "\n".join(out).encode()

def case(r):
    """-> (bytes, options, extra)"""
    from checks import cli
    k = r.random()
    c = None
    if k < 0.45:
        c = profiles.general(r); data = mutate(r, c.data)
    elif k < 0.8: data = garbage(r)
    elif k < 0.92: data = scaled(r)
    else: data = mutate(r, scaled(r))
    if r.random() < 0.05: data = r.choice([b";FLAVOR:UltiGCode\n", b"; generated by PrusaSlicer 2.4\r\n"]) + data
    o = cli.wide_opts(r) if r.random() < 0.5 else (c.opts if c else gen.gen_opts(r))
    return data, o, {"buf": r.choice([50, 50, 2, 3, 5, 7, 200])}
