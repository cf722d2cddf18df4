#!/usr/bin/env python3
"""Writes sim/src/layouts.rs: records with many different field layouts (fixed seed)."""
import random
R = random.Random(20240)
out = ["// Generated by tools/mklayouts.py: records with assorted field layouts.\n"]
names = []
def ty(bits):
    c = []
    for t, n in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)):
        if bits <= n:
            c.append(t)
    for t, n in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64)):
        if 2 <= bits <= n:
            c.append(t)
    if bits == 1:
        c += ["bool"] * 3
    return R.choice(c)
def emit(name, fields):
    size = (max(o + b for (_, o, b) in fields) + 7) // 8
    fs = []
    for i, (t, o, b) in enumerate(fields):
        fs.append("    (f%d, set_f%d, %s, %d, %d)" % (i, i, t, o, b))
    out.append('rec_struct!(%s, Ref%s, RefMut%s, "struct %s", %d,\n%s);\n' % (name, name, name, name, size, ",\n".join(fs)))
    names.append(name)
# fixed ones: a field spanning nine bytes at and behind the first byte
emit("L0", [("u8", 0, 1), ("u64", 1, 64), ("u8", 65, 7)])
emit("L1", [("u16", 0, 15), ("u64", 15, 60), ("i32", 75, 29), ("u64", 104, 64)])
emit("L2", [("u64", 0, 64), ("u64", 64 + 4, 64), ("i64", 132, 63)])
for k in range(3, 20):
    fields, off = [], R.choice([0, 0, 1, 3, 8, 13])
    for _ in range(R.randint(1, 7)):
        b = R.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 57, 58, 59, 60, 61, 62, 63, 64, R.randint(1, 64), R.randint(1, 64)])
        fields.append((ty(b), off, b))
        off += b + R.choice([0, 0, 0, 0, 1, 5, 11])
    if R.random() < .3:
        # declaration order differs from the order in memory
        R.shuffle(fields)
    emit("L%d" % k, fields)
out.append('sim_archive!(Lay, LayBuilder, "archive Lay { layouts; }";')
out.append(",\n".join('    (s%d, set_s%d, %s, "s%d : %s", true)' % (i, i, n, i, n) for i, n in enumerate(names) if i % 4 == 0) + ";")
out.append(",\n".join('    (v%d, set_v%d, start_v%d, %s, "v%d : vector< %s >", true)' % (i, i, i, n, i, n) for i, n in enumerate(names)) + ";")
out.append('    (m0, start_m0, LV, "m0 : multivector", m0_index, Idx33, true);')
out.append("    ;\n);\n")
out.append("rec_variant!(LV, RefLV, BuilderLV, Idx33, " + ", ".join("%d => (%s, add_%d_)" % (3 * i + 1, n, i) if False else "%d => (%s, add_%s)" % (3 * i + 1, n, n.lower()) for i, n in enumerate(names)) + ");\n")

# every width at every bit offset, unsigned and signed, in the narrowest type and in a wider one
combos = []
for b in range(1, 65):
    for o in range(8):
        for sign in "ui":
            if sign == "i" and b == 1:
                continue
            fit = [n for n in (8, 16, 32, 64) if b <= n]
            combos.append((o, b, "%s%d" % (sign, fit[0])))
            if len(fit) > 1 and R.random() < .15:
                combos.append((o, b, "%s%d" % (sign, R.choice(fit[1:]))))
        if b == 1:
            combos += [(o, 1, "bool")] * 2
R.shuffle(combos)
wide = []
while combos:
    off, fields = R.randrange(8), []
    while combos and len(fields) < 48:
        # the next field follows at once where one fits there
        k = next((k for k, c in enumerate(combos) if c[0] == off % 8), None)
        if k is None or R.random() < .1:
            k = 0
        o, b, t = combos.pop(k)
        off += (o - off) % 8
        fields.append((t, off, b))
        off += b
    if R.random() < .3:
        R.shuffle(fields)
    wide.append("W%d" % len(wide))
    emit(wide[-1], fields)
out.append('sim_archive!(Every, EveryBuilder, "archive Every { layouts; }";')
out.append(",\n".join('    (s%d, set_s%d, %s, "s%d : %s", true)' % (i, i, n, i, n) for i, n in enumerate(wide) if i % 4 == 0) + ";")
out.append(",\n".join('    (v%d, set_v%d, start_v%d, %s, "v%d : vector< %s >", true)' % (i, i, i, n, i, n) for i, n in enumerate(wide)) + ";")
out.append("    ;\n    ;\n);\n")
open("/verif/sim/src/layouts.rs", "w").write("\n".join(out))
