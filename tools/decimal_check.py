"""Compares shim/decimal.hh with Python's decimal module (the C library jogasaki uses) over all pairs of boundary values."""
import decimal, subprocess, sys, itertools, os
D = decimal.Decimal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exe = "/tmp/decimal_check.bin"
subprocess.check_call(["g++", "-std=c++17", "-O1", "-I" + V + "/shim", V + "/tools/decimal_check.cpp", "-o", exe])
vals = ["0", "-0", "1", "-1", "2", "3", "5", "7", "9", "10", "15", "25", "0.1", "0.5", "1.5", "-2.5", "0.05", "0.25", "1.000", "1E+3", "1E-3", "123456789", "9" * 38, "1" + "0" * 37, "5" * 38,
        "9" * 39, "1" * 45, "-" + "9" * 38 + "E+24539", "1E+24576", "9.99E+24576", "1E-24575", "1E-24612", "1E-24613", "3E-24600", "1E+100", "1E-100", "0E+5", "0E-5", "0E+24576", "0E-24700", "Infinity", "-Infinity", "NaN", "170141183460469231731687303715884105727", "340282366920938463463374607431768211455", "4.5E-38", "1E-40", "0.33333333333333333333333333333333333333", "12345678901234567890.5", "-12345678901234567891.5"]
R = [decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_05UP]
lines, want = [], []
for r, rn in enumerate(R):
    ctx = decimal.Context(prec=38, Emin=1 - 24576, Emax=24576, clamp=1, rounding=rn, traps=[])
    for op, a, b in itertools.chain(((o, a, b) for o in ("add", "sub", "mul", "div", "rem", "cmp", "qua") for a in vals for b in vals), ((o, a, "0") for o in ("neg", "plus", "red", "int") for a in vals), (("scb", a, b) for a in vals for b in ("0", "1", "-1", "38", "-38", "24576", "-24576", "1.5"))):
        x, y = D(a), D(b); ctx.clear_flags()
        if op == "add": o = ctx.add(x, y)
        elif op == "sub": o = ctx.subtract(x, y)
        elif op == "mul": o = ctx.multiply(x, y)
        elif op == "div": o = ctx.divide(x, y)
        elif op == "rem": o = ctx.remainder(x, y)
        elif op == "neg": o = ctx.minus(x)
        elif op == "plus": o = ctx.plus(x)
        elif op == "red": o = ctx.normalize(x)
        elif op == "int": o = ctx.to_integral_exact(x)
        elif op == "scb": o = ctx.scaleb(x, y)
        elif op == "qua": o = ctx.quantize(x, y)
        elif op == "cmp": c = ctx.compare(x, y); o = "2" if c.is_nan() else str(c)
        f = ctx.flags
        inv = f[decimal.InvalidOperation]
        want.append("%s %s" % (o, ("I" if f[decimal.Inexact] else "") + ("V" if inv else "") + ("Z" if f[decimal.DivisionByZero] else "") + ("O" if f[decimal.Overflow] else "")))
        lines.append("%s %s %s %d" % (op, a, b, r))
got = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True).stdout.split("\n")
bad = [(l, w, g) for l, w, g in zip(lines, want, got) if w != g]
print(len(lines), "operations,", len(bad), "differ")
for b in bad[:40]: print(*b, sep="   |   ")
sys.exit(bool(bad))
