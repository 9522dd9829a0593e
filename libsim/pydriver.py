# Executes the operations of one session on the real extension module; prints what each returned.
import sys
from _frozen_importlib_external import ExtensionFileLoader
from _frozen_importlib import ModuleSpec
import _imp

so, plan = sys.argv[1], sys.argv[2]
spec = ModuleSpec("poppy", ExtensionFileLoader("poppy", so), origin=so)
poppy = _imp.create_dynamic(spec)
_imp.exec_dynamic(poppy)
import posix

out = []
regs = {}
blobs = {}


def content(name):
    # the bytes of a file, past the simulated interface
    try:
        with open("/proc/self/root" + posix.getcwd() + "/" + name, "rb") as f:
            return f.read().hex()
    except OSError:
        return "none"


def mark():
    try:
        posix.unlink("mark")
    except OSError:
        pass


def entries(how, hexes):
    for h in hexes.split(","):
        b = bytes.fromhex(h)
        yield b.decode() if how == "s" else b


def result(a):
    try:
        return "ok " + run(a)
    except BaseException as e:
        kind = "exc" if isinstance(e, Exception) else "panic"
        return kind + " " + type(e).__name__ + " " + str(e).replace("\n", " ")


# called when the module has given other threads a chance to run
def chance():
    global points, during
    points += 1
    if during and points >= int(during[0]):
        a, during = during[1:], None
        out.append("mid " + result(a))


def run(a):
    op = a[0]
    if op == "new":
        regs[a[1]] = poppy.BloomFilter(int(a[2]), float(a[3]))
    elif op == "newv":
        regs[a[1]] = poppy.BloomFilter.with_version(int(a[2]), int(a[3]), float(a[4]))
    elif op == "newp":
        regs[a[1]] = poppy.BloomFilter.with_params(int(a[2]), int(a[3]), float(a[4]), int(a[5]))
    elif op == "loads":
        b = blobs.get(a[2], b"")
        if a[3] != "-":
            b = b[: len(b) * int(a[3]) // 65536]
        if a[4] != "-" and b:
            at = int(a[4]) % (8 * len(b))
            if 200 <= at < 256:
                at = 192 + at % 8
            b = bytearray(b)
            b[at // 8] ^= 1 << at % 8
            b = bytes(b)
        regs[a[1]] = poppy.loads(b)
    elif op == "load":
        pre = content(a[2])
        out.append("pre " + pre)
        regs[a[1]] = poppy.load(a[2])
    else:
        f = regs.get(a[1])
        if f is None:
            return "absent"
        if op == "ins":
            g = f.insert_str if a[2] == "s" else f.insert_bytes
            r = ""
            for e in entries(a[2], a[3]):
                try:
                    r += "1" if g(e) is True else "0"
                except Exception:
                    r += "E"
            return r
        if op == "has":
            g = f.contains_str if a[2] == "s" else f.contains_bytes
            return "".join("1" if g(e) is True else "0" for e in entries(a[2], a[3]))
        if op == "info":
            return "%d %d %r %d %d %s" % (
                f.version,
                f.capacity,
                f.fpp,
                f.count_estimate,
                f.is_full(),
                bytes(f.data).hex() or "-",
            )
        if op == "merge":
            o = regs.get(a[2])
            if o is None or o is f:
                return "absent"
            f.union_merge(o)
        elif op == "common":
            o = regs.get(a[2])
            if o is None:
                return "absent"
            return str(f.count_common_entries(o))
        elif op == "dumps":
            b = f.dumps()
            blobs[a[2]] = b
            return b.hex()
        elif op == "save":
            f.save(a[2])
            return content(a[2])
    return "-"


n = 0
during = None
with open(plan) as p:
    lines = p.read().split("\n")
for line in lines:
    if not line:
        continue
    a = line.split(" ")
    points = 0
    mark()
    if a[0] == "during":
        during = a[1:]
        out.append("ok -")
    else:
        out.append(result(a))
        during = None
    n += 1
mark()
sys.stdout.write("\n".join(out) + "\nend %d\n" % n)
sys.stdout.flush()
