"""Files: SlangFiles.tla says what a history of file operations answers and leaves behind (F01)."""
import os
import shutil
import struct
import tempfile

from cases import ask
from common import CheckError, parallel, slang

CFG = "CONSTANTS Absent = Absent Closed = Closed\nINVARIANT TypeOK\nPROPERTIES Keeps AppendKeeps ReadBack PutBack\n"
MODES = {"r": "ReadOnly", "w": "WriteOnly", "a": "Append", "r+": "ReadUpdate", "w+": "WriteUpdate", "a+": "AppendUpdate"}
FORMATS = {"b": "<?", "i": "<i", "f": "<f", "d": "<d"}
NAMES = {"b": "Bool", "i": "Int", "f": "Float", "d": "Double"}
# scripts run as a user that owns nothing, in directories of its own
NOBODY = {"user": 65534, "group": 65534, "extra_groups": []} if os.getuid() == 0 else {}


def op(name, h=0, f="f", g="g", n=0, w="set", bytes=(), mode="r", t="", v=None):
    return {"op": name, "h": h, "f": f, "g": g, "n": n, "w": w, "bytes": list(bytes), "mode": mode, "t": t, "v": v}


def text(h, s):
    return op("text", h, bytes=s.encode(), v=s)


def value(h, t, v):
    return op("value", h, bytes=struct.pack(FORMATS[t], v), t=t, v=v)


def get(h, t):
    return op("get", h, n=struct.calcsize(FORMATS[t]), t=t)


def literal(t, v):
    return {"b": str(v).lower(), "i": str(v), "f": "%sf" % v, "d": "%sd" % v}[t]


def shown(t, raw):
    """text of a value, or None if the bytes are none that the check writes as such"""
    v = struct.unpack(FORMATS[t], raw)[0]
    if t == "b":
        return None if raw[0] > 1 else str(int(v))
    if t == "i":
        return str(v)
    if v != v or abs(v) > 1e6 or (v and abs(v) < 1e-3):
        return None
    return ("%f" % v).rstrip("0").rstrip(".")


def native(o):
    h = "h%d" % o["h"]
    k = o["op"]
    p = 'print("" + %s);'
    if k == "open" and o["f"].startswith("tmp"):
        return '%s = tmpfile(); print("" + (%s != 0));' % (h, h)
    if k == "open":
        return '%s = fopen("%s", "%s"); print("" + (%s != 0));' % (h, o["f"], o["mode"], h)
    if k == "text":
        return 'print("" + (fwrites(%s, "%s") >= 0));' % (h, o["v"]) if o["n"] == 0 else 'print("" + (fputs("%s", %s) >= 0));' % (o["v"], h)
    if k == "value":
        return p % ("fwrite%s(%s, %s)" % (o["t"], h, literal(o["t"], o["v"])))
    if k == "get":
        return p % ("fread%s(%s)" % (o["t"], h))
    if k == "exists":
        return p % ('System.IO.File.Exists("%s")' % o["f"])
    call = {"close": "fclose(%s)" % h, "char": "fputc(%d, %s)" % (o["bytes"][0] if o["bytes"] else 0, h), "flush": "fflush(%s)" % h,
            "all": "freads(%s, -1)" % h, "read": "freads(%s, %d)" % (h, o["n"]), "code": "fgetc(%s)" % h, "line": "fgets(%s, %d)" % (h, o["n"]),
            "seek": "fseek(%s, %d, SEEK_%s)" % (h, o["n"], o["w"].upper()), "tell": "ftell(%s)" % h, "eof": "(feof(%s) != 0)" % h,
            "unget": "ungetc(%d, %s)" % (o["n"], h), "failed": "(ferror(%s) != 0)" % h, "remove": 'remove("%s")' % o["f"], "rename": 'rename("%s", "%s")' % (o["f"], o["g"])}
    if k == "clear":
        return 'clearerr(%s); print("0");' % h
    if k == "rewind":
        return 'rewind(%s); print("0");' % h
    return p % call[k]


def objects(o):
    h = "h%d" % o["h"]
    k = o["op"]
    p = 'print("" + %s);'
    if k == "open":
        mode = "System.IO.File.AccessMode.%s" % MODES[o["mode"]] if o["n"] else '"%s"' % o["mode"]
        return 'try { print("" + %s.open("%s", %s)); } catch { print("!"); }' % (h, o["f"], mode)
    if k == "text":
        return p % ('%s.write("%s")' % (h, o["v"]))
    if k == "value":
        return p % ("%s.write(%s)" % (h, literal(o["t"], o["v"])))
    if k == "get":
        return p % ("%s.read%s()" % (h, NAMES[o["t"]]))
    if k == "exists":
        return p % ('System.IO.File.Exists("%s")' % o["f"])
    call = {"close": "(%s.close() ? 0 : 1)" % h, "read": "%s.read%s" % (h, "Char()" if o["n"] == 1 else "String(%d)" % o["n"]), "all": "%s.readString(-1)" % h,
            "seek": "(%s.seek(%d) ? 0 : 1)" % (h, o["n"]), "rewind": "(%s.rewind() ? 0 : 1)" % h, "eof": "%s.isEOF()" % h,
            "size": "%s.getSize()" % h, "isopen": "%s.isOpen()" % h}
    return p % call[k]


def program(case):
    obj = case["api"] == "object"
    lines = ["import System.IO.File;", "public int Main(int argc, string args) modify throws {"]
    for h in range(3):
        lines.append("\tSystem.IO.File h%d = new System.IO.File();" % h if obj else "\tint h%d = 0;" % h)
    for n, o in enumerate(case["ops"]):
        lines.append('\tprint("#%d"); %s' % (n, (objects if obj else native)(o)))
    return "\n".join(lines) + "\n\treturn 0;\n}\n"


def fits(case, o, want, got):
    """whether the printed text is the answer"""
    obj = case["api"] == "object"
    if want[0] == "any":
        return True
    if want[0] == "is":
        return got == str(want[1])
    if want[0] == "!":
        return got == "!"
    if want[0] in ("ok", "refused"):
        return got == ("1" if want[0] == "ok" else "0")
    raw = bytes(want[1])
    if o["op"] == "get":
        s = shown(o["t"], raw)
        return s is None or got == s
    if any(b not in (10,) and not 32 <= b < 127 for b in raw):
        return True
    return got == raw.decode()


def check(chk, cases, label):
    send = [{"api": c["api"], "ops": [{x: o[x] for x in ("op", "h", "f", "g", "n", "w", "bytes", "mode")} for o in c["ops"]]} for c in cases]
    t = ask(chk, "SlangFiles", send, CFG)
    want = {k - 1: (log, disk, used) for k, log, disk, used in t.tuples("FILES")}
    if len(want) != len(cases):
        raise CheckError("answers missing: %d of %d" % (len(want), len(cases)))

    def one(n):
        log = want[n][0]
        case = dict(cases[n], ops=cases[n]["ops"][:len(log)])
        d = tempfile.mkdtemp(prefix="files.")
        try:
            os.chmod(d, 0o777)
            script = os.path.join(d, "main.os")
            with open(script, "w") as f:
                f.write(program(case))
            os.chmod(script, 0o644)
            work = os.path.join(d, "work")
            os.mkdir(work)
            os.chmod(work, 0o777)
            r = slang([script], cwd=work, timeout=20, **NOBODY)
            left = {}
            for name in ("f", "g"):
                p = os.path.join(work, name)
                left[name] = list(open(p, "rb").read()) if os.path.exists(p) else [-1]
            extra = sorted(set(os.listdir(work)) - {"f", "g"})
        finally:
            shutil.rmtree(d)
        return r, left, extra

    for n, (r, left, extra) in enumerate(parallel(one, range(len(cases)))):
        log, disk, used = want[n]
        case = dict(cases[n], ops=cases[n]["ops"][:len(log)])
        chk.traces += 1
        bad = None
        parts = {}
        text_ = r.out
        for m in range(len(log)):
            tag = "#%d\n" % m
            i = text_.find(tag)
            if i < 0:
                break
            j = text_.find("#%d\n" % (m + 1), i)
            parts[m] = text_[i + len(tag):j if j >= 0 else None]
        ended = bool(log) and log[-1][0] == "error"
        for m, w in enumerate(log):
            got = parts.get(m)
            if w[0] == "error":
                if r.code != 255:
                    bad = "operation %d (%s) on a file that is not open is answered %r, the program ends with %s" % (m, case["ops"][m]["op"], got, r.code)
                break
            if got is None or not got.endswith("\n") or not fits(case, case["ops"][m], w, got[:-1]):
                bad = "operation %d (%s) is answered %r, the specification says %r" % (m, case["ops"][m]["op"], got, w)
                break
        if not bad and not ended and r.code != 0:
            bad = "the program ends with status %s %s" % (r.code, r.err[-100:])
        if not bad:
            for name in ("f", "g"):
                if not used[name] and left[name] != disk[name]:
                    bad = "%s holds %s afterwards, the specification says %s" % (name, bytes(x % 256 for x in left[name]), bytes(x % 256 for x in disk[name]))
        if not bad and extra:
            bad = "files %s are left behind" % extra
        if bad:
            ops = " ".join("%s(%s)" % (o["op"], ",".join(str(x) for x in (o["h"], o["f"], o["mode"], o["n"], o["w"], o["v"]))) for o in case["ops"])
            chk.violation("%s:%s" % (label, case["api"]), "%s, %s: %s: %s" % (label, case["api"], ops[-300:], bad), {"main.os": program(case)})
    chk.sample({"part": label, "histories": len(cases), "operations": sum(len(want[n][0]) for n in want), "complete": sum(len(want[n][0]) == len(cases[n]["ops"]) for n in want)})
