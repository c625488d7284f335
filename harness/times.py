"""Points of time: SlangTime.tla says what strftime writes and strptime reads (T01)."""
import os
import time

from cases import ask
from common import CheckError, parallel, slang
from lang import quote

CFG = "INVARIANT Calendar\nINVARIANT RoundTrip\nINVARIANT IsoWeeks\n"
BATCH = 150


def zone(tz, name, off, dname="", doff=0, s=(1, 1, 0), e=(1, 1, 0)):
    """start and end of summer time: month, number of the Sunday, second of the day"""
    return {"tz": tz, "name": name, "off": off, "dname": dname, "doff": doff, "sm": s[0], "sn": s[1], "ss": s[2], "em": e[0], "en": e[1], "es": e[2]}


ZONES = [
    zone("UTC0", "UTC", 0),
    zone("IST-5:30", "IST", 19800),
    zone("MST7", "MST", -25200),
    zone("CET-1CEST,M3.5.0,M10.5.0/3", "CET", 3600, "CEST", 7200, (3, 5, 7200), (10, 5, 10800)),
    zone("EST5EDT,M3.2.0,M11.1.0", "EST", -18000, "EDT", -14400, (3, 2, 7200), (11, 1, 7200)),
    zone("AEST-10AEDT,M10.1.0,M4.1.0/3", "AEST", 36000, "AEDT", 39600, (10, 1, 7200), (4, 1, 10800)),
]


def source(f):
    return "".join("%" + i["d"] if "d" in i else i["l"] for i in f)


def program(qs):
    s = "public int Main(int argc, string args) {\n"
    for m, q in enumerate(qs):
        if q["k"] == "write":
            s += "\tprint(\"#%d [\" + strftime(%s, %d) + \"]\");\n" % (m, quote(source(q["f"])), q["t"])
        else:
            s += "\tprint(\"#%d [\" + strptime(%s, %s) + \"]\");\n" % (m, quote(source(q["f"])), quote(q["text"]))
    return s + "\treturn 0;\n}\n"


NOW = """public int Main(int argc, string args) {
	int a = time();
	int b = strptime("%Y-%m-%d %H:%M:%S", strftime("%Y-%m-%d %H:%M:%S"));
	int c = time();
	print("" + a);
	print("" + b);
	print("" + c);
	return 0;
}
"""


def execute(chk, qs, z, name):
    path = os.path.join(chk.scratch, name)
    with open(path, "w") as f:
        f.write(program(qs))
    r = slang([path], env={"TZ": z["tz"]})
    os.remove(path)
    lines = set(r.lines())
    return r, ["#%d [%s]" % (m, q["want"]) in lines for m, q in enumerate(qs)]


def check(chk, calls, label):
    t = ask(chk, "SlangTime", calls, CFG)
    want = {k - 1: v for k, v in t.tuples("TIME")}
    if len(want) != len(calls):
        raise CheckError("no answer for %d of %d calls" % (len(calls) - len(want), len(calls)))
    told = {}
    for n, q in enumerate(calls):
        if q["k"] == "read":
            q["text"] = want[n][0]
            if not want[n][1]:
                continue
            q["want"] = want[n][1][0]
        else:
            q["want"] = want[n][0]
        told.setdefault(q["z"]["tz"], []).append(q)
    batches = [(qs[0]["z"], qs[i:i + BATCH]) for qs in told.values() for i in range(0, len(qs), BATCH)]
    runs = parallel(lambda i: execute(chk, batches[i][1], batches[i][0], "t%d.os" % i), range(len(batches)))
    for (z, qs), (r, ok) in zip(batches, runs):
        chk.traces += len(qs)
        bad = [q for q, o in zip(qs, ok) if not o][:30]
        for q, (r1, ok1) in zip(bad, parallel(lambda q: execute(chk, [q], z, "t_%d.os" % id(q)), bad)):
            if ok1[0]:
                continue
            what = "strftime(%r, %d)" % (source(q["f"]), q["t"]) if q["k"] == "write" else "strptime(%r, %r)" % (source(q["f"]), q["text"])
            chk.violation("%s:%s" % (z["tz"], what), "%s: %s in zone %s, the specification says %r (status %s: %s)" % (
                label, what, z["tz"], q["want"], r1.code, (r1.out + r1.err)[-200:]),
                {"main.os": program([q]), "zone.txt": z["tz"] + "\n", "expected.txt": "#0 [%s]\n" % q["want"]})
    chk.sample({"part": label, "calls": len(calls), "specified": sum(map(len, told.values()))})


def check_now(chk):
    """the current time lies between the times observed before and after"""
    def one(z):
        path = os.path.join(chk.scratch, "now%d.os" % ZONES.index(z))
        with open(path, "w") as f:
            f.write(NOW)
        a = int(time.time())
        r = slang([path], env={"TZ": z["tz"]})
        b = int(time.time())
        try:
            return r, [a] + [int(l) for l in r.lines()] + [b]
        except ValueError:
            return r, []
    runs = parallel(one, ZONES)
    t = ask(chk, "SlangTime", [{"k": "now", "s": s} for _, s in runs], CFG)
    good = {k - 1: v[0] for k, v in t.tuples("TIME")}
    for i, (r, s) in enumerate(runs):
        chk.traces += 1
        # the second may be one that the clock shows twice
        twice = len(s) == 5 and ZONES[i]["dname"] and abs(s[2] - s[1]) in (3599, 3600, 3601)
        if (len(s) != 5 or not good.get(i)) and not twice:
            chk.violation("now:" + ZONES[i]["tz"], "the current time in zone %s: before, time(), strptime(strftime()), time(), after: %s (status %s: %s)" % (
                ZONES[i]["tz"], s, r.code, (r.out + r.err)[-200:]), {"main.os": NOW, "zone.txt": ZONES[i]["tz"] + "\n"})
