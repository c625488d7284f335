"""Texts and their tokens: SlangLexer.tla says which tokens a text consists of; slang has to find the same ones (X01)."""
import os
import re

from cases import ask
from common import CheckError, parallel, slang

CFG = "INVARIANT Plain\nINVARIANT Quiet\nINVARIANT Decided\n"
_TOKEN = re.compile(r'\{ Category: \d+\tType: \d+, \tContent: "(.*?)" \}\n', re.S)


def lex(chk, texts, split=list):
    """for every text (state, tokens)"""
    t = ask(chk, "SlangLexer", [split(x) for x in texts], CFG)
    res = [None] * len(texts)
    for k, st, toks in t.tuples("LEX"):
        res[k - 1] = (st, toks)
    if any(r is None for r in res):
        raise CheckError("no tokens for some text")
    return res


def numbers(toks):
    """The words of a number are one token without its type letter; None if a number has no valid form."""
    res = []
    i = 0
    while i < len(toks):
        kind, text = toks[i]
        word = lambda j: toks[j][1] if j < len(toks) and toks[j][0] == "word" else ""
        if kind == "word" and text.isdigit():
            if i + 1 < len(toks) and toks[i + 1] == ["punct", "."]:
                if re.fullmatch(r"\d*[df]", word(i + 2)):
                    res.append(text + "." + word(i + 2)[:-1])
                    i += 3
                    continue
                if word(i + 2):
                    return None
            if word(i + 1) and not word(i + 1).isdigit():
                return None             # two words without meaning
            res.append(text)
        elif kind == "word" and re.fullmatch(r"\d+[dfi]", text):
            if i + 1 < len(toks) and toks[i + 1] == ["punct", "."] or word(i + 1):
                return None
            res.append(text[:-1])
        elif kind == "word" and text == "operator":
            return None                 # joined with the next token
        else:
            res.append(text)
        i += 1
    return res


def tokens_of(path):
    r = slang(["--tokens", path])
    toks = _TOKEN.findall(r.out)
    return r, toks


def check_tokens(chk, texts, label):
    """slang --tokens lists the tokens of the specification"""
    todo = list(zip(texts, lex(chk, texts)))

    def one(j):
        text, (st, toks) = todo[j]
        want = numbers(toks)
        if want is None:
            return "open"
        path = os.path.join(chk.scratch, "t%d.os" % j)
        with open(path, "w", newline="") as f:
            f.write(text)
        r, got = tokens_of(path)
        os.remove(path)
        if st == "error":
            ok = r.code > 0 and "[ERROR]" in r.out + r.err
        else:
            ok = r.code >= 0 and got == want + [""]
        if ok:
            return None
        return ("tokens/%r" % text, "%s: text %r consists of %s; slang: %s %s" % (label, text, "an error" if st == "error" else want, got, r.err.strip()[:80]), {"text.os": text, "output.txt": r.out + r.err})

    for x in parallel(one, range(len(todo))):
        if x == "open":
            chk.extra["open"] = chk.extra.get("open", 0) + 1
        elif x:
            chk.violation(*x)
        else:
            chk.traces += 1
    if todo:
        chk.sample({"text": todo[len(todo) // 2][0], "tokens": todo[len(todo) // 2][1]})


def words(text):
    """letters and digits in a row are read in one step, they are all treated alike"""
    return re.findall(r"[A-Za-z0-9_]+|.", text, re.S)


def check_layouts(chk, progs, variants, label):
    """variants: (index of a program, text); texts with the same tokens behave the same"""
    base = lex(chk, progs, words)
    got = lex(chk, [t for _, t in variants], words)

    def run(text, name):
        path = os.path.join(chk.scratch, name)
        with open(path, "w", newline="") as f:
            f.write(text)
        r = slang([path])
        os.remove(path)
        return r.code, r.out

    want = parallel(lambda i: run(progs[i], "p%d.os" % i), range(len(progs)))
    for i, (c, o) in enumerate(want):
        if c not in (0, 7) or "end" not in o:
            raise CheckError("program %d does not run: %s %s" % (i, c, o[:300]))

    def one(j):
        i, text = variants[j]
        if got[j] != base[i]:
            raise CheckError("layout changes the tokens according to the specification: %r" % text[:200])
        r = run(text, "v%d.os" % j)
        if r == want[i]:
            return None
        return ("layout/%d" % j, "%s: program %d written with another layout: exit status %s, output %r instead of %s, %r" % (label, i, r[0], r[1][:120], want[i][0], want[i][1][:120]), {"program.os": text, "plain.os": progs[i], "output.txt": r[1]})

    for x in parallel(one, range(len(variants))):
        if x:
            chk.violation(*x)
        else:
            chk.traces += 1
