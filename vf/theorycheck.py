"""The axioms that contracts see are lemmas: every module whose comment says '(* ... proved from: A, B *)' is turned
into goals, with only the definitional modules and the named lemma modules in scope."""
import re, os
from .prove import THEORY, dump_file


def lemma_modules():
    """(file, module) of every module of the theory that has obligations, with the text to check"""
    out = []
    for fn in sorted(os.listdir(THEORY)):
        if not fn.endswith(".mlw") or fn == "cft.mlw":
            continue
        txt = open(os.path.join(THEORY, fn)).read()
        parts = re.split(r"^(?=module )", txt, flags=re.M)
        pend = ""
        for p in parts:
            m = re.match(r"module (\w+)", p)
            if m:
                pub = re.search(r"proved from: ([\w., ]+)\*\)", pend)
                out.append((fn, m.group(1), p[:p.rindex("\nend") + 4], pub.group(1).split(",") if pub else None))
            pend = p[p.rindex("\nend") + 4:] if "\nend" in p else p
    return out


def theory_text():
    """(name, text) of one Why3 file per theory module with obligations"""
    res = []
    mods = {}
    for fn, m, t, pub in lemma_modules():
        mods.setdefault(fn[:-4], set()).add(m)
    for fn, m, t, pub in lemma_modules():
        if pub is None and not re.search(r"\b(lemma|goal|let)\b", t):
            continue
        body = t
        name = "th_%s_%s" % (fn[:-4], m)
        body = re.sub(r"^module \w+", "module M_" + name, body)
        # references to modules of the same file
        body = re.sub(r"^(\s*use (?:export )?)(\w+)\s*$", lambda k: k.group(1) + (fn[:-4] + "." + k.group(2)
                      if k.group(2) in mods[fn[:-4]] else k.group(2)), body, flags=re.M)
        if pub is not None:
            body = re.sub(r"\baxiom\b", "lemma", body)
            uses = "".join("  use %s\n" % (u.strip() if "." in u else fn[:-4] + "." + u.strip()) for u in pub)
            i = body.index("\n") + 1
            body = body[:i] + uses + body[i:]
        res.append((name, body))
    return res


def definitional_axioms():
    out = []
    for fn, m, t, pub in lemma_modules():
        if pub is None:
            out += ["%s.%s.%s" % (fn[:-4], m, x) for x in re.findall(r"\baxiom (\w+)", t)]
    return out
