"""The English (Porter2) stemmer of Snowball 2.2, written from its published description."""
V = set("aeiouy")
DOUBLES = {"bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt"}
LI = set("cdeghkmnrt")
EXC1 = dict(skis="ski", skies="sky", dying="die", lying="lie", tying="tie", idly="idl", gently="gentl", ugly="ugli", early="earli", only="onli",
            singly="singl", sky="sky", news="news", howe="howe", atlas="atlas", cosmos="cosmos", bias="bias", andes="andes")
EXC2 = {"inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed"}
STEP2 = dict(tional="tion", enci="ence", anci="ance", abli="able", entli="ent", izer="ize", ization="ize", ational="ate", ation="ate", ator="ate",
             alism="al", aliti="al", alli="al", fulness="ful", ousli="ous", ousness="ous", iveness="ive", iviti="ive", biliti="ble", bli="ble",
             fulli="ful", lessli="less", ogi="og", li="")
STEP3 = dict(tional="tion", ational="ate", alize="al", icate="ic", iciti="ic", ical="ic", ful="", ness="", ative="")
STEP4 = ["al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion"]


def region(w, start):
    i = start
    while i < len(w) and w[i] not in V:
        i += 1
    while i < len(w) and w[i] in V:
        i += 1
    return min(i + 1, len(w))


def ends_short(w):
    if len(w) >= 3 and w[-1] not in V and w[-1] not in "wxY" and w[-2] in V and w[-3] not in V:
        return True
    return len(w) == 2 and w[0] in V and w[1] not in V


def longest(w, suffixes):
    return max((s for s in suffixes if w.endswith(s)), key=len, default=None)


def stem(w):
    if w in EXC1:
        return EXC1[w]
    if len(w) <= 2:
        return w
    if w[0] == "'":
        w = w[1:]
    c = list(w)
    for i, x in enumerate(c):
        if x == "y" and (i == 0 or c[i - 1] in V):
            c[i] = "Y"
    w = "".join(c)
    r1 = next((len(p) for p in ("gener", "commun", "arsen") if w.startswith(p)), None)
    r1 = region(w, 0) if r1 is None else r1
    r2 = region(w, r1)
    # 0
    s = longest(w, ("'", "'s", "'s'"))
    w = w[:len(w) - len(s)] if s else w
    # 1a
    s = longest(w, ("sses", "ied", "ies", "s", "us", "ss"))
    if s == "sses":
        w = w[:-2]
    elif s in ("ied", "ies"):
        w = w[:-2] if len(w) > 4 else w[:-1]
    elif s == "s" and any(x in V for x in w[:-2]):
        w = w[:-1]
    if w in EXC2:
        return w
    # 1b
    s = longest(w, ("eed", "eedly", "ed", "edly", "ing", "ingly"))
    if s in ("eed", "eedly"):
        if len(w) - len(s) >= r1:
            w = w[:-len(s)] + "ee"
    elif s and any(x in V for x in w[:-len(s)]):
        w = w[:-len(s)]
        if w.endswith(("at", "bl", "iz")):
            w += "e"
        elif w[-2:] in DOUBLES:
            w = w[:-1]
        elif ends_short(w) and len(w) <= r1:
            w += "e"
    # 1c
    if len(w) > 2 and w[-1] in "yY" and w[-2] not in V:
        w = w[:-1] + "i"
    # 2
    s = longest(w, STEP2)
    if s and len(w) - len(s) >= r1:
        if s == "ogi":
            if w[:-3].endswith("l"):
                w = w[:-1]
        elif s == "li":
            if w[:-2] and w[-3] in LI:
                w = w[:-2]
        else:
            w = w[:-len(s)] + STEP2[s]
    # 3
    s = longest(w, STEP3)
    if s and len(w) - len(s) >= r1:
        if s != "ative" or len(w) - len(s) >= r2:
            w = w[:-len(s)] + STEP3[s]
    # 4
    s = longest(w, STEP4)
    if s and len(w) - len(s) >= r2:
        if s != "ion" or w[:-3].endswith(("s", "t")):
            w = w[:-len(s)]
    # 5
    if w.endswith("e"):
        if len(w) - 1 >= r2 or (len(w) - 1 >= r1 and not ends_short(w[:-1])):
            w = w[:-1]
    elif w.endswith("ll") and len(w) - 1 >= r2:
        w = w[:-1]
    return w.replace("Y", "y")
