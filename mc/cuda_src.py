"""Mirror of the library's sources in which kernel launches K<<<cfg>>>(args) are calls of the emulated GPU
(mc/cuemu.h), so that an ordinary C++ compiler takes the CUDA files.  Nothing else is changed."""
import os, re

def _match(s, i, op, cl):
    """index after the bracket closing s[i]"""
    d = 0
    while i < len(s):
        c = s[i]
        if c in '"\'':
            j = i + 1
            while j < len(s) and s[j] != c: j += 2 if s[j] == "\\" else 1
            i = j
        elif c == op: d += 1
        elif c == cl:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return -1

def _kernel_start(s, e):
    """where the kernel expression that ends at e starts: a name, qualified, perhaps with template arguments"""
    i = e
    def space(i):
        while i > 0 and (s[i - 1].isspace() or (s[i - 1] == "\\" and s[i:i + 1] in ("\n", "\r"))): i -= 1
        return i
    while True:
        i = space(i)
        if i and s[i - 1] == ">":
            d = 0
            while i > 0:
                c = s[i - 1]
                if c == ">": d += 1
                elif c == "<": d -= 1
                elif c in ";{}" : return -1
                i -= 1
                if d == 0: break
            i = space(i)
        elif i and s[i - 1] == ")":      # a parenthesised pointer
            d = 0
            while i > 0:
                c = s[i - 1]
                d += (c == ")") - (c == "(")
                i -= 1
                if d == 0: return i
        j = i
        while j > 0 and (s[j - 1].isalnum() or s[j - 1] == "_"): j -= 1
        if j == i: return -1
        i = j
        k = space(i)
        if k >= 2 and s[k - 2:k] == "::":
            i = k - 2
            k = space(i)
            if k and (s[k - 1].isalnum() or s[k - 1] in "_>"): continue
            return i
        # `template` in a dependent name
        m = re.search(r"\btemplate\s*$", s[max(0, i - 20):i])
        if m: i = max(0, i - 20) + m.start(); continue
        return i

def translate(s):
    at = 0
    while True:
        p = s.find("<<<", at)
        if p < 0: return s
        line = s.rfind("\n", 0, p) + 1
        if "//" in s[line:p]: at = p + 3; continue
        q = s.find(">>>", p)
        b = _kernel_start(s, p)
        if q < 0 or b < 0: at = p + 3; continue
        # nested templates may end the configuration with more brackets: the last of a run
        while s[q + 3:q + 4] == ">": q += 1
        a = q + 3
        while a < len(s) and (s[a].isspace() or s[a] == "\\"): a += 1
        if s[a:a + 1] != "(": at = p + 3; continue
        end = _match(s, a, "(", ")")
        if end < 0: at = p + 3; continue
        flat = lambda t: " ".join(t.replace("\\\n", " ").split())
        kern, cfg, args = flat(s[b:p]), flat(s[p + 3:q]), flat(s[a + 1:end - 1])
        nl = s[b:end].count("\n")
        cont = "\\\n" if "\\\n" in s[b:end] else "\n"
        new = "::cuemu::launch(::cuemu::Cfg(%s), [=](auto&... a_) { (%s)(a_...); }%s)" % (cfg, kern, ", " + args if args else "") + cont * nl
        if args == "__VA_ARGS__": new = new.replace(", __VA_ARGS__", ", ##__VA_ARGS__")
        s = s[:b] + new + s[end:]
        at = b + len(new)

def put(path, text):
    try:
        if open(path, encoding="utf-8", errors="surrogateescape").read() == text: return
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f: f.write(text)

def mirror(repo, out):
    """returns (plain sources, device sources)"""
    plain, dev, keep = [], [], set()
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            ext = os.path.splitext(f)[1]
            if ext not in (".h", ".hpp", ".cuh", ".cpp", ".cc", ".cu", ".inl", ".inc"): continue
            p = os.path.join(d, f)
            r = os.path.relpath(p, repo)
            t = open(p, encoding="utf-8", errors="surrogateescape").read()
            o = os.path.join(out, r)
            if ext == ".cu": o += ".cpp"
            if ext != ".cpp" and "<<<" in t: t = translate(t)
            # CUDA's front end takes a member template of a dependent type without the keyword
            if ext in (".cuh", ".cu"): t = re.sub(r"(->|\.)([A-Za-z_]\w*<[\w:, *]+>\()", r"\1template \2", t)
            put(o, t)
            keep.add(o)
            if "/Distributed" in d: continue
            if ext == ".cu": dev.append(o)
            elif ext == ".cpp": plain.append(o)
    for d, _, fs in os.walk(os.path.join(out, "src")):
        for f in fs:
            if os.path.join(d, f) not in keep: os.unlink(os.path.join(d, f))
    return sorted(plain), sorted(dev)

if __name__ == "__main__":
    import sys
    print(mirror(sys.argv[1], sys.argv[2]))
