"""Extract functions of /repo mechanically, put contracts on them and let Verus discharge the obligations.

A module is a file verus/NAME.rs: Verus text (specifications, lemmas, contracts of what lies outside) with blocks

  //@fn FILE QUALIFIED [as NAME]      the function, e.g. `lib.rs const_eq`, `queue/byte_queue.rs ByteQueue::slice`,
                                      `queue/byte_queue.rs <ByteQueue as PartialEq>::eq`
  //@prop P06                         the properties the contract belongs to (default: those of the module)
  //@attr #[..]                       attribute for Verus
  //@trusted MODULE                   (put there by `//@uses MODULE`) contract only: the body is proved in MODULE
                                      (`//@uses MODULE in NAME`: the same, in an inner module NAME)
  //@drop NAME                        leave out the nested function NAME (it is extracted as `outer/NAME`);
                                      `struct NAME`, `impl NAME`: the nested type and its methods
  //@guard NAME METHOD                 the local NAME (declared at the top of the body, never moved) is dropped where the body is left: METHOD is called there
  //@ret r                            name of the result in the contract
  //@sig FROM => TO                   rewriting of the signature
  //@sub FROM => TO                   rewriting of the body (token text, every occurrence)
  //@eq METHOD                         `a == b` and `a != b` in the body are METHOD(&a, &b), as the language says for values that are no numbers
  //@opt FROM => TO                   the same, for text that is not there now
  //@refuse COND                      what the function may refuse by a panic (default: nothing): `panic!`, `assert!` and
                                      `unwrap_or_else(|| panic!(..))` left in the body have this as their precondition
  //@spec                             lines up to the next directive: requires/ensures
  //@loop N KIND                      lines up to the next directive: invariant/decreases of the N-th loop
  //@iter N NAME                    write the N-th loop, a `for PAT in E {..}`, as `let mut NAME = E; loop { let Some(PAT) = NAME.next() else { break; }; ..}`
  //@at start | end | loop N before | loop N start | loop N end | loop N after
                                      lines up to the next directive: proof text put there
  //@at tail                          the same, behind the expression the body ends with (its value is `v_tail`)
  //@end

The extracted text is the function's own text: its signature loses attributes, visibility, `const` and
`unsafe`; its body loses comments; everything else that changes is a rewriting listed in the evidence.
"""
import json, os, re, subprocess, time

REPO = os.environ.get("VERIF_REPO", "/repo")
STRICT = False  # while contracts are written: a rewriting that finds nothing is an error


class Lost(Exception):
    pass


def mask(s):
    """Blank comments and the inside of string and char literals, keeping positions."""
    out = list(s)
    i, n = 0, len(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"':
            j = i + 1
            raw = re.search(r"\br(#*)$|\bbr(#*)$", s[max(0, i - 6):i])
            if raw:
                h = raw.group(1) or raw.group(2) or ""
                j = s.index('"' + h, i + 1)
                blank(i + 1, j)
                i = j + 1 + len(h)
            else:
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                blank(i + 1, j)
                i = j + 1
        elif c == "'":
            m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", s[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(m, i):
    """Position of the bracket closing the one at i."""
    pair = {"{": "}", "(": ")", "[": "]"}
    st = []
    for k in range(i, len(m)):
        if m[k] in pair:
            st.append(pair[m[k]])
        elif m[k] in ")]}":
            if not st or st.pop() != m[k]:
                raise Lost("unbalanced brackets")
            if not st:
                return k
    raise Lost("unbalanced brackets")


def strip_comments(s):
    m = mask(s)
    out, i = [], 0
    # drop what is blank in the mask and not inside a literal
    k = 0
    res = []
    while k < len(s):
        if s.startswith("//", k) and m[k] == " ":
            while k < len(s) and s[k] != "\n":
                k += 1
        elif s.startswith("/*", k) and m[k] == " ":
            d, k = 1, k + 2
            while k < len(s) and d:
                if s.startswith("/*", k):
                    d, k = d + 1, k + 2
                elif s.startswith("*/", k):
                    d, k = d - 1, k + 2
                else:
                    k += 1
        elif s[k] == '"':
            j = k + 1
            while m[j] != '"':
                j += 1
            res.append(s[k:j + 1])
            k = j + 1
        else:
            res.append(s[k])
            k += 1
    return "".join(res)


def strip_attrs(s):
    m = mask(s)
    out, i = [], 0
    while i < len(s):
        if m[i] == "#" and re.match(r"#!?\[", m[i:]):
            i = close(m, m.index("[", i)) + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


FEATURES = {"core_io_borrowed_buf", "alloc", "std", "chunk", "queue", "macros", "bytes_1", "nom_7", "http-body_04", "http-body_1", "serde_1", "interning"}


def cfg_true(e):
    e = e.strip()
    m = re.match(r"(all|any|not)\s*\((.*)\)$", e, re.S)
    if m:
        parts, d, cur = [], 0, ""
        for ch in m.group(2):
            if ch == "," and d == 0:
                parts.append(cur)
                cur = ""
                continue
            d += ch == "("
            d -= ch == ")"
            cur += ch
        if cur.strip():
            parts.append(cur)
        v = [cfg_true(p) for p in parts]
        return {"all": all(v), "any": any(v), "not": not v[0] if v else True}[m.group(1)]
    m = re.match(r'feature\s*=\s*"(.*)"$', e)
    if m:
        return m.group(1) in FEATURES
    if e in ("test", "bytedata_verif", "docsrs", "kani", "debug_assertions", "miri"):
        return False
    raise Lost("cfg " + e)


def item_end(m, i):
    """End of the statement or item starting at i: `;` at depth 0, or the block that ends it."""
    while i < len(m):
        if m[i] in "([":
            i = close(m, i)
        elif m[i] == "{":
            i = close(m, i)
            rest = re.match(r"\s*(else\b|;|\.|\?)", m[i + 1:])
            if not rest:
                return i + 1
            if rest.group(1) == ";":
                return i + 1 + rest.end()
        elif m[i] == ";" or m[i] == ",":
            return i + 1
        elif m[i] == "}":
            return i
        i += 1
    return i


def resolve_cfg(s):
    """Apply #[cfg(..)] attributes inside a body; other attributes go."""
    while True:
        m = mask(s)
        a = re.search(r"#\[cfg\s*\(", m)
        if not a:
            return s
        e = close(m, m.index("[", a.start()))
        inner = s[m.index("(", a.start()) + 1:close(m, m.index("(", a.start()))]
        if cfg_true(inner):
            s = s[:a.start()] + s[e + 1:]
        else:
            j = e + 1
            # further attributes of the same item
            while True:
                w = re.match(r"\s*#\[", m[j:])
                if not w:
                    break
                j = close(m, j + w.end() - 1) + 1
            s = s[:a.start()] + s[item_end(m, j):]


def impls(src, m):
    """(header, body start, body end) of every impl block and trait."""
    for a in re.finditer(r"(?m)^[ \t]*(?:unsafe )?impl\b", m):
        b = m.index("{", a.end())
        yield re.sub(r"\s+", " ", src[a.start():b]).strip(), a.start(), b, close(m, b)
    for a in re.finditer(r"(?m)^[ \t]*(?:pub(?:\([^)]*\))? )?(?:unsafe )?(trait \w+)", m):
        b = m.index("{", a.end())
        yield a.group(1), a.start(), b, close(m, b)


def split_generics(h):
    """`impl<..> X for Y where ..` -> (trait or None, type)"""
    h = re.sub(r"^(unsafe )?impl\b", "", h).strip()
    if h.startswith("<"):
        d = 0
        for k, ch in enumerate(h):
            d += ch == "<"
            d -= ch == ">" and h[k - 1] != "-"
            if d == 0:
                h = h[k + 1:].strip()
                break
    h = re.split(r"\bwhere\b", h)[0].strip()
    if " for " in h:
        t, ty = h.split(" for ", 1)
        return t.strip(), ty.strip()
    return None, h


def base(ty):
    ty = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", lambda x: "&" + ("mut " if x.group(2) else ""), ty.strip())
    pre = re.match(r"^(&(?:mut )?)?", ty).group(0)
    rest = ty[len(pre):]
    return pre + rest.split("<")[0].split("::")[-1].strip()


def bare(t):
    """A trait with its arguments but without lifetimes and paths."""
    t = re.sub(r"'\w+\s*,?|\s|\b(?:\w+::)+", "", t)
    return t.replace("<>", "")


def off(src, m, pos):
    """Is the item at pos switched off by a #[cfg] in front of it?"""
    # attributes directly before pos
    k = pos
    while True:
        head = m[:k].rstrip()
        if head.endswith("]"):
            d, j = 0, len(head) - 1
            while j >= 0:
                d += head[j] == "]"
                d -= head[j] == "["
                if d == 0:
                    break
                j -= 1
            if j > 0 and head[j - 1] == "#":
                attr = src[j:len(head)]
                c = re.match(r"\[cfg\s*\((.*)\)\s*\]$", attr, re.S)
                if c and not cfg_true(c.group(1)):
                    return True
                k = j - 1
                continue
        return False


def find_fn(path, qual):
    if "/" in qual:
        outer, name = qual.rsplit("/", 1)
        _, body, line = find_fn(path, outer)
        m = mask(body)
        for f in re.finditer(r"\bfn\s+%s\b" % re.escape(name), m):
            b = m.index("{", f.end())
            return body[f.start():b], body[b:close(m, b) + 1], line + body[:f.start()].count("\n")
        raise Lost("%s: no function %s" % (path, qual))
    src = open(os.path.join(REPO, "src", path)).read()
    m = mask(src)
    q = re.match(r"static (\w+)\.(\w+)$", qual)
    if q:
        # a closure that is a field of a static
        f = re.search(r"\bstatic\s+%s\b[^=;]*=[^{;]*\{" % q.group(1), m)
        a = f and re.search(r"(?<!\w)%s\s*:\s*\|([^|]*)\|\s*" % q.group(2), m[f.end():close(m, f.end() - 1)])
        if not a:
            raise Lost("%s: no closure %s" % (path, qual))
        b, e = f.end() + a.end(), f.end() + a.end()
        while m[e] not in ",}":
            e = (close(m, e) if m[e] in "([{" else e) + 1
        body = src[b:e].rstrip()
        if not (m[b] == "{" and close(m, b) == b + len(body) - 1):
            body = "{" + body + "}"
        return "fn %s(%s)" % (q.group(2), src[f.end() + a.start(1):f.end() + a.end(1)]), body, src[:b].count("\n") + 1
    q = re.match(r"<(.+) as (.+)>::(\w+)$", qual)
    if q:
        ty, tr, name = q.group(1), q.group(2), q.group(3)
    elif "::" in qual:
        ty, name = qual.rsplit("::", 1)
        tr = None
    else:
        ty, tr, name = None, None, qual
    regions = []
    if ty is None:
        regions = [(0, len(src))]
    else:
        exact = []
        for h, a, b, e in impls(src, m):
            t, y = split_generics(h)
            ok = base(y) == base(ty) and ((tr is None) == (t is None)) and (tr is None or bare(t) == bare(tr) or base(t) == tr)
            if ok and not off(src, m, a):
                regions.append((b + 1, e))
                if tr is not None and bare(t) == bare(tr):
                    exact.append((b + 1, e))
        regions = exact or regions
    found = []
    for a, e in regions:
        for f in re.finditer(r"\bfn\s+%s\b" % re.escape(name), m[a:e]):
            p = a + f.start()
            # depth must be that of the region
            d = m[a:p].count("{") - m[a:p].count("}")
            if d != 0:
                continue
            ls = src.rfind("\n", 0, p) + 1
            if off(src, m, ls):
                continue
            b = p
            while m[b] != "{":
                if m[b] in "([":
                    b = close(m, b)
                if m[b] == ";":
                    raise Lost("no body: " + qual)
                b += 1
            found.append((src[p:b], src[b:close(m, b) + 1], src[:p].count("\n") + 1))
    if len(found) != 1:
        raise Lost("%s: %d functions %s" % (path, len(found), qual))
    return found[0]


LOOP = re.compile(r"\b(while|loop|for)\b")


def loops(body):
    """(kind, keyword position, opening brace, closing brace) in source order; closures and types with `for<` skipped."""
    m = mask(body)
    out = []
    for a in LOOP.finditer(m):
        k = a.group(1)
        if k == "for" and re.match(r"\s*<", m[a.end():]):
            continue
        b = a.end()
        while m[b] != "{":
            if m[b] in "([":
                b = close(m, b)
            b += 1
        out.append((k, a.start(), b, close(m, b)))
    return out


def norm(s):
    return re.sub(r"\s+", " ", strip_comments(s)).strip()


def tok(s):
    return re.findall(r"'\w+(?!')|\w+|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|::|->|=>|\.\.=|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|<<|>>|\S", s)


def sub_tokens(text, frm, to):
    """Replace every occurrence of the token sequence `frm`; `$x` in it stands for one token, `$(x)` for a balanced argument."""
    pat = []
    for t in re.findall(r"\$\(\w+\)|\$\w+|" + r"'\w+(?!')|\w+|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|::|->|=>|\.\.=|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|<<|>>|\S", frm):
        pat.append(t)
    spans = [(x.group(0), x.start(), x.end()) for x in re.finditer(
        r"'\w+(?!')|\w+|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|::|->|=>|\.\.=|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|<<|>>|\S", text)]
    out, last, i, n = [], 0, 0, 0
    while i < len(spans):
        env = {}
        j = i
        ok = True
        for p in pat:
            if j >= len(spans):
                ok = False
                break
            if p.startswith("$("):
                # balanced run up to the closing bracket or comma at depth 0
                d, st = 0, j
                while j < len(spans):
                    t = spans[j][0]
                    if d == 0 and t in (")", "]", "}", ",", ";"):
                        break
                    d += t in "([{" and len(t) == 1
                    d -= t in ")]}" and len(t) == 1
                    j += 1
                env[p[2:-1]] = text[spans[st][1]:spans[j - 1][2]] if j > st else ""
            elif p.startswith("$"):
                env[p[1:]] = spans[j][0]
                j += 1
            elif spans[j][0] == p:
                j += 1
            else:
                ok = False
                break
        if ok:
            r = to
            for k, v in env.items():
                r = r.replace("$(%s)" % k, v).replace("$" + k, v)
            out.append(text[last:spans[i][1]] + r)
            last = spans[j - 1][2]
            i = j
            n += 1
        else:
            i += 1
    out.append(text[last:])
    return "".join(out), n


def expand(path, seen, used=None):
    """The lines of a module, `//@include` and `//@uses` written out (each file once)."""
    lines = []
    for line in open(path):
        m = re.match(r"\s*//@(include|uses) (\S+)(?: in (\w+))?", line)
        if m and m.group(3):
            # in a module of its own: its names hide those around it
            f = os.path.join(os.path.dirname(path), m.group(2))
            lines += ["pub mod %s {\n" % m.group(3), "// [[ open\n", "use vstd::prelude::*;\n", "use super::*;\n"] + expand(f, set(seen), m.group(2)) + ["// close ]]\n", "}\n"]
        elif m:
            f = os.path.join(os.path.dirname(path), *((["inc"] if m.group(1) == "include" else []) + [m.group(2)]))
            if f not in seen:
                seen.add(f)
                lines += open(f).readlines() if m.group(1) == "include" else expand(f, seen, m.group(2))
        elif used and re.match(r"//@(props|title) |use vstd::prelude|verus! \{|\} // verus!|fn main\(\) \{\}", line):
            continue
        elif line.startswith("global "):
            # once for the whole text
            lines += [] if line in seen else [line]
            seen.add(line)
        else:
            if used and re.match(r"(?:pub )?(?:(?:broadcast )?proof |const )?fn ", line) and not (lines and "external_body" in lines[-1]):
                lines.append("#[verifier::external_body] // proved in %s\n" % used)
            lines.append(line)
            if used and line.startswith("//@fn "):
                lines.append("//@trusted %s\n" % used)
    return lines


def parse(path):
    """The module as a list of text pieces and function blocks."""
    items, cur, blk, sect = [], [], None, None
    head = {"props": [], "title": ""}
    for line in expand(path, set()):
        m = re.match(r"\s*//@(\w+)\s?(.*)$", line)
        if not m:
            (cur if blk is None else blk["_"].setdefault(sect, []) if sect else cur).append(line.rstrip("\n"))
            continue
        d, a = m.group(1), m.group(2).strip()
        if d == "props":
            head["props"] = a.split()
        elif d == "title":
            head["title"] = a
        elif d == "assume":
            head.setdefault("assume", []).append(a)
        elif d == "item":
            # `//@item FILE struct|enum|const NAME [FROM => TO [;; FROM => TO]..]`: the definition as it stands, fields made visible
            f = a.split(None, 3)
            cur.append(render_item(f[0], f[1], f[2], f[3] if len(f) > 3 else ""))
        elif d == "fn":
            items.append("\n".join(cur))
            cur = []
            f = a.split(None, 1)
            nm = None
            q = f[1]
            if " as " in q and not q.startswith("<"):
                q, nm = q.split(" as ")
            elif q.startswith("<") and ">::" in q and " as " in q.split(">::", 1)[1]:
                q, nm = q.rsplit(" as ", 1)
            blk = {"file": f[0], "qual": q.strip(), "as": nm and nm.strip(), "subs": [], "sig": [], "ret": None, "_": {}, "props": None}
            sect = None
        elif d == "end":
            items.append(blk)
            blk, sect = None, None
        elif blk is None:
            raise ValueError("%s: stray //@%s" % (path, d))
        elif d == "prop":
            blk["props"] = a.split()
        elif d == "ret":
            blk["ret"] = a
        elif d == "refuse":
            blk["refuse"] = "%s || (%s)" % (blk["refuse"], a) if "refuse" in blk else "(%s)" % a
        elif d == "trusted":
            blk.setdefault("trusted", a)
        elif d == "attr":
            blk["attr"] = blk.get("attr", "") + a + "\n"
        elif d == "iter":
            n, nm = a.split()
            blk.setdefault("iter", {})[int(n)] = nm
        elif d == "guard":
            blk.setdefault("guard", []).append(a.split())
        elif d == "eq":
            blk["eq"] = a
        elif d == "drop":
            blk["drop"] = blk.get("drop", []) + [a]
        elif d in ("sig", "sub", "opt"):
            x, y = a.split("=>>") if "=>>" in a else a.split(" => ") if " => " in a else (a[:-2].strip(), "") if a.endswith("=>") else a.split("=>", 1)
            (blk["sig"] if d == "sig" else blk["subs"]).append((x.strip(), y.strip(), d))
        elif d in ("spec", "loop", "at"):
            sect = (d + " " + a).strip()
            blk["_"].setdefault(sect, [])
        else:
            raise ValueError("%s: unknown //@%s" % (path, d))
    items.append("\n".join(cur))
    return head, items


def render_item(path, kind, name, sub):
    src = open(os.path.join(REPO, "src", path)).read()
    m = mask(src)
    for f in re.finditer(r"(?m)^[ \t]*(?:pub(?:\([a-z ]+\))? )?(%s\s+%s)\b" % (kind, name), m):
        if off(src, m, f.start()):
            continue
        i = f.end()
        while m[i] not in "{;=":
            if m[i] in "([":
                i = close(m, i)
            i += 1
        e = close(m, i) + 1 if m[i] == "{" else m.index(";", i) + 1
        t = strip_comments(resolve_cfg(src[f.start(1):e]))
        t = strip_attrs(t)
        t = flat_names(re.sub(r"\bpub(\([a-z ]+\))?\s+", "", t))
        if kind == "struct":
            t = re.sub(r"(?m)^(\s*)(\w+\s*:)", r"\1pub \2", t)
        for one in sub.split(";;") if sub else []:
            x, y = one.split("=>")
            t, n = sub_tokens(t, x.strip(), y.strip())
            if n == 0:
                raise Lost("%s: no `%s` in %s" % (path, x, name))
        return "pub " + t
    raise Lost("%s: no %s %s" % (path, kind, name))


def flat_names(s):
    """The module is flat: `super::X`, `crate::X` and `crate::queue::X` are `X`."""
    return re.sub(r"\b(?:super|crate)\s*::\s*(?:super\s*::\s*)*(?:queue\s*::\s*)?", "", s)


def render(b, stub=False):
    """The Verus text of one extracted function."""
    sig, body, line = find_fn(b["file"], b["qual"])
    sig = flat_names(norm(strip_attrs(sig)))
    for x, y, _ in b["sig"]:
        sig, n = sub_tokens(sig, x, y)
        if n == 0:
            raise Lost("signature of %s: no `%s`" % (b["qual"], x))
    own = re.search(r"\(\s*mut self\b", sig)
    if own:
        # Verus has no `mut self`: `self` is moved into a mutable `this` first
        sig = sig[:own.start()] + "(self" + sig[own.end():]
    if b["as"]:
        sig = re.sub(r"^fn \w+", "fn " + b["as"], sig)
    where = ""
    w = re.search(r"\bwhere\b", sig)
    if w:
        where, sig = " " + sig[w.start():], sig[:w.start()].strip()
    if b["ret"]:
        i, d = re.match(r".*?\bfn\s+\w+\s*", sig).end(), 0
        while sig[i] != "(" or d:
            d += sig[i] == "<"
            d -= sig[i] == ">" and sig[i - 1] != "-"
            i += 1
        i = close(sig, i) + 1
        k = sig.find("->", i)
        k = None if k < 0 else k
        if k is None:
            raise Lost("no result: " + b["qual"])
        sig = sig[:k] + "-> (%s: %s)" % (b["ret"], sig[k + 2:].strip())
    spec = "\n".join(b["_"].get("spec", []))
    if stub:
        why = "// proved in %s\n" % b["trusted"] if b.get("trusted") else ""
        return "%s#[verifier::external_body]\n%s%s%s\n%s\n{ unimplemented!() }" % (b.get("attr", ""), why, sig, where, spec), line
    body = strip_comments(resolve_cfg(body))
    body = flat_names(strip_attrs(body))
    for name in b.get("drop", []):
        # a nested function, which is extracted by itself
        mm = mask(body)
        if name.startswith(("struct ", "impl ")):
            # a nested type (its definition is given by the module) and its methods
            k, name = name.split(" ", 1)
            f = re.search(r"\b%s\b[^{;]*\b%s\b" % (k, re.escape(name)), mm)
            if not f:
                raise Lost("no nested %s %s" % (k, name))
            e = f.end()
            while mm[e] not in "{;":
                e = close(mm, e) if mm[e] in "([" else e
                e += 1
            body = body[:f.start()] + body[(close(mm, e) if mm[e] == "{" else e) + 1:]
            continue
        f = re.search(r"(\bconst\s+)?(\bunsafe\s+)?\bfn\s+%s\b" % re.escape(name), mm)
        if not f:
            raise Lost("no nested function " + name)
        body = body[:f.start()] + body[close(mm, mm.index("{", f.end())) + 1:]
    for x, y, kind in b["subs"]:
        body, n = sub_tokens(body, x, y)
        if n == 0 and kind == "sub" and STRICT:
            raise Lost("body of %s: no `%s`" % (b["qual"], x))
    if own:
        body = "{ let mut this = self;" + sub_tokens(body[1:], "self", "this")[0]
    if "eq" in b:
        body = equalities(body, b["eq"])
    for nm, call in b.get("guard", []):
        body = guarded(body, nm, call)
    body = refusals(body, b.get("refuse", "false"))
    ls = loops(body)
    want = {}
    for s in b["_"]:
        m = re.match(r"loop (\d+) (\w+)$", s)
        if m:
            want[int(m.group(1))] = (m.group(2), s)
    if sorted(want) != list(range(len(ls))):
        raise Lost("%s: %d loops, contracts for %s" % (b["qual"], len(ls), sorted(want)))
    ins, reps = [], []
    for i, (k, p, o, c) in enumerate(ls):
        if want[i][0] != k:
            raise Lost("%s: loop %d is a `%s`" % (b["qual"], i, k))
        contract = "\n" + "\n".join(b["_"][want[i][1]]) + "\n"
        if i in b.get("iter", {}):
            nm = b["iter"][i]
            h = re.match(r"for\s+(.*?)\s+in\s+(.*)$", body[p:o], re.S)
            if not h:
                raise Lost("%s: loop %d has another form" % (b["qual"], i))
            lab = re.search(r"'\w+\s*:\s*$", body[:p])
            at = lab.start() if lab else p
            reps.append((at, o + 1, "let mut %s = %s;" % (nm, h.group(2).strip()), (lab.group(0) if lab else "") + "loop" + contract + "{ let ghost %s_0 = %s@; let Some(%s) = %s.next() else { break; };" % (nm, nm, h.group(1), nm)))
        else:
            ins.append((o, contract))
        lab = re.search(r"'\w+\s*:\s*$", body[:p])
        for s, pos in (("at loop %d start" % i, o + 1), ("at loop %d end" % i, c), ("at loop %d after" % i, c + 1), ("at loop %d before" % i, lab.start() if lab else p)):
            if s in b["_"]:
                ins.append((pos, "\n" + "\n".join(b["_"][s]) + "\n"))
    if "at start" in b["_"]:
        ins.append((1, "\n" + "\n".join(b["_"]["at start"]) + "\n"))
    if "at end" in b["_"]:
        ins.append((len(body) - 1, "\n" + "\n".join(b["_"]["at end"]) + "\n"))
    if "at tail" in b["_"]:
        ins.append((tail(body), "let v_tail = "))
        ins.append((len(body) - 1, ";\n" + "\n".join(b["_"]["at tail"]) + "\nv_tail\n"))
    edits = [(pos, pos, t) for pos, t in ins]
    for p, e, pre, head in reps:
        # proof text put before the loop goes between the iterator and the loop
        mid = "".join(t for pos, _, t in edits if pos == p)
        edits = [x for x in edits if x[0] != p] + [(p, e, pre + mid + head)]
    for a, e, t in sorted(edits, key=lambda x: -x[0]):
        body = body[:a] + t + body[e:]
    return "%s%s%s\n%s\n%s" % (b.get("attr", ""), sig, where, spec, body), line


def equalities(body, method):
    m = mask(body)
    while True:
        f = re.search(r"[!=]=(?![=>])", re.sub(r"[<>]=", "  ", m))
        if not f:
            return body
        a, e = f.start(), f.end()
        while m[a - 1] not in "{(,;=&|!" or m[a - 1] == "&" and m[a - 2] != "&":
            a -= 1
            if m[a] in ")]}":
                d = 1
                while d:
                    a -= 1
                    d += (m[a] in ")]}") - (m[a] in "([{")
        lead = re.match(r"\s*(return\b|else\b|if\b)?\s*", body[a:f.start()]).end()
        a += lead
        while m[e] not in "}),;{" and m[e:e + 2] not in ("&&", "||"):
            e = (close(m, e) if m[e] in "([" else e) + 1
        body = body[:a] + "%s%s(&%s, &%s) " % ("!" if f.group(0) == "!=" else "", method, body[a:f.start()].strip(), body[f.end():e].strip()) + body[e:]
        m = mask(body)


def guarded(body, name, call):
    """Write out the drop of a local at the end of its scope, the body: after the value of the result is there."""
    m = mask(body)
    f = re.search(r"\blet\s+(?:mut\s+)?%s\b" % re.escape(name), m)
    if not f or m[:f.start()].count("{") - m[:f.start()].count("}") != 1:
        raise Lost("no local %s" % name)
    if "?" in m[f.end():]:
        raise Lost("`?` after %s" % name)
    d = "%s.%s();" % (name, call)
    try:
        t = tail(body)
        edits = [(t, t, "let v_out = "), (len(body) - 1, len(body) - 1, "; %s v_out " % d)]
    except Lost:
        edits = [(len(body) - 1, len(body) - 1, " %s " % d)]
    for r in re.finditer(r"\breturn\b", m):
        if r.start() > f.end():
            e = r.end()
            while m[e] not in ";}":
                e = (close(m, e) if m[e] in "([{" else e) + 1
            x = body[r.end():e].strip()
            edits.append((r.start(), e + (m[e] == ";"), "{ let v_r = %s; %s return v_r; }" % (x, d) if x else "{ %s return; }" % d))
    for a, e, t in sorted(edits, reverse=True):
        body = body[:a] + t + body[e:]
    return body


def tail(body):
    """Where the expression begins that a body ends with."""
    m = mask(body)
    e = len(m) - 1
    k = at = 1
    while k < e:
        if m[k] in "([{":
            k = close(m, k)
        elif m[k] == ";":
            at = k + 1
        k += 1
    while True:
        f = re.match(r"\s*(?:'\w+\s*:\s*)?(if|for|while|loop|match|unsafe)\b", m[at:e])
        if not f:
            break
        k = m.index("{", at)
        # the block of the statement: brackets before it do not count
        j = at
        while m[j] != "{":
            j = close(m, j) + 1 if m[j] in "([" else j + 1
        k = close(m, j) + 1
        while re.match(r"\s*else\b", m[k:e]):
            k = close(m, m.index("{", k)) + 1
        if not m[k:e].strip() or re.match(r"\s*[.?]", m[k:e]):
            break
        at = k
    if not m[at:e].strip():
        raise Lost("no expression at the end")
    return at


def args(m, i):
    """The top-level arguments in the bracket at i, as spans."""
    e, a, k, out = close(m, i), i + 1, i + 1, []
    while k < e:
        if m[k] in "([{":
            k = close(m, k)
        elif m[k] == ",":
            out.append((a, k))
            a = k + 1
        k += 1
    return out + [(a, e)], e


def refusals(body, cond):
    """Panics that are left: allowed only under the condition of `//@refuse` (default: never)."""
    why = "Ghost(yes(%s))" % cond
    while True:
        m = mask(body)
        f = re.search(r"\bunwrap_or_else\s*\(\s*\|\|\s*(?:\{\s*)?panic\s*!", m)
        if f:
            o = m.index("(", f.start())
            body = body[:f.start()] + "v_or(%s)" % why + body[close(m, o) + 1:]
            continue
        f = re.search(r"\b(?:(?:core|std)::)?(?:debug_)?(panic|assert|assert_eq|assert_ne|unreachable)\s*!\s*\(", m)
        if not f:
            return body
        sp, e = args(m, f.end() - 1)
        part = [body[x:y].strip() for x, y in sp]
        if f.group(1) == "assert":
            t = "if !(%s) { refuse(%s) }" % (part[0], why)
        elif f.group(1) in ("assert_eq", "assert_ne"):
            t = "if !(%s %s %s) { refuse(%s) }" % (part[0], "==" if f.group(1) == "assert_eq" else "!=", part[1], why)
        elif f.group(1) == "panic":
            t = "refuse(%s)" % why
        else:
            t = "refuse(Ghost(false))"
        body = body[:f.start()] + t + body[e + 1:]


def assemble(path, stubs):
    head, items = parse(path)
    text, fns, lost = "", [], {}
    for it in items:
        if isinstance(it, str):
            text += it + "\n"
            continue
        key = it["file"] + " " + it["qual"]
        st = key in stubs
        st = st or bool(it.get("trusted"))
        if not st:
            try:
                t, line = render(it)
            except Lost as e:
                lost[key] = str(e)
                st = True
        if st:
            try:
                t, line = render(dict(it, subs=[]), True)
            except Lost as e:
                # not even a signature to put the contract on: its callers are left undecided too
                lost[key] = str(e)
                t, line = "", 0
        a = text.count("\n") + 1
        text += t + "\n"
        fns.append({"key": key, "used": it.get("trusted"), "from": a, "to": text.count("\n"), "line": line, "stub": st, "props": it["props"] or head["props"],
                    "subs": ["%s => %s" % (x, y) for x, y, _ in it["subs"]] + ["%s => %s (signature)" % (x, y) for x, y, _ in it["sig"]]})
    return head, opened(text), fns, lost


def opened(text):
    """Make the items of inner modules visible outside them (the number of lines stays the same)."""
    out, inside, trait = [], 0, False
    for l in text.split("\n"):
        if l == "// [[ open":
            inside += 1
        elif l == "// close ]]":
            inside -= 1
        elif inside:
            if re.match(r"(pub )?trait |impl(<[^{]*>)? \S+ for |impl<.*> for ", l):
                trait = True
            elif l == "}":
                trait = False  # the end of the item
            elif not trait:
                l = re.sub(r"^(\s*(?:#\[[^\]]*\]\s*)*)((?:const |proof |unsafe |tracked |ghost )*(?:fn|struct|enum) )", r"\1pub \2", l)
        out.append(l)
    return "\n".join(out)


PROOF = re.compile(r"^error: (postcondition not satisfied|could not prove termination|precondition not satisfied|invariant not satisfied.*|assertion failed|assertion not satisfied|"
                   r"possible (arithmetic underflow/overflow|division by zero|bit shift underflow/overflow)|decreases not satisfied.*|loop ensures not satisfied|"
                   r"unreachable|recommendation not met|constructed value may fail.*|possible .*|loop invariant not satisfied|.*not satisfied.*|"
                   r"unable to (prove|show) .*|.*fails? to satisfy.*|cannot (show|prove) .*|.* may fail.*)", re.I)
GIVEUP = re.compile(r"Resource limit|rlimit|timed? ?out|could not finish", re.I)


def verus_run(sh, ctx, path, wd):
    t = time.time()
    rc, o = sh(["verus", path, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--rlimit", "120" if ctx.thorough else "60", "--num-threads", "4", "--multiple-errors", "4"], wd,
               {}, 1200 if ctx.thorough else 400)
    return rc, o, time.time() - t


def diagnostics(o):
    """(message, line) of every rustc-style error."""
    out, cur = [], None
    for l in o.splitlines():
        if l.startswith("error"):
            cur = [l, None, [l]]
            out.append(cur)
        elif cur is not None:
            m = re.match(r"\s*-->\s+\S+?:(\d+):\d+", l)
            if m and cur[1] is None:
                cur[1] = int(m.group(1))
            if len(cur[2]) < 30:
                cur[2].append(l)
    return [c for c in out if not re.match(r"error: aborting due to|error: could not compile", c[0])]


def run_module(ctx, sh, path, build):
    name = os.path.basename(path)[:-3]
    stubs = {}
    for _ in range(12):
        try:
            head, text, fns, lost = assemble(path, stubs)
        except Lost as e:
            return {"module": name, "head": {}, "error": "extraction: %s" % e, "fns": [], "stubs": {}, "fails": {}, "gave": {}, "seconds": 0.0, "text": ""}
        stubs.update({k: "extraction: " + v for k, v in lost.items()})
        wd = os.path.join(build, "verus")
        os.makedirs(wd, exist_ok=True)
        src = os.path.join(wd, name + ".rs")
        open(src, "w").write(text)
        rc, o, secs = verus_run(sh, ctx, src, wd)
        diag = diagnostics(o)
        hard = [d for d in diag if not PROOF.match(d[0]) and not GIVEUP.search(d[0])]
        if not hard:
            break
        new = False
        for d in hard:
            f = next((f for f in fns if d[1] and f["from"] <= d[1] <= f["to"] and not f["stub"]), None)
            if f:
                stubs[f["key"]] = "not accepted: " + d[0][:200]
                new = True
        if not new:
            return {"module": name, "head": head, "error": "; ".join("%s (line %s)" % (d[0], d[1]) for d in hard)[:800], "fns": fns, "stubs": stubs, "fails": {}, "gave": {}, "seconds": secs, "text": text}
    js = {}
    k = re.search(r"(?m)^\{\n", o)
    if k:
        try:
            js = json.JSONDecoder().raw_decode(o[k.start():])[0]
        except Exception:
            js = {}
    res = js.get("verification-results", {})
    fails, gave = {}, {}
    for d in diag:
        f = next((f for f in fns if d[1] and f["from"] <= d[1] <= f["to"]), None)
        key = f["key"] if f else "lemma or contract at line %s of the module" % d[1]
        (gave if GIVEUP.search(d[0]) else fails).setdefault(key, []).append("\n".join(d[2][:14]))
    smt = (js.get("times-ms") or {}).get("smt", {}).get("total")
    return {"module": name, "head": head, "fns": fns, "stubs": stubs, "fails": fails, "gave": gave, "seconds": secs, "verified": res.get("verified"),
            "errors": res.get("errors"), "text": text, "raw": o[-1500:] if not res else "", "smt_ms": smt,
            "error": None if res else "no result: " + o[-600:]}


def run(ctx, sh):
    t0 = time.time()
    d = os.path.join(ctx.root, "verus")
    mods = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".rs"):
            props = set(" ".join(re.findall(r"(?m)^\s*//@props? (.*)$", open(os.path.join(d, f)).read())).split())
            if ctx.prop in props:
                mods.append(os.path.join(d, f))
    if not mods:
        return {"layer": "verus", "state": "absent", "violations": [], "wall_s": 0.0}
    out = {"layer": "verus", "state": "held", "violations": [], "obligations": 0, "discharged": 0, "trusted": [], "back_ends": ["verus / z3"], "seconds": 0.0,
           "functions": [], "assumptions": [], "undecided": [], "modules": [], "checker_cmd": "verus <extracted module> --output-json --rlimit 60"}
    for p in mods:
        r = run_module(ctx, sh, p, ctx.build)
        out["seconds"] += (r.get("smt_ms") or 0) / 1000.0
        text = r["text"]
        assumed = -len(re.findall(r"// proved in ", text)) + len(re.findall(r"external_body|\badmit\s*\(|\bassume\s*\(|assume_specification|external_type_specification", text))
        out["modules"].append({"module": r["module"], "title": r["head"].get("title"), "verified": r.get("verified"), "errors": r.get("errors"),
                               "wall_s": round(r["seconds"], 1), "assumed_items": assumed,
                               "rewritings": {f["key"]: f["subs"] for f in r["fns"] if f["subs"] and not f["used"]},
                               "contracts_proved_in_other_modules": sorted({f["used"] for f in r["fns"] if f["used"]})})
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?((?:const |unsafe |proof )*(?:fn|struct) \w+)", text):
            out["trusted"].append("%s: %s" % (r["module"], m.group(1)))
        for m in re.finditer(r"assume_specification[^\[]*\[\s*(.*?)\s*\]", text):
            out["trusted"].append("%s: contract of %s" % (r["module"], m.group(1)))
        out["assumptions"] += ["%s: %s" % (r["module"], a) for a in r["head"].get("assume", [])]
        if r.get("error"):
            out["undecided"].append({"function": r["module"], "why": r["error"]})
            continue
        for k, why in r["stubs"].items():
            out["undecided"].append({"function": k, "why": why})
        for k, why in r["gave"].items():
            out["undecided"].append({"function": k, "why": why[0][:300]})
        out["obligations"] += (r["verified"] or 0) + (r["errors"] or 0)
        out["discharged"] += r["verified"] or 0
        for f in r["fns"]:
            if f["used"]:
                continue
            if not f["stub"] and f["key"] not in r["fails"] and f["key"] not in r["gave"]:
                out["functions"].append("%s (src/%s:%d)" % (f["key"].split(" ", 1)[1], f["key"].split(" ", 1)[0], f["line"]))
        undecided_here = set(r["stubs"]) | set(r["gave"])
        for k, outs in r["fails"].items():
            # a failure of one function counts for this property only; others are reported by their own check
            fn = next((f for f in r["fns"] if f["key"] == k), None)
            if fn and ctx.prop not in fn["props"]:
                out["undecided"].append({"function": k, "why": "fails under another property"})
                continue
            if fn is None:
                out["undecided"].append({"function": k, "why": outs[0][:300]})
                continue
            out["violations"].append({"function": k, "output": "\n\n".join(outs)[:6000]})
    if out["violations"]:
        out["state"] = "violated"
    elif not out["functions"]:
        out["state"] = "undecided"
        out["why"] = "; ".join("%s: %s" % (u["function"], u["why"]) for u in out["undecided"])[:1000]
    out["wall_s"] = time.time() - t0
    return out


if __name__ == "__main__":
    import sys
    STRICT = True

    class C:
        thorough = False
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        build = "/tmp/v"

    def sh(cmd, cwd, env, limit):
        e = dict(os.environ)
        e.update(env)
        if not e.get("RUSTUP_TOOLCHAIN"):
            e.pop("RUSTUP_TOOLCHAIN", None)
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        return p.returncode, p.stdout
    r = run_module(C, sh, sys.argv[1], "/tmp/v")
    for k in ("error", "stubs", "verified", "errors", "seconds", "smt_ms"):
        print(k, r.get(k))
    for k, v in list(r["fails"].items()) + list(r["gave"].items()):
        print("FAIL", k)
        for x in v:
            print(x)
