"""Is everything a text says represented in what was read from it? Used only on
texts that were read without an error."""
import re
import extract
import model
import sim
import sqllex
from sqllex import SqlError, Tok

# words which are structure: nothing is lost when they are not found again
NOISE = set("""create table if not exists insert into values primary unique index key constraint foreign references on delete update null
default unsigned auto_increment character set collate true false bool boolean integer numeric int decimal""".split())


def lex(text):
    """tokens with the escapes a file keeps: only quotes and backslashes are escaped, and two dashes always start a comment"""
    out = []
    i = 0
    pat = re.compile(r"""(?P<ws>\s+)|(?P<com>--[^\n]*|\#[^\n]*|/\*.*?\*/)|(?P<str>'(?:\\.|''|[^'\\])*'|"(?:\\.|""|[^"\\])*")|(?P<bq>`(?:``|[^`])*`)|(?P<num>\d+(?:\.\d+)?(?![\w]))|(?P<id>\w+)|(?P<op>.)""", re.S)
    while i < len(text):
        m = pat.match(text, i)
        k, v = m.lastgroup, m.group(0)
        if k == "op" and (v in "'\"`" or text.startswith("/*", i)):
            raise SqlError(1064, "unclosed %s" % text[i:i + 2])
        if k == "str":
            v = re.sub(r"\\([\\'\"])|%s%s" % (v[0], v[0]), lambda x: x.group(1) or v[0], v[1:-1])
        elif k == "bq":
            v = v[1:-1].replace("``", "`")
        if k not in ("ws", "com"):
            out.append(Tok(k, v, i, m.end()))
        i = m.end()
    return out


def body(cmd):
    """(position after the opening, position of the closing parenthesis, positions of the commas between definitions)"""
    toks, depth, commas, first = lex(cmd), 0, [], None
    for t in toks:
        if t.k == "op" and t.v == "(":
            depth += 1
            if first is None:
                first = t.e
        elif t.k == "op" and t.v == ")":
            depth -= 1
            if depth == 0:
                return first, t.s, commas
        elif t.k == "op" and t.v == "," and depth == 1:
            commas.append(t.s)
    return first, len(cmd), commas


def plain(toks):
    """text again, in the escapes of MySQL"""
    out = []
    for t in toks:
        if t.k == "str":
            out.append("'" + t.v.replace("\\", "\\\\").replace("'", "\\'") + "'")
        elif t.k == "bq":
            out.append("`" + t.v.replace("`", "``") + "`")
        else:
            out.append(t.v)
    return " ".join(out)


def contradicts(toks):
    """some definition says NULL more than once: what counts is up to the server"""
    n = 0
    for i, t in enumerate(toks):
        if t.k == "op" and t.v in ",();":
            n = 0
        elif t.k == "id" and t.v.lower() == "null" and not (i and toks[i - 1].v.lower() == "default"):
            n += 1
            if n > 1:
                return True
    return False


def commands(toks):
    """token lists, cut at semicolons"""
    out, cur = [], []
    for t in toks:
        if t.k == "op" and t.v == ";":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def pieces(text):
    return re.findall(r"\w+", str(text).casefold())


def glued(w, have):
    """is this several known words without white space between them?"""
    return any((w[:i] in NOISE or have.get(w[:i])) and (w[i:] in NOISE or have.get(w[i:]) or glued(w[i:], have)) for i in range(1, len(w)))


def lost_words(toks, tables):
    """words of the text which are nowhere in the result"""
    have = {}

    def add(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                add(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                add(y)
        elif x is not None and not isinstance(x, bool):
            for w in pieces(x):
                have[w] = have.get(w, 0) + 1
    for t in tables:
        add(t)
        for r in (t["rows"] or {}).values():
            add(t["name"])
            add(list(r))
    skip = set()
    for i in range(len(toks)):
        # AUTO_INCREMENT=5 is left to the server
        if toks[i].v.lower() == "auto_increment" and i + 2 < len(toks) and toks[i + 1].v == "=":
            skip.add(i + 2)
        # of several collations one counts
        if toks[i].v.lower() == "collate" and i + 1 < len(toks):
            for u in toks[i + 2:]:
                if u.k == "op" and u.v in ",();":
                    break
                if u.v.lower() == "collate":
                    skip.add(i + 1)
        # a character set may be written twice
        w = toks[i - 1].v.lower() if i else ""
        if w in ("charset", "set", "=") and toks[i].k in ("id", "str"):
            for u, x in zip(toks[i + 1:], toks[i + 2:]):
                if u.k == "op" and u.v in ",();":
                    break
                if u.v.lower() in ("charset", "set", "=") and x.v.lower() == toks[i].v.lower():
                    skip.add(i)
        # prefix lengths of indexes: see known_findings.txt
        if i + 4 < len(toks) and toks[i].v in "(," and toks[i + 1].k in ("id", "bq") and toks[i + 2].v == "(" and toks[i + 3].k == "num" and toks[i + 4].v == ")":
            skip.add(i + 3)
    lost = []
    for i, t in enumerate(toks):
        if i in skip or t.k == "op":
            continue
        for w in pieces(t.v):
            if t.k == "id" and w in NOISE:
                continue
            if have.get(w, 0) < 1:
                if not glued(w, have):
                    lost.append(w)
            else:
                have[w] -= 1
    return lost


def parsed(toks):
    """(tables, rows) by the server's own grammar, or None when it is not all CREATE TABLE and INSERT in that grammar"""
    tables, rows = {}, {}
    if any(t.k == "bq" and "`" in t.v for t in toks):
        return None
    for c in commands(toks):
        try:
            v = sim.parse(plain(c))
        except SqlError:
            return None
        if v[0] == "create":
            if v[1].name in tables:
                raise SqlError(1050, "two definitions of table %s are accepted" % v[1].name)
            tables[v[1].name] = v[1]
        elif v[0] == "insert" and v[2] and not v[1].lower().startswith("into"):
            rows.setdefault(v[1], []).append((v[2], v[3]))
        else:
            return None
    return tables, rows


def same_table(want, got):
    """what differs between a parsed table and what was read of it"""
    wc = []
    pk = [c.name for c in want.cols if getattr(c, "pk", False)] + [n for k in want.keys if k.kind == "PRIMARY" for n in k.cols]
    for c in want.cols:
        m = model.canon_sim_col(c)
        if c.name in pk:
            m["null"] = False
        wc.append((c.name, model.col_tuple(m), m["cs"], m["coll"]))
    gc = [(c["name"], model.col_tuple(c), c["cs"], c["coll"]) for c in got["cols"]]
    if wc != gc:
        return "columns are %r, read as %r" % (wc, gc)
    wk = [("PRIMARY", "", (c.name,)) for c in want.cols if getattr(c, "pk", False)]
    wk += [("UNIQUE", "", (c.name,)) for c in want.cols if getattr(c, "uq", False)]
    wk += [(k.kind, "" if k.kind == "PRIMARY" else (k.name or k.cols[0]).lower(), tuple(k.cols)) for k in want.keys]
    gk = [(k["kind"], (k["name"] or k["cols"][0]).lower() if k["kind"] != "PRIMARY" else "", tuple(k["cols"])) for k in got["keys"]]
    free = [("INDEX", f.col.lower(), (f.col,)) for f in want.fks if f.name is None]
    extra = sorted(gk)
    for k in wk:
        if k not in extra:
            return "index %r is lost, there is %r" % (k, gk)
        extra.remove(k)
    for k in extra:
        if k not in free:
            return "index %r comes from nowhere" % (k,)
    wf = sorted((f.name or "", f.col, f.rtable, f.rcol, model.act(f.dele), model.act(f.upd)) for f in want.fks)
    gf = sorted((f["name"] if f["name"] in [x.name for x in want.fks] else "",) + model.fk_tuple(f) for f in got["fks"])
    if wf != gf:
        return "foreign keys are %r, read as %r" % (wf, gf)
    return None


def check(text, db):
    """None, or what of the text is not in the result (which was read without an error)"""
    try:
        toks = lex(text)
    except SqlError as e:
        return "%s is not reported" % e.msg
    tables = []
    for t in db.tables.values():
        x = extract.table(t)
        x["rows"] = extract.rows(t)
        tables.append(x)
    lost = lost_words(toks, tables)
    if lost:
        return "%r is lost without an error" % lost[:5]
    if contradicts(toks):
        return None
    try:
        p = parsed(toks)
    except SqlError as e:
        return e.msg
    if p is None:
        return None
    want, rows = p
    got = {t["name"]: t for t in tables}
    if set(want) != set(got):
        return "tables %r are read as %r" % (sorted(want), sorted(got))
    for n, t in want.items():
        try:
            d = same_table(t, got[n])
        except (ArithmeticError, ValueError):
            continue
        if d:
            return "%s of table %s" % (d, n)
    for n, cmds in rows.items():
        w = {}
        for cols, groups in cmds:
            for g in groups:
                if len(g) != len(cols):
                    return "a row of %s has not one value for each column" % n
                r = {c: (None if v[0] == "null" else v[1]) for c, v in zip(cols, g)}
                if r.get("id") in w:
                    return "row %r of %s is written twice" % (r.get("id"), n)
                w[r.get("id")] = r
        h = got[n]["rows"] or {}
        if set(w) != set(h):
            return "rows %r of %s are read as %r" % (sorted(map(str, w)), n, sorted(map(str, h)))
        for i in w:
            if w[i] != h[i] and {k: number(v) for k, v in w[i].items()} != {k: number(v) for k, v in h[i].items()}:
                return "row %r of %s is read as %r" % (w[i], n, h[i])
    return None


def number(v):
    """signs of numbers may be written or not"""
    return v.lstrip("+") if v else v
