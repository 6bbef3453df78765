"""random programs as token sequences with random layout, and a tokenizer of
its own to compare programs by"""
import re
from strmodel import to_str  # noqa: F401

NAMES = ["a", "b", "foo", "bar_baz", "x1", "a_rather_long_variable_name", "sources", "deps"]
STRS = ["'a'", "''", "'foo bar'", "'src/main.c'", "'it\\'s'", "'@0@'", "'#'", "'a, b'", "'''raw'''", "'''two\nlines # no\n'''", "f'@a@'", "f'x@foo@y'", "'-Dlong_option_name=some_value'", "'\\n'", "'[('", "f'''@b@'''", "'\\\\'"]
NUMS = ["0", "1", "42", "0x1F", "0b101", "0o17", "100000"]


class Gen:
    def __init__(self, d, comments=True):
        self.d = d
        self.comments = comments
        self.feats = set()

    # tokens: strings; "(" "[" "{" open, NL ends a statement
    def expr(self, depth):
        d = self.d
        if depth <= 0:
            return [d.weighted([(3, lambda: d.choice(NAMES)), (3, lambda: d.choice(STRS)), (2, lambda: d.choice(NUMS)), (1, lambda: d.choice(["true", "false"]))])()]
        k = d.weighted([(3, "atom"), (4, "bin"), (1, "cmp"), (1, "andor"), (1, "not"), (1, "neg"), (1, "tern"), (4, "list"), (3, "dict"), (4, "call"), (3, "meth"), (2, "idx"), (2, "paren")])
        D = depth - 1
        self.feats.add(k)
        if k == "atom":
            return self.expr(0)
        if k == "bin":
            return self.operand(D) + [d.choice(["+", "-", "*", "/", "%"])] + self.operand(D)
        if k == "cmp":
            op = d.choice(["==", "!=", "<", "<=", ">", ">=", "in", "not in"])
            return self.operand(D) + op.split() + self.operand(D)
        if k == "andor":
            return self.operand(D) + [d.choice(["and", "or"])] + self.operand(D)
        if k == "not":
            return ["not"] + self.operand(D)
        if k == "neg":
            return ["-"] + self.primary(D)
        if k == "tern":
            return self.operand(D) + ["?"] + self.operand(D) + [":"] + self.operand(D)
        if k == "list":
            return ["["] + self.items(lambda: self.expr(D), 0, 6) + ["]"]
        if k == "dict":
            return ["{"] + self.items(lambda: [d.choice(STRS + NAMES)] + [":"] + self.expr(D), 0, 4) + ["}"]
        if k == "call":
            return [d.choice(NAMES)] + self.args(D)
        if k == "meth":
            return self.primary(D) + ["."] + [d.choice(NAMES)] + self.args(D)
        if k == "idx":
            return self.primary(D) + ["["] + self.expr(D) + ["]"]
        if k == "paren":
            return ["("] + self.expr(D) + [")"]
        raise AssertionError(k)

    def primary(self, depth):
        d = self.d
        if depth <= 0 or d.bool(0.4):
            return [d.choice(NAMES)] if d.bool(0.7) else [d.choice(STRS)]
        k = d.choice(["call", "paren", "list", "meth", "idx"])
        D = depth - 1
        if k == "call":
            return [d.choice(NAMES)] + self.args(D)
        if k == "paren":
            return ["("] + self.expr(D) + [")"]
        if k == "list":
            return ["["] + self.items(lambda: self.expr(D), 0, 4) + ["]"]
        if k == "meth":
            return self.primary(D) + ["."] + [d.choice(NAMES)] + self.args(D)
        return self.primary(D) + ["["] + self.expr(D) + ["]"]

    def operand(self, depth):
        # binary operators on parenthesised or simple operands: precedence is C01's
        d = self.d
        if d.bool(0.25) and depth > 0:
            return ["("] + self.expr(depth) + [")"]
        if d.bool(0.15) and depth > 0:
            return self.primary(depth) + [d.choice(["+", "/"])] + self.primary(depth - 1)
        return self.primary(depth)

    def items(self, f, lo, hi):
        d = self.d
        out = []
        for i in d.many(lo, hi, 0.75):
            if i:
                out.append(",")
            out += f()
        if out and d.bool(0.25):
            out.append(",")
        return out

    def args(self, depth):
        d = self.d
        pos = [self.expr(depth) for _ in d.many(0, 4, 0.6)]
        kw = []
        if d.bool(0.4):
            self.feats.add("kwargs")
            names = d.shuffle(["sources", "dependencies", "install", "kw", "c_args", "if_true", "command", "arguments"])
            kw = [[n, ":"] + self.expr(depth) for n in names[: d.int(1, 4)]]
        out = ["("]
        for i, a in enumerate(pos + kw):
            if i:
                out.append(",")
            out += a
        if pos + kw and d.bool(0.25):
            out.append(",")
        return out + [")"]

    def block(self, depth, loop, lo=1, hi=5):
        out = []
        for _ in self.d.many(lo, hi, 0.6):
            out += self.stmt(depth, loop)
        return out

    def stmt(self, depth, loop):
        """[(indent change before, tokens, indent change after)]"""
        d = self.d
        k = d.weighted([(5, "assign"), (3, "call"), (2, "plus"), (2, "if"), (2, "foreach"), (1 if loop else 0, "ctl"), (1, "meth")])
        if depth <= 0 and k in ("if", "foreach"):
            k = "call"
        self.feats.add("s:" + k)
        if k == "assign":
            return [(0, [d.choice(NAMES), "="] + self.expr(d.int(0, 3)), 0)]
        if k == "plus":
            return [(0, [d.choice(NAMES), "+="] + self.expr(d.int(0, 3)), 0)]
        if k == "call":
            return [(0, [d.choice(NAMES)] + self.args(d.int(0, 3)), 0)]
        if k == "meth":
            return [(0, self.primary(1) + ["."] + [d.choice(NAMES)] + self.args(d.int(0, 2)), 0)]
        if k == "ctl":
            return [(0, [d.choice(["break", "continue"])], 0)]
        if k == "foreach":
            names = [d.choice(NAMES)] if d.bool(0.6) else [d.choice(NAMES), ",", d.choice(NAMES)]
            return [(0, ["foreach"] + names + [":"] + self.expr(d.int(0, 2)), 1)] + self.block(depth - 1, True) + [(-1, ["endforeach"], 0)]
        out = [(0, ["if"] + self.expr(d.int(0, 2)), 1)] + self.block(depth - 1, loop)
        for _ in d.many(0, 2, 0.3):
            out += [(-1, ["elif"] + self.expr(d.int(0, 2)), 1)] + self.block(depth - 1, loop)
        if d.bool(0.4):
            out += [(-1, ["else"], 1)] + self.block(depth - 1, loop)
        return out + [(-1, ["endif"], 0)]


OPEN, CLOSE = set("([{"), set(")]}")
WORD = re.compile(r"[A-Za-z0-9_'\"]")


def need_space(a, b):
    if not a or not b:
        return False
    if WORD.match(a[-1]) and WORD.match(b[0]):
        return True
    return a in ("and", "or", "not", "in", "if", "elif", "foreach")


def is_list(opener, before):
    """an argument list, array or dictionary, rather than an index or parentheses"""
    value = bool(before) and (WORD.match(before[-1]) is not None and before not in ("and", "or", "not", "in", "if", "elif", "foreach") or before in CLOSE)
    return opener == "{" or value == (opener == "(")


def plain_lists(toks):
    """the indices of the opening tokens of lists that are whole elements: not
    empty, not an operand of something else, and only inside of such lists"""
    good, stack = set(), []
    if "?" in toks:
        return good
    starts = {"=", "+=", ",", ":"} | OPEN
    for i, t in enumerate(toks):
        if t in OPEN:
            before = toks[i - 1] if i else ""
            j = i - 1 if t == "(" and is_list(t, before) and before not in CLOSE else i
            ok = is_list(t, before) and (j == 0 or toks[j - 1] in starts) and (not stack or stack[-1][1])
            stack.append((i, ok))
        elif t in CLOSE:
            k, ok = stack.pop()
            nxt = toks[i + 1] if i + 1 < len(toks) else ""
            if ok and i > k + 1 and nxt in ({"", ","} | CLOSE):
                good.add(k)
    # only inside of good ones
    res, stack = set(), []
    for i, t in enumerate(toks):
        if t in OPEN:
            stack.append(i)
            if all(k in good for k in stack):
                res.add(i)
        elif t in CLOSE:
            stack.pop()
    return res


def flat(toks, k):
    """no brackets in the brackets opened by toks[k]"""
    for t in toks[k + 1:]:
        if t in OPEN:
            return False
        if t in CLOSE:
            return True


def layout(d, stmts, wild, comments, anywhere=False):
    """text of the program; wild: 0 tidy .. 1 chaotic"""
    out = []
    n = 0
    depth = 0

    def comment():
        nonlocal n
        n += 1
        t = d.choice(["c%d", " c%d", " c%d '(", "c%d \\", " c%d  ", "# c%d", "\tc%d"]) % n
        return "#" + t

    for before, toks, after in stmts:
        depth += before
        # what stands before the statement
        if d.bool(0.2):
            out.append("\n" * d.int(1, 3))
        if comments and d.bool(0.15):
            ind = "    " * depth if not d.bool(wild) else " " * d.int(0, 6)
            out.append(ind + comment() + "\n")
            if d.bool(0.2):
                out.append("\n")
        line = "    " * depth if not d.bool(wild) else d.choice([" ", "\t", ""]) * d.int(0, 6)
        nest = []
        prev = prev2 = ""
        plain = plain_lists(toks)
        for k, t in enumerate(toks):
            ws = ""
            inside = bool(nest)
            # between the elements of a list
            between = inside and nest[-1] and (prev == "," or nest[-1] > 1 and prev in "[{")
            nest0 = nest and nest[-1]
            if t in CLOSE:
                nest.pop()
            if prev:
                if d.bool(wild):
                    ws = d.choice(["", " ", "  ", "\t"])
                    if inside and nest0 and d.bool(0.4):
                        ws = d.choice(["\n", "\n  ", " \n", "\n\n", "\n\t"])
                        if comments and (anywhere or between) and d.bool(0.25):
                            ws = d.choice([" ", ""]) + comment() + "\n" + d.choice(["", "  ", "\n"])
                    elif not inside and d.bool(0.06):
                        ws = " \\\n" + " " * d.int(0, 4)
                else:
                    ws = "" if t in (",", ")", "]", ".", "(", "[") or prev in ("(", "[", ".") else " "
                if not ws and need_space(prev, t):
                    ws = " "
                if not ws and prev in ("?", ":") or (not ws and t in ("?", ":") and False):
                    ws = ws
            line += ws + t
            if t in OPEN:
                nest.append((k in plain) + (len(nest) == 0 and k in plain and flat(toks, k)))
            prev2, prev = prev, t
        if d.bool(wild / 3):
            line += d.choice([" ", "\t"])
        if comments and d.bool(0.12):
            line += d.choice([" ", "  ", ""]) + comment()
        out.append(line + "\n")
        depth += after
    text = "".join(out)
    if comments and d.bool(0.1):
        text += comment() + "\n"
    if d.bool(0.1):
        text = text.rstrip("\n")
    elif d.bool(0.1):
        text += "\n\n"
    return text


TOKEN = re.compile(r"""
   (?P<ws>[ \t\r]+|\\\n)
 | (?P<nl>\n)
 | (?P<comment>\#[^\n]*)
 | (?P<str>f?'''(?:.|\n)*?'''|f?'(?:[^'\\\n]|\\.)*')
 | (?P<num>0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|[0-9]+)
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
 | (?P<op>\+=|==|!=|<=|>=|[-+*/%<>=?:.,()\[\]{}])
""", re.X)


def tokenize(text):
    """(tokens with NL between statements, comments, [(first column, depth marker)])"""
    toks, comments, starts = [], [], []
    i, nest = 0, 0
    bol = True
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise ValueError("cannot tokenize at %r" % text[i:i + 30])
        k, s = m.lastgroup, m.group()
        if k == "nl":
            if nest == 0 and toks and toks[-1] != "\n":
                toks.append("\n")
            bol = True
        elif k == "comment":
            comments.append(s[1:].strip())
        elif k != "ws":
            if bol and nest == 0 and (not toks or toks[-1] == "\n"):
                ls = text.rfind("\n", 0, i) + 1
                starts.append((s, text[ls:i]))
            bol = False
            if s in OPEN:
                nest += 1
            elif s in CLOSE:
                nest -= 1
                if toks and toks[-1] == ",":
                    toks.pop()
            toks.append(s)
        i = m.end()
    while toks and toks[-1] == "\n":
        toks.pop()
    return toks, comments, starts


def strip_outer(toks):
    """without the parentheses around a whole right hand side or condition,
    which the formatter adds to break long lines"""
    out = []
    stmt = []
    for t in toks + ["\n"]:
        if t != "\n":
            stmt.append(t)
            continue
        while True:
            i = None
            if stmt and stmt[0] in ("if", "elif"):
                i = 1
            elif stmt and stmt[0] == "foreach":
                i = stmt.index(":") + 1
            elif len(stmt) > 1 and stmt[1] in ("=", "+="):
                i = 2
            if i is None or i >= len(stmt) or stmt[i] != "(":
                break
            n = 0
            for j in range(i, len(stmt)):
                if stmt[j] in OPEN:
                    n += 1
                elif stmt[j] in CLOSE:
                    n -= 1
                    if n == 0:
                        break
            if j != len(stmt) - 1:
                break
            stmt = stmt[:i] + stmt[i + 1:-1]
        out += stmt + ["\n"]
        stmt = []
    return out[:-1]


def no_trailing(toks):
    return [t for i, t in enumerate(toks) if t != "," or toks[i + 1] not in CLOSE]
