"""Source text as tokens: the same program in another layout or with other names, and where every token went."""
import re

# the tokens of NULLC/Lexer.cpp; comments and white space are separators
TOK = re.compile(r'"(?:[^"\\]|\\.)*"?|\'(?:[^\'\\]|\\.)*\'?|0x\w*|\d+\.?\d*(?:e-?\d*)?\w*|[A-Za-z_]\w*|\*\*=|<<=|>>=|\*\*|<<|>>|&&|\|\||\^\^|[-+*/%&|^=!<>]=|\+\+|--|.', re.S)
SEP = re.compile(r'(?:[ \t\r\n]|//[^\n]*(?:\n|$))+')

class BadText(Exception): pass

def tokenize(code):
    """[(text, line)] with lines from 1, and whether a separator precedes the token"""
    out = []; glue = []; p = 0; line = 1; n = len(code); sep = True
    while p < n:
        m = SEP.match(code, p)
        if m:
            line += m.group(0).count("\n"); p = m.end(); sep = True
            if "\r" in m.group(0).replace("\r\n", "\n"): raise BadText()
            continue
        if code.startswith("/*", p):
            d = 1; p += 2
            while p < n and d:
                if code.startswith("/*", p): d += 1; p += 2
                elif code.startswith("*/", p): d -= 1; p += 2
                elif code[p] == '"': raise BadText()
                else:
                    if code[p] == "\n": line += 1
                    p += 1
            sep = True
            continue
        m = TOK.match(code, p)
        t = m.group(0)
        if "\n" in t or "\r" in t or "\0" in t or ord(t[0]) < 32: raise BadText()
        out.append((t, line)); glue.append(not sep); sep = False
        p = m.end()
    return out, glue

WORD = re.compile(r"[\w]")
SAFE = set("(){};,[]")
def joinable(a, b):
    """a and b can be written next to each other"""
    return a in SAFE or b in SAFE

COMMENT = ["/* c */", "/**/", "/* a /* b */ c */", "/* if(x){ return 1; */", "/***/", "/* // */", "/* 'x */", "/* \"s */ t\" */"]
def comment(src, nl=None, depth=0):
    """a block comment built from words, nested comments and strings with escapes; nl None: on one line"""
    s = ""
    for _ in range(src.i(5)):
        k = src.i(12)
        if k < 3: s += src.pick(["x", " a b ", "return 1;", "}", "{ if(", "1.5e", "'", "#", "\\"])
        elif k < 4: s += src.pick(["* ", "** ", "//", " / ", "/ ", "*"])
        elif k < 6 and depth < 3: s += comment(src, nl, depth + 1)
        elif k < 7 and nl: s += nl
        elif k < 11:
            q = ""
            for _ in range(src.i(5)): q += src.pick(["a", " ", "*/", "/*", '\\"', "\\\\", "\\n", "'", "//", "*", "/"] + ([nl, nl] if nl else []))
            s += '"' + q + '"'
        else: s += " "
    return "/* " + s + " */"

def good_comment(c):
    """the text is exactly one block comment by the rules of the lexer"""
    d = 0; i = 0; n = len(c)
    while i < n:
        if c.startswith("/*", i): d += 1; i += 2
        elif c.startswith("*/", i):
            d -= 1; i += 2
            if d == 0: return i == n
        elif c[i] == '"':
            i += 1
            while i < n and c[i] != '"': i += 2 if c[i] == "\\" else 1
            i += 1
        else: i += 1
    return False

def any_comment(src, nl=None):
    if src.p(50): return src.pick(COMMENT)
    c = comment(src, nl)
    return c if good_comment(c) else src.pick(COMMENT)

LINECOM = ["// c", "//", "// } ) ] \"", "// /* ", "///* x", "// return 1;"]

def layout(toks, glue, src, style):
    """the program in another layout: (text, line of every token)
    style: explode = every token on its own line, spaces, lines, mixed, oneline"""
    nl = "\n"
    if style != "explode" and src.p(25): nl = "\r\n"
    out = []; lines = []; line = 1
    for i, (t, _) in enumerate(toks):
        if i == 0: s = ""
        elif style == "explode": s = "\n"
        else: s = "" if (glue[i] or joinable(toks[i - 1][0], t)) else " "
        if style != "explode" and (i or src.p(50)):
            k = src.i(100)
            dense = {"spaces": 50, "lines": 40, "mixed": 30, "oneline": 4, "sparse": 6}[style]
            if k < dense:
                for _ in range(src.w([(6, 1), (3, 2), (1, 5)])):
                    q = src.i(8)
                    if style == "spaces" or style == "oneline": s += src.pick([" ", "  ", "\t", " \t ", any_comment(src)])
                    elif q < 3: s += nl
                    elif q < 4: s += nl + " " * src.i(40)
                    elif q < 5: s += " " + src.pick(LINECOM) + nl
                    elif q < 6: s += " " + any_comment(src, nl) + " "
                    elif q < 7: s += "/*" + nl * (1 + src.i(3)) + "*/"
                    else: s += src.pick([" ", "\t", "   "])
        line += s.count("\n")
        # a comment start must not be made out of two tokens
        if out and s == "" and (out[-1] + t)[-2 - len(t):] and out[-1][-1:] == "/" and t[:1] in "/*": s = " "
        if out and s.startswith("/") and out[-1][-1:] in "/*": s = " " + s
        out.append(s); out.append(t); lines.append(line)
    text = "".join(out)
    if style != "explode" and src.p(40):
        text += src.pick(["\n", "\r\n", " ", "\n\n\n", " // end", " /* end */", "\n/* a\nb */\n"])
    return text, lines

FIRST = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
REST = FIRST + "0123456789"
def fresh(src, used, glob):
    """a new identifier; only names of global variables start with g"""
    for _ in range(20):
        k = src.w([(5, 0), (3, 1), (2, 2), (2, 3), (1, 4)])
        f = "g" if glob else src.pick(FIRST.replace("g", ""))
        if k == 0: s = f + "".join(src.pick(REST) for _ in range(1 + src.i(2)))
        elif k == 1: s = f + "".join(src.pick(REST) for _ in range(3 + src.i(8)))
        elif k == 2: s = f + src.pick("_xa0") * (1 + src.i(60)) + src.pick(REST)
        elif k == 3: s = f + src.pick(["value", "Item", "result", "in_put", "int_", "ref1", "class_", "If", "FOR", "return_", "autoX", "_", "__", "true_"]) + str(src.i(3))
        else: s = f + "".join(src.pick(REST) for _ in range(100 + src.i(300)))
        if s not in used:
            used.add(s); return s
    n = 0
    while "%sz%d" % (f, n) in used: n += 1
    used.add("%sz%d" % (f, n)); return "%sz%d" % (f, n)

ATLINE = re.compile(r"at line (\d+): '")
def message_parts(err):
    """(text of the messages without the quoted source, [lines])"""
    lines = []; out = []; skip = False
    for l in (err or "").replace("\r", "").split("\n"):
        m = ATLINE.search(l)
        if m: lines.append(int(m.group(1))); out.append("  at line"); skip = True; continue
        if skip:
            # the quoted source ends with a line that marks the place
            if l.strip() == "^": skip = False
            if not l.startswith("ERROR"): continue
        skip = False
        if l.startswith(" [in module") and lines: lines.pop()
        out.append(l)
    return "\n".join(out).strip(), lines
