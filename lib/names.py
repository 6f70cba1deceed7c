"""Odd file names."""
import os

import jpgen as g

STEMS = ["image", "a b", "ünïcödé", "日本語", "quote'd", 'dq"uo', "a&b", "<tag>", "]]>", "a;b", "$x",
         "tab\tin", "new\nline", "cr\rin", "bell\x07", "esc\x1b[31m", "del\x7f", "c1\x85\x9f", "\u2028ls",
         "nonchar\uffff", "\ufdd0", "emoji\U0001f600", "\ufeffbom", "star*", "br[a]ck", "q?", "{b}", "~t",
         "per%41cent", "..hidden", ".dot", "very" * 30, "&amp;", "<!--", "?>", "-dash", "--mix", "#", "a\\b",
         "\u202ertl", "comb\u0301", "\xa0nbsp", " lead", "trail ", "\x01\x02", "xmlns:mix", "%s%d", "None"]
BYTES = [b"\xff\xfe", b"latin\xe9", b"\xed\xa0\x80sur", b"\xc3(", b"\xf5\x80", b"ok\x80", b"\xe9t\xe9"]
EXT = [".jp2", ".JP2", "", ".jph", ".j2c", ".xml", ".jp2.jp2", ".tif"]


def name(r, maxlen=200):
    """One file name (str, possibly with surrogate escapes)."""
    if r.random() < 0.15:
        s = os.fsdecode(r.choice(BYTES))
    else:
        s = r.choice(STEMS)
        if r.random() < 0.2:
            s += r.choice(STEMS)
    s = s.replace("/", "_").replace("\0", "_") + r.choice(EXT)
    while len(os.fsencode(s)) > maxlen:
        s = s[:-1]
    return s if s not in ("", ".", "..") else "x"


def xml_visible(s):
    """How a name can be shown in XML: surrogates as '?', illegal characters removed."""
    try:
        s.encode("utf-8")
    except UnicodeEncodeError:
        s = s.encode("utf-8", "replace").decode("utf-8")
    return "".join(c for c in s if c in "\t\n\r" or 0x20 <= ord(c) <= 0xD7FF or
                   0xE000 <= ord(c) <= 0xFFFD or ord(c) >= 0x10000)
