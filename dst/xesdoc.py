"""XES documents written by the harness itself (independent of pm4py's exporters)"""
import datetime


def esc(s, q, g=None):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(q, {"\"": "&quot;", "'": "&apos;"}[q])
    s = s.replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")
    if g is None:
        return s.replace(">", "&gt;").replace("\"", "&quot;")
    if not g.flag(0.3):
        s = s.replace(">", "&gt;")
    if g.flag(0.2):
        s = "".join(c if ord(c) < 128 else f"&#x{ord(c):x};" for c in s)
    return s


class Doc:
    """layout: 'free' (any valid XML), 'flat' (double quotes, no comments), 'lines' (one element per line, 'flat');
    values: children of lists are wrapped in <values>"""

    def __init__(self, g, layout, values=True):
        self.g, self.layout, self.values = g, layout, values
        self.free = layout == "free"
        self.nl = "\n" if layout == "lines" else g.pick(["\n", "\n  ", "", "\r\n\t"]) if self.free else g.pick(["\n", ""])
        self.out = []

    def a(self, **kw):
        q = self.g.pick("\"'") if self.free else "\""
        return "".join(f" {k}={q}{esc(v, q, self.g if self.free else None)}{q}" for k, v in kw.items())

    def w(self, s):
        if self.free and self.g.flag(0.03):
            self.out.append("<!-- <event> & <trace> -->" + self.nl)
        self.out.append(s + self.nl)

    def attr(self, k, v):
        ch = None
        if isinstance(v, dict):
            v, ch = v["value"], v["children"]
        if type(ch) is list:
            self.w(f"<list{self.a(key=k)}>")
            if self.values:
                self.w("<values>")
            for x, y in ch:
                self.attr(x, y)
            if self.values:
                self.w("</values>")
            self.w("</list>")
            return
        if isinstance(v, bool):
            t, s = "boolean", "true" if v else "false"
        elif isinstance(v, int):
            t, s = "int", str(v)
        elif isinstance(v, float):
            t, s = "float", repr(v)
        elif isinstance(v, datetime.datetime):
            t, s = "date", v.isoformat()
            if self.g.flag(0.3):
                s = s.replace("+00:00", "Z")
        else:
            t, s = "string", v
        at = self.a(key=k, value=s)
        if ch is None and not (self.free and self.g.flag(0.2)):
            self.w(f"<{t}{at}/>" if self.g.flag(0.5) or not self.free else f"<{t}{at} />")
            return
        self.w(f"<{t}{at}>")
        for x, y in (ch or {}).items():
            self.attr(x, y)
        self.w(f"</{t}>")

    def attrs(self, d):
        for k, v in d.items():
            self.attr(k, v)

    def log(self, log, traces=True):
        head = '<?xml version="1.0" encoding="UTF-8" ?>\n'
        ns = ' xmlns="http://www.xes-standard.org/"' if self.free and self.g.flag(0.4) else ""
        self.w(f'<log xes.version="1.0" xes.features="nested-attributes"{ns}>')
        for n, e in log.extensions.items():
            self.w("<extension" + self.a(name=n, prefix=e["prefix"], uri=e["uri"]) + "/>")
        for sc, at in log.omni_present.items():
            self.w(f'<global scope="{sc}">')
            self.attrs(at)
            self.w("</global>")
        for n, keys in log.classifiers.items():
            s = " ".join("'" + k + "'" for k in keys) if any(" " in k for k in keys) else " ".join(keys)
            self.w("<classifier" + self.a(name=n, keys=s) + "/>")
        self.attrs(log.attributes)
        for tr in log:
            self.w("<trace>")
            self.attrs(tr.attributes)
            for ev in tr:
                self.w("<event>")
                self.attrs(dict(ev))
                self.w("</event>")
            self.w("</trace>")
        self.w("</log>")
        return (head + "".join(self.out)).encode("utf-8")


def place(data, pos, chunk, g, mode):
    """white space so that the byte at pos becomes a multiple of the chunk size (between elements only)"""
    pad = (-pos) % chunk
    if pad == 0:
        return data, pos
    at = data.index(b"?>") + 2
    if mode == "spread":
        ends = [i + 1 for i in range(at, pos) if data[i:i + 1] == b">" and data[i + 1:i + 2] in (b"<", b"\n")]
        if ends:
            at = g.pick(ends)
    fill = (b" " * 79 + b"\n") * (pad // 80 + 1)
    return data[:at] + fill[:pad] + data[at:], pos + pad
