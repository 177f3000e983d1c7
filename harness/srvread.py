"""What the server's responses say: numbers for models, HTML models, reports."""
import hashlib, io, json, re
from html.parser import HTMLParser
from lxml import etree
from . import real

KEEP = {}


def digest(o):
    return int(hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:7], 16) + 1


def model_number(data):
    rec = real.canon_model(data, 0)
    del rec["why"], rec["exit"]
    return digest(rec)


def canon(e):
    """an element, whatever the white space around its children"""
    return [e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [[canon(c), (c.tail or "").strip()] for c in e if isinstance(c.tag, str)]]


def fragment(s):
    try:
        return canon(etree.fromstring(s.encode("utf-8"), etree.XMLParser(huge_tree=True)))
    except etree.XMLSyntaxError:
        return ["unreadable", s[:50]]


def html_root(data):
    return etree.parse(io.BytesIO(data), etree.XMLParser(huge_tree=True)).getroot()


def html_number(data):
    """specification, revision and body of an HTML model (its name is that of the upload)"""
    try:
        r = html_root(data)
        metas = [sorted(m.attrib.items()) for m in r.iter("meta")]
        return digest([metas, canon(r.find("./body"))])
    except (etree.XMLSyntaxError, AttributeError):
        return 7


class Scripts(HTMLParser):
    def __init__(self):
        super().__init__()
        self.inside, self.text = False, ""

    def handle_starttag(self, tag, attrs):
        self.inside = tag == "script"

    def handle_endtag(self, tag):
        self.inside = False

    def handle_data(self, data):
        if self.inside:
            self.text += data


def literals(page):
    """the JSON objects that the page's scripts contain"""
    p = Scripts()
    p.feed(page)
    dec, res, i = json.JSONDecoder(), [], 0
    t = p.text
    for m in re.finditer(r"[=:(,]\s*(?=[{])", t):
        if m.end() < i:
            continue
        try:
            v, j = dec.raw_decode(t, m.end())
        except ValueError:
            continue
        i = j
        res.append(v)
    return res


def report(page):
    """model and figures (id -> HTML) that a report page carries"""
    model, figures = None, None
    for v in literals(page):
        if isinstance(v, dict) and "meta" in v and "entities" in v:
            model = v if model is None else model
        elif isinstance(v, dict) and all(isinstance(x, str) for x in v.values()) and (not v or all(x.lstrip().startswith("<") for x in v.values())):
            figures = v if not figures else figures
    return model, figures


def report_summary(page):
    """its model's number, and the number of each figure's HTML"""
    model, figures = report(page)
    if model is None:
        return {"num": 3, "figs": []}
    return {"num": model_number(json.dumps(model).encode()), "figs": [{"key": k, "num": digest(fragment(x))} for k, x in sorted((figures or {}).items())]}


def table_numbers(html):
    """[id, number] of the top-level tables"""
    return [[t.get("id"), digest(fragment(etree.tostring(t, encoding="unicode", with_tail=False)))] for t in html_root(html).findall("./body/table")]


class Summaries:
    def number(self, kind, body):
        k = (kind, hashlib.sha256(body).digest())
        if k not in KEEP:
            if len(KEEP) > 20000:
                KEEP.clear()
            try:
                KEEP[k] = {"json": model_number, "html": html_number, "report": lambda b: report_summary(b.decode("utf-8"))}[kind](body)
            except Exception:
                KEEP[k] = 5
        return KEEP[k]
