"""Documents grown from the example specifications of the repository: some of
their figures, with rows, cells, texts and nested tables moved about."""
import copy, functools, random
from lxml import etree
from . import real, gen
from .stage2 import Case

LIMIT = 9000        # characters of a figure


@functools.cache
def stock():
    """[(title, revision, [figures])] of the examples"""
    res = []
    for f in sorted((real.REPO / "example" / "stage1").glob("*.html")):
        root = etree.parse(str(f), etree.XMLParser(remove_comments=True, huge_tree=True)).getroot()
        title = root.find(".//meta[@data-spec]").get("data-spec")
        rev = root.find(".//meta[@data-revision]").get("data-revision")
        figs = [etree.tostring(t, encoding="unicode", with_tail=False) for t in root.findall("./body/table")]
        figs = [x for x in figs if len(x) < LIMIT]
        if figs:
            res.append((title, rev, figs))
    return res


def texts(t):
    return [e for e in t.iter("span", "p", "td", "th", "li") if e.text and e.text.strip()]


def settled(t):
    """do the cells that span rows meet no gap and no other cell? (where they
    do, it is not settled which place they take in the row)"""
    def num(c, a):
        try:
            return max(1, int(c.get(a, "1")))
        except ValueError:
            return 1
    for tbl in t.iter("table"):
        pend = []           # (column, width, rows left)
        for tr in tbl.iterchildren("tr"):
            tds = list(tr.iterchildren("td"))
            if tr.find("th") is None and tds:
                col, todo, new = 0, sorted(pend), []
                for td in tds + [None]:
                    while todo and todo[0][0] <= col or td is None and todo:
                        c, w, _ = todo.pop(0)
                        if c != col:
                            return False
                        col += w
                    if td is not None:
                        if num(td, "rowspan") > 1:
                            new.append((col, num(td, "colspan"), num(td, "rowspan")))
                        col += num(td, "colspan")
                pend += new
            pend = [(c, w, n - 1) for c, w, n in pend if n > 1]
    return True


class Grower:
    def __init__(self, r, donors):
        self.r, self.g = r, gen.G(r)
        self.donors = donors

    def change(self, t):
        r = self.r
        rows = [x for x in t.iter("tr")]
        cells = [x for x in t.iter("td", "th")]
        k = r.randrange(16)
        if not rows or not cells:
            return
        row, cell = r.choice(rows[1:] or rows), r.choice(cells[1:] or cells)
        ts = texts(t)
        x = r.choice(ts[1:] or ts) if ts else None
        if k == 0 and row.getparent() is not None:
            row.getparent().remove(row)
        elif k == 1:
            row.addnext(copy.deepcopy(row))
        elif k == 2:
            others = [y for y in row.getparent() if y is not row and y.tag == "tr"]
            if others:
                r.choice(others).addnext(row)
        elif k == 3:
            cell.getparent().remove(cell)
        elif k == 4:
            cell.addnext(copy.deepcopy(cell))
        elif k == 5:
            cell.set("colspan", str(r.choice([1, 2, 2, 3])))
        elif k == 6:
            cell.set("rowspan", str(r.choice([1, 2, 2, 3])))
        elif k == 7:
            cell.tag = "th" if cell.tag == "td" else "td"
        elif k == 8 and x is not None:
            x.text = self.g.odd(x.text)
        elif k == 9 and x is not None:
            x.text = r.choice([x.text.upper(), x.text.lower(), x.text.title(), " " + x.text, x.text + " ", "\n" + x.text, x.text.replace(":", " : "), x.text.replace(" ", "\u00a0"), x.text[:len(x.text) // 2]])
        elif k == 10 and x is not None:
            x.text = self.g.keyword() if r.random() < .5 else r.choice(gen.RANGES + gen.VALUES + gen.NAMES + gen.SPECIALS)
        elif k == 11 and len(ts) > 1:
            y = r.choice(ts)
            x.text, y.text = y.text, x.text
        elif k == 12 and x is not None:     # another number
            d = [i for i, ch in enumerate(x.text) if ch.isdigit()]
            if d:
                i = r.choice(d)
                x.text = x.text[:i] + r.choice("0123456789") + x.text[i + 1:]
        elif k == 13:
            inner = [y for y in t.iter("table") if y is not t]
            if inner and r.random() < .7:
                y = r.choice(inner)
                if cell not in list(y.iter("td", "th")):
                    cell.append(y)
            else:
                y = etree.fromstring(r.choice(self.donors))
                if len(etree.tostring(t)) < LIMIT:
                    cell.append(y)
        elif k == 14:
            ps = list(t.iter("p"))
            if ps:
                p = r.choice(ps)
                if r.random() < .5:
                    p.addnext(copy.deepcopy(p))
                else:
                    p.getparent().remove(p)
        elif k == 15 and x is not None and len(x.text) > 1:     # in two pieces
            i = r.randint(1, len(x.text) - 1)
            e = etree.Element("span")
            e.text = x.text[i:]
            x.text = x.text[:i]
            if x.tag == "span":
                x.addnext(e)
            else:
                x.insert(0, e)

    def figure(self, text):
        t = etree.fromstring(text)
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 5])):
            before = copy.deepcopy(t)
            self.change(t)
            if not settled(t):
                t = before
        return etree.tostring(t, encoding="unicode", with_tail=False)


def case(r, ignore=(), **kw):
    title, rev, figs = r.choice(stock())
    donor = r.choice(stock())[2]
    g = Grower(r, [x for x in donor if len(x) < 2500] or donor[:1])
    body = "".join(g.figure(r.choice(figs)) for _ in range(r.randint(1, 3)))
    if r.random() < .2:
        title, rev, _ = r.choice(stock())
    html = ('<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8"/>'
            f'<meta data-spec="{gen.ATT(title)}"/><meta data-revision="{gen.ATT(rev)}"/><title>x</title></head><body>{body}</body></html>\n')
    return Case(html=html, skip=r.random() < .9, ignore=ignore)


def cases(seed, n):
    if not stock():
        return []
    res = []
    for k in range(n):
        c = case(random.Random(f"grown/{seed}/{k}"))
        c.name = f"grown {k}"
        res.append(c)
    return res
