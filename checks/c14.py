"""C14: damaged saves are refused."""
import re

from checks.c13 import CF, SETUP, cluster_args, extraction_args, heap
from sa.check import *

EXPL = """The readers are interpreted on the text that the writers produce for a cluster and two extractions with unknown values, damaged at one line:
the outcome of each must be the package's format error."""
OPTIONAL = ("free", "removable", "static_owner", "extension", "supersample")


def damaged(text):
    """(what is damaged, text) for each damage a reader must notice."""
    lines = text.split("\n")

    def without(k, *new):
        return "\n".join(lines[:k] + list(new) + lines[k + 1:])
    rows = False
    place = "the head"
    for k, l in enumerate(lines):
        field = re.match(r"(\w+)=", l)
        if l.startswith("#"):
            rows = rows and l.startswith("#L")
            rows = rows or l.startswith("#L")
            if not l.startswith("#L"):
                place = l.strip("# ")
                if "produced" not in place and not re.search(r"InitialPeak$|ModelPeak$|Function \d|PDF", place):
                    yield "line %d: no heading %s" % (k, place), without(k)
            else:
                yield "line %d: no names of the columns" % k, without(k)
                if len(l.split()) > 2:
                    yield "line %d: a column not named" % k, without(k, l[:l.rindex(" ")])
        elif field:
            if field.group(1) not in OPTIONAL:
                yield "line %d: no %s in %s" % (k, field.group(1), place), without(k)
            yield "line %d: %s in %s without =" % (k, field.group(1), place), without(k, l.replace("=", " ", 1))
            yield "line %d: %s in %s not a value" % (k, field.group(1), place), without(k, field.group(0) + "?)")
        elif rows and l.split():
            n = len(l.split())
            yield "line %d: a number missing" % k, without(k, " ".join(l.split()[1:])) if n > 1 else without(k, "1 1")
            yield "line %d: a number too many" % k, without(k, l + " 1")
            yield "line %d: a word for a number" % k, without(k, " ".join(l.split()[:-1] + ["gone"]))


def group(c, kind, h, a):
    cf = Config(**CF)
    r = c.run(c.specfunc("saved", "text_of_" + kind), config=cf, heap=h, args=a, guard=SETUP + [negate(mk("is", sym("cres"), NONE))])
    texts = [x.a[0] for x in subterms(r.outcome) if x.op == "const" and isinstance(x.a[0], str) and "start data" in x.a[0]]
    if len(texts) != 1:
        return c.add("texts of %s" % kind, "-", "?", "%d texts" % len(texts))
    where = c.p.func("PeakExtraction._readstr" if kind == "extraction" else "ModelCluster._factory").where()
    for what, text in damaged(texts[0]):
        args = dict(text=const(text), **({"pdf": a["pdf"]} if kind == "extraction" else {}))
        r = c.run(c.specfunc("saved", "read_" + kind), config=cf, heap=Heap(c.p), args=args)
        c.equal("%s %s" % (kind, what), where, r.outcome, const("refused"), [], Equiv(vocab=("oracle",), narrow=True))


def check(c):
    h, a = heap(c)
    cluster_args(c, h, a, [1], 4, "AIC", [1])
    c.attempt("cluster", group, c, "cluster", h, a)
    for pdf, x in ((False, (("x", "y"), "AIC", 1, 4, (1,), (1,), "fit", True)), (True, (("x", "y", "edy"), "AIC", 1, -4, None, (2,), "extract", False))):
        h, a = heap(c)
        extraction_args(c, h, a, pdf, *x)
        c.attempt("extraction", group, c, "extraction", h, a)
    return c.finish(EXPL, minimum=30)
