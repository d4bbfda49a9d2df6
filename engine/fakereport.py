"""Captures reports: jinja2 runs unchanged, the conversion to PDF (wkhtmltopdf, a separate program) is replaced by a recorder of the HTML."""
import glob
import re
import sys
import types
from html.parser import HTMLParser

REPORTS = []


class Report(HTMLParser):
    """title of each table -> rows of cell texts (body rows only)"""

    def __init__(self, html, out, kw):
        HTMLParser.__init__(self)
        self.html, self.out, self.kw = html, out, kw
        self.tables, self.heads = {}, {}
        self.title, self.text, self.inside = '', None, None
        self.feed(re.sub(r'<<sym(\d+)>>', r'&lt;&lt;sym\1&gt;&gt;', html))

    def handle_starttag(self, tag, attrs):
        if tag in ('h1', 'h2', 'h3', 'h4'):
            self.text = ''
            self.inside = tag
        elif tag == 'table':
            self.tables.setdefault(self.title, [])
            self.heads.setdefault(self.title, [])
            self.row = None
        elif tag == 'tr':
            self.row = []
        elif tag in ('td', 'th'):
            self.text = ''
            self.inside = tag

    def handle_data(self, d):
        if self.inside:
            self.text += d

    def handle_endtag(self, tag):
        if tag == self.inside:
            t = self.text.strip()
            if tag == 'td':
                self.row.append(t)
            elif tag == 'th':
                self.heads[self.title].append(t)
            else:
                self.title = t
            self.inside = None
        elif tag == 'tr' and self.row:
            self.tables[self.title].append(self.row)


def _jinja(exact):
    if 'jinja2' in sys.modules:
        return
    try:
        import jinja2
    except ImportError:
        for d in glob.glob('/opt/venv/lib/python3*/site-packages'):
            sys.path.append(d)
            try:
                import jinja2
            finally:
                sys.path.remove(d)


def install(exact):
    del REPORTS[:]
    _jinja(exact)
    if not hasattr(sys.modules.get('pdfkit'), 'vfake'):
        pk = types.ModuleType('pdfkit')
        pk.vfake = True
        pk.from_string = lambda html, out=None, *a, **k: REPORTS.append(Report(html, out, k)) or True
        sys.modules['pdfkit'] = pk
    import PyNite.Reporting as R
    if exact:
        R.env.filters['format'] = fmt
    return R, REPORTS


def fmt(value, *args, **kw):
    """the format filter for symbolic values: prints a token that stands for the value"""
    import numpy
    it = iter(args)

    def one(m):
        if m.group(0).endswith('%%'):
            return '%'
        x = next(it)
        if isinstance(x, numpy.ndarray):
            if x.ndim:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            x = x.item()
        if type(x) in (int, float, str, bool):
            return m.group(0) % x
        return format(x, '')
    return re.sub(r'%[-+ #0-9.]*[a-zA-Z%]', one, str(value))
