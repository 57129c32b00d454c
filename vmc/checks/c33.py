"""C33: the column reader against the table a file was written from, for all small tables and layouts."""
import itertools
import io
import os
import tempfile

PROP = 'C33'
LEVEL = 'exploration'
RULE = ('every table of up to the bound of rows and columns with every assignment of column kinds, written in every whitespace layout, behind every number of header lines, with every number of extra columns, '
        'read as arrays and as lists, from a real file and from memory, and compared element by element with the table; and every position of a word that cannot be converted or is missing')
ASSUMPTIONS = ['lines hold at least one word (blank lines are not claimed)']


class Cat:
    """A converter with a memory: category codes in order of first appearance."""

    def __init__(self):
        self.seen = []

    def __call__(self, w):
        if w not in self.seen:
            self.seen.append(w)
        return self.seen.index(w)


def hexa(w):
    return int(w, 16)


KINDS = {
    'float': (lambda: float, [('1.5', 1.5), ('-2e-3', -2e-3), ('1e300', 1e300), ('0', 0.), ('-.25', -.25), ('7', 7.)]),
    'int': (lambda: int, [('3', 3), ('-4', -4), ('0', 0), ('9007199254740993', 9007199254740993), ('3', 3), ('12', 12)]),
    'str': (lambda: str, [('ab', 'ab'), ('x', 'x'), ('#long_name-1', '#long_name-1'), ('1.5', '1.5'), ('ab', 'ab'), ('"q"', '"q"')]),
    'complex': (lambda: complex, [('1+2j', 1+2j), ('-1j', -1j), ('2', 2+0j), ('0j', 0j), ('1e3-1j', 1e3-1j), ('5', 5+0j)]),
    'hex': (lambda: hexa, [('ff', 255), ('10', 16), ('0', 0), ('a', 10), ('7', 7), ('1f', 31)]),
    'cat': (Cat, [('red', 0), ('blue', 1), ('red', 0), ('green', 2), ('blue', 1), ('red', 0)]),
    'spec': (lambda: float, [('inf', float('inf')), ('-inf', float('-inf')), ('nan', float('nan')), ('-0.', -0.), ('1', 1.), ('5e-324', 5e-324)]),
}
# (before the first word, between words, after the last word, line end, end of the last line)
LAYOUTS = [('', ' ', '', '\n', '\n'), ('', '\t', '', '\n', ''), ('   ', '  \t ', ' ', '\n', '\n'), ('\t', '   ', '\t\t', '\n', '   \n'),
           ('', ' ', '', '\r\n', '\r\n'), (' ', '     ', '  ', '\n', '')]


def units(tier):
    kinds = sorted(KINDS)
    mr = 6 if tier == 'thorough' else 4
    mc = 4 if tier == 'thorough' else 3
    u = []
    for nc in range(1, mc + 1):
        for first in kinds:
            u.append({'t': 'read', 'nc': nc, 'first': first, 'rows': mr if nc < 4 else 3})
    u.append({'t': 'bad'})
    u.append({'t': 'long'})
    return u


def same(a, b):
    if isinstance(b, float) and b != b:
        return a != a
    return bool(a == b)


def run_unit(unit, ctx):
    from inference.utils.ioutils import read_column_vectors
    d = tempfile.mkdtemp(prefix='c33')
    try:
        go(unit, ctx, read_column_vectors, os.path.join(d, 'table'))
    finally:
        try:
            os.unlink(os.path.join(d, 'table'))
        except OSError:
            pass
        os.rmdir(d)


def text(rows, lay, header):
    b, m, a, e, last = lay
    lines = [h + '\n' for h in header]
    for n, r in enumerate(rows):
        lines.append(b + m.join(r) + a + (e if n < len(rows) - 1 else last))
    return ''.join(lines)


HEAD = [(), ('# one header line',), ('title 1 2', 'x y z')]


def reader(how, t, path, nh):
    if how == 'mem':
        f = io.StringIO(t)
    else:
        with open(path, 'w', newline='') as g:
            g.write(t)
        f = open(path)
    for _ in range(nh):
        f.readline()
    return f


def go(unit, ctx, rcv, path):
    def check(kinds, rows, got, arrays, case):
        from numpy import ndarray
        if not isinstance(got, (list, tuple)) or len(got) != len(kinds):
            ctx.fail('%d columns were asked for, got %r' % (len(kinds), got), case)
        for c, k in enumerate(kinds):
            col = got[c]
            if arrays and not isinstance(col, ndarray):
                ctx.fail('column %d is a %s, not an array' % (c, type(col).__name__), case)
            if len(col) != len(rows):
                ctx.fail('column %d has %d values, the file has %d lines' % (c, len(col), len(rows)), case)
            for r in range(len(rows)):
                if not same(col[r], rows[r][c]):
                    ctx.fail('column %d, line %d: got %r, the file says %r' % (c, r, col[r], rows[r][c]), case)

    if unit['t'] == 'bad':
        for nc in (1, 2, 3):
            for nr in (1, 2, 3):
                for br, bc in itertools.product(range(nr), range(nc)):
                    for how in ('word', 'short'):
                        for arrays in (True, False):
                            rows = [['%d' % (10*r+c) for c in range(nc)] for r in range(nr)]
                            if how == 'word':
                                rows[br][bc] = '1.2.3'
                            else:
                                if bc == 0:
                                    continue
                                rows[br] = rows[br][:bc]
                            t = text(rows, LAYOUTS[0], ())
                            case = {'text': t, 'columns': nc}
                            ctx.at(case)
                            ctx.case()
                            try:
                                got = rcv(io.StringIO(t), [float]*nc, arrays)
                            except Exception as e:
                                ctx.outcome((how, type(e).__name__))
                                continue
                            ctx.fail('a %s was not reported; got %r' % ('word that is no number' if how == 'word' else 'missing column', got), case)
        return
    if unit['t'] == 'long':
        for n in (100, 5000):
            rows = [(repr(i*.25), str(i), 'w%d' % (i % 13)) for i in range(n)]
            vals = [(i*.25, i, 'w%d' % (i % 13)) for i in range(n)]
            for lay in LAYOUTS:
                for how in ('mem', 'file'):
                    for arrays in (True, False):
                        case = {'rows': n, 'layout': lay, 'source': how}
                        ctx.at(case)
                        ctx.case()
                        f = reader(how, text(rows, lay, HEAD[2]), path, 2)
                        got = rcv(f, [float, int, str], arrays)
                        check(['float', 'int', 'str'], vals, got, arrays, case)
                        f.close()
        return
    nc = unit['nc']
    for rest in itertools.product(sorted(KINDS), repeat=nc - 1):
        kinds = (unit['first'],) + rest
        for nr in range(unit['rows'] + 1):
            words = [[KINDS[k][1][r][0] for k in kinds] for r in range(nr)]
            vals = [[KINDS[k][1][r][1] for k in kinds] for r in range(nr)]
            full = nc <= 2 or nr == 2
            for li, lay in enumerate(LAYOUTS):
                for nh in (range(3) if full else (li % 3,)):
                    for extra in ((0, 2) if full else (li % 2,)):
                        ws = [w + ['extra%d' % e for e in range(extra)] for w in words]
                        t = text(ws, lay, HEAD[nh])
                        for how in (('mem', 'file') if nc == 1 and nr < 3 or (nr == 2 and li < 2 and extra == 0) else ('mem',)):
                            for arrays in ((True, False) if full else (bool(li % 2),)):
                                case = {'kinds': kinds, 'text': t, 'header_lines': nh, 'as_arrays': arrays, 'source': how}
                                ctx.at(case)
                                ctx.case()
                                f = reader(how, t, path, nh)
                                conv = [KINDS[k][0]() for k in kinds]
                                got = rcv(f, conv) if arrays and li == 0 else rcv(f, conv, as_arrays=arrays)
                                f.close()
                                check(kinds, vals, got, arrays, case)
                                ctx.outcome((kinds, nr, arrays))
    ctx.sample({'columns': nc, 'first': unit['first']})
