"""Rules over the built-in mapping tables and the shipped mapping files."""
import glob
import os
import re

from engine.framework import REPO
from engine.util import *
import ir
import gsa

QUOTED = re.compile(r'^(<[^<>"]+>|"[^<>"]+")$')
PATTERN = re.compile(r'^@(<.*>|".*"|.*)$')


def ok_include(x):
    return bool(QUOTED.match(x)) or x.startswith('@')


def tables(p):
    out = {}
    for n, d in p.globals.items():
        if 'IncludeMapEntry' in (d.get('cty') or '') and d.get('init') is not None and d['init'][0] == 'list':
            out[n] = d
    return out


def row(r):
    """(from, vis, to, vis) of an initialiser row; visibilities by enumerator name."""
    xs = r[1] if r[0] == 'list' else (r[2] if r[0] == 'k' else [])
    out = []
    for x in xs:
        while x[0] == 'k' and len(x[2]) == 1:
            x = x[2][0]
        if x[0] == 's':
            out.append(x[1])
        elif x[0] == 'e':
            out.append('#' + gsa.short(x[1]))
        elif x[0] in ('null',):
            out.append(None)
        elif x[0] == 'n':
            out.append('#%s' % x[1])
        else:
            out.append(x)
    return out


def builtin_tables(res):
    """tables: built-in rows are quoted, have known visibilities and never contradict each other"""
    p = ir.load_cpp()
    n = 0
    vis = {}
    for name, d in sorted(tables(p).items()):
        sym = 'symbol' in name
        for r in d['init'][1]:
            x = row(r)
            n += 1
            if len(x) < 3 or not isinstance(x[0], str):
                res.bad('tables', d['file'], d['line'], name, 'row %r has an unknown shape' % (x,))
                continue
            src, dst = x[0], x[2]
            if not sym and not ok_include(src):
                res.bad('tables', d['file'], d['line'], name, 'source %r is neither a quoted include nor a pattern' % src)
            if sym and (not src or re.search(r'[<>"\s]', src) and not re.match(r'^operator', src)):
                res.bad('tables', d['file'], d['line'], name, 'symbol %r is not a name' % src)
            if not isinstance(dst, str) or not QUOTED.match(dst):
                res.bad('tables', d['file'], d['line'], name, 'target %r of %r is not a quoted include' % (dst, src))
            if src == dst:
                res.bad('tables', d['file'], d['line'], name, 'row maps %s to itself' % src)
            if not sym and isinstance(x[1], str):
                vis.setdefault(name, {}).setdefault(src, set()).add(x[1])
            if len(x) > 3 and isinstance(x[3], str):
                vis.setdefault(name, {}).setdefault(dst, set()).add(x[3])
    res.need('table_rows', n, 700)
    for name, m in vis.items():
        for h, v in sorted(m.items()):
            v = {y for y in v if re.search(r'rivate|ublic', y)}
            if len(v) > 1:
                d = p.globals[name]
                res.bad('tables', d['file'], d['line'], name, '%s is declared both private and public' % h)


def parse_imp(path):
    """A tolerant parser of the YAML subset of mapping files: list of {key: [..] or str}."""
    text = open(path, encoding='utf-8').read()
    toks = []
    pos = 0
    rx = re.compile(r'\s+|#[^\n]*|(?P<s>"(?:[^"\\]|\\.)*"|\'(?:[^\']|\'\')*\')|(?P<p>[\[\]{},:])|(?P<w>[^\s\[\]{},:#"\']+)')
    line = 1
    while pos < len(text):
        m = rx.match(text, pos)
        if not m:
            raise ValueError('line %d: unexpected %r' % (line, text[pos:pos + 10]))
        if m.group('s') is not None:
            q = m.group('s')
            toks.append(('s', re.sub(r'\\(.)', r'\1', q[1:-1]) if q[0] == '"' else q[1:-1].replace("''", "'"), line))
        elif m.group('p') is not None:
            toks.append((m.group('p'), None, line))
        elif m.group('w') is not None:
            toks.append(('s', m.group('w'), line))
        line += m.group(0).count('\n')
        pos = m.end()
    i = 0

    def peek():
        return toks[i][0] if i < len(toks) else None

    def take(k):
        nonlocal i
        if peek() != k:
            raise ValueError('line %d: expected %s' % (toks[min(i, len(toks) - 1)][2] if toks else 0, k))
        i += 1
        return toks[i - 1]

    def value():
        if peek() == '[':
            take('[')
            out = []
            while peek() != ']':
                out.append(value())
                if peek() == ',':
                    take(',')
                elif peek() != ']':
                    take(']')
            take(']')
            return out
        if peek() == '{':
            t = take('{')
            out = {'_line': t[2]}
            while peek() != '}':
                k = take('s')[1]
                take(':')
                out[k] = value()
                if peek() == ',':
                    take(',')
                elif peek() != '}':
                    take('}')
            take('}')
            return out
        t = take('s')
        return t[1]
    v = value()
    if i != len(toks):
        raise ValueError('line %d: trailing text' % toks[i][2])
    return v


def imp_files(res):
    """mapping files: every shipped .imp file parses, every entry has the documented shape, refs resolve"""
    files = sorted(glob.glob(os.path.join(REPO, '*.imp')))
    res.need('mapping_files', len(files), 10)
    n = 0
    for path in files:
        b = os.path.basename(path)
        try:
            v = parse_imp(path)
        except ValueError as e:
            res.bad('imp', b, 1, b, 'cannot be parsed: %s' % e)
            continue
        if not isinstance(v, list):
            res.bad('imp', b, 1, b, 'is not a list of mappings')
            continue
        vis = {}
        seen = {}
        for e in v:
            n += 1
            if not isinstance(e, dict):
                res.bad('imp', b, 1, b, 'entry %r is not a mapping' % (e,))
                continue
            ln = e.get('_line', 1)
            ks = [k for k in e if k != '_line']
            for k in ks:
                x = e[k]
                if k == 'ref':
                    if not isinstance(x, str) or not os.path.exists(os.path.join(REPO, x)):
                        res.bad('imp', b, ln, b, 'ref to a file that is not shipped: %r' % (x,))
                elif k in ('include', 'symbol'):
                    if not isinstance(x, list) or len(x) != 4 or not all(isinstance(y, str) for y in x):
                        res.bad('imp', b, ln, b, '%s entry %r does not have four values' % (k, x))
                        continue
                    if x[1].lower() not in ('private', 'public') or x[3].lower() not in ('private', 'public'):
                        res.bad('imp', b, ln, b, 'unknown visibility in %r' % (x,))
                    if k == 'include' and not ok_include(x[0]):
                        res.bad('imp', b, ln, b, 'source %r is neither a quoted include nor a pattern' % x[0])
                    if not QUOTED.match(x[2]):
                        res.bad('imp', b, ln, b, 'target %r is not a quoted include' % x[2])
                    if x[0].startswith('@') and k == 'include':
                        try:
                            re.compile(x[0][1:])
                        except re.error as er:
                            res.bad('imp', b, ln, b, 'pattern %r is not a regular expression: %s' % (x[0], er))
                        if not re.search(r'[<"]', x[0]):
                            res.bad('imp', b, ln, b, 'pattern %r can never match a quoted include' % x[0])
                    if x[0] == x[2]:
                        res.bad('imp', b, ln, b, 'maps %s to itself' % x[0])
                    if k == 'include':
                        vis.setdefault(x[0], {}).setdefault(x[1].lower(), ln)
                    vis.setdefault(x[2], {}).setdefault(x[3].lower(), ln)
                else:
                    res.bad('imp', b, ln, b, 'unknown directive %r' % k)
        for h, m in sorted(vis.items()):
            if len(m) > 1 and not h.startswith('@'):
                res.bad('imp', b, max(m.values()), b, '%s is declared both private and public' % h)
    res.need('imp_entries', n, 3000)


def internal_libraries(res):
    """public: no header listed as a public standard header is declared private by a table"""
    p = ir.load_cpp()
    pub = p.globals.get('stdlib_cpp_public_headers')
    if pub is None:
        raise AnalysisBroken('public header list not found')
    names = set(strings(pub['init']))
    res.need('public_headers', len(names), 50)
    for h in sorted(names):
        if not QUOTED.match(h):
            res.bad('public', pub['file'], pub['line'], 'stdlib_cpp_public_headers', '%r is not a quoted include' % h)
    for name, d in tables(p).items():
        if 'symbol' in name:
            continue
        for r in d['init'][1]:
            x = row(r)
            if len(x) > 1 and x[0] in names and isinstance(x[1], str) and 'rivate' in x[1]:
                res.bad('public', d['file'], d['line'], name, 'public header %s is declared private' % x[0])
