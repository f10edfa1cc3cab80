"""Structural rules over the Python tools."""
import re

from engine.util import *
import ir
import gsa

F = 'fix_includes.py'
FS_WRITE = {'remove', 'unlink', 'rename', 'replace', 'truncate', 'rmdir', 'makedirs', 'mkdir', 'chmod', 'symlink', 'link', 'system', 'popen',
            'removedirs', 'renames', 'startfile', 'utime'}


def const_arg(f, e, prog):
    if e is None:
        return None
    if e[0] == 's':
        return e[1]
    if e[0] == 'g':
        d = prog.globals.get(e[1])
        return d['init'][1] if d and d.get('init') and d['init'][0] == 's' else None
    return None


def open_mode(e):
    """Mode argument expression of an open() call."""
    fl = e[-1] if isinstance(e[-1], dict) else {}
    if len(e[3]) > 1:
        return e[3][1]
    return (fl.get('kw') or {}).get('mode')


def writes(prog, file):
    """(func, stmt, call, what) for every call that can change the file system."""
    out = []
    n = 0
    for f in prog.funcs:
        for s, e in ir.calls(f):
            n += 1
            sn = gsa.short(e[1])
            base = e[2]
            if sn == 'open':
                m = open_mode(e)
                c = 'r' if m is None else const_arg(f, m, prog)
                if c is None or re.search(r'[wax+]', c):
                    if base is None or (base[0] == 'g' and base[1] in ('io', 'codecs', 'os')):
                        out.append((f, s, e, 'opens a file for writing'))
            elif base is not None and base[0] == 'g' and base[1] in ('os', 'shutil', 'os.path') and (sn in FS_WRITE or base[1] == 'shutil'):
                out.append((f, s, e, 'calls %s.%s' % (base[1], sn)))
            elif sn in ('write_text', 'write_bytes'):
                out.append((f, s, e, 'calls ' + sn))
    return out, n


def write_sites(res):
    """writes: fix_includes.py changes the file system only in its one write routine, reached only from the fix loop"""
    q = ir.load_py(F)
    ws, n = writes(q, F)
    res.need('calls_scanned', n, 300)
    res.need('write_sites', len(ws), 1)
    for f, s, e, what in ws:
        for o in owners(q, f):
            if o != '_WriteFile':
                res.bad('writes', f.file, ir.line_of(e, s), f.name, '%s outside the write routine' % what)
    for f in q.funcs:
        for s, e in ir.calls(f):
            if gsa.short(e[1]) == '_WriteFile':
                res.count('write_callers')
                for o in owners(q, f):
                    if o != 'FixManyFiles':
                        res.bad('writes', f.file, ir.line_of(e, s), f.name, 'rewrites a file outside the fix loop')


def encode_before_open(res):
    """truncation: nothing that can fail on the text (encoding, joining) happens after a file was opened for writing"""
    q = ir.load_py(F)
    ws, n = writes(q, F)
    k = 0
    for f, s0, e0, what in ws:
        if gsa.short(e0[1]) != 'open':
            continue
        k += 1
        seen = False
        for s, ex in ir.func_exprs(f):
            for e in ir.sub_exprs(ex):
                if e is e0:
                    seen = True
                elif seen and e[0] == 'c' and gsa.short(e[1]) in ('encode', 'join', 'dumps'):
                    res.bad('truncation', f.file, ir.line_of(e, s), f.name,
                            '%s() can fail after the file was opened (and truncated) for writing: its contents would be lost' % gsa.short(e[1]))
        m = open_mode(e0)
        c = const_arg(f, m, q) if m is not None else 'r'
        if c is not None and 'b' not in c:
            res.bad('truncation', f.file, ir.line_of(e0, s0), f.name, 'opens the output in text mode: line endings or encoding can change, and encoding fails after truncation')
    res.need('write_opens', k, 1)


def deleted_writers(res):
    """deletions: lines are marked deleted only by the deleting steps"""
    q = ir.load_py(F)
    allowed = {'LineInfo.__init__', '_DeleteEmptyNamespaces', '_DeleteEmptyIfdefs', '_DeleteDuplicateLines', '_DeleteExtraneousBlankLines',
               '_DeleteLinesAccordingToIwyu', 'FixFileLines'}
    n = 0
    for f in q.funcs:
        for s, ex in ir.func_exprs(f):
            for e in ir.sub_exprs(ex):
                if e[0] == 'o' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') and is_e(e[2][0], 'f') and e[2][0][2] == 'deleted':
                    n += 1
                    for o in owners(q, f):
                        if o not in allowed:
                            res.bad('deletions', f.file, ir.line_of(e, s), f.name, 'marks lines as deleted outside the deleting steps')
                if e[0] == 'c' and e[1] == 'setattr':
                    n += 1
    res.need('deletion_marks', n, 3)
