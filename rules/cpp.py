"""Structural rules over the C++ sources (and their counterparts elsewhere)."""
import os
import re

from engine import framework
from engine.framework import REPO
from engine.util import *
import ir
import gsa


def prog():
    return ir.load_cpp()


def option_tables(p):
    for f in p.funcs:
        for s in ir.stmts(f.body):
            if s['k'] == 'decl' and re.search(r'(^|\s)option\s*\[', s.get('cty') or '') and s.get('e'):
                rows = []
                for r in s['e'][1]:
                    if r[0] == 'list' and r[1] and r[1][0][0] == 's':
                        rows.append((r[1][0][1], r[1][1][1] if r[1][1][0] == 'n' else None, r[1][3][1] if r[1][3][0] == 'n' else None))
                yield f, s, rows


def options_consistent(res):
    """options: long options, short options and --help text agree"""
    p = prog()
    helptext = '\n'.join(x for f in p.find('PrintHelp') for x in func_strings(f))
    n = 0
    for f, s, rows in option_tables(p):
        vals = {}
        for name, arg, val in rows:
            n += 1
            if val in vals:
                res.bad('options', f.file, s['l'], f.name, 'options --%s and --%s share the code %r' % (vals[val], name, val))
            vals[val] = name
            if '--' + name not in helptext:
                res.bad('options', f.file, s['l'], f.name, '--%s is not described by --help' % name)
        args = {val: arg for _, arg, val in rows}
        for _, e in ir.calls(f):
            if gsa.short(e[1]) == 'getopt_long' and len(e[3]) >= 3:
                short = e[3][2]
                if short[0] == 'v':
                    for s2 in ir.stmts(f.body):
                        if s2['k'] == 'decl' and s2.get('name') == short[1] and s2.get('e'):
                            short = s2['e']
                if short[0] != 's':
                    continue
                for m in re.finditer(r'([A-Za-z])(:{0,2})', short[1]):
                    v = ord(m.group(1))
                    res.count('short_options')
                    if v not in args:
                        res.bad('options', f.file, ir.line_of(e), f.name, 'short option -%s has no long counterpart' % m.group(1))
                    elif args[v] is not None and len(m.group(2)) != args[v]:
                        res.bad('options', f.file, ir.line_of(e), f.name,
                                'short option -%s takes %d-kind argument but --%s takes %d-kind (its handler would read a missing argument)'
                                % (m.group(1), len(m.group(2)), vals[v], args[v]))
    res.need('options', n, 15)


def may_be_zero(e):
    if e[0] == 'n':
        return e[1] == 0
    return True


def exit_sites(res):
    """exit: a success status is only given by --help/--version and by the end of the analysis"""
    p = prog()
    allowed = {'ParseInterceptedCommandlineFlags', 'IwyuAstConsumer::HandleTranslationUnit'}
    n = 0
    for f in p.funcs:
        for s, e in ir.calls(f):
            if gsa.short(e[1]) in ('exit', '_exit', 'quick_exit', '_Exit') and e[2] is None and not e[1].startswith('?'):
                n += 1
                if e[3] and may_be_zero(e[3][0]):
                    for o in owners(p, f):
                        if o not in allowed:
                            res.bad('exit', f.file, ir.line_of(e, s), f.name, 'may end the process with a success status outside the documented places')
    res.need('exit_calls', n, 2)


WRITERS = {'raw_fd_ostream', 'raw_fd_stream', 'ofstream', 'basic_ofstream', 'fstream', 'ToolOutputFile', 'FileOutputBuffer', 'raw_socket_stream'}
WRITE_CALLS = {'fopen', 'freopen', 'open', 'creat', 'mkstemp', 'unlink', 'remove', 'rename', 'link', 'symlink', 'truncate', 'mkdir', 'rmdir', 'chmod', 'system', 'popen',
               'execv', 'execvp', 'execve', 'fork', 'posix_spawn', 'ExecuteAndWait', 'ExecuteNoWait', 'createUniqueFile', 'createTemporaryFile', 'create_directories', 'create_directory',
               'copy_file', 'writeToOutput', 'createOutputFile', 'createDefaultOutputFile', 'overwriteChangedFiles', 'writeFile', 'ExecuteCompilation', 'ExecuteJobs', 'ExecuteCommand',
               'resize_file', 'remove_directories', 'openFileForWrite', 'openFileForReadWrite', 'openNativeFileForWrite', 'setPermissions'}


def no_file_writes(res):
    """read-only: no C++ code opens a file for writing, renames, deletes or runs other programs"""
    p = prog()
    n = 0
    for f in p.funcs:
        for s in list(f.inits or []) + list(ir.stmts(f.body)):
            ty = s.get('cty') or '' if s['k'] == 'decl' else ''
            if ty and any(re.search(r'(^|[:\s])%s\b' % w, ty) for w in WRITERS) and '&' not in ty and '*' not in ty:
                res.bad('read-only', f.file, s['l'], f.name, 'creates a file stream of type %s' % ty)
            for e0 in ir.stmt_exprs(s):
                for e in ir.sub_exprs(e0):
                    if e[0] == 'k':
                        n += 1
                        if any(re.search(r'(^|[:\s])%s\b' % w, e[1]) for w in WRITERS):
                            res.bad('read-only', f.file, s['l'], f.name, 'creates a file stream of type %s' % e[1])
                    if e[0] != 'c':
                        continue
                    n += 1
                    sn = gsa.short(e[1])
                    fl = e[-1] if isinstance(e[-1], dict) else {}
                    if fl.get('repo'):
                        continue
                    if sn in WRITE_CALLS and (e[2] is None or sn not in ('remove', 'link', 'open', 'rename')) and not (sn == 'remove' and len(e[3]) == 3):
                        res.bad('read-only', f.file, ir.line_of(e, s), f.name, 'calls %s' % e[1])
    res.need('calls_scanned', n, 2000)
    r = p.records.get('IwyuAction')
    if r is None:
        raise AnalysisBroken('record IwyuAction not found')
    if not any('ASTFrontendAction' in b for b in r['bases']):
        res.bad('read-only', r['file'], r['line'], 'IwyuAction', 'the frontend action is %s, not a plain AST action' % r['bases'])


def pragmas_documented(res):
    """pragmas: every documented IWYU pragma keyword is recognised by the preprocessor layer"""
    p = prog()
    doc = open(os.path.join(REPO, 'docs', 'IWYUPragmas.md')).read()
    words = set(re.findall(r'^##\s+IWYU pragma: (\w+)', doc, re.M))
    for m in re.findall(r'^##\s+IWYU pragma: (\w+)/(\w+)', doc, re.M):
        words |= set(m)
    lits = set()
    for f in p.funcs:
        if f.file == 'iwyu_preprocessor.cc':
            for s in func_strings(f):
                lits |= set(re.findall(r'\w+', s))
    n = 0
    for w in sorted(words):
        n += 1
        if w not in lits:
            res.bad('pragmas', 'iwyu_preprocessor.cc', 1, 'IwyuPreprocessorInfo', 'documented pragma %r is not recognised anywhere' % w)
    res.need('documented_pragmas', n, 6)


BEGINS = {'begin': 'end', 'tokens_begin': 'tokens_end', 'cbegin': 'cend', 'rbegin': 'rend', 'find': 'end', 'lower_bound': 'end', 'upper_bound': 'end',
          'param_begin': 'param_end', 'arg_begin': 'arg_end'}
ENDS = set(BEGINS.values())


def iterator_container(res):
    """iterators: an iterator is only compared with, or passed along with, the container it came from"""
    p = prog()
    n = 0
    for f in p.funcs:
        org = {}
        multi = set()
        for s in ir.stmts(f.body):
            if s['k'] == 'decl' and s.get('e') is not None:
                e = s['e']
                while e[0] == 'k' and len(e[2]) == 1:
                    e = e[2][0]
                if e[0] == 'v' and e[2] in org and 'iterator' in (s.get('cty') or ''):
                    org[s['id']] = org[e[2]]
                elif e[0] == 'c' and gsa.short(e[1]) in BEGINS and e[2] is not None and ('iterator' in (s.get('cty') or '') or 'tokens' in e[1]):
                    org[s['id']] = (strip(e[2]), gsa.short(e[1]))
        if not org:
            continue
        for e in ir.all_exprs(f):
            if e[0] == 'o' and e[1] == '=' and is_e(e[2][0], 'v'):
                multi.add(e[2][0][2])
        for s, e0 in ir.func_exprs(f):
            for e in ir.sub_exprs(e0):
                if e[0] == 'o' and e[1] in ('==', '!=') and len(e[2]) == 2:
                    for a, b in ((e[2][0], e[2][1]), (e[2][1], e[2][0])):
                        if a[0] == 'v' and a[2] in org and a[2] not in multi and b[0] == 'c' and gsa.short(b[1]) in ENDS and b[2] is not None:
                            n += 1
                            if strip(b[2]) != org[a[2]][0]:
                                res.bad('iterators', f.file, ir.line_of(e, s), f.name, 'iterator %s is compared with the end of another container' % a[1])
                if e[0] == 'c' and gsa.short(e[1]) == 'GetNextMacroTokenKind' and len(e[3]) == 2 and e[3][1][0] == 'v' and e[3][1][2] in org:
                    n += 1
                    if strip(e[3][0]) != org[e[3][1][2]][0]:
                        res.bad('iterators', f.file, ir.line_of(e, s), f.name,
                                'iterator %s over one macro body is passed together with another macro' % e[3][1][1])
    res.need('iterator_uses', n, 3)


def desired_writers(res):
    """desired: is-desired marks are set and cleared only by the deciding steps"""
    p = prog()
    allowed = {'IwyuFileInfo::AddForwardDeclare', 'IwyuFileInfo::AddInclude', 'CalculateDesiredIncludesAndForwardDeclares', 'ClearDesiredForSurplusIncludesOrForwardDeclares', 'CleanupPrefixHeaderIncludes',
               'OneIncludeOrForwardDeclareLine::set_desired', 'OneIncludeOrForwardDeclareLine::clear_desired',
               'OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine', 'IwyuFileInfo::ResolvePendingAnalysis', 'IwyuFileInfo::CalculateAndReportIwyuViolations',
               'IwyuFileInfo::HandlePreprocessingDone', 'IwyuFileInfo::CalculateIwyuViolations', 'PrintableDiffs'}
    n = 0
    for f in p.funcs:
        for s, e0 in ir.func_exprs(f):
            for e in ir.sub_exprs(e0):
                w = is_call(e, 'set_desired', 'clear_desired') or e[0] == 'o' and e[1] == '=' and is_e(e[2][0], 'f') and e[2][0][2] == 'is_desired_'
                if w:
                    n += 1
                    for o in owners(p, f):
                        if o not in allowed:
                            res.bad('desired', f.file, ir.line_of(e, s), f.name, 'changes whether a line is desired outside the deciding steps')
    res.need('desired_writes', n, 4)


def py_regexes(file):
    """Constant regular expressions of a script: [(line, pattern)]."""
    q = ir.load_py(file)
    out = []
    for d in q.globals.values():
        if d.get('init') is not None:
            for e in ir.sub_exprs(d['init']):
                if e[0] == 'c' and e[1] == 'compile' and e[3] and e[3][0][0] == 's':
                    out.append((d['line'], e[3][0][1]))
    for f in q.funcs:
        for s, e in ir.calls(f):
            if gsa.short(e[1]) in ('compile', 'match', 'search', 'fullmatch', 'sub', 'findall') and e[3] and e[3][0][0] == 's':
                out.append((ir.line_of(e, s), e[3][0][1]))
    return out


def report_matches_parser(res):
    """format: each sentence IWYU prints is the one fix_includes.py recognises, and only by the section it opens"""
    p = prog()
    lits = [(f, s) for f in p.funcs if f.file in ('iwyu_output.cc', 'iwyu_output.h') for s in func_strings(f)]
    rx = [r for _, r in py_regexes('fix_includes.py')]
    n = 0
    for frag, fmt in (('should add these lines', '%s'), ('should remove these lines', '%s'), ('The full include-list for ', None), ('has correct #includes', '%s')):
        hit = [(f, s) for f, s in lits if frag in s]
        if not hit:
            res.bad('format', 'iwyu_output.cc', 1, 'PrintableDiffs', 'no sentence containing %r is printed any more' % frag)
            continue
        for f, s in hit:
            if '/' in s[:2]:
                continue
            n += 1
            line = s.strip('\n')
            if frag.startswith('The full'):
                line = line + 'dir/a b.cc:' if line.endswith('for ') else line
                line = '---' + line if False else line
            elif line.startswith(' '):
                line = 'dir/a b.cc' + line
            elif line.startswith('('):
                line = line + ('' if line.rstrip().endswith(')') else '')
                if 'dir' not in line:
                    line = re.sub(r'^\(', '(dir/a b.cc' if line.startswith('( ') else '(', line)
            ok = [r for r in rx if r.count('(') and re.search(r, line)]
            if not ok:
                res.bad('format', f.file, f.line, f.name, 'no pattern of fix_includes.py recognises the line %r' % line)
    seps = [s for f, s in lits if s.strip('\n') == '---']
    res.need('format_sentences', n, 4)
    if not seps:
        res.bad('format', 'iwyu_output.cc', 1, 'PrintableDiffs', 'records are not closed with --- any more')
    elif not any(re.search(r, '---') and not re.search(r, 'x') for r in rx):
        res.bad('format', 'fix_includes.py', 1, 'IWYUOutputParser', 'the record terminator --- is not recognised')


def extension_lists(res):
    """extensions: the source-file extensions known to IWYU and to fix_includes.py are the same"""
    p = prog()
    q = ir.load_py('fix_includes.py')

    def exts(inits):
        best = set()
        for d in inits:
            xs = set(strings(d))
            if len(xs) >= 5 and '.cc' in xs and '.h' not in xs and all(re.match(r'^\.[A-Za-z+]+$', x) for x in xs):
                best |= xs
        return best
    a = exts([d['init'] for d in p.globals.values() if d.get('init') is not None and d['file'].startswith('iwyu_path_util')]
             + [s['e'] for f in p.funcs if f.file == 'iwyu_path_util.cc' for s in ir.stmts(f.body) if s['k'] == 'decl' and s.get('e') is not None])
    b = exts([d['init'] for d in q.globals.values() if d.get('init') is not None]
             + [s['e'] for f in q.funcs for s in ir.stmts(f.body) if s.get('e') is not None and isinstance(s['e'], list)])
    if not a or not b:
        raise AnalysisBroken('source extension lists not found (%d, %d)' % (len(a), len(b)))
    res.count('extensions_compared', len(a | b))
    for x in sorted(a ^ b):
        res.bad('extensions', 'iwyu_path_util.cc' if x in b else 'fix_includes.py', 1, 'source extensions',
                'extension %s is a source file for only one of IWYU and fix_includes.py' % x)


def scalar_local(f, vid):
    for s in ir.stmts(f.body):
        if s['k'] == 'decl' and s['id'] == vid:
            return bool(gsa.SCALARTY.match(s.get('cty') or s.get('ty') or ''))
    return False


def verbosity_only_logs(res):
    """verbosity: code guarded by the verbosity level only produces diagnostics"""
    p = prog()
    import spec
    pur = spec.purity(p)
    n = 0
    logf = {'EmitWarningMessages'}
    for f in p.funcs:
        if f.file in ('iwyu_verrs.cc', 'iwyu_verrs.h', 'iwyu_port.h'):
            continue
        for s in ir.stmts(f.body):
            if s['k'] == 'log':
                n += 1
            if s['k'] != 'if' or s.get('c') is None:
                continue
            if not any(is_call(x, 'ShouldPrint', 'GetVerboseLevel') for x in ir.sub_exprs(s['c'])):
                continue
            n += 1
            for br in ('t', 'f'):
                inner = {s2['id'] for s2 in ir.stmts(s.get(br)) if s2['k'] == 'decl'}
                for s2 in ir.stmts(s.get(br)):
                    for e in (x for e0 in ir.stmt_exprs(s2) for x in ir.sub_exprs(e0)):
                        if e[0] == 'o' and (e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') or e[1] in ('++', '--', 'p++', 'p--')) \
                                and is_e(e[2][0], 'v') and e[2][0][2] not in inner and scalar_local(f, e[2][0][2]):
                            res.bad('verbosity', f.file, ir.line_of(e, s2), f.name, 'counts or decides something only at some verbosity levels')
                    if s2['k'] in ('ret', 'break', 'continue') and br == 't':
                        pass
                    for e0 in ir.stmt_exprs(s2):
                        for e in ir.sub_exprs(e0):
                            if e[0] == 'o' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') and is_e(e[2][0], 'f'):
                                res.bad('verbosity', f.file, ir.line_of(e, s2), f.name, 'changes state only at some verbosity levels')
                            if e[0] == 'c' and isinstance(e[-1], dict) and e[-1].get('repo') and pur.effects_of(e[1], sig=e[-1].get('sig')) and \
                                    'X' in pur.effects_of(e[1], sig=e[-1].get('sig')) and gsa.short(e[1]) not in ('errs',) and \
                                    not re.search(r'^(Print|Log|Printable|PrintableL|Dump)', gsa.short(e[1])):
                                res.bad('verbosity', f.file, ir.line_of(e, s2), f.name, 'calls %s, which has effects, only at some verbosity levels' % e[1])
    res.need('verbosity_guards', n, 20)


def report_matches_tool(res):
    """tool format: the sentences iwyu_tool.py reformats are those IWYU prints"""
    p = prog()
    lits = [s for f in p.funcs if f.file in ('iwyu_output.cc', 'iwyu_output.h') for s in func_strings(f)]
    rx = [r for _, r in py_regexes('iwyu_tool.py')]
    n = 0
    for frag, sample in (('should add these lines', 'a.cc should add these lines:'), ('should remove these lines', 'a.cc should remove these lines:')):
        if not any(frag in s for s in lits):
            res.bad('tool-format', 'iwyu_output.cc', 1, 'PrintableDiffs', 'no sentence containing %r is printed any more' % frag)
        n += 1
        if not any(re.search(r, sample) for r in rx if not re.search(r, 'xyz')):
            res.bad('tool-format', 'iwyu_tool.py', 1, 'clang_formatter', 'no pattern recognises %r' % sample)
    res.need('tool_sentences', n, 2)
