"""The properties, what decides them, and what is not claimed.

Each property lists the functions whose decision tables (spec/<ID>.json) it
consists of, and the structural rules (rules/*.py) that state facts spanning
several functions, files or languages.
"""
import collections

from engine.framework import T
from rules import cpp as RC
from rules import py as RP
from rules import data as RD

PROPS = collections.OrderedDict()
NA = collections.OrderedDict()

LEVEL_NOTE = ('Sound for the modelled effects of the listed functions up to the stated abstraction (generic loop iteration, '
              'uninterpreted library calls, no aliasing between distinct access paths): every feasible combination of the '
              'branch predicates is compared, not a sample. The specification tables are committed and reviewed by hand; the trusted base is '
              'clang 20 as parser, the extractor (engine/irdump.cc, engine/ir.py), the summariser (engine/gsa.py) and the BDD package.')
NOTES = 'All checks share one source model of /repo (clang 20 tooling for C++, the ast module for Python), rebuilt when any source changes.'

TESTS = 'The repository tests that run here cover five string helpers; '


def fns(file, names, **kw):
    return [T('%s:%s' % (file, n), **kw) for n in names.split()]


def P(pid, title, statement, over, text, why, tables, rules=(), explain='', files=(), mech=()):
    fs, seen, mm = [], set(), []
    for t in tables:
        if t.file not in fs:
            fs.append(t.file)
        if t.func not in seen:
            seen.add(t.func)
            mm.append({'name': t.func, 'where': t.file})
    for f in files:
        if f not in fs:
            fs.append(f)
    for r in rules:
        mm.append({'name': 'rule ' + r.__name__, 'where': (r.__doc__ or '').strip().split('\n')[0]})
    for m in mech:
        mm.append(m)
    assert len(title) <= 80, title
    assert len(tables) or len(rules)
    PROPS[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why=TESTS + why if not why.startswith('!') else why[1:],
                      tables=tables, rules=list(rules), explain=explain or statement,
                      anchors={'files': fs or ['iwyu.cc'], 'mechanism': mm[:40]})


def N(pid, title, statement, over, text, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why=why,
                   anchors={'files': files, 'mechanism': mech}, reason=reason)


G = 'iwyu_globals.cc'
D = 'iwyu_driver.cc'
PK = 'iwyu_include_picker.cc'
PP = 'iwyu_preprocessor.cc'
O = 'iwyu_output.cc'
OH = 'iwyu_output.h'
A = 'iwyu.cc'
U = 'iwyu_ast_util.cc'
UH = 'iwyu_ast_util.h'
LX = 'iwyu_lexer_utils.cc'
LOC = 'iwyu_location_util.cc'
LOCH = 'iwyu_location_util.h'
PA = 'iwyu_path_util.cc'
ST = 'iwyu_string_util.h'
SL = 'iwyu_stl_util.h'
F = 'fix_includes.py'
W = 'iwyu_tool.py'

# ------------------------------------------------------------------ driver

P('C01', 'Every -Xiwyu option has exactly its documented effect',
  'Each option passed through -Xiwyu sets exactly the setting its documentation names, to the value given, validates its argument '
  '(rejecting malformed numbers and unknown values with a diagnostic and a failing exit), and leaves every other setting at its documented default. '
  '--help/--version, given before or after other options, print and exit successfully; arguments not meant for IWYU reach the compiler unchanged and in order.',
  ['inputs', 'configurations'], 'every command line, every combination and order of options',
  'no test enumerates option combinations, malformed values or the pass-through of compiler arguments.',
  fns(G, 'CommandlineFlags::ParseArgv CommandlineFlags::CommandlineFlags CommandlineFlags::HasDebugFlag CommandlineFlags::HasExperimentalFlag '
         'ParseIntegerOptarg OptionsParser::OptionsParser OptionsParser::~OptionsParser ParseInterceptedCommandlineFlags '
         'ParseIwyuCommandlineFlags PrintHelp PrintVersion AddGlobToReportIWYUViolationsFor AddGlobToKeepIncludes')
  + [T('iwyu_regex.cc:ParseRegexDialect', logs=True)],
  [RC.options_consistent], files=['docs/', 'include-what-you-use.1', 'iwyu_getopt.cc'])

P('C02', 'Exit status: 0 by default, the --error values when there are suggestions',
  'IWYU exits with the compiler-failure status when the source does not compile; otherwise with the --error_always value if given, '
  'the --error value if at least one file had a suggestion, and 0 when neither option asks for more. '
  'No other part of the analysis ends the process with a success status.',
  ['inputs', 'configurations'], 'all source files, all --error/--error_always values, all numbers of violations',
  'the process exit status is never observed by them.',
  [T(A + ':IwyuAstConsumer::HandleTranslationUnit', logs=False), T(A + ':main')]
  + fns(O, 'IwyuFileInfo::CalculateAndReportIwyuViolations IwyuFileInfo::EmitWarningMessages') + fns(G, 'CommandlineFlags::CommandlineFlags', scope='exit_code'),
  [RC.exit_sites])

P('C03', 'The driver runs exactly one C-family compile and never writes files',
  'From the jobs the compiler driver plans, IWYU runs its analysis on exactly one: the first C-family compile job; other jobs (assembling, linking, offloading, non-C inputs) '
  'are never executed, and a command line with none is diagnosed instead of analysed. '
  'Analysis is read-only: it produces no object, dependency or other output file and modifies no source file.',
  ['inputs', 'configurations'], 'all compiler command lines',
  'the driver is not linked into any test.',
  fns(D, 'FilterJobs ExecuteAction HasPreprocessOnlyArgs HasArg ComputeCustomResourceDir GetExecutablePath JobsToString')
  + fns(A, 'main IwyuAction::CreateASTConsumer'),
  [RC.no_file_writes])

P('C04', 'Response files and argument expansion preserve every argument',
  'Every argument on the command line reaches option processing unchanged and in order, except that @file is replaced, at its position, by the arguments in that file '
  '(split on blanks, honouring quotes and backslash escapes, nested @file expanded recursively) when the file can be read, and kept literally when it cannot. '
  'No argument is dropped, duplicated, merged or split otherwise, and no byte outside the file contents is read.',
  ['inputs'], 'all command lines and all response-file contents, including empty, nested, unreadable and oddly quoted ones',
  'response-file expansion has no test.',
  fns(D, 'ExpandArgsFromBuf ExpandArgv SaveStringInSet'))

P('C05', 'Library selection, header search paths and glob filters',
  'The built-in mapping set chosen automatically corresponds to the standard library and C library the target actually uses; '
  'every configured search directory is available for turning file paths into the spelling of an include, longest match first and system paths marked as such; '
  'the --check_also and --keep globs apply to exactly the files whose (canonical) path matches one of them.',
  ['inputs', 'configurations'], 'all targets, search-path lists and glob lists',
  'none runs a target configuration or a glob.',
  fns(G, 'SortByDescendingLength NormalizeHeaderSearchPaths ComputeHeaderSearchPaths DeriveCStdLib DeriveCXXStdLib InitGlobals '
         'ShouldReportIWYUViolationsFor ShouldKeepIncludeFor AddGlobToReportIWYUViolationsFor AddGlobToKeepIncludes')
  + fns(PK, 'IncludePicker::AddDefaultMappings') + fns('iwyu_port.cc', 'GlobMatchesPath') + fns(PA, 'SetHeaderSearchPaths'))

# ------------------------------------------------------------------ mappings

P('C06', 'Mapping files: every entry is honoured as documented or diagnosed',
  'Loading a mapping file applies each include, symbol and ref entry exactly once, in order, with exactly the names, kinds and visibilities written; '
  'ref files are looked up relative to the directory of the referring file and the search path; '
  'an unreadable or malformed file or entry is reported and does not silently change other entries.',
  ['inputs'], 'all mapping files, search paths and nestings of ref',
  'mapping files are only exercised by the end-to-end suite, which cannot run here and samples a few files.',
  fns(PK, 'IncludePicker::AddMappingsFromFile GetScalarValue GetSequenceValue IncludePicker::ParseVisibility ExtendMappingFileSearchPath FindFileInSearchPath', logs=False))

P('C07', 'Built-in mapping tables and shipped .imp files are well formed',
  'Every built-in mapping row and every entry of the shipped mapping files names quoted includes (or anchored-able @"..."/@<...> patterns) and known visibilities; '
  'no header is declared both private and public across the tables that are loaded together, '
  'no public header is declared private by its own family, and every ref resolves to a shipped file.',
  ['configurations'], 'all rows of all built-in tables and all shipped mapping files',
  'no test reads the tables.',
  [], [RD.builtin_tables, RD.imp_files, RD.internal_libraries], files=[PK, 'gcc.libc.imp', 'libcxx.imp', 'stl.c.headers.imp'],
  mech=[{'name': 'IncludePicker::AddDefaultMappings', 'where': PK}])

P('C08', 'Mappings, visibility and include facts are recorded and closed once',
  'Every mapping and visibility that is registered is available to later queries: mappings accumulate, a header is never both public and private, '
  'a mapping marks its source and target with the stated visibilities, and at finalisation regular expressions are expanded over all headers seen and '
  'mappings are closed transitively (through private headers) without losing or inventing candidates.',
  ['inputs', 'histories'], 'all sequences of registrations and all include graphs',
  'the picker is tested only end to end.',
  fns(PK, 'IncludePicker::MarkVisibility IncludePicker::AddDirectInclude IncludePicker::AddMapping IncludePicker::AddIncludeMapping '
          'IncludePicker::AddSymbolMapping IncludePicker::AddIncludeMappings IncludePicker::AddSymbolMappings IncludePicker::AddPublicIncludes '
          'IncludePicker::MarkIncludeAsPrivate IncludePicker::MarkPathAsPrivate IncludePicker::AddFriendRegex IncludePicker::FinalizeAddedIncludes MakeMapTransitive '
          'MakeNodeTransitive ExpandOnce ContainsQuotedInclude MappedInclude::MappedInclude MappedInclude::HasAbsoluteQuotedInclude IsQuotedFilepathPattern '
          'IncludePicker::ExpandRegexes ExtractKeysMarkedAsRegexes IncludePicker::IncludePicker') )

P('C09', 'Suggested headers for a symbol or file are public and reachable',
  'For a symbol or a file used from some file, the candidate headers are the mapped public headers in registration order, or the file itself if it is public or unmapped; '
  'private headers are suggested only to files allowed to include them (same path family, friends, or already including them), '
  'and the spelling of a candidate is the one the includer (or mapping) uses.',
  ['inputs', 'programs'], 'all symbols, files, mappings and includers',
  'the picker is tested only end to end.',
  fns(PK, 'IncludePicker::GetPublicValues IncludePicker::MaybeGetIncludeNameAsWritten IncludePicker::BestQuotedIncludesForIncluder '
          'IncludePicker::GetCandidateHeadersForSymbol IncludePicker::GetCandidateHeadersForSymbolUsedFrom IncludePicker::GetCandidateHeadersForFilepath '
          'IncludePicker::GetCandidateHeadersForFilepathIncludedFrom IncludePicker::HasMapping IncludePicker::IsPublic IncludePicker::GetVisibility '
          'IncludePicker::GetMappedPublicHeaders ContainsQuotedInclude') )

P('C10', 'Regular expressions match whole strings in the selected dialect',
  'A pattern given to IWYU matches a name only if it matches the entire name, in the dialect selected by --regex, for every pattern; '
  'replacement substitutes the captured groups; the keys treated as patterns are exactly those marked with @.',
  ['inputs', 'configurations'], 'all patterns, names and dialects',
  'regex matching is not covered.',
  fns('iwyu_regex.cc', 'Anchored ParseRegexDialect RegexMatch RegexReplace') + fns(PK, 'ExtractKeysMarkedAsRegexes IncludePicker::ExpandRegexes'))

# ------------------------------------------------------------------ preprocessor

P('C11', 'Each IWYU pragma in a comment has exactly its documented effect',
  'A comment containing an IWYU pragma triggers exactly the documented effect of that pragma on the file it is in (private, friend, no_include, no_forward_declare, '
  'begin/end_exports, begin/end_keep, export, keep, associated, always_keep, depth headers), only when it is written in the documented form; '
  'malformed, misplaced or unbalanced pragmas are reported and have no other effect, and comments that are not pragmas have none.',
  ['inputs', 'programs'], 'all comments in all files, in any order',
  'pragma handling is tested only end to end on sample files.',
  fns(PP, 'IwyuPreprocessorInfo::HandlePragmaComment IwyuPreprocessorInfo::HandleComment MatchOneToken MatchTwoTokens '
          'IwyuPreprocessorInfo::HasOpenBeginExports IwyuPreprocessorInfo::HasOpenBeginKeep NormalizeNamespaces'),
  [RC.pragmas_documented])

P('C12', 'Includes protected by keep/export pragmas or headers are never dropped',
  'Every include marked keep, export, always_keep or inside begin_keep/begin_exports regions, every include matched by --keep, and every include protected by the built-in rules '
  '(associated header, main header of a private one, include from a private header to its public mapping) stays in the report as desired, under the spelling it already has, whatever the analysis finds; others are not protected.',
  ['inputs', 'programs', 'configurations'], 'all include lines, regions, globs and option settings',
  'protection is only exercised end to end.',
  fns(PP, 'IwyuPreprocessorInfo::MaybeProtectInclude IwyuPreprocessorInfo::FinalizeProtectedIncludes IwyuPreprocessorInfo::ProcessHeadernameDirectivesInFile '
          'IwyuPreprocessorInfo::HasOpenBeginExports IwyuPreprocessorInfo::HasOpenBeginKeep') + fns(O, 'IwyuFileInfo::ReportKnownDesiredFile')
  + fns(G, 'ShouldKeepIncludeFor'))

P('C13', 'Every #include directive is recorded once, with file, line and spelling',
  'Each include directive that the preprocessor enters or skips is recorded exactly once, for the file it appears in, with its line and the spelling as written, '
  'the associated header is recognised as documented, and the include facts handed to the mapping engine name the same files.',
  ['inputs', 'programs'], 'all include graphs, including skipped re-inclusions, macros in include directives, builtin and command-line buffers',
  'only sample files are included end to end.',
  fns(PP, 'IwyuPreprocessorInfo::InclusionDirective IwyuPreprocessorInfo::AddDirectInclude IwyuPreprocessorInfo::FileChanged '
          'IwyuPreprocessorInfo::FileSkipped IwyuPreprocessorInfo::FileChanged_EnterFile IwyuPreprocessorInfo::FileChanged_ExitToFile '
          'IwyuPreprocessorInfo::FileChanged_RenameFile IwyuPreprocessorInfo::FileChanged_SystemHeaderPragma '
          'IwyuPreprocessorInfo::GetFromFileInfoMap IwyuPreprocessorInfo::InsertIntoFileInfoMap GetIncludeNameAsWritten IwyuPreprocessorInfo::IncludeToFileEntry IwyuPreprocessorInfo::FileInfoFor')
  + fns(O, 'IwyuFileInfo::AddInclude IwyuFileInfo::IwyuFileInfo IwyuFileInfo::AddAssociatedHeader') + fns(LX, 'GetIncludeNameAsWritten'))

P('C14', 'Every use of a macro is attributed to the using file and the definition',
  'Each expansion, definedness test (#ifdef, #ifndef, defined) and reference from another macro body of a macro defined in a file is reported as a use of that definition '
  'in the file containing the use; uses of builtin and command-line macros and of identifiers that are not macros are not reported.',
  ['inputs', 'programs'], 'all macro definitions and uses',
  'macros are only sampled end to end.',
  fns(PP, 'IwyuPreprocessorInfo::MacroExpands IwyuPreprocessorInfo::MacroDefined IwyuPreprocessorInfo::Ifdef IwyuPreprocessorInfo::Ifndef '
          'IwyuPreprocessorInfo::Defined IwyuPreprocessorInfo::ReportMacroUse GetMacroDefLoc GetName')
  + fns(LX, 'GetNextMacroTokenKind GetTokenText') + fns(O, 'IwyuFileInfo::ReportMacroUse IwyuFileInfo::ReportDefinedMacroUse'),
  [RC.iterator_container])

P('C15', 'What a header provides is the closure over its public intent',
  'A file is considered to provide another exactly when it includes it directly, or when a chain of private or re-exported headers (or the associated header) leads to it; '
  'the transitive include relation used for "already included" answers is the reflexive-transitive closure of the include directives.',
  ['programs', 'inputs'], 'all include graphs including cyclic ones',
  'closures over graphs are not sampled.',
  fns(PP, 'IwyuPreprocessorInfo::AddAllIncludesAsFileEntries IwyuPreprocessorInfo::PopulateIntendsToProvideMap IwyuPreprocessorInfo::PopulateTransitiveIncludeMap '
          'IwyuPreprocessorInfo::PublicHeaderIntendsToProvide IwyuPreprocessorInfo::FileTransitivelyIncludes IwyuPreprocessorInfo::HandlePreprocessingDone'))

P('C16', 'Only the main compilation unit (and files asked for) is reported on',
  'Suggestions are produced for the main source file, its associated headers and the files selected with --check_also, and for no other file; '
  'every such file is processed, in a deterministic order.',
  ['inputs', 'configurations'], 'all translation units and --check_also settings',
  'file selection is only exercised end to end.',
  fns(PP, 'IwyuPreprocessorInfo::BelongsToMainCompilationUnit IwyuPreprocessorInfo::FileChanged_EnterFile IwyuPreprocessorInfo::HandlePreprocessingDone')
  + fns(PA, 'GetCanonicalName Basename') + fns(G, 'ShouldReportIWYUViolationsFor') + [T(A + ':IwyuAstConsumer::HandleTranslationUnit')])

P('C17', 'no_include, no_forward_declare and keep/export pragmas bind suggestions',
  'A header named in a no_include pragma is never suggested for that file and a symbol named in no_forward_declare is never suggested as a forward declaration there; '
  'an existing forward declaration marked keep or export is never removed and counts as provided.',
  ['inputs', 'programs'], 'all files, pragmas and uses',
  'these pragmas are only sampled end to end.',
  fns(PP, 'IwyuPreprocessorInfo::IncludeIsInhibited IwyuPreprocessorInfo::ForwardDeclareIsInhibited IwyuPreprocessorInfo::ForwardDeclareIsMarkedKeep '
          'IwyuPreprocessorInfo::ForwardDeclareIsExported NormalizeNamespaces')
  + fns(O, 'CalculateDesiredIncludesAndForwardDeclares IwyuFileInfo::CalculateIwyuViolations'))

# ------------------------------------------------------------------ decisions

P('C20', 'When a forward declaration is enough, and when it must become an include',
  'A forward-declare use is reported as such only when a forward declaration can legally stand for the symbol and is allowed; it is promoted to a full use '
  'when the declaration cannot be forward declared (enums without fixed type, nested classes, defaulted template parameters, typedef-like symbols, unless options say otherwise), '
  'and dropped when the file already sees the definition or a declaration in the same file.',
  ['programs', 'configurations'], 'all declarations and uses',
  'only samples are run end to end.',
  fns(O, 'ProcessForwardDeclare DeclCanBeForwardDeclared DeclIsVisibleToUseInSameFile HasMapping CalculateIwyuForForwardDeclareUse'))

P('C21', 'Which full uses of a symbol require an include',
  'A full use is kept exactly when including a header is the way to satisfy it: uses of builtins, of symbols declared in the same file before the use, '
  'and of declarations that need no header are dropped, and every other full use ends with the public headers for the declaration as candidates.',
  ['programs', 'configurations'], 'all declarations and uses',
  'only samples are run end to end.',
  fns(O, 'ProcessFullUse ProcessSymbolUse DeclIsVisibleToUseInSameFile CalculateIwyuForFullUse OneUse::SetPublicHeaders OneUse::public_headers OneUse::PublicHeadersContain OneUse::NeedsSuggestedHeader'))

P('C22', 'Header choice: keep what is there, then what covers most, deterministically',
  'Each use that needs a header gets exactly one, chosen from its candidates: one already desired or directly included is preferred over a new one, then the candidate serving most uses, '
  'with ties broken deterministically; no use that needs a header is left without one.',
  ['programs', 'inputs'], 'all sets of uses and candidate headers',
  'the selection is only sampled end to end.',
  fns(O, 'CalculateMinimalIncludes') + fns(OH, 'OneUse::set_suggested_header OneUse::has_suggested_header OneUse::suggested_header IwyuFileInfo::AssociatedDesiredIncludes IwyuFileInfo::AssociatedQuotedIncludes')
  + fns(O, 'IsDirectlyIncluded'))

P('C23', 'A violation is reported exactly when a suggestion is not already satisfied',
  'A use is a violation exactly when its suggested header is not directly included (by the file or, where allowed, its associated headers) or its forward declaration is not visible; '
  'violations are what warnings, exit status and suggested additions are based on, and all three agree.',
  ['programs', 'inputs'], 'all files and uses',
  'only samples are run end to end.',
  fns(O, 'CalculateIwyuForForwardDeclareUse CalculateIwyuForFullUse IwyuFileInfo::CalculateIwyuViolations IwyuFileInfo::EmitWarningMessages GetWarningMsg'))

P('C24', 'The desired lists are exactly what the uses require plus what is kept',
  'After analysis an include or forward declaration is desired exactly when a use requires it or it is protected, surplus duplicates of the same line are not desired, '
  'and each desired item not present in the file is added exactly once.',
  ['programs', 'inputs'], 'all files, uses and existing lines',
  'only samples are run end to end.',
  fns(O, 'CalculateDesiredIncludesAndForwardDeclares ClearDesiredForSurplusIncludesOrForwardDeclares Contains OneIncludeOrForwardDeclareLine::AddSymbolUse '
         'OneIncludeOrForwardDeclareLine::HasSymbolUse IwyuFileInfo::ResolvePendingAnalysis IwyuFileInfo::HandlePreprocessingDone'),
  [RC.desired_writers])

P('C25', 'Prefix headers and precompiled headers follow --prefix_header_includes',
  'Includes already provided by a prefix header are suggested, kept or removed exactly as the chosen --prefix_header_includes policy says; '
  'with pch_in_code the first include is treated as the prefix header and is never suggested for removal.',
  ['inputs', 'configurations'], 'all policies, prefix headers and include lists',
  'only samples are run end to end.',
  fns(O, 'IsRemovablePrefixHeader CleanupPrefixHeaderIncludes') + [T(PP + ':IwyuPreprocessorInfo::AddDirectInclude', scope='prefix|pch')] + fns(PP, 'IwyuPreprocessorInfo::FinalizeProtectedIncludes'))

P('C26', 'The report says exactly what to add, remove and keep, parseably',
  'For each reported file the output has the three documented sections (add, remove, full list), listing each desired-but-absent line once under add, each present-but-undesired line once under remove '
  'with its line numbers, and every desired line in the full list; files needing no change are said to be correct. '
  'The format is the one fix_includes.py parses.',
  ['inputs', 'programs', 'configurations'], 'all result lists and verbosity/comment options',
  'the text is only compared with sample files end to end.',
  fns(O, 'PrintableDiffs PrintableIncludeOrForwardDeclareLine OneIncludeOrForwardDeclareLine::LineNumberString OneIncludeOrForwardDeclareLine::IsIncludeLine '
         'OutputLine::OutputLine OutputLine::line_length OutputLine::needs_alignment OutputLine::add_prefix OutputLine::printable_line'),
  [RC.report_matches_parser])

P('C27', 'Suggested forward declarations are valid declarations of the symbol',
  'The text of a suggested forward declaration declares exactly the used symbol: its namespaces (inline and nested), template header and class-key, '
  'with a balanced number of closing braces, and a template or enum is never declared as a plain class.',
  ['programs', 'configurations'], 'all forward-declarable symbols',
  'only samples are run end to end.',
  fns(O, 'PrintForwardDeclare MungedForwardDeclareLineForNontemplates MungedForwardDeclareLineForTemplates MungedForwardDeclareLine '
         'OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine PrintableUnderlyingType GetQualifiedNameAsString GetShortNameAsString GetKindName'))

P('C28', 'The order of suggested lines and "for" comments is deterministic',
  'Suggested lines are ordered by the documented classes (associated header, its inline headers, C headers, C++ headers, others, forward declarations) then by text, and the symbols in comments by decreasing '
  'frequency then name, independent of pointer values or hash order.',
  ['inputs', 'programs', 'histories'], 'all result lists',
  'ordering is only sampled end to end.',
  fns(O, 'GetLineSortOrdinal GetSortKey GetSymbolsSortedByFrequency'))

P('C29', 'Everything reported about a file is recorded for that file',
  'Each reported include, forward declaration, using declaration, symbol use, macro use and file use is recorded for the file it concerns with its location, comment and flags, none is dropped, duplicated or attributed elsewhere.',
  ['programs', 'histories'], 'all sequences of reports',
  'the recording layer has no test.',
  fns(O, 'IwyuFileInfo::AddAssociatedHeader IwyuFileInfo::AddInclude IwyuFileInfo::AddForwardDeclare IwyuFileInfo::AddElaboratedType IwyuFileInfo::AddUsingDecl '
         'IwyuFileInfo::ReportFullSymbolUse IwyuFileInfo::ReportMacroUse IwyuFileInfo::ReportDefinedMacroUse IwyuFileInfo::ReportIncludeFileUse '
         'IwyuFileInfo::ReportKnownDesiredFile IwyuFileInfo::ReportForwardDeclareUse IwyuFileInfo::ReportUsingDeclUse OneUse::OneUse OneUse::reset_decl OneUse::UseLinenum OneUse::PrintableUseLoc '
         'OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine')
  + fns(OH, 'OneUse::set_full_use OneUse::set_forward_declare_use OneUse::set_ignore_use OneUse::set_is_iwyu_violation OneIncludeOrForwardDeclareLine::set_present OneIncludeOrForwardDeclareLine::set_desired '
            'OneIncludeOrForwardDeclareLine::clear_desired OneIncludeOrForwardDeclareLine::clear_line_numbers OneIncludeOrForwardDeclareLine::LineNumbersMatch OneIncludeOrForwardDeclareLine::matches'))

# ------------------------------------------------------------------ AST

P('C30', 'Every reported use is attributed to the right file, symbol and kind',
  'A declaration or type that code uses is reported once per use from the location where the author wrote the use (the macro author for macro bodies, the user for macro arguments), '
  'as a full use or forward-declarable use according to how it is used, after mapping private standard-library implementation types to their public names; '
  'uses in ignored locations are not reported.',
  ['programs'], 'all declarations, types and use sites',
  'only samples are run end to end, which cannot run here.',
  fns(A, 'IwyuBaseAstVisitor::DeclIsTemplateWithNameAndNumArgsAndTypeArg IwyuBaseAstVisitor::GetTplTypeArg IwyuBaseAstVisitor::MapPrivateDeclToPublicType '
         'IwyuBaseAstVisitor::MapPrivateDeclToPublicDecl IwyuBaseAstVisitor::MapPrivateTypeToPublicType IwyuBaseAstVisitor::GetCanonicalUseLocation '
         'IwyuBaseAstVisitor::ReportDeclUse IwyuBaseAstVisitor::ReportDeclForwardDeclareUse IwyuBaseAstVisitor::ReportDeclsUse IwyuBaseAstVisitor::ReportTypeUse '
         'IwyuBaseAstVisitor::ReportTypesUse IwyuBaseAstVisitor::CanForwardDeclareType IwyuBaseAstVisitor::ReportTypeUseInternal IwyuBaseAstVisitor::ReportWrittenTypeAlias '
         'IwyuBaseAstVisitor::ReportWithAdditionalBlockedTypes CanIgnoreLocation IwyuAstConsumer::CanIgnoreCurrentASTNode IwyuAstConsumer::CanIgnoreType IwyuAstConsumer::CanIgnoreDecl')
  + fns(LX, 'GetTokenText'))

P('C31', 'Author intent decides who provides types in aliases, returns and autocasts',
  'A typedef, function signature or converting-constructor parameter whose author forward-declared (or did not include) a type leaves the full type to the users; otherwise the author provides it and '
  'users are not asked for it; call sites of the former kind require the full types of returns and autocast parameters.',
  ['programs'], 'all signatures, aliases and call sites',
  'only samples are run end to end, which cannot run here.',
  fns(A, 'IwyuBaseAstVisitor::CodeAuthorWantsJustAForwardDeclare IwyuBaseAstVisitor::GetProvidedTypesForAutocast IwyuBaseAstVisitor::GetProvidedTypesForFnReturn '
         'IwyuBaseAstVisitor::VisitTypedefNameDecl IwyuBaseAstVisitor::VisitFunctionDecl IwyuBaseAstVisitor::VisitCXXMethodDecl '
         'IwyuBaseAstVisitor::GetProvidedTypes IwyuBaseAstVisitor::GetAliasTemplateProvidedTypes IwyuBaseAstVisitor::HandleFnReturnOnCallSite '
         'IwyuBaseAstVisitor::HandleAutocastOnCallSite IwyuBaseAstVisitor::HandleNonAutocastConstruction IwyuBaseAstVisitor::VisitTypedefType '
         'IwyuBaseAstVisitor::VisitTemplateSpecializationType'))

P('C32', 'Each expression kind reports exactly the full uses the language requires',
  'For every expression, each cast, member access, subscript, arithmetic, delete/new, call, construction, overloaded operator, sizeof/typeid/trait, range-for, catch and variadic argument reports a full use of exactly '
  'the types whose definition the language requires there, and no use otherwise.',
  ['programs'], 'all expressions in all programs',
  'only samples are run end to end, which cannot run here.',
  fns(A, ' '.join('IwyuBaseAstVisitor::' + x for x in 'VisitCXXCatchStmt TraverseCXXForRangeStmt VisitCXXForRangeStmt VisitCastExpr VisitMemberExpr VisitArraySubscriptExpr VisitBinaryOperator '
      'VisitTypeTraitExpr VisitUnaryExprOrTypeTraitExpr VisitCXXOperatorCallExpr VisitCXXDeleteExpr ReportIfReferenceVararg VisitCallExpr VisitCXXConstructExpr '
      'VisitUnresolvedLookupExpr VisitCXXNewExpr VisitDeclRefExpr HandleFunctionCall VisitCXXTypeidExpr TraverseCXXDefaultArgExpr VisitCleanupAttr VisitMemberPointerType VisitDecltypeType VisitType'.split())))

P('C33', 'Declarations report the uses their language rules require',
  'Namespace aliases, using declarations and directives, friends, tag declarations, template specialisations, variables, methods and default template arguments report exactly the declarations they depend on, '
  'and existing forward declarations and using declarations are recorded as present.',
  ['programs'], 'all declarations in all programs',
  'only samples are run end to end, which cannot run here.',
  fns(A, 'IwyuBaseAstVisitor::VisitFriendDecl IwyuBaseAstVisitor::VisitFriendTemplateDecl IwyuBaseAstVisitor::VisitTemplateTypeParmDecl IwyuBaseAstVisitor::VisitVarDecl '
         'IwyuAstConsumer::VisitNamespaceAliasDecl IwyuAstConsumer::VisitUsingDecl IwyuAstConsumer::VisitTagDecl IwyuAstConsumer::VisitClassTemplateSpecializationDecl '
         'IwyuAstConsumer::VisitUsingDirectiveDecl IwyuAstConsumer::AllTypesProvided IwyuAstConsumer::HandleAliasedClassMethods IwyuAstConsumer::TraverseTypedefDecl '
         'IwyuAstConsumer::TraverseTypeAliasDecl IwyuAstConsumer::TraverseCXXMethodDecl IwyuAstConsumer::VisitDeclRefExpr IwyuAstConsumer::VisitConceptSpecializationExpr'))

P('C34', 'Type and template-argument mentions report full or forward uses correctly',
  'A written type, template name, nested-name qualifier or template argument reports its declaration as a forward-declarable use exactly in contexts where an incomplete type is allowed (pointers, references, '
  'elaborated specifiers, unneeded template arguments) and as a full use elsewhere.',
  ['programs'], 'all type mentions in all programs',
  'only samples are run end to end, which cannot run here.',
  fns(A, 'IwyuAstConsumer::TraverseType IwyuAstConsumer::TraverseTypeLoc IwyuAstConsumer::VisitTypedefType IwyuAstConsumer::VisitUsingType IwyuAstConsumer::VisitTagType '
         'IwyuAstConsumer::VisitTemplateSpecializationType IwyuAstConsumer::VisitElaboratedTypeLoc IwyuAstConsumer::VisitTemplateName '
         'IwyuBaseAstVisitor::VisitNestedNameSpecifier IwyuBaseAstVisitor::DetermineForwardDeclareStatusForTemplateArg IwyuBaseAstVisitor::VisitTemplateArgument '
         'IwyuBaseAstVisitor::VisitTemplateArgumentLoc IwyuBaseAstVisitor::CanForwardDeclareType')
  + fns(U, 'IsElaboratedTypeSpecifier MostElaboratedAncestor IsQualifiedNameNode IsNodeInsideCXXMethodBody IsNestedTagAsWritten IsDefaultTemplateTemplateArg'))

P('C35', 'Template instantiations charge the user only for what only the user provides',
  'When a template is instantiated, types and declarations needed inside it are reported against the instantiating file exactly if they come from its template arguments and the template (or its defaults) does not provide them; '
  'types intrinsic to the template are never charged to the user.',
  ['programs'], 'all instantiations in all programs',
  'only samples are run end to end, which cannot run here.',
  fns(A, ' '.join('InstantiatedTemplateVisitor::' + x for x in 'ScanInstantiatedFunction ScanInstantiatedType ScanInstantiatedClass CanIgnoreCurrentASTNode CanIgnoreType IsTypeInteresting IsKnownTemplateParam '
      'InvolvesKnownTemplateParam CanIgnoreDecl ReportDeclUse ReportDeclForwardDeclareUse ReportTypeUse HandleFunctionCall TraverseFunctionIfInstantiatedTpl TraverseUnaryExprOrTypeTraitExpr '
      'TraverseTemplateSpecializationTypeHelper TraverseTemplateSpecializationType TraverseTemplateSpecializationTypeLoc AnalyzeTemplateTypeParmUse VisitSubstTemplateTypeParmType VisitRecordType '
      'VisitTemplateSpecializationType ReportExplicitInstantiations VisitCXXConstructExpr ReportTplSpecComponentTypes GetProvidedByTplArg SourceOrTargetTypeIsProvided Clear '
      'GetLocOfTemplateThatProvides IsProvidedByTemplate IsDefaultTemplateParameter ResugarType TraverseExpandedTemplateFunctionHelper '
      'TraverseDataAndTypeMembersOfClassHelper'.split()))
  + fns(A, 'IwyuAstConsumer::HandleFunctionCall IwyuAstConsumer::TraverseFunctionIfInstantiatedTpl IwyuAstConsumer::ReportTplSpecComponentTypes IwyuAstConsumer::GetProvidedByTplArg '
           'IwyuAstConsumer::SourceOrTargetTypeIsProvided IwyuAstConsumer::GetProvidedTypeComponents IwyuAstConsumer::GetTplInstData IwyuAstConsumer::CanBeProvidedTypeComponent IwyuAstConsumer::IsProvidedTypeComponent'))

P('C36', 'Cached instantiation results equal a fresh scan',
  'Replaying the uses of a function or class instantiation from the cache reports exactly what scanning it again would, and results are stored only for complete scans under the full key '
  '(entity and template-argument mapping).',
  ['programs', 'histories'], 'all sequences of instantiations',
  'caches are not observable in tests.',
  fns('iwyu_cache.h', 'FullUseCache::Insert FullUseCache::Contains FullUseCache::GetFullUseTypes FullUseCache::GetFullUseDecls CacheStoringScope::CacheStoringScope CacheStoringScope::~CacheStoringScope '
      'CacheStoringScope::NoteReportedType CacheStoringScope::NoteReportedDecl') + fns('iwyu_cache.cc', 'FullUseCache::GetPrecomputedResugarMap')
  + fns(A, 'InstantiatedTemplateVisitor::ReplayUsesFromCache InstantiatedTemplateVisitor::ReplayClassMemberUsesFromPrecomputedList InstantiatedTemplateVisitor::TraverseExpandedTemplateFunctionHelper '
           'InstantiatedTemplateVisitor::TraverseDataAndTypeMembersOfClassHelper'))

P('C37', 'Traversal visits every node once, with its true ancestors',
  'The walk over a program visits every node, implicit calls (destructors, constructors, new/delete) included, with the chain of ancestors current during the visit and restored after it, '
  'and each function call is offered for analysis exactly once.',
  ['programs'], 'all programs',
  'only samples are run end to end, which cannot run here.',
  fns(A, ' '.join('BaseAstVisitor::' + x for x in 'TraverseDecl TraverseStmt TraverseType TraverseTypeLoc TraverseNestedNameSpecifier TraverseNestedNameSpecifierLoc '
      'TraverseTemplateName TraverseTemplateArgument TraverseTemplateArgumentLoc CurrentLoc TraverseCXXDestructorDecl HandleFunctionCall TraverseImplicitDestructorCall TraverseCallExpr TraverseCXXMemberCallExpr '
      'TraverseCXXOperatorCallExpr TraverseCXXConstructExpr TraverseCXXTemporaryObjectExpr TraverseCXXNewExpr TraverseCXXDeleteExpr TraverseDeclRefExpr shouldVisitImplicitCode'.split()))
  + fns(A, ' '.join('AstFlattenerVisitor::' + x for x in 'GetNodesBelow VisitDecl VisitStmt VisitType VisitTypeLoc VisitNestedNameSpecifier VisitTemplateName VisitTemplateArgument VisitTemplateArgumentLoc '
      'TraverseImplicitDestructorCall HandleFunctionCall NodeSet::Contains'.split()))
  + fns(A, 'IwyuAstConsumer::ParseFunctionTemplates IwyuAstConsumer::InstantiateImplicitMethods IwyuBaseAstVisitor::IsProcessedOverloadLoc IwyuBaseAstVisitor::AddProcessedOverloadLoc IwyuAstConsumer::HandleTranslationUnit')
  + fns(UH, 'ASTNode::SetParent ASTNode::depth ASTNode::StackContainsContent ASTNode::AncestorIsA ASTNode::HasAncestorOfType ASTNode::GetAncestorAs CurrentASTNodeUpdater::CurrentASTNodeUpdater ValueSaver::ValueSaver ValueSaver::~ValueSaver'))

P('C38', 'Structural questions about types and declarations are answered exactly',
  'The helpers that classify declarations, types and expressions (forward declaration, friend, nested class, explicit instantiation, implicit conversion, builtin, templated, pointer/reference, opaque-declarable) '
  'answer true for exactly the declarations and types they describe, looking through sugar only where documented.',
  ['programs'], 'all declarations, types and expressions',
  'the helpers have no unit test.',
  fns(U, 'GetTemplateSpecializationKind DesugarAliasTypes IsImplicitConversionCtor IsCXXConstructExprInInitializer IsCXXConstructExprInNewExpr '
         'IsAutocastExpr ComputeUseFlags IsTemplatizedFunctionDecl HasImplicitConversionCtor HasCovariantReturnType GetTagDefinition GetSourceRangeOfClassDecl '
         'GetInstantiatedFromDecl GetDefinitionAsWritten IsFriendDecl IsExplicitInstantiation IsExplicitInstantiationDefinitionAsWritten '
         'IsInInlineNamespace IsInNamespace IsForwardDecl IsNestedClass HasDefaultTemplateParameters GetNonTagRedecls GetTagRedecls GetFirstRedecl GetNonfriendClassRedecl '
         'DeclsAreInSameClass IsBuiltinFunction IsImplicitlyInstantiatedDfn GetFromLeastDerived IsTemplatizedType InvolvesTypeForWhich IsPointerOrReferenceAsWritten '
         'RemovePointersAndReferencesAsWritten RemovePointerFromType RemovePointersAndReferences TypeToDeclAsWritten TypeToDeclForContent RemoveReference RemoveReferenceAsWritten '
         'HasImplicitConversionConstructor CanBeOpaqueDeclared IsReferenceToModifiableLValue IsDerivedToBasePtrConvertible IsBaseToDerivedMemPtrConvertible IsAddressOf IsDependentNameCall '
         'IsDeclaredInsideFunction IsDeclaredInsideMacro'))

P('C39', 'Type components, template arguments and callees are decomposed completely',
  'Decomposing a type, template specialisation or call yields every component the user wrote or that is implied (default arguments, sugar, deduced arguments), each mapped to the spelling the author used, and the callee, qualifier and template arguments belong to that very expression.',
  ['programs'], 'all types, template specialisations and calls',
  'the helpers have no unit test.',
  fns(U, ' '.join(c + '::' + m for c in ('SugaredTypeEnumerator', 'TypeEnumeratorWithoutSubstituted', 'CanonicalTypeEnumerator') for m in ('Enumerate', 'TraverseType', 'TraverseTypeLoc', 'TraverseTypeHelper'))
      + ' TryGetQualifier GetQualifier GetDeclContext GetWrittenQualifiedNameAsString GetTemplateArgAsType IsSubstTemplateTypeParmType GetComponentsOfType GetComponentsOfTypeWithoutSubstituted GetCanonicalComponentsOfType '
      'ResugarTypeComponents GetTplTypeResugarMapForFunctionNoCallExpr GetTplTypeResugarMapForFunctionExplicitTplArgs GetSugaredTypeOf Visitor::VisitDeclRefExpr Visitor::VisitImplicitCastExpr Visitor::CollectSugar '
      'GetDefaultedArgResugarMap GetTplInstDataForFunction GetTypeOf GetCanonicalType GetTplInstDataForClassNoComponentTypes GetTplInstDataForClass GetCanonicalArgComponents '
      'TypeOfParentIfMethod GetFirstClassArgument GetDestructorForDeleteExpr GetSiblingDestructorFor GetCalleeFunctionType GetExplicitTplArgs GetLateParsedFunctionDecls Visitor::VisitFunctionDecl'))

# ------------------------------------------------------------------ utilities

P('C40', 'Paths are normalised and turned into include spellings consistently',
  'A path is normalised independently of how it was written (separators, dot segments); headers are recognised by the documented extensions; a file and its header share a canonical name; '
  'and an include spelling is produced by stripping the longest matching search directory, quoted as the kind of that directory demands.',
  ['inputs', 'configurations'], 'all paths and search-path lists',
  'path handling has no runnable test here.',
  fns(PA, 'SetHeaderSearchPaths HeaderSearchPaths IsHeaderFile Basename GetCanonicalName NormalizeFilePath NormalizeDirPath IsAbsolutePath MakeAbsolutePath GetParentPath StripPathPrefix '
          'ConvertToQuotedInclude IsQuotedInclude AddQuotes') + fns('iwyu_path_util.h', 'IsSpecialFilename') + fns(G, 'SortByDescendingLength NormalizeHeaderSearchPaths'),
  [RC.extension_lists])

P('C41', 'String and container helpers behave as their names say on all inputs',
  'The string helpers (prefix, suffix, strip, replace, split, with and without quotes) and container helpers (contains, lookup with default, union, removal, unique) compute the stated function for every input, including empty strings, '
  'absent keys and overlapping separators, and modify only what they are given to modify.',
  ['inputs'], 'all strings and containers',
  'the five tests sample whitespace stripping and splitting only.',
  fns(ST, 'StartsWith EndsWith StripLeft StripRight Ellipsize StripPast DropFrom StripWhiteSpaceLeft StripWhiteSpaceRight StripWhiteSpace ReplaceAll Split SplitOnWhiteSpace SplitOnWhiteSpacePreservingQuotes')
  + fns(SL, 'ContainsKey ContainsValue ContainsKeyValue ContainsAnyKey GetOrDefault FindInMap RemoveAllFrom InsertAllInto Extend Union GetUniqueEntries'))

P('C42', 'Source locations resolve to the file and line the author wrote',
  'The location, file, line and source text attributed to a node, macro use or comment is the one in which the author wrote it; system headers, in-macro, scratch and command-line locations are recognised; text reads never leave the line they are for.',
  ['programs', 'inputs'], 'all locations in all programs',
  'location helpers have no runnable test here.',
  fns(LX, 'LineHasText SourceManagerCharacterDataGetter::GetCharacterData GetSourceTextUntilEndOfLine GetLocationAfter GetIncludeNameAsWritten GetTokenText')
  + fns(LOC, 'GetLocation GetMemberExprLocation IsInScratchSpace IsInHeader IsSystemHeader')
  + fns(LOCH, 'GetFilePath GetSpellingLoc GetInstantiationLoc IsInMacro GetLineNumber GetLocFileEntry GetFileEntry GetLocation IsBeforeInTranslationUnit IsBeforeInSameFile IsSpecialFile IsInSpecialFile')
  + fns(U, 'ASTNode::GetLocation ASTNode::FillLocationIfKnown'))

P('C43', 'Verbosity changes only diagnostics, never results',
  'The verbosity level and debug flags change only how much is printed (diagnostics, which sections of the report, how far comments are shortened): no suggestion and no exit status depends on them; '
  'fatal assertions always terminate with a failure status.',
  ['configurations', 'inputs'], 'all verbosity levels and programs',
  'no test varies verbosity.',
  fns('iwyu_verrs.cc', 'SetVerboseLevel GetVerboseLevel ShouldPrintSymbolFromFile') + fns('iwyu_verrs.h', 'ShouldPrint')
  + fns('iwyu_port.h', 'FatalMessageEmitter::~FatalMessageEmitter FatalMessageEmitter::FatalMessageEmitter'),
  [RC.verbosity_only_logs])

# ------------------------------------------------------------------ fix_includes.py

P('P01', 'fix_includes edits only the files it was told to, and dry runs write nothing',
  'fix_includes.py modifies a file only if it is named in the IWYU output, by its normalised path, selected by the file list and --only_re, not excluded by --ignore_re, and its fixed contents differ; '
  'with --dry_run, on an error, or when nothing changes, no file is written; all records for one file lead to at most one write of it; one file that cannot be fixed does not stop the others; '
  'with --sort_only exactly the files named are sorted.',
  ['inputs', 'configurations'], 'all IWYU outputs, file sets and option combinations',
  '!The Python unit tests patch out the file system and sample single option settings.',
  fns(F, 'ProcessIWYUOutput FixManyFiles FixOneFile _WriteFile _ReadFile PrintFileDiff SortIncludesInFiles main'),
  [RP.write_sites, RP.encode_before_open])

P('P02', 'fix_includes parses IWYU output completely and rejects what it cannot parse',
  'Every record of IWYU output is turned into exactly the additions, deletions (with their line ranges), and full include list it contains; "(already correct)" records and unrelated lines cause no edit; '
  'malformed or out-of-order sections raise an error instead of being misread.',
  ['inputs'], 'all IWYU outputs',
  '!Unit tests feed a few dozen fixed outputs.',
  fns(F, 'IWYUOutputParser.__init__ IWYUOutputParser._ProcessOneLine IWYUOutputParser.ParseOneRecord IWYUOutputRecord.__init__ IWYUOutputRecord.HasContentfulChanges IWYUOutputRecord.__str__'),
  [RC.report_matches_parser])

P('P03', 'Suggestions from several runs for one file merge correctly',
  'When several records concern the same file, a line is deleted only if every one of them asks for it, while additions, known include and forward-declaration lines and full include lists are the union; no record is lost, and a file is skipped only if the merged record has no change.',
  ['inputs', 'histories'], 'all sequences of records',
  '!Unit tests merge two fixed records.',
  fns(F, 'IWYUOutputRecord.Merge ProcessIWYUOutput OrderedSet.add OrderedSet.intersection_update OrderedSet.update OrderedSet.difference OrderedSet.__iter__ OrderedSet.__contains__ OrderedSet.__len__ OrderedSet.__init__ _MayBeHeaderFile'),
  [RC.extension_lists])

P('P04', 'Source lines are classified by what they are, comments included',
  'Each line of a file is classified (include, forward declaration, header guard, namespace boundary, comment, blank, preprocessor conditional, barrier, other) exactly by what it is in context - multi-line comments, if 0 blocks, extern "C", pragmas - '
  'so that code and comments are never mistaken for movable or removable lines.',
  ['inputs'], 'all source files',
  '!Unit tests feed a few dozen fixed files.',
  fns(F, '_CalculateLineTypesAndKeys _MarkHeaderGuardIfPresent ParseOneFile LineInfo.__init__ LineInfo.__str__ _GetSymbolNameFromForwardDeclareLine'))

P('P05', 'Move and reorder spans never cross code or barriers',
  'Lines are only moved together with their preceding comments and only within a span of includes or forward declarations that contains no other code, conditional boundary or barrier include; every line belongs to at most one span.',
  ['inputs'], 'all source files',
  '!Unit tests feed a few dozen fixed files.',
  fns(F, '_PreviousNondeletedLine _NextNondeletedLine _LineNumberStartingPrecedingComments _CalculateMoveSpans _ContainsBarrierInclude _LinesAreAllBlank _CalculateReorderSpans _GetToplevelReorderSpans '
         '_GetNamespaceLevelReorderSpans _GetNamespaceLevelReorderSpans._GetNamespaceNames _FirstReorderSpanWith ParseOneFile'))

P('P06', 'fix_includes deletes only the lines IWYU asked for, and leftover husks',
  'A line is deleted only if it is an include or forward declaration the record asks to delete (or a comment directly above such a line), or a duplicate of an earlier top-level include or forward declaration, or a namespace, conditional or blank line left empty by those deletions; with --safe_headers nothing is deleted from a header; '
  'deletion requests for lines that are something else are refused.',
  ['inputs'], 'all files and records',
  '!Unit tests feed a few dozen fixed files.',
  fns(F, '_DeleteEmptyNamespaces _DeleteEmptyIfdefs _DeleteDuplicateLines _DeleteExtraneousBlankLines _DeleteLinesAccordingToIwyu _ShouldInsertBlankLine'),
  [RP.deleted_writers])

P('P07', 'New lines are inserted and sorted in the right place and order',
  'Every added include or forward declaration appears exactly once in the result, in the span for its kind, sorted by the documented order (main header, C, C++, project, others) with one blank line between kinds when asked; surviving lines are all kept, '
  'and with no changes and no reordering asked the output equals the input.',
  ['inputs', 'configurations'], 'all files, records and option combinations',
  '!Unit tests feed a few dozen fixed files.',
  fns(F, 'FixFileLines FixFileLines.key _DecoratedMoveSpanLines _IsSystemInclude _IsMainCUInclude _GetPathRoot _IsSameProject _GetLineKind GetLineSortOrdinal NormalizeFilePath _FirstReorderSpanWith'))

P('P08', 'Forward declarations are placed in the right namespaces',
  'Added forward declarations end up inside exactly the namespaces IWYU gave, sharing namespaces with neighbouring or existing declarations where possible, with every opened namespace closed; no declaration changes its namespace.',
  ['inputs'], 'all sets of forward declarations',
  '!Unit tests feed a few dozen fixed files.',
  fns(F, '_RemoveNamespacePrefix _CommonPrefixLength _NormalizeNamespaceForwardDeclareLines _GetNamespaceLevelReorderSpans FixFileLines _GetSymbolNameFromForwardDeclareLine'))

P('P09', 'File encoding and line endings survive the rewrite',
  'A file is read and rewritten in the encoding and with the line-ending convention it has; bytes that cannot be decoded or written leave the file untouched and are reported.',
  ['inputs', 'fault_sequences'], 'all file contents, encodings and I/O failures',
  '!Unit tests use in-memory text.',
  fns(F, 'FileInfo.__init__ FileInfo.parse FileInfo.guess_linesep FileInfo.guess_encoding FileInfo.guess_encoding.try_decode _ReadFile _WriteFile FixOneFile'),
  [RP.encode_before_open])

# ------------------------------------------------------------------ iwyu_tool.py

P('P20', 'iwyu_tool runs IWYU with exactly the compile command of each entry',
  'For each selected compilation-database entry, IWYU runs in the entry\'s directory with the entry\'s own arguments minus the compiler (and known launcher wrappers), in MSVC-driver mode for MSVC-like compilers, with the extra IWYU arguments added; quoting in "command" strings is undone per platform rules.',
  ['inputs', 'configurations'], 'all compilation databases, platforms and extra arguments',
  '!Unit tests check a few commands.',
  fns(W, 'is_msvc_driver win_split win_split.split_iter split_command find_include_what_you_use Invocation.__init__ Invocation.from_compile_command Invocation.start Process.start Invocation.__str__'))

P('P21', 'iwyu_tool analyses exactly the requested entries',
  'Every compilation-database entry whose file (made absolute against its directory) equals or lies below a requested path, both with links resolved, is analysed, for each requested path in turn and in database order; with no request all are; requests that do not exist or match nothing are warned about; no other entry is analysed, and a database that cannot be read is reported.',
  ['inputs', 'configurations'], 'all databases and source lists',
  '!Unit tests check a few lists.',
  fns(W, 'fixup_compilation_db slice_compilation_db is_subpath_of normcase main'))

P('P22', 'iwyu_tool runs every job within its limits and reports the worst status',
  'Every invocation is run exactly once, with at most the requested number of processes at a time and, when a load limit is given, no new one above it (but always one running); its complete output is printed once through the chosen formatter, and the exit status is the worst of all invocations (the most negative, else the largest), for every completion order.',
  ['schedules', 'histories', 'configurations'], 'all completion orders, job counts, load limits and exit codes',
  '!Unit tests run a handful of stub processes.',
  fns(W, 'worst_exit_code execute Process.__init__ Process.poll Process.returncode Process.get_output Process.start main'))

P('P23', 'iwyu_tool separates its own options from IWYU options and formats faithfully',
  'Arguments before -- are interpreted by iwyu_tool and everything after is passed to IWYU unchanged; each output formatter reports every suggestion IWYU made for the same file and line, and invents none.',
  ['inputs', 'configurations'], 'all command lines and IWYU outputs',
  '!Unit tests check one formatter sample.',
  fns(W, 'clang_formatter _bootstrap _bootstrap.partition_args _bootstrap.customize_usage _bootstrap.customize_help _bootstrap.customize_help.custom_help <module>'),
  [RC.report_matches_tool])

# ------------------------------------------------------------------ shared functions
# A function that several guarantees rest on belongs to each of them.

def also(pid, *tables):
    p = PROPS[pid]
    have = {(t.file, t.func) for t in p['tables'] if not t.conf().get('scope')}
    for ts in tables:
        for t in ts:
            if (t.file, t.func) in have:
                continue
            have.add((t.file, t.func))
            p['tables'].append(t)
            if t.file not in p['anchors']['files']:
                p['anchors']['files'].append(t.file)
            if len(p['anchors']['mechanism']) < 40:
                p['anchors']['mechanism'].append({'name': t.func, 'where': t.file})


def pre(prefix, names):
    return ' '.join(prefix + n for n in names.split())


FI, IPI, IPK, IBV, IAC, ITV = ('IwyuFileInfo::', 'IwyuPreprocessorInfo::', 'IncludePicker::', 'IwyuBaseAstVisitor::', 'IwyuAstConsumer::', 'InstantiatedTemplateVisitor::')

also('C02', fns(O, 'PrintableDiffs'))
also('C05', fns(PA, 'ConvertToQuotedInclude StripPathPrefix NormalizeDirPath NormalizeFilePath GetCanonicalName'))
also('C06', fns(PK, pre(IPK, 'AddMapping AddIncludeMapping AddSymbolMapping MarkVisibility') + ' IsQuotedFilepathPattern MappedInclude::MappedInclude'), fns(G, 'InitGlobals'))
also('C08', fns(PK, pre(IPK, 'AddDefaultMappings GetVisibility')), fns('iwyu_regex.cc', 'RegexMatch RegexReplace'))
also('C09', fns(PK, pre(IPK, 'MarkVisibility AddFriendRegex ExpandRegexes') + ' MakeMapTransitive MakeNodeTransitive ExpandOnce MappedInclude::HasAbsoluteQuotedInclude'), fns(PA, 'ConvertToQuotedInclude'))
also('C11', fns(PP, pre(IPI, 'IncludeIsInhibited ForwardDeclareIsInhibited ForwardDeclareIsMarkedKeep ForwardDeclareIsExported MaybeProtectInclude ProcessHeadernameDirectivesInFile AddDirectInclude '
                             'FinalizeProtectedIncludes BelongsToMainCompilationUnit')),
     fns(PK, pre(IPK, 'AddFriendRegex MarkIncludeAsPrivate')), fns(LX, 'GetSourceTextUntilEndOfLine'))
also('C12', fns(PP, pre(IPI, 'HandlePragmaComment AddDirectInclude')), fns(O, 'CalculateDesiredIncludesAndForwardDeclares ' + pre(FI, 'HandlePreprocessingDone CalculateAndReportIwyuViolations')),
     fns(G, 'AddGlobToKeepIncludes'), fns('iwyu_port.cc', 'GlobMatchesPath'))
also('C13', fns(PP, pre(IPI, 'BelongsToMainCompilationUnit')), fns(PK, 'IncludePicker::AddDirectInclude'), fns(PA, 'GetCanonicalName'))
also('C14', fns(O, pre(FI, 'HandlePreprocessingDone ReportFullSymbolUse')), fns(LOCH, 'GetFileEntry IsInMacro'))
also('C15', fns(PP, pre(IPI, 'AddDirectInclude')), fns(PK, pre(IPK, 'HasMapping IsPublic')))
also('C16', fns(PP, pre(IPI, 'AddDirectInclude FileChanged')), fns(G, 'AddGlobToReportIWYUViolationsFor'), fns('iwyu_port.cc', 'GlobMatchesPath'), fns(O, 'IwyuFileInfo::AddAssociatedHeader'))
also('C17', fns(O, 'ProcessForwardDeclare ProcessFullUse ' + pre(FI, 'CalculateAndReportIwyuViolations AddForwardDeclare')), fns(PP, pre(IPI, 'HandlePragmaComment')), fns(A, pre(IAC, 'VisitTagDecl')))
also('C20', fns(O, pre(FI, 'CalculateIwyuViolations')), fns(U, 'HasDefaultTemplateParameters IsNestedClass GetTagRedecls GetTagDefinition IsForwardDecl CanBeOpaqueDeclared IsDeclaredInsideFunction'),
     fns(PP, pre(IPI, 'ForwardDeclareIsInhibited ForwardDeclareIsExported')))
also('C21', fns(O, 'HasMapping ' + pre(FI, 'CalculateIwyuViolations')), fns(U, 'GetNonTagRedecls IsBuiltinFunction IsDeclaredInsideFunction IsInNamespace GetTagDefinition'), fns(PP, pre(IPI, 'FileTransitivelyIncludes')),
     fns(PK, pre(IPK, 'GetMappedPublicHeaders')))
also('C22', fns(O, 'CalculateIwyuForFullUse ' + pre(FI, 'CalculateIwyuViolations') + ' ' + pre('OneUse::', 'SetPublicHeaders public_headers PublicHeadersContain NeedsSuggestedHeader')))
also('C23', fns(O, 'CalculateDesiredIncludesAndForwardDeclares PrintableDiffs DeclIsVisibleToUseInSameFile ' + pre(FI, 'CalculateAndReportIwyuViolations')), [T(A + ':IwyuAstConsumer::HandleTranslationUnit')])
also('C24', fns(O, 'CleanupPrefixHeaderIncludes ' + pre(FI, 'CalculateAndReportIwyuViolations CalculateIwyuViolations AddInclude AddForwardDeclare AddElaboratedType ReportKnownDesiredFile')),
     fns(OH, pre('OneIncludeOrForwardDeclareLine::', 'matches set_desired clear_desired LineNumbersMatch')), fns(U, 'IsDeclaredInsideMacro'))
also('C25', fns(O, 'GetLineSortOrdinal ' + pre(FI, 'HandlePreprocessingDone CalculateAndReportIwyuViolations')), fns(PP, pre(IPI, 'MaybeProtectInclude AddDirectInclude HandlePreprocessingDone')),
     fns(U, 'GetTagDefinition'))
also('C26', fns(O, 'GetLineSortOrdinal GetSortKey GetSymbolsSortedByFrequency OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine ' + pre(FI, 'CalculateAndReportIwyuViolations') + ' '
                   + pre('OneIncludeOrForwardDeclareLine::', 'AddSymbolUse HasSymbolUse')))
also('C28', fns(O, 'PrintableDiffs PrintableIncludeOrForwardDeclareLine CalculateMinimalIncludes ' + pre(FI, 'EmitWarningMessages')), [T(A + ':IwyuAstConsumer::HandleTranslationUnit')])
also('C29', fns(O, pre(FI, 'ResolvePendingAnalysis')), fns(A, pre(IAC, 'VisitTagDecl VisitUsingDecl')))
also('C30', fns(O, pre(FI, 'ReportFullSymbolUse ReportForwardDeclareUse ReportUsingDeclUse') + ' OneUse::OneUse'), fns(U, 'ComputeUseFlags GetDefinitionAsWritten'))
also('C31', fns(U, 'IsAutocastExpr HasCovariantReturnType HasImplicitConversionCtor IsImplicitConversionCtor HasImplicitConversionConstructor IsCXXConstructExprInInitializer IsCXXConstructExprInNewExpr '
                   'RemovePointersAndReferencesAsWritten RemoveReferenceAsWritten'),
     fns(A, pre(IBV, 'VisitCXXConstructExpr HandleFunctionCall')), fns(PP, pre(IPI, 'PublicHeaderIntendsToProvide')), fns(O, 'IsDirectlyIncluded'))
also('C32', fns(U, 'GetDestructorForDeleteExpr GetSiblingDestructorFor IsDerivedToBasePtrConvertible IsBaseToDerivedMemPtrConvertible IsReferenceToModifiableLValue IsDependentNameCall IsAddressOf TypeOfParentIfMethod '
                   'GetFirstClassArgument IsAutocastExpr GetFromLeastDerived'),
     fns(A, pre(IBV, 'HandleNonAutocastConstruction HandleAutocastOnCallSite HandleFnReturnOnCallSite')))
also('C33', fns(A, pre(IBV, 'VisitTypedefNameDecl VisitFunctionDecl VisitCXXMethodDecl')), fns(U, 'IsForwardDecl IsFriendDecl IsExplicitInstantiation IsExplicitInstantiationDefinitionAsWritten GetNonfriendClassRedecl '
                                                                                             'HasCovariantReturnType GetInstantiatedFromDecl'),
     fns(O, pre(FI, 'AddForwardDeclare AddUsingDecl')))
also('C34', fns(A, pre(IBV, 'ReportTypeUse ReportTypeUseInternal ReportTypesUse')), fns(U, 'IsPointerOrReferenceAsWritten CanBeOpaqueDeclared InvolvesTypeForWhich'))
also('C35', fns(U, 'GetTplInstDataForFunction GetTplInstDataForClass GetTplInstDataForClassNoComponentTypes GetDefaultedArgResugarMap IsDefaultTemplateTemplateArg'))
also('C36', fns(A, pre(ITV, 'ScanInstantiatedFunction ScanInstantiatedClass ScanInstantiatedType ReportDeclUse ReportTypeUse')))
also('C37', fns(UH, pre('ASTNode::', 'ASTNode ContentIs GetParentAs ParentIsA GetAs IsA DynCast in_forward_declare_context set_in_forward_declare_context')),
     fns(A, pre('AstFlattenerVisitor::NodeSet::', 'Add AddAll empty clear') + ' AstFlattenerVisitor::AstFlattenerVisitor VisitorState::VisitorState IwyuAstConsumer::Visitor::VisitCXXRecordDecl IwyuAstConsumer::Initialize'))
also('C38', fns(U, 'GetRedeclsOfRedeclarable TypeToDeclImpl'))
also('C42', fns(U, 'PrintableLoc'), fns(A, 'BaseAstVisitor::CurrentFilePath BaseAstVisitor::CurrentFileEntry'))
also('C35', fns(A, pre(ITV, 'InstantiatedTemplateVisitor caller_loc')))
also('C16', fns('iwyu_preprocessor.h', pre(IPI, 'main_file files_to_report_iwyu_violations_for')))
also('C40', fns('iwyu_path_util.h', 'HeaderSearchPath::HeaderSearchPath'))
also('C43', fns('iwyu_port.h', 'FatalMessageEmitter::stream OstreamVoidifier::operator&'))
also('C43', fns(O, 'PrintableDiffs ' + pre(FI, 'EmitWarningMessages CalculateAndReportIwyuViolations') + ' OutputLine::printable_line'))
also('P01', fns(F, 'FixFileLines ParseOneFile IWYUOutputRecord.HasContentfulChanges NormalizeFilePath'))
also('P02', fns(F, 'ProcessIWYUOutput NormalizeFilePath'))
also('P03', fns(F, 'IWYUOutputRecord.__init__ IWYUOutputRecord.HasContentfulChanges'))
also('P04', fns(F, '_LinesAreAllBlank _ContainsBarrierInclude _GetLineKind'))
also('P05', fns(F, '_DecoratedMoveSpanLines FixFileLines _CalculateLineTypesAndKeys'))
also('P06', fns(F, 'FixFileLines _PreviousNondeletedLine _NextNondeletedLine _LinesAreAllBlank _LineNumberStartingPrecedingComments _MayBeHeaderFile'))
also('P07', fns(F, '_GetToplevelReorderSpans _CalculateReorderSpans _CalculateMoveSpans _DeleteExtraneousBlankLines _ShouldInsertBlankLine SortIncludesInFiles'))
also('P08', fns(F, '_FirstReorderSpanWith _DecoratedMoveSpanLines _DeleteEmptyNamespaces'))
also('P09', fns(F, 'ParseOneFile FixManyFiles'))
also('P23', fns(W, 'main'))
also('P20', fns(W, 'main'))
also('P01', fns(F, '<module>'))


# ------------------------------------------------------------------ not applicable

N('N01', 'Applying the suggestions yields code that still compiles',
  'After the includes and forward declarations IWYU suggests are applied, every translation unit that compiled before still compiles, with the same meaning.',
  ['inputs', 'configurations'], 'all programs, standard libraries and mapping files',
  TESTS + 'the sample programs that run elsewhere are a few hundred hand-written translation units.',
  ['iwyu.cc', 'iwyu_output.cc'], [{'name': 'the whole analysis', 'where': 'iwyu.cc, iwyu_output.cc'}],
  'Quantifies over the semantics of arbitrary C++ programs after an edit: no static argument over IWYU\'s own source bounds it. The necessary structural parts are claimed as C20-C24 and C30-C35.')
N('N02', 'The suggested include set is minimal',
  'No smaller set of headers than the suggested one provides every symbol that is used.',
  ['inputs'], 'all use sets and candidate lists', TESTS + 'minimality is over all programs.',
  ['iwyu_output.cc'], [{'name': 'CalculateMinimalIncludes', 'where': 'iwyu_output.cc'}],
  'The choice is a greedy cover whose result depends on run-time counts; the documentation promises no optimum. What each use gets, in which order and with which tie break, is claimed as C22.')
N('N03', 'fix_includes is idempotent on its own output',
  'Running IWYU and fix_includes.py again on a fixed file changes nothing.',
  ['inputs', 'histories'], 'all files and IWYU outputs', 'Unit tests apply one edit to a sample and compare text.',
  ['fix_includes.py'], [{'name': 'FixFileLines', 'where': 'fix_includes.py'}],
  'A round-trip equality of runtime text through two programs; the individual steps are claimed as P04-P08.')
N('N04', 'Every run terminates, within resources proportional to the input',
  'IWYU and its tools terminate on every input, with bounded recursion and without quadratic blow-up.',
  ['inputs'], 'all inputs', TESTS + 'time and depth are never measured.',
  ['iwyu.cc', 'iwyu_include_picker.cc', 'iwyu_driver.cc'], [{'name': 'recursive mapping/response files and AST recursion', 'where': 'iwyu_include_picker.cc, iwyu_driver.cc, iwyu.cc'}],
  'Termination depends on runtime structure (file contents, AST depth, regular expressions); no ranking argument over the source is in reach.')
N('N05', 'Parallel runs give the same suggestions as sequential runs',
  'The set of suggestions iwyu_tool.py prints does not depend on the number of jobs or their completion order.',
  ['schedules'], 'all completion orders', 'Unit tests use stub processes.',
  ['iwyu_tool.py'], [{'name': 'execute', 'where': 'iwyu_tool.py'}],
  'Depends on operating-system processes and on IWYU itself being deterministic across runs; the scheduling code is claimed as P22, determinism of ordering as C28.')
