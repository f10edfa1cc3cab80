# Builds an include-what-you-use binary from the sources in the current
# directory against Clang 20 (four Clang 21 names are added to a copy of one
# Clang header), into $1/iwyu.  Uses the objects of the normal build for the
# files that one compiles.
mkiwyu() {
  local out=$1 L=/usr/lib/llvm-20 h p pids=() o
  mkdir -p "$out/inc/clang/AST"
  h=$out/inc/clang/AST/Type.h
  python3 - "$L/include/clang/AST/Type.h" "$h" <<'PY' || return 2
import re, sys
t = open(sys.argv[1]).read()
q = '''
  struct IwyuQual { const Type *T; const IwyuQual *operator->() const { return this; }
    const Type *getAsType() const { return T; }
    CXXRecordDecl *getAsRecordDecl() const { return T->getAsCXXRecordDecl(); } };
  IwyuQual getQualifier() const { return IwyuQual{getClass()}; }
'''
a = '  const Type *getClass() const { return Class; }\n'
assert t.count(a) == 1
t = t.replace(a, a + q)
i = t.index('class DependentTemplateSpecializationType : ')
j = t.index('  const IdentifierInfo *getIdentifier() const', i)
t = t[:j] + '''  struct IwyuDtn { NestedNameSpecifier *N; NestedNameSpecifier *getQualifier() const { return N; } };
  IwyuDtn getDependentTemplateName() const { return IwyuDtn{getQualifier()}; }
''' + t[j:]
open(sys.argv[2], 'w').write(t)
PY
  for p in iwyu iwyu_ast_util; do
    $L/bin/clang++ -w -std=c++17 -O1 -fno-exceptions -fPIC -D__STDC_CONSTANT_MACROS \
      -DIWYU_GIT_REV='"x"' -DIWYU_RESOURCE_BINARY_PATH="\"$L/bin/clang-20\"" -DIWYU_RESOURCE_DIR='""' \
      '-DCK_HLSLElementwiseCast=CastKind(120)' '-DCK_HLSLAggregateSplatCast=CastKind(121)' \
      -I"$out/inc" -I$L/include -c $p.cc -o "$out/$p.o" & pids+=($!)
  done
  for o in "${pids[@]}"; do wait "$o" || return 2; done
  $L/bin/clang++ -o "$out/iwyu" "$out"/*.o _build/CMakeFiles/include-what-you-use.dir/*.o \
    -L$L/lib -l:libclang-cpp.so.20.1 -lLLVM-20 -Wl,-rpath,$L/lib || return 2
}
