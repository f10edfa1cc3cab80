// irdump: lowers every function defined in the repository's own C++ sources to
// a small, normalised, type-resolved statement/expression tree (JSON on
// stdout).  All deciding happens in the rule engine (Python) over this tree.
//
//   irdump REPO_DIR FILE.cc -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;
using std::string;

static string RepoDir;

namespace {
json::Array A(std::initializer_list<json::Value> l) { return json::Array(l); }

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP;
  json::Array Functions, Globals, Records, Enums;
  std::map<const ValueDecl*, int> ids;
  explicit Dumper(ASTContext& c) : Ctx(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  bool InRepo(SourceLocation loc, string* file = nullptr, unsigned* line = nullptr) {
    loc = SM.getExpansionLoc(loc);
    if (loc.isInvalid()) return false;
    PresumedLoc p = SM.getPresumedLoc(loc);
    if (p.isInvalid()) return false;
    StringRef f = p.getFilename();
    if (!f.starts_with(RepoDir + "/")) return false;
    if (file) *file = f.substr(RepoDir.size() + 1).str();
    if (line) *line = p.getLine();
    return true;
  }
  int Line(SourceLocation loc) {
    loc = SM.getExpansionLoc(loc);
    if (loc.isInvalid()) return 0;
    return SM.getExpansionLineNumber(loc);
  }
  string MacroName(SourceLocation loc) {
    if (!loc.isMacroID()) return "";
    while (SM.isMacroArgExpansion(loc))
      loc = SM.getImmediateExpansionRange(loc).getBegin();
    if (!loc.isMacroID()) return "";
    // outermost macro
    string name;
    while (loc.isMacroID()) {
      name = Lexer::getImmediateMacroName(loc, SM, Ctx.getLangOpts()).str();
      loc = SM.getImmediateExpansionRange(loc).getBegin();
    }
    return name;
  }

  // Name with namespaces of repo code dropped, records kept.
  string DeclName(const NamedDecl* d) {
    if (!d) return "?";
    if (const auto* ft = dyn_cast<FunctionTemplateDecl>(d)) d = ft->getTemplatedDecl();
    string n;
    if (const auto* f = dyn_cast<FunctionDecl>(d)) {
      // map instantiation to pattern for naming
      n = f->getDeclName().getAsString();
      if (const auto* c = dyn_cast<CXXConstructorDecl>(f)) n = c->getParent()->getNameAsString();
      if (const auto* c = dyn_cast<CXXDestructorDecl>(f)) n = "~" + c->getParent()->getNameAsString();
    } else {
      n = d->getDeclName().getAsString();
    }
    bool repo = InRepo(d->getLocation());
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (const auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!repo && !ns->isInline() && !ns->isAnonymousNamespace())
          n = ns->getNameAsString() + "::" + n;
      } else if (const auto* rd = dyn_cast<RecordDecl>(dc)) {
        n = rd->getNameAsString() + "::" + n;
      } else if (const auto* ed = dyn_cast<EnumDecl>(dc)) {
        if (!ed->getNameAsString().empty()) n = ed->getNameAsString() + "::" + n;
      }
      dc = dc->getParent();
    }
    return n;
  }
  string TypeStr(QualType t) {
    if (t.isNull()) return "?";
    return t.getAsString(PP);
  }
  string CanonStr(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  string BareType(QualType t) {
    if (t.isNull()) return "?";
    t = t.getNonReferenceType();
    while (t->isPointerType()) t = t->getPointeeType();
    t = t.getUnqualifiedType();
    if (const auto* rd = t->getAsCXXRecordDecl()) return rd->getNameAsString();
    return t.getAsString(PP);
  }
  int Id(const ValueDecl* d) {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }

  bool IsMutParam(QualType t) {
    if (t.isNull()) return false;
    if (t->isLValueReferenceType()) return !t->getPointeeType().isConstQualified();
    if (t->isPointerType()) return !t->getPointeeType().isConstQualified();
    return false;
  }

  json::Value Args(llvm::ArrayRef<const Expr*> args) {
    json::Array r;
    for (const Expr* a : args) r.push_back(E(a));
    return r;
  }
  template <class It>
  json::Value ArgsIt(It b, It e) {
    json::Array r;
    for (; b != e; ++b) r.push_back(E(*b));
    return r;
  }
  static string FieldNames(QualType t) {
    string r;
    if (const auto* rd = t->getAsRecordDecl()) {
      r = "{";
      for (const FieldDecl* f : rd->fields()) r += f->getNameAsString() + ",";
      r += "}";
    }
    return r;
  }
  // An initialiser; in dependent code the nested lists carry no type of their own.
  json::Value InitOf(QualType t, const Expr* e) {
    const auto* x = dyn_cast<InitListExpr>(e);
    if (!x || t.isNull()) return E(e);
    const ArrayType* at = t->getAsArrayTypeUnsafe();
    const InitListExpr* sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
    if (!at && !(t->isRecordType() && x->getType()->isVoidType())) return E(e);
    json::Array r;
    if (at) {
      for (const Expr* i : sem->inits()) r.push_back(InitOf(at->getElementType(), i));
      return A({"list", std::move(r), BareType(x->getType()) + FieldNames(x->getType())});
    }
    for (const Expr* i : sem->inits()) r.push_back(E(i));
    return A({"list", std::move(r), BareType(t) + FieldNames(t)});
  }
  // The one repo function an overload set in dependent code can mean.
  const FunctionDecl* OnlyCandidate(const OverloadExpr* u, unsigned nargs) {
    const FunctionDecl* found = nullptr;
    for (const NamedDecl* d : u->decls()) {
      d = d->getUnderlyingDecl();
      const auto* fd = dyn_cast<FunctionDecl>(d);
      if (const auto* td = dyn_cast<FunctionTemplateDecl>(d)) fd = td->getTemplatedDecl();
      if (!fd || !InRepo(fd->getLocation())) return nullptr;
      if (nargs < fd->getMinRequiredArguments() || (nargs > fd->getNumParams() && !fd->isVariadic())) continue;
      if (found) return nullptr;
      found = fd;
    }
    return found;
  }
  json::Object Flags(const Expr* e, const FunctionDecl* fd, unsigned nargs) {
    json::Object o;
    o["l"] = Line(e->getBeginLoc());
    string m = MacroName(e->getBeginLoc());
    if (!m.empty()) o["mac"] = m;
    if (fd) {
      if (const auto* md = dyn_cast<CXXMethodDecl>(fd)) {
        if (md->isConst() || md->isStatic()) o["const"] = true;
        if (md->isVirtual()) o["virt"] = true;
        // vec.emplace_back(a, b), set.emplace(a, b): the element built in place
        if (md->getDeclName().isIdentifier() && !InRepo(fd->getLocation()) &&
            (md->getName() == "emplace_back" || md->getName() == "emplace_front" || md->getName() == "emplace"))
          if (const auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(md->getParent())) {
            bool map = sp->getName().contains("map");
            const auto& ta = sp->getTemplateArgs();
            if (!map && ta.size() && ta[0].getKind() == TemplateArgument::Type) {
              const auto* rd = ta[0].getAsType()->getAsCXXRecordDecl();
              bool one = false;
              if (nargs == 1 && rd && InRepo(rd->getLocation()))
                if (const auto* ce = dyn_cast<CallExpr>(e))
                  one = ce->getArg(0)->getType().getNonReferenceType()->getAsCXXRecordDecl() != rd;
              if (nargs != 1 || one) o["elt"] = BareType(ta[0].getAsType());
            }
          }
      }
      json::Array mut;
      // forwarding references of the standard library: the argument is a value
      static const char* const kForwarding[] = {
          "make_pair", "make_tuple", "make_unique", "make_shared", "emplace", "emplace_back", "try_emplace",
          "insert_or_assign", "insert", "push_back"};
      bool fwd = false;
      if (!InRepo(fd->getLocation()) && fd->getDeclName().isIdentifier())
        for (const char* k : kForwarding) fwd |= fd->getName() == k;
      for (unsigned i = 0; !fwd && i < nargs && i < fd->getNumParams(); ++i)
        if (IsMutParam(fd->getParamDecl(i)->getType())) mut.push_back((int)i);
      if (!mut.empty()) o["mut"] = std::move(mut);
      if (InRepo(fd->getLocation())) {
        o["repo"] = true;
        o["sig"] = Sig(fd);
      }
      if (fd->isNoReturn()) o["noret"] = true;
      if (e->getType().isNull() == false) o["ty"] = TypeStr(e->getType());
    }
    return o;
  }
  string Sig(const FunctionDecl* fd) {
    // signature of the pattern, to tell overloads apart
    if (const FunctionDecl* p = fd->getTemplateInstantiationPattern()) fd = p;
    string s;
    for (const ParmVarDecl* p : fd->parameters()) {
      if (!s.empty()) s += ",";
      s += TypeStr(p->getType());
    }
    return s;
  }
  string CalleeName(const FunctionDecl* fd) {
    const FunctionDecl* d = fd;
    if (const FunctionDecl* p = fd->getTemplateInstantiationPattern()) d = p;
    string n = DeclName(d);
    static const std::set<string> casts = {"llvm::dyn_cast", "llvm::isa", "llvm::cast",
                                           "llvm::dyn_cast_or_null", "llvm::cast_or_null",
                                           "llvm::isa_and_nonnull", "llvm::dyn_cast_if_present",
                                           "llvm::isa_and_present", "llvm::cast_if_present"};
    if (casts.count(n)) {
      string t;
      if (const TemplateArgumentList* l = fd->getTemplateSpecializationArgs()) {
        if (l->size() && l->get(0).getKind() == TemplateArgument::Type) t = BareType(l->get(0).getAsType());
        if (l->size() && l->get(0).getKind() == TemplateArgument::Pack)
          for (const auto& a : l->get(0).pack_elements())
            if (a.getKind() == TemplateArgument::Type) t += (t.empty() ? "" : ",") + BareType(a.getAsType());
        // isa<First, Second, Rest...>
        if (n.find("isa") != string::npos && l->size() >= 3 && l->get(1).getKind() == TemplateArgument::Type &&
            l->get(2).getKind() == TemplateArgument::Pack)
          t += "," + BareType(l->get(1).getAsType());
        for (unsigned i = 1; i < l->size(); ++i)
          if (n.find("isa") != string::npos && l->get(i).getKind() == TemplateArgument::Pack)
            for (const auto& a : l->get(i).pack_elements())
              if (a.getKind() == TemplateArgument::Type) t += "," + BareType(a.getAsType());
      }
      n = n.substr(6);
      if (n == "dyn_cast_or_null" || n == "dyn_cast_if_present") n = "dyn_cast";
      if (n == "cast_or_null" || n == "cast_if_present") n = "cast";
      if (n == "isa_and_nonnull" || n == "isa_and_present") n = "isa";
      n += "<" + t + ">";
    } else if (const TemplateArgumentList* l = fd->getTemplateSpecializationArgs()) {
      // member templates used as casts: GetAs<T>, ParentIsA<T>, IsA<T> ...
      static const std::set<string> asNames = {"GetAs", "IsA", "ParentIsA", "GetParentAs", "HasAncestorOfType",
                                               "GetAncestorAs", "getAs", "castAs"};
      if (asNames.count(fd->getDeclName().getAsString()) && l->size() &&
          l->get(0).getKind() == TemplateArgument::Type)
        n += "<" + BareType(l->get(0).getAsType()) + ">";
    }
    return n;
  }

  const Expr* Strip(const Expr* e) {
    while (e) {
      if (const auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        e = x->getSubExpr();
        if (x->getCastKind() == CK_ConstructorConversion)
          if (const auto* c = dyn_cast<CXXConstructExpr>(SkipTemps(e)))
            if (NumRealArgs(c) == 1) e = c->getArg(0);
      }
      else if (const auto* x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (const auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (const auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (const auto* x = dyn_cast<CXXStaticCastExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CXXConstCastExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CXXConstructExpr>(e)) {
        if (!isa<CXXTemporaryObjectExpr>(e) && NumRealArgs(x) == 1 && x->getConstructor()) {
          const CXXConstructorDecl* c = x->getConstructor();
          bool conv = c->isCopyOrMoveConstructor() || x->isElidable();
          if (!conv && !c->isExplicit() && c->isConvertingConstructor(false)) {
            // value-preserving conversions into std/llvm/clang value types
            const DeclContext* dc = c->getParent()->getEnclosingNamespaceContext();
            if (dc->isStdNamespace() || dc->isInlineNamespace() || !InRepo(c->getParent()->getLocation())) {
              QualType at = x->getArg(0)->getType().getNonReferenceType();
              if (!at->isIntegerType()) conv = true;
            }
          }
          if (conv) { e = x->getArg(0); continue; }
        }
        return e;
      }
      else if (const auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CStyleCastExpr>(e)) {
        if (x->getCastKind() == CK_ToVoid) return e;
        e = x->getSubExpr();
      }
      else return e;
    }
    return e;
  }
  const Expr* SkipTemps(const Expr* e) {
    while (true) {
      if (const auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else return e;
    }
  }
  unsigned NumRealArgs(const CXXConstructExpr* c) {
    unsigned n = 0;
    for (const Expr* a : c->arguments())
      if (!isa<CXXDefaultArgExpr>(a)) ++n;
    return n;
  }

  json::Value Lambda(const LambdaExpr* l) {
    json::Object f;
    json::Array ps;
    const CXXMethodDecl* op = l->getCallOperator();
    for (const ParmVarDecl* p : op->parameters()) ps.push_back(Param(p));
    f["params"] = std::move(ps);
    f["body"] = S(l->getBody());
    f["l"] = Line(l->getBeginLoc());
    json::Array caps;
    for (const LambdaCapture& c : l->captures())
      if (c.capturesVariable()) {
        json::Object co;
        co["id"] = Id(c.getCapturedVar());
        co["name"] = c.getCapturedVar()->getNameAsString();
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (const auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
          if (vd->isInitCapture() && vd->getInit()) co["init"] = E(vd->getInit());
        caps.push_back(std::move(co));
      }
    f["caps"] = std::move(caps);
    return A({"lam", std::move(f)});
  }
  json::Value Param(const ParmVarDecl* p) {
    json::Object o;
    o["name"] = p->getNameAsString();
    o["id"] = Id(p);
    o["ty"] = TypeStr(p->getType());
    o["mut"] = IsMutParam(p->getType());
    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg())
      o["def"] = E(p->getDefaultArg());
    return o;
  }

  json::Value MemberBase(const Expr* b) {
    // normalise p->f, (*p).f, it->f to base p / it
    b = Strip(b);
    if (const auto* oc = dyn_cast<CXXOperatorCallExpr>(b))
      if ((oc->getOperator() == OO_Arrow || oc->getOperator() == OO_Star) && oc->getNumArgs() == 1)
        return E(oc->getArg(0));
    if (const auto* u = dyn_cast<UnaryOperator>(b))
      if (u->getOpcode() == UO_Deref || u->getOpcode() == UO_AddrOf) return E(u->getSubExpr());
    return E(b);
  }

  json::Value Ref(const ValueDecl* d, const Expr* e) {
    if (const auto* ec = dyn_cast<EnumConstantDecl>(d))
      return A({"e", DeclName(ec), (int64_t)ec->getInitVal().getExtValue()});
    if (const auto* vd = dyn_cast<VarDecl>(d)) {
      if (vd->hasGlobalStorage() && !vd->isStaticLocal()) return A({"g", DeclName(vd)});
      return A({"v", vd->getNameAsString(), Id(vd)});
    }
    if (const auto* bd = dyn_cast<BindingDecl>(d)) return A({"v", bd->getNameAsString(), Id(bd)});
    if (const auto* fd = dyn_cast<FunctionDecl>(d)) return A({"fn", CalleeName(fd)});
    return A({"g", DeclName(d)});
  }

  json::Value E(const Expr* e0) {
    const Expr* e = Strip(e0);
    if (!e) return nullptr;
    if (const auto* x = dyn_cast<DeclRefExpr>(e)) return Ref(x->getDecl(), e);
    if (isa<CXXThisExpr>(e)) return A({"this"});
    if (const auto* x = dyn_cast<MemberExpr>(e)) {
      if (const auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) return A({"g", DeclName(vd)});
      if (isa<EnumConstantDecl>(x->getMemberDecl())) return Ref(x->getMemberDecl(), e);
      string cls;
      if (const auto* rd = dyn_cast<RecordDecl>(x->getMemberDecl()->getDeclContext())) cls = rd->getNameAsString();
      return A({"f", MemberBase(x->getBase()), x->getMemberDecl()->getNameAsString(), cls});
    }
    if (const auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      if (x->isImplicitAccess()) return A({"f", A({"this"}), x->getMember().getAsString(), "?"});
      return A({"f", MemberBase(x->getBase()), x->getMember().getAsString(), "?"});
    }
    if (const auto* x = dyn_cast<UnresolvedMemberExpr>(e)) {
      json::Value b = x->isImplicitAccess() ? json::Value(A({"this"})) : MemberBase(x->getBase());
      return A({"f", std::move(b), x->getMemberName().getAsString(), "?"});
    }
    if (const auto* x = dyn_cast<UnresolvedLookupExpr>(e)) return A({"fn", x->getName().getAsString()});
    if (const auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
      string q;
      if (auto* nns = x->getQualifier()) { llvm::raw_string_ostream os(q); nns->print(os, PP); }
      return A({"fn", q + x->getDeclName().getAsString()});
    }
    if (const auto* x = dyn_cast<StringLiteral>(e)) {
      string s = x->getCharByteWidth() == 1 ? x->getString().str() : "<wide>";
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      return A({"s", s});
    }
    if (const auto* x = dyn_cast<PredefinedExpr>(e)) return A({"s", "__func__"});
    if (const auto* x = dyn_cast<IntegerLiteral>(e)) return A({"n", (int64_t)x->getValue().getLimitedValue()});
    if (const auto* x = dyn_cast<CharacterLiteral>(e)) return A({"n", (int64_t)x->getValue(), "char"});
    if (const auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return A({"b", x->getValue()});
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return A({"null"});
    if (const auto* x = dyn_cast<FloatingLiteral>(e)) return A({"n", x->getValueAsApproximateDouble()});
    if (const auto* x = dyn_cast<LambdaExpr>(e)) return Lambda(x);
    if (const auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      OverloadedOperatorKind k = x->getOperator();
      string op = getOperatorSpelling(k);
      if (k == OO_Arrow) return E(x->getArg(0));
      const FunctionDecl* fd = x->getDirectCallee();
      json::Object fl = Flags(e, nullptr, 0);
      if (fd && InRepo(fd->getLocation())) { fl["callee"] = CalleeName(fd); }
      if (k == OO_Call) {
        std::vector<const Expr*> args(x->arg_begin() + 1, x->arg_end());
        return A({"c", "operator()", E(x->getArg(0)), Args(args), std::move(fl)});
      }
      if (k == OO_PlusPlus || k == OO_MinusMinus) {
        return A({"o", (x->getNumArgs() == 2 ? "p" : "") + op, A({E(x->getArg(0))}), std::move(fl)});
      }
      std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
      if (k == OO_Plus || k == OO_PlusEqual)
        if (const auto* rd = x->getType()->getAsCXXRecordDecl(); rd && rd->getName() == "basic_string") fl["str"] = true;
      return A({"o", op, Args(args), std::move(fl)});
    }
    if (const auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      const CXXMethodDecl* md = x->getMethodDecl();
      std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
      const Expr* callee = x->getCallee()->IgnoreParens();
      if (md) {
        if (isa<CXXConversionDecl>(md)) {
          const Expr* obj = Strip(x->getImplicitObjectArgument());
          json::Value b = E(obj);
          // DynCastFrom(p) converted to T*
          if (auto* arr = b.getAsArray())
            if (arr->size() >= 4 && (*arr)[0] == json::Value("c"))
              if (auto s = (*arr)[1].getAsString())
                if (s->ends_with("DynCastFrom"))
                  return A({"c", "dyn_cast<" + BareType(cast<CXXConversionDecl>(md)->getConversionType()) + ">", nullptr,
                            std::move((*arr)[3]), Flags(e, nullptr, 0)});
          return b;
        }
        json::Value base = nullptr;
        if (const auto* me = dyn_cast<MemberExpr>(callee)) {
          base = MemberBase(me->getBase());
          json::Object fl = Flags(e, md, args.size());
          if (me->hasQualifier()) fl["qual"] = true;  // non-virtual, Base::f()
          if (me->isArrow() && md->getParent()->getName() == "basic_string") fl["arr"] = true;
          return A({"c", CalleeName(md), std::move(base), Args(args), std::move(fl)});
        }
        base = E(x->getImplicitObjectArgument());
        return A({"c", CalleeName(md), std::move(base), Args(args), Flags(e, md, args.size())});
      }
      return A({"c", "?ptrmem", E(callee), Args(args), Flags(e, nullptr, 0)});
    }
    if (const auto* x = dyn_cast<CallExpr>(e)) {
      std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
      const FunctionDecl* fd = x->getDirectCallee();
      if (fd) {
        string n = CalleeName(fd);
        if ((n == "std::move" || n == "std::forward") && args.size() == 1) return E(args[0]);
        json::Value base = nullptr;
        if (const auto* md = dyn_cast<CXXMethodDecl>(fd))
          if (!md->isStatic())
            if (const auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts()))
              base = MemberBase(me->getBase());
        return A({"c", n, std::move(base), Args(args), Flags(e, fd, args.size())});
      }
      const Expr* callee = x->getCallee()->IgnoreParenImpCasts();
      json::Object fl = Flags(e, nullptr, 0);
      if (const auto* u = dyn_cast<UnresolvedMemberExpr>(callee)) {
        json::Value b = u->isImplicitAccess() ? json::Value(A({"this"})) : MemberBase(u->getBase());
        string cls;
        if (u->getNumDecls())
          if (const auto* rd = dyn_cast<RecordDecl>((*u->decls_begin())->getDeclContext())) cls = rd->getNameAsString() + "::";
        if (const FunctionDecl* fd = OnlyCandidate(u, args.size())) fl = Flags(e, fd, args.size());
        if (u->getQualifier()) fl["qual"] = true;
        return A({"c", cls + u->getMemberName().getAsString(), std::move(b), Args(args), std::move(fl)});
      }
      if (const auto* u = dyn_cast<CXXDependentScopeMemberExpr>(callee)) {
        json::Value b = u->isImplicitAccess() ? json::Value(A({"this"})) : MemberBase(u->getBase());
        string q;
        if (u->getQualifier()) { llvm::raw_string_ostream os(q); u->getQualifier()->print(os, PP); fl["qual"] = true; fl["qn"] = q; }
        string n = "?::" + u->getMember().getAsString();
        if (u->hasExplicitTemplateArgs() && u->getNumTemplateArgs() &&
            u->getTemplateArgs()[0].getArgument().getKind() == TemplateArgument::Type)
          n += "<" + BareType(u->getTemplateArgs()[0].getArgument().getAsType()) + ">";
        return A({"c", n, std::move(b), Args(args), std::move(fl)});
      }
      if (const auto* u = dyn_cast<UnresolvedLookupExpr>(callee)) {
        string n = u->getName().getAsString();
        if (u->hasExplicitTemplateArgs() && u->getNumTemplateArgs() &&
            u->getTemplateArgs()[0].getArgument().getKind() == TemplateArgument::Type)
          n += "<" + BareType(u->getTemplateArgs()[0].getArgument().getAsType()) + ">";
        if (const FunctionDecl* fd = OnlyCandidate(u, args.size())) fl = Flags(e, fd, args.size());
        if (n.rfind("isa_and_", 0) == 0 ) n = "isa" + n.substr(n.find('<'));
        return A({"c", n, nullptr, Args(args), std::move(fl)});
      }
      if (const auto* u = dyn_cast<DependentScopeDeclRefExpr>(callee)) {
        string q;
        if (auto* nns = u->getQualifier()) { llvm::raw_string_ostream os(q); nns->print(os, PP); }
        fl["qual"] = true; fl["qn"] = q;
        return A({"c", "?::" + u->getDeclName().getAsString(), A({"this"}), Args(args), std::move(fl)});
      }
      if (const auto* u = dyn_cast<DeclRefExpr>(callee))
        if (isa<UnresolvedUsingValueDecl>(u->getDecl()))
          return A({"c", "?::" + u->getDecl()->getNameAsString(), A({"this"}), Args(args), std::move(fl)});
      return A({"c", "?call", E(callee), Args(args), std::move(fl)});
    }
    if (const auto* x = dyn_cast<CXXConstructExpr>(e)) {
      string n = x->getConstructor()->getParent()->getNameAsString();
      std::vector<const Expr*> args;
      for (const Expr* a : x->arguments()) if (!isa<CXXDefaultArgExpr>(a)) args.push_back(a);
      if (x->isStdInitListInitialization() && args.size() == 1) return A({"k", n, A({E(args[0])}), Line(e->getBeginLoc())});
      return A({"k", n, Args(args), Line(e->getBeginLoc())});
    }
    if (const auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e))
      return A({"k", BareType(x->getTypeAsWritten()), ArgsIt(x->arg_begin(), x->arg_end()), Line(e->getBeginLoc())});
    if (const auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) return A({"k", BareType(x->getType()), A({}), 0});
    if (const auto* x = dyn_cast<CXXNewExpr>(e)) {
      json::Value init = nullptr;
      if (x->getInitializer()) init = E(x->getInitializer());
      return A({"new", BareType(x->getAllocatedType()), std::move(init), Line(e->getBeginLoc())});
    }
    if (const auto* x = dyn_cast<CXXDeleteExpr>(e)) return A({"del", E(x->getArgument())});
    if (const auto* x = dyn_cast<UnaryOperator>(e)) {
      string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->getOpcode() == UO_PostInc || x->getOpcode() == UO_PostDec) op = "p" + op;
      json::Object fl{{"l", Line(e->getBeginLoc())}};
      if (x->getOpcode() == UO_Deref && x->getType()->isAnyCharacterType()) fl["char"] = 1;
      return A({"o", op, A({E(x->getSubExpr())}), std::move(fl)});
    }
    if (const auto* x = dyn_cast<BinaryOperator>(e)) {
      json::Object fl{{"l", Line(e->getBeginLoc())}};
      QualType lt = x->getLHS()->IgnoreParenImpCasts()->getType(), rt = x->getRHS()->IgnoreParenImpCasts()->getType();
      if (lt->isBooleanType() && (rt->isBooleanType() || x->isCompoundAssignmentOp())) fl["b"] = 1;
      return A({"o", BinaryOperator::getOpcodeStr(x->getOpcode()).str(), A({E(x->getLHS()), E(x->getRHS())}), std::move(fl)});
    }
    if (const auto* x = dyn_cast<ConditionalOperator>(e)) {
      // CHECK_(c): c ? (void)0 : voidifier & fatal
      return A({"cond", E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr()),
                json::Object{{"l", Line(e->getBeginLoc())}, {"mac", MacroName(x->getQuestionLoc())}}});
    }
    if (const auto* x = dyn_cast<ArraySubscriptExpr>(e))
      return A({"o", "[]", A({E(x->getBase()), E(x->getIdx())}), json::Object{{"l", Line(e->getBeginLoc())}}});
    if (const auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      json::Array r;
      for (const Expr* i : sem->inits()) r.push_back(E(i));
      return A({"list", std::move(r), BareType(x->getType()) + FieldNames(x->getType())});
    }
    if (const auto* x = dyn_cast<ParenListExpr>(e)) {
      json::Array r;
      for (unsigned i = 0; i < x->getNumExprs(); ++i) r.push_back(E(x->getExpr(i)));
      if (r.size() == 1) return std::move(r[0]);
      return A({"list", std::move(r), "?"});
    }
    if (const auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (const auto* x = dyn_cast<ImplicitValueInitExpr>(e)) return A({"null"});
    if (const auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, Ctx)) return A({"n", (int64_t)r.Val.getInt().getExtValue(), "sizeof"});
      return A({"?", "sizeof", A({})});
    }
    if (const auto* x = dyn_cast<CXXReinterpretCastExpr>(e)) return E(x->getSubExpr());
    if (const auto* x = dyn_cast<CXXThrowExpr>(e)) return A({"throw", x->getSubExpr() ? E(x->getSubExpr()) : json::Value(nullptr)});
    if (const auto* x = dyn_cast<CStyleCastExpr>(e)) return A({"void", E(x->getSubExpr())});
    if (const auto* x = dyn_cast<CXXDynamicCastExpr>(e)) return A({"c", "dynamic_cast<" + BareType(x->getType()) + ">", nullptr, A({E(x->getSubExpr())}), Flags(e, nullptr, 0)});
    json::Array kids;
    for (const Stmt* c : e->children())
      if (const auto* ce = dyn_cast_or_null<Expr>(c)) kids.push_back(E(ce));
    return A({"?", e->getStmtClassName(), std::move(kids), json::Object{{"l", Line(e->getBeginLoc())}}});
  }

  json::Value Var(const VarDecl* v) {
    json::Object o;
    o["k"] = "decl";
    o["name"] = v->getNameAsString();
    o["id"] = Id(v);
    o["ty"] = TypeStr(v->getType());
    o["cty"] = CanonStr(v->getType());
    o["l"] = Line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getType()->isReferenceType()) o["ref"] = true;
    if (v->getInit()) o["e"] = InitOf(v->getType(), v->getInit());
    else o["e"] = nullptr;
    return o;
  }
  json::Value Block(const Stmt* s) {
    if (!s) return json::Array();
    json::Value v = S(s);
    return v;
  }
  void Push(json::Array& out, const Stmt* s) {
    if (!s) return;
    if (const auto* ds = dyn_cast<DeclStmt>(s)) {
      for (const Decl* d : ds->decls()) {
        if (const auto* dd = dyn_cast<DecompositionDecl>(d)) {
          json::Object o;
          o["k"] = "decomp"; o["l"] = Line(dd->getLocation());
          json::Array ids2;
          for (const BindingDecl* b : dd->bindings()) ids2.push_back(A({"v", b->getNameAsString(), Id(b)}));
          o["vars"] = std::move(ids2);
          o["e"] = dd->getInit() ? E(dd->getInit()) : json::Value(nullptr);
          out.push_back(std::move(o));
        } else if (const auto* vd = dyn_cast<VarDecl>(d)) out.push_back(Var(vd));
      }
      return;
    }
    json::Value v = S(s);
    if (auto* arr = v.getAsArray()) { for (auto& x : *arr) out.push_back(std::move(x)); }
    else out.push_back(std::move(v));
  }
  // returns array of statements or a single object
  json::Value S(const Stmt* s) {
    if (!s) return json::Array();
    if (const auto* c = dyn_cast<CompoundStmt>(s)) {
      json::Array out;
      for (const Stmt* x : c->body()) Push(out, x);
      json::Object o; o["k"] = "blk"; o["b"] = std::move(out); o["l"] = Line(s->getBeginLoc());
      return o;
    }
    json::Object o;
    o["l"] = Line(s->getBeginLoc());
    string mac = MacroName(s->getBeginLoc());
    if (!mac.empty()) o["mac"] = mac;
    if (isa<NullStmt>(s)) { o["k"] = "blk"; o["b"] = json::Array(); return o; }
    if (const auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      json::Array pre;
      if (x->getInit()) Push(pre, x->getInit());
      if (x->getConditionVariable()) pre.push_back(Var(x->getConditionVariable()));
      o["pre"] = std::move(pre);
      if (const VarDecl* cv = x->getConditionVariable())
        o["c"] = A({"v", cv->getNameAsString(), Id(cv)});
      else o["c"] = E(x->getCond());
      o["t"] = Block(x->getThen());
      o["f"] = Block(x->getElse());
      return o;
    }
    if (const auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      json::Array pre;
      if (x->getConditionVariable()) pre.push_back(Var(x->getConditionVariable()));
      o["pre"] = std::move(pre);
      if (const VarDecl* cv = x->getConditionVariable()) o["c"] = A({"v", cv->getNameAsString(), Id(cv)});
      else o["c"] = E(x->getCond());
      o["b"] = Block(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = Block(x->getBody()); return o; }
    if (const auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      json::Array pre;
      if (x->getInit()) Push(pre, x->getInit());
      o["i"] = std::move(pre);
      o["c"] = x->getCond() ? E(x->getCond()) : json::Value(A({"b", true}));
      json::Array n; if (x->getInc()) Push(n, x->getInc());
      o["n"] = std::move(n);
      o["b"] = Block(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      json::Array pre;
      if (x->getInit()) Push(pre, x->getInit());
      o["pre"] = std::move(pre);
      o["var"] = Var(x->getLoopVariable());
      if (auto* vo = o["var"].getAsObject()) vo->erase("e");
      if (const auto* dd = dyn_cast<DecompositionDecl>(x->getLoopVariable())) {
        json::Array ids2;
        for (const BindingDecl* b : dd->bindings()) ids2.push_back(A({"v", b->getNameAsString(), Id(b)}));
        o["binds"] = std::move(ids2);
      }
      o["r"] = E(x->getRangeInit());
      o["rty"] = x->getRangeInit() ? CanonStr(x->getRangeInit()->getType()) : "?";
      o["b"] = Block(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      json::Array pre;
      if (x->getInit()) Push(pre, x->getInit());
      if (x->getConditionVariable()) pre.push_back(Var(x->getConditionVariable()));
      o["pre"] = std::move(pre);
      o["c"] = E(x->getCond());
      o["b"] = Block(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<CaseStmt>(s)) {
      json::Array out;
      json::Object c; c["k"] = "case"; c["v"] = E(x->getLHS()); c["l"] = Line(s->getBeginLoc());
      out.push_back(std::move(c));
      Push(out, x->getSubStmt());
      return out;
    }
    if (const auto* x = dyn_cast<DefaultStmt>(s)) {
      json::Array out;
      json::Object c; c["k"] = "default"; c["l"] = Line(s->getBeginLoc());
      out.push_back(std::move(c));
      Push(out, x->getSubStmt());
      return out;
    }
    if (const auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = x->getRetValue() ? E(x->getRetValue()) : json::Value(nullptr); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "brk"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
    if (const auto* x = dyn_cast<DeclStmt>(s)) { json::Array out; Push(out, s); return out; }
    if (const auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (const auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (const auto* x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = E(x); return o; }
    if (const auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "blk"; json::Array b; Push(b, x->getTryBlock()); o["b"] = std::move(b); return o; }
    o["k"] = "unknown"; o["cls"] = s->getStmtClassName();
    return o;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    string file; unsigned line = 0;
    if (!f->doesThisDeclarationHaveABody() || !InRepo(f->getLocation(), &file, &line)) return true;
    if (const auto* md = dyn_cast<CXXMethodDecl>(f))
      if (md->getParent()->isLambda()) return true;
    if (f->isImplicit() || f->isDefaulted()) return true;
    ids.clear();
    json::Object o;
    o["name"] = DeclName(f);
    o["file"] = file;
    o["line"] = (int)line;
    o["sig"] = Sig(f);
    o["ret"] = TypeStr(f->getReturnType());
    json::Array ps;
    for (const ParmVarDecl* p : f->parameters()) ps.push_back(Param(p));
    o["params"] = std::move(ps);
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = md->getParent()->getNameAsString();
      if (md->isConst()) o["const"] = true;
      if (md->isVirtual()) o["virt"] = true;
      if (md->isStatic()) o["static"] = true;
      o["access"] = (int)md->getAccess();
    }
    json::Array inits;
    if (const auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      for (const CXXCtorInitializer* i : cd->inits()) {
        if (i->isMemberInitializer() && i->getInit()) {
          json::Object io;
          io["k"] = "expr"; io["l"] = Line(i->isWritten() ? i->getSourceLocation() : f->getLocation());
          io["e"] = A({"o", "=", A({A({"f", A({"this"}), i->getMember()->getNameAsString(), cd->getParent()->getNameAsString()}), E(i->getInit())}),
                       json::Object{{"l", Line(f->getLocation())}, {"init", true}}});
          inits.push_back(std::move(io));
        } else if (i->isDelegatingInitializer() && i->getInit()) {
          json::Object io; io["k"] = "expr"; io["l"] = Line(f->getLocation());
          io["e"] = A({"c", "delegate-ctor", nullptr, A({E(i->getInit())}), json::Object{{"l", Line(f->getLocation())}}});
          inits.push_back(std::move(io));
        }
      }
    }
    if (!inits.empty()) o["inits"] = std::move(inits);
    o["body"] = S(f->getBody());
    Functions.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    string file; unsigned line = 0;
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !InRepo(v->getLocation(), &file, &line)) return true;
    ids.clear();
    json::Object o;
    o["name"] = DeclName(v);
    o["file"] = file; o["line"] = (int)line;
    o["ty"] = TypeStr(v->getType()); o["cty"] = CanonStr(v->getType());
    o["init"] = v->getInit() ? InitOf(v->getType(), v->getInit()) : json::Value(nullptr);
    Globals.push_back(std::move(o));
    return true;
  }
  bool VisitRecordDecl(RecordDecl* r) {
    string file; unsigned line = 0;
    if (!r->isThisDeclarationADefinition() || !InRepo(r->getLocation(), &file, &line)) return true;
    if (const auto* cr = dyn_cast<CXXRecordDecl>(r)) if (cr->isLambda()) return true;
    json::Object o;
    o["name"] = r->getNameAsString(); o["file"] = file; o["line"] = (int)line;
    json::Array fs;
    for (const FieldDecl* f : r->fields()) {
      json::Object fo; fo["name"] = f->getNameAsString(); fo["ty"] = TypeStr(f->getType()); fo["cty"] = CanonStr(f->getType());
      fo["l"] = Line(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    if (const auto* cr = dyn_cast<CXXRecordDecl>(r)) {
      for (const Decl* d : cr->decls()) {
        const FunctionDecl* m = dyn_cast<FunctionDecl>(d);
        if (const auto* ft = dyn_cast<FunctionTemplateDecl>(d)) m = ft->getTemplatedDecl();
        if (!m || m->isImplicit()) continue;
        json::Object mo; mo["name"] = m->getNameAsString(); mo["sig"] = Sig(m); mo["ret"] = TypeStr(m->getReturnType());
        if (const auto* md = dyn_cast<CXXMethodDecl>(m)) { mo["const"] = md->isConst(); mo["static"] = md->isStatic(); mo["deleted"] = md->isDeleted(); }
        mo["access"] = (int)m->getAccess();
        ms.push_back(std::move(mo));
      }
      json::Array bs;
      if (cr->hasDefinition())
        for (const auto& b : cr->bases()) bs.push_back(BareType(b.getType()));
      o["bases"] = std::move(bs);
    }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    string file; unsigned line = 0;
    if (!e->isThisDeclarationADefinition() || !InRepo(e->getLocation(), &file, &line)) return true;
    json::Object o; o["name"] = e->getNameAsString(); o["file"] = file;
    json::Array cs;
    for (const EnumConstantDecl* c : e->enumerators()) cs.push_back(A({c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()}));
    o["consts"] = std::move(cs);
    Enums.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& c) : CI(c) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    d.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(d.Functions);
    o["globals"] = std::move(d.Globals);
    o["records"] = std::move(d.Records);
    o["enums"] = std::move(d.Enums);
    o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    llvm::outs() << json::Value(std::move(o)) << "\n";
    llvm::outs().flush();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 4) { llvm::errs() << "usage: irdump REPO FILE -- args\n"; return 2; }
  RepoDir = argv[1];
  string file = argv[2];
  std::vector<string> args;
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(RepoDir, args);
  tooling::ClangTool tool(db, {file});
  tool.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
