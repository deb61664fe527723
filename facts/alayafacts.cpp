#include "llvm/Support/Path.h"
#include "llvm/Support/FileSystem.h"
// alayafacts: dumps a JSON description (typed statement trees + clang CFGs, callees resolved,
// templates instantiated) of every function defined below a source root.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;      // only functions below one of these are exported
static std::vector<std::string> g_excl;
static std::string g_out;

static std::string shortQual(const NamedDecl *d) {
  std::string s;
  llvm::raw_string_ostream os(s);
  PrintingPolicy pp(d->getASTContext().getLangOpts());
  pp.SuppressTemplateArgsInCXXConstructors = true;
  pp.SuppressUnwrittenScope = true;
  d->printQualifiedName(os, pp);
  os.flush();
  // drop template arguments of enclosing classes: keep what is outside < >
  std::string r;
  int depth = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (s.compare(i, 8, "operator") == 0 && depth == 0) {
      r += s.substr(i);
      break;
    }
    if (c == '<') { ++depth; continue; }
    if (c == '>') { if (depth) --depth; continue; }
    if (!depth) r += c;
  }
  return r;
}

struct Ctx {
  ASTContext *ac;
  SourceManager *sm;
  std::unordered_map<const FileEntry *, bool> fileIn;
  std::unordered_map<const FunctionDecl *, std::string> ids;
  std::deque<const FunctionDecl *> work;
  std::unordered_set<const FunctionDecl *> queued;
  std::unordered_map<std::string, int> dumped;
  std::set<const CXXRecordDecl *> classes;
  std::set<const EnumDecl *> enums;
  std::vector<std::string> chunks;

  bool inRepo(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm->getExpansionLoc(l);
    FileID f = sm->getFileID(l);
    auto fe = sm->getFileEntryForID(f);
    if (!fe) return false;
    auto it = fileIn.find(fe);
    if (it != fileIn.end()) return it->second;
    std::string p = fe->tryGetRealPathName().str();
    bool in = false;
    for (auto &r : g_roots) if (p.compare(0, r.size(), r) == 0) in = true;
    for (auto &e : g_excl) if (p.find(e) != std::string::npos) in = false;
    fileIn[fe] = in;
    return in;
  }
  std::string file(SourceLocation l) {
    l = sm->getExpansionLoc(l);
    auto fe = sm->getFileEntryForID(sm->getFileID(l));
    return fe ? fe->tryGetRealPathName().str() : std::string();
  }
  unsigned line(SourceLocation l) { return l.isValid() ? sm->getExpansionLineNumber(l) : 0; }
  unsigned col(SourceLocation l) { return l.isValid() ? sm->getExpansionColumnNumber(l) : 0; }

  const FunctionDecl *defOf(const FunctionDecl *f) {
    const FunctionDecl *d = nullptr;
    if (f->hasBody(d)) return d;
    return nullptr;
  }
  std::string fid(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    auto it = ids.find(f);
    if (it != ids.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    const FunctionDecl *d = defOf(f);
    const FunctionDecl *w = d ? d : f;
    bool lam = false;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) lam = true;
    if (lam) {
      const DeclContext *dc = cast<CXXMethodDecl>(f)->getParent()->getDeclContext();
      while (dc && !isa<FunctionDecl>(dc) && !isa<TranslationUnitDecl>(dc)) dc = dc->getParent();
      if (auto *pf = dyn_cast_or_null<FunctionDecl>(dc)) os << fid(pf) << "/";
      os << "lambda@" << line(w->getLocation()) << ":" << col(w->getLocation()) << "#" << f->getType().getCanonicalType().getAsString();
    } else {
      PrintingPolicy pp(ac->getLangOpts());
      f->getNameForDiagnostic(os, pp, true);
      os << "#" << f->getType().getCanonicalType().getAsString() << "@" << line(w->getLocation());
    }
    os.flush();
    ids[f] = s;
    return s;
  }
  void enqueue(const FunctionDecl *f) {
    const FunctionDecl *d = defOf(f);
    if (!d) return;
    if (d->isDependentContext()) return;
    if (!inRepo(d->getLocation())) return;
    if (d->isImplicit() && !isa<CXXMethodDecl>(d)) return;
    if (!queued.insert(d).second) return;
    work.push_back(d);
  }
};

static std::string typeStr(QualType t, ASTContext &ac) {
  if (t.isNull()) return "";
  PrintingPolicy pp(ac.getLangOpts());
  pp.SuppressTagKeyword = true;
  pp.AnonymousTagLocations = false;
  std::string s = t.getCanonicalType().getAsString(pp);
  if (s.size() > 400) s.resize(400);
  return s;
}

// where the class is written (the pattern, for template instances)
static SourceLocation classLoc(const CXXRecordDecl *r) {
  if (auto *p = r->getTemplateInstantiationPattern()) return p->getLocation();
  return r->getLocation();
}

struct FnDumper {
  Ctx &c;
  const FunctionDecl *fd;
  json::Array nodes;
  std::unordered_map<const Stmt *, int> idOf;
  std::unordered_map<const ValueDecl *, int> declIds;
  json::Object vars;
  std::vector<int> tryStack;
  ASTContext &ac;
  FnDumper(Ctx &cc, const FunctionDecl *f) : c(cc), fd(f), ac(*cc.ac) {}

  static const Stmt *strip(const Stmt *s) {
    while (s) {
      if (auto *e = dyn_cast<ImplicitCastExpr>(s)) {
        if (e->getCastKind() == CK_UserDefinedConversion || e->getCastKind() == CK_ConstructorConversion) { s = e->getSubExpr(); continue; }
        s = e->getSubExpr();
      } else if (auto *e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto *e = dyn_cast<AttributedStmt>(s)) s = e->getSubStmt();
      else if (auto *e = dyn_cast<CXXRewrittenBinaryOperator>(s)) s = e->getSemanticForm();
      else if (auto *e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) return s; s = e->getSourceExpr(); }
      else if (auto *e = dyn_cast<CXXFunctionalCastExpr>(s)) { if (isa<CXXConstructExpr>(e->getSubExpr()->IgnoreImplicit()) || isa<InitListExpr>(e->getSubExpr()->IgnoreImplicit())) s = e->getSubExpr(); else return s; }
      else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
        // copy/move elision-ish wrappers around a temporary of the same type
        if (e->isElidable() && e->getNumArgs() >= 1) s = e->getArg(0); else return s;
      } else return s;
    }
    return s;
  }
  int declId(const ValueDecl *d) {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = declIds.size();
    declIds[d] = id;
    json::Object v;
    v["n"] = d->getNameAsString();
    v["t"] = typeStr(d->getType(), ac);
    v["l"] = (int64_t)c.line(d->getLocation());
    const char *k = "other";
    if (isa<ParmVarDecl>(d)) {
      k = "param";
      const auto *pv = cast<ParmVarDecl>(d);
      const auto *dc = dyn_cast_or_null<FunctionDecl>(pv->getDeclContext());
      if (dc && dc->getCanonicalDecl() != fd->getCanonicalDecl()) k = "outer";
    }
    else if (auto *vd = dyn_cast<VarDecl>(d)) {
      if (vd->isStaticLocal()) k = "static";
      else if (vd->hasLocalStorage()) {
        k = "local";
        const auto *dc = dyn_cast_or_null<FunctionDecl>(vd->getDeclContext());
        if (dc && dc->getCanonicalDecl() != fd->getCanonicalDecl()) k = "outer";
      } else k = "global";
      if (vd->getTSCSpec() != TSCS_unspecified) v["tls"] = true;
      if (vd->isStaticDataMember()) k = "sfield";
    } else if (isa<EnumConstantDecl>(d)) k = "enum";
    else if (isa<FunctionDecl>(d)) k = "func";
    else if (isa<FieldDecl>(d)) k = "field";
    else if (isa<BindingDecl>(d)) {
      k = "local";
      v["binding"] = true;
      if (auto *bd = cast<BindingDecl>(d)->getDecomposedDecl()) v["bof"] = declId(bd);
    }
    v["k"] = k;
    if (d->getType()->isReferenceType()) v["ref"] = true;
    if (d->getType().isConstQualified()) v["const"] = true;
    v["q"] = shortQual(d);
    vars[std::to_string(id)] = std::move(v);
    return id;
  }
  json::Value calleeInfo(json::Object &o, const FunctionDecl *f) {
    o["q"] = shortQual(f);
    if (auto *def = c.defOf(f)) {
      if (!def->isDependentContext() && c.inRepo(def->getLocation())) {
        o["f"] = c.fid(f);
        c.enqueue(f);
      }
    }
    // nothrow
    bool nt = false;
    if (auto *pt = f->getType()->getAs<FunctionProtoType>()) {
      if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType())) nt = pt->isNothrow();
      else nt = isa<CXXDestructorDecl>(f);
    }
    if (f->hasAttr<NoThrowAttr>()) nt = true;
    if (nt) o["nt"] = true;
    if (f->isNoReturn()) o["nr"] = true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cm"] = true;
      if (m->isStatic()) o["st"] = true;
    }
    return nullptr;
  }
  // indices of the scalar arguments bound to a non-const lvalue reference parameter (forwarding references excluded)
  template <class R> void refArgs(json::Object &o, const FunctionDecl *f, R &&args, unsigned skip = 0) {
    if (!f) return;
    const FunctionDecl *pat = f->getTemplateInstantiationPattern();
    if (!pat) pat = f;
    json::Array ra;
    unsigned i = 0;
    for (const Expr *x : args) {
      unsigned k = i++;
      if (k < skip || k - skip >= f->getNumParams()) continue;
      QualType t = f->getParamDecl(k - skip)->getType();
      if (!t->isLValueReferenceType() || t.getNonReferenceType().isConstQualified()) continue;
      if (k - skip < pat->getNumParams() && pat->getParamDecl(k - skip)->getType()->isRValueReferenceType()) continue;
      if (!t.getNonReferenceType()->isScalarType()) continue;
      if (pat->getNumParams() && pat->getParamDecl(pat->getNumParams() - 1)->isParameterPack() && k - skip >= pat->getNumParams() - 1) continue;
      ra.push_back((int64_t)(k - skip));
      (void)x;
    }
    if (!ra.empty()) o["ra"] = std::move(ra);
  }
  void children(const Stmt *s, json::Object &o) {
    json::Array ch;
    for (const Stmt *k : s->children())
      if (k) ch.push_back(node(k));
    o["ch"] = std::move(ch);
  }
  json::Array exprList(llvm::ArrayRef<const Expr *> a) {
    json::Array r;
    for (auto *e : a) r.push_back(node(e));
    return r;
  }
  int node(const Stmt *s0) {
    const Stmt *s = strip(s0);
    if (!s) return -1;
    auto it = idOf.find(s);
    if (it != idOf.end()) return it->second;
    int id = nodes.size();
    idOf[s] = id;
    nodes.push_back(nullptr);
    json::Object o;
    o["l"] = (int64_t)c.line(s->getBeginLoc());
    if (!tryStack.empty()) o["y"] = tryStack.back();
    if (auto *e = dyn_cast<Expr>(s)) {
      o["t"] = typeStr(e->getType(), ac);
      if (e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && !isa<IntegerLiteral>(e) && e->isPRValue()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ac) && !r.HasSideEffects) {
          llvm::SmallString<24> str;
          r.Val.getInt().toString(str, 10);
          o["cv"] = std::string(str);
        }
      } else if (e->isGLValue() && e->getType()->isIntegralOrEnumerationType() && isa<DeclRefExpr>(e) && !e->isValueDependent()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ac)) {
          llvm::SmallString<24> str;
          r.Val.getInt().toString(str, 10);
          o["cv"] = std::string(str);
        }
      }
    }
    fill(s, o, id);
    nodes[id] = std::move(o);
    return id;
  }
  void fill(const Stmt *s, json::Object &o, int id) {
    if (auto *e = dyn_cast<IntegerLiteral>(s)) { o["k"] = "lit"; llvm::SmallString<24> str; e->getValue().toString(str, 10, e->getType()->isSignedIntegerType()); o["v"] = std::string(str); return; }
    if (auto *e = dyn_cast<CharacterLiteral>(s)) { o["k"] = "lit"; o["v"] = std::to_string(e->getValue()); return; }
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) { o["k"] = "lit"; o["v"] = e->getValue() ? "true" : "false"; return; }
    if (auto *e = dyn_cast<FloatingLiteral>(s)) { o["k"] = "lit"; llvm::SmallString<24> str; e->getValue().toString(str); o["v"] = std::string(str); return; }
    if (auto *e = dyn_cast<clang::StringLiteral>(s)) { o["k"] = "str"; o["v"] = e->getCharByteWidth() == 1 ? json::fixUTF8(e->getString()) : std::string("?"); return; }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "lit"; o["v"] = "null"; return; }
    if (auto *e = dyn_cast<DeclRefExpr>(s)) {
      o["k"] = "ref"; o["d"] = declId(e->getDecl()); o["n"] = e->getDecl()->getNameAsString();
      if (auto *en = dyn_cast<EnumConstantDecl>(e->getDecl())) {
        o["enum"] = shortQual(cast<EnumDecl>(en->getDeclContext()));
        if (c.inRepo(en->getLocation())) c.enums.insert(cast<EnumDecl>(en->getDeclContext()));
      }
      if (auto *f = dyn_cast<FunctionDecl>(e->getDecl())) { calleeInfo(o, f); o["isfn"] = true; }
      return;
    }
    if (auto *e = dyn_cast<MemberExpr>(s)) {
      o["k"] = "mem"; o["b"] = node(e->getBase()); o["n"] = e->getMemberDecl()->getNameAsString(); o["q"] = shortQual(e->getMemberDecl());
      if (auto *f = dyn_cast<FunctionDecl>(e->getMemberDecl())) { calleeInfo(o, f); o["isfn"] = true; }
      return;
    }
    if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return; }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
      o["k"] = "call"; o["op"] = getOperatorSpelling(e->getOperator());
      if (auto *f = e->getDirectCallee()) {
        calleeInfo(o, f);
        if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
          o["obj"] = node(e->getArg(0));
          json::Array a; for (unsigned i = 1; i < e->getNumArgs(); ++i) a.push_back(node(e->getArg(i)));
          o["a"] = std::move(a);
          o["fnode"] = node(e->getCallee());
          refArgs(o, f, e->arguments(), 1);
          return;
        }
      }
      json::Array a; for (unsigned i = 0; i < e->getNumArgs(); ++i) a.push_back(node(e->getArg(i)));
      o["a"] = std::move(a);
      return;
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(s)) {
      o["k"] = "call";
      if (auto *f = e->getMethodDecl()) { calleeInfo(o, f); refArgs(o, f, e->arguments()); }
      if (e->getImplicitObjectArgument()) o["obj"] = node(e->getImplicitObjectArgument());
      json::Array a; for (auto *x : e->arguments()) a.push_back(node(x));
      o["a"] = std::move(a);
      return;
    }
    if (auto *e = dyn_cast<UserDefinedLiteral>(s)) {
      o["k"] = "call"; if (auto *f = e->getDirectCallee()) calleeInfo(o, f);
      json::Array a; for (auto *x : e->arguments()) a.push_back(node(x)); o["a"] = std::move(a); return;
    }
    if (auto *e = dyn_cast<CallExpr>(s)) {
      o["k"] = "call";
      if (auto *f = e->getDirectCallee()) { calleeInfo(o, f); refArgs(o, f, e->arguments()); } else o["ind"] = node(e->getCallee());
      if (auto *dr = dyn_cast<DeclRefExpr>(e->getCallee()->IgnoreParenImpCasts())) {
        if (dr->hasExplicitTemplateArgs()) {
          json::Array ta;
          for (auto &x : dr->template_arguments())
            if (x.getArgument().getKind() == TemplateArgument::Type) ta.push_back(typeStr(x.getArgument().getAsType(), ac));
          o["ta"] = std::move(ta);
        }
      }
      json::Array a; for (auto *x : e->arguments()) a.push_back(node(x));
      o["a"] = std::move(a);
      return;
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "ctor"; calleeInfo(o, e->getConstructor());
      o["cls"] = shortQual(e->getConstructor()->getParent());
      if (e->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (e->getConstructor()->isMoveConstructor()) o["move"] = true;
      json::Array a; for (auto *x : e->arguments()) a.push_back(node(x));
      o["a"] = std::move(a);
      return;
    }
    if (auto *e = dyn_cast<CompoundAssignOperator>(s)) { o["k"] = "asg"; o["op"] = e->getOpcodeStr().str(); o["e"] = node(e->getLHS()); o["r"] = node(e->getRHS()); return; }
    if (auto *e = dyn_cast<BinaryOperator>(s)) {
      if (e->getOpcode() == BO_Assign) { o["k"] = "asg"; o["op"] = "="; o["e"] = node(e->getLHS()); o["r"] = node(e->getRHS()); }
      else { o["k"] = "bin"; o["op"] = e->getOpcodeStr().str(); o["e"] = node(e->getLHS()); o["r"] = node(e->getRHS()); }
      return;
    }
    if (auto *e = dyn_cast<UnaryOperator>(s)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str(); if (e->isPostfix()) o["post"] = true; o["e"] = node(e->getSubExpr()); return; }
    if (auto *e = dyn_cast<ExplicitCastExpr>(s)) { o["k"] = "cast"; o["ck"] = e->getCastKindName(); o["e"] = node(e->getSubExpr()); return; }
    if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) { o["k"] = "idx"; o["b"] = node(e->getBase()); o["i"] = node(e->getIdx()); return; }
    if (auto *e = dyn_cast<ConditionalOperator>(s)) { o["k"] = "cond"; o["c"] = node(e->getCond()); o["a1"] = node(e->getTrueExpr()); o["a2"] = node(e->getFalseExpr()); return; }
    if (auto *e = dyn_cast<CXXNewExpr>(s)) {
      o["k"] = "new"; o["nt_"] = typeStr(e->getAllocatedType(), ac);
      if (e->isArray() && e->getArraySize()) o["size"] = node(*e->getArraySize());
      if (e->getInitializer()) o["init"] = node(e->getInitializer());
      json::Array pl; for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i) pl.push_back(node(e->getPlacementArg(i)));
      o["pl"] = std::move(pl);
      return;
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(s)) { o["k"] = "del"; o["e"] = node(e->getArgument()); return; }
    if (auto *e = dyn_cast<LambdaExpr>(s)) {
      o["k"] = "lam";
      const CXXMethodDecl *m = e->getCallOperator();
      if (e->isGenericLambda()) {
        json::Array g;
        if (auto *ft = e->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *sp : ft->specializations()) { c.enqueue(sp); g.push_back(c.fid(sp)); }
        o["gen"] = std::move(g);
      } else { o["f"] = c.fid(m); c.enqueue(m); }
      json::Array caps;
      unsigned i = 0;
      auto inits = e->capture_init_begin();
      for (auto &cap : e->captures()) {
        json::Object co;
        if (cap.capturesThis()) co["this"] = true;
        else if (cap.capturesVariable()) { co["d"] = declId(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); co["ref"] = cap.getCaptureKind() == LCK_ByRef; if (cap.getCapturedVar()->isInitCapture() && *(inits + i)) co["init"] = node(*(inits + i)); }
        caps.push_back(std::move(co));
        ++i;
      }
      o["caps"] = std::move(caps);
      return;
    }
    if (auto *e = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (e->getRetValue()) o["e"] = node(e->getRetValue()); return; }
    if (auto *e = dyn_cast<CoreturnStmt>(s)) { o["k"] = "ret"; o["co"] = true; if (e->getOperand()) o["e"] = node(e->getOperand()); return; }
    if (auto *e = dyn_cast<CoroutineSuspendExpr>(s)) { o["k"] = isa<CoyieldExpr>(e) ? "yield" : "await"; o["e"] = node(e->getOperand()); return; }
    if (auto *e = dyn_cast<CXXThrowExpr>(s)) { o["k"] = "throw"; if (e->getSubExpr()) { o["e"] = node(e->getSubExpr()); o["tt"] = typeStr(e->getSubExpr()->getType(), ac); } return; }
    if (auto *e = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array vs;
      for (auto *d : e->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) {
          json::Object vo; vo["d"] = declId(v); vo["n"] = v->getNameAsString(); vo["t"] = typeStr(v->getType(), ac);
          if (v->getInit()) vo["init"] = node(v->getInit());
          if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs; for (auto *b : dd->bindings()) bs.push_back(declId(b)); vo["bind"] = std::move(bs);
          }
          vs.push_back(std::move(vo));
        }
      }
      o["vs"] = std::move(vs);
      return;
    }
    if (auto *e = dyn_cast<InitListExpr>(s)) {
      const InitListExpr *sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
      o["k"] = "init"; json::Array a; for (auto *x : sem->inits()) if (x) a.push_back(node(x)); o["a"] = std::move(a);
      if (auto *rd = sem->getType()->getAsRecordDecl()) { json::Array fs; for (auto *f : rd->fields()) fs.push_back(f->getNameAsString()); o["fs"] = std::move(fs); }
      return;
    }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      o["k"] = "sizeof"; o["st_"] = typeStr(e->getTypeOfArgument(), ac); return;
    }
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) { o["k"] = "silist"; o["e"] = node(e->getSubExpr()); return; }
    if (auto *e = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; json::Array a; for (auto *x : e->body()) a.push_back(node(x)); o["ss"] = std::move(a); return; }
    if (auto *e = dyn_cast<IfStmt>(s)) {
      o["k"] = "if"; if (e->getInit()) o["init"] = node(e->getInit());
      if (e->getConditionVariableDeclStmt()) o["cv_"] = node(e->getConditionVariableDeclStmt());
      if (e->getCond()) o["c"] = node(e->getCond());
      if (e->isConstexpr()) o["cx"] = true;
      o["th"] = node(e->getThen()); if (e->getElse()) o["el"] = node(e->getElse()); return;
    }
    if (auto *e = dyn_cast<ForStmt>(s)) {
      o["k"] = "loop"; o["lk"] = "for"; if (e->getInit()) o["init"] = node(e->getInit()); if (e->getCond()) o["c"] = node(e->getCond());
      o["body"] = node(e->getBody()); if (e->getInc()) o["inc"] = node(e->getInc()); return;
    }
    if (auto *e = dyn_cast<WhileStmt>(s)) { o["k"] = "loop"; o["lk"] = "while"; if (e->getConditionVariableDeclStmt()) o["init"] = node(e->getConditionVariableDeclStmt()); o["c"] = node(e->getCond()); o["body"] = node(e->getBody()); return; }
    if (auto *e = dyn_cast<DoStmt>(s)) { o["k"] = "loop"; o["lk"] = "do"; o["body"] = node(e->getBody()); o["c"] = node(e->getCond()); return; }
    if (auto *e = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "loop"; o["lk"] = "range"; if (e->getInit()) o["init"] = node(e->getInit());
      if (e->getRangeStmt()) node(e->getRangeStmt());
      if (e->getBeginStmt()) node(e->getBeginStmt());
      if (e->getEndStmt()) node(e->getEndStmt());
      o["range"] = node(e->getRangeInit());
      o["var"] = node(e->getLoopVarStmt());
      o["body"] = node(e->getBody()); return;
    }
    if (auto *e = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; if (e->getInit()) o["init"] = node(e->getInit()); o["c"] = node(e->getCond()); o["body"] = node(e->getBody());
      QualType ct = e->getCond()->IgnoreParenImpCasts()->getType();
      if (auto *et = ct->getAs<EnumType>()) { o["enum"] = shortQual(et->getDecl()); if (c.inRepo(et->getDecl()->getLocation())) c.enums.insert(et->getDecl()); }
      return; }
    if (auto *e = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["lo"] = node(e->getLHS()); o["s"] = node(e->getSubStmt()); return; }
    if (auto *e = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = node(e->getSubStmt()); return; }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return; }
    if (auto *e = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      tryStack.push_back(id);
      o["body"] = node(e->getTryBlock());
      tryStack.pop_back();
      json::Array hs;
      for (unsigned i = 0; i < e->getNumHandlers(); ++i) hs.push_back(node(e->getHandler(i)));
      o["hs"] = std::move(hs);
      return;
    }
    if (auto *e = dyn_cast<CXXCatchStmt>(s)) {
      o["k"] = "catch"; if (e->getExceptionDecl()) { o["ct"] = typeStr(e->getCaughtType(), ac); o["d"] = declId(e->getExceptionDecl()); } else o["all"] = true;
      o["body"] = node(e->getHandlerBlock()); return;
    }
    if (auto *e = dyn_cast<CoroutineBodyStmt>(s)) { o["k"] = "cobody"; o["body"] = node(e->getBody()); return; }
    if (auto *e = dyn_cast<CapturedStmt>(s)) { o["k"] = "captured"; o["body"] = node(e->getCapturedStmt()); return; }
    if (auto *e = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "omp"; o["dir"] = e->getStmtClassName();
      if (e->hasAssociatedStmt()) { const Stmt *b = e->getRawStmt(); o["body"] = node(b); }
      return;
    }
    o["k"] = "other"; o["c"] = s->getStmtClassName();
    children(s, o);
  }
  int elemNode(const Stmt *s) {
    const Stmt *t = strip(s);
    if (t != s) return -1;
    return node(s);
  }
  void dump(std::string &out) {
    json::Object fo;
    fo["id"] = c.fid(fd);
    fo["q"] = shortQual(fd);
    fo["file"] = c.file(fd->getLocation());
    fo["l"] = (int64_t)c.line(fd->getBeginLoc());
    fo["e"] = (int64_t)c.line(fd->getEndLoc());
    fo["rt"] = typeStr(fd->getReturnType(), ac);
    fo["ft"] = typeStr(fd->getType(), ac);
    if (fd->hasAttr<TargetAttr>()) fo["target"] = fd->getAttr<TargetAttr>()->getFeaturesStr().str();
    if (auto *pt = fd->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()) && pt->isNothrow()) fo["nt"] = true;
    if (fd->isImplicit()) fo["implicit"] = true;
    if (fd->isDefaulted()) fo["defaulted"] = true;
    json::Array ps;
    for (auto *p : fd->parameters()) ps.push_back(declId(p));
    fo["ps"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      if (m->getParent()->isLambda()) {
        fo["lambda"] = true;
        const DeclContext *dc = m->getParent()->getDeclContext();
        while (dc && !isa<FunctionDecl>(dc) && !isa<TranslationUnitDecl>(dc)) dc = dc->getParent();
        if (auto *pf = dyn_cast_or_null<FunctionDecl>(dc)) fo["parent"] = c.fid(pf);
      } else { fo["cls"] = shortQual(m->getParent()); addClass(m->getParent()); }
      if (m->isStatic()) fo["st"] = true;
      if (m->isConst()) fo["cm"] = true;
      if (m->isVirtual()) fo["virt"] = true;
      json::Array ov; for (auto *om : m->overridden_methods()) ov.push_back(shortQual(om)); if (!ov.empty()) fo["ov"] = std::move(ov);
      switch (m->getAccess()) { case AS_public: fo["acc"] = "public"; break; case AS_private: fo["acc"] = "private"; break; case AS_protected: fo["acc"] = "protected"; break; default: break; }
    }
    if (isa<CXXConstructorDecl>(fd)) fo["ctor"] = true;
    if (isa<CXXDestructorDecl>(fd)) fo["dtor"] = true;
    if (fd->getTemplateSpecializationArgs()) {
      std::string s; llvm::raw_string_ostream os(s); PrintingPolicy pp(ac.getLangOpts());
      printTemplateArgumentList(os, fd->getTemplateSpecializationArgs()->asArray(), pp); os.flush(); fo["targs"] = s;
    }
    // ctor inits
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array is;
      for (auto *in : cd->inits()) {
        json::Object io;
        if (in->isAnyMemberInitializer()) io["m"] = shortQual(in->getAnyMember());
        else if (in->isBaseInitializer()) io["base"] = typeStr(QualType(in->getBaseClass(), 0), ac);
        if (in->isWritten()) io["w"] = true;
        if (in->getInit()) io["init"] = node(in->getInit());
        is.push_back(std::move(io));
      }
      fo["inits"] = std::move(is);
    }
    const Stmt *body = fd->getBody();
    bool coro = false;
    if (auto *cb = dyn_cast_or_null<CoroutineBodyStmt>(body)) { coro = true; body = cb->getBody(); }
    if (coro) fo["coro"] = true;
    fo["body"] = node(body);
    CFG::BuildOptions bo;
    bo.AddImplicitDtors = true;
    bo.AddInitializers = true;
    bo.AddTemporaryDtors = false;
    bo.AddEHEdges = false;
    bo.AddScopes = false;
    bo.AddCXXNewAllocator = false;
    bo.AddCXXDefaultInitExprInCtors = false;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> cfg = CFG::buildCFG(fd, const_cast<Stmt *>(body), &ac, bo);
    if (cfg) {
      json::Array bs;
      for (const CFGBlock *b : *cfg) {
        json::Object blk;
        blk["id"] = (int64_t)b->getBlockID();
        json::Array els;
        for (const CFGElement &el : *b) {
          if (auto st = el.getAs<CFGStmt>()) {
            int n = elemNode(st->getStmt());
            if (n >= 0) els.push_back(n);
          } else if (auto d = el.getAs<CFGAutomaticObjDtor>()) {
            json::Object x; x["dtor"] = declId(d->getVarDecl()); x["t"] = typeStr(d->getVarDecl()->getType(), ac);
            if (d->getTriggerStmt()) x["l"] = (int64_t)c.line(d->getTriggerStmt()->getEndLoc());
            els.push_back(std::move(x));
          } else if (auto d = el.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *in = d->getInitializer();
            json::Object x;
            if (in->isAnyMemberInitializer()) x["minit"] = shortQual(in->getAnyMember()); else x["binit"] = true;
            if (in->getInit()) x["init"] = node(in->getInit());
            els.push_back(std::move(x));
          } else if (auto d = el.getAs<CFGMemberDtor>()) {
            json::Object x; x["mdtor"] = shortQual(d->getFieldDecl()); els.push_back(std::move(x));
          }
        }
        blk["els"] = std::move(els);
        if (const Stmt *t = b->getTerminatorStmt()) {
          json::Object to;
          to["k"] = t->getStmtClassName();
          to["s"] = node(t);
          to["l"] = (int64_t)c.line(t->getBeginLoc());
          if (const Expr *ce = b->getLastCondition()) to["c"] = node(ce);
          if (auto *bo2 = dyn_cast<BinaryOperator>(t)) { if (bo2->isLogicalOp()) { to["k"] = "logical"; to["op"] = bo2->getOpcodeStr().str(); to["c"] = node(bo2->getLHS()); } }
          blk["term"] = std::move(to);
        }
        if (const Stmt *lb = b->getLabel()) {
          json::Object lo;
          if (auto *cs = dyn_cast<CaseStmt>(lb)) { lo["k"] = "case"; lo["v"] = node(cs->getLHS()); }
          else if (isa<DefaultStmt>(lb)) lo["k"] = "default";
          else if (isa<CXXCatchStmt>(lb)) { lo["k"] = "catch"; lo["s"] = node(lb); }
          else lo["k"] = "label";
          blk["label"] = std::move(lo);
        }
        json::Array su;
        for (auto si = b->succ_begin(); si != b->succ_end(); ++si) {
          if (const CFGBlock *r = si->getReachableBlock()) su.push_back((int64_t)r->getBlockID());
          else su.push_back(nullptr);
        }
        blk["succ"] = std::move(su);
        if (b->hasNoReturnElement()) blk["nr"] = true;
        bs.push_back(std::move(blk));
      }
      fo["blocks"] = std::move(bs);
      fo["entry"] = (int64_t)cfg->getEntry().getBlockID();
      fo["exit"] = (int64_t)cfg->getExit().getBlockID();
    }
    fo["nodes"] = std::move(nodes);
    fo["vars"] = std::move(vars);
    llvm::raw_string_ostream os(out);
    os << json::Value(std::move(fo));
    os.flush();
  }
  void addClass(const CXXRecordDecl *r) {
    if (!r) return;
    r = r->getDefinition();
    if (r && c.inRepo(classLoc(r))) c.classes.insert(r);
  }
};


class V : public RecursiveASTVisitor<V> {
public:
  Ctx &c;
  explicit V(Ctx &cc) : c(cc) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isThisDeclarationADefinition() && f->hasBody()) c.enqueue(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() && c.inRepo(classLoc(r))) c.classes.insert(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) { if (e->isComplete() && c.inRepo(e->getLocation())) c.enums.insert(e); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &ac) override {
    Ctx c; c.ac = &ac; c.sm = &ac.getSourceManager();
    V v(c);
    v.TraverseDecl(ac.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << "{\"errors\":" << ac.getDiagnostics().getNumErrors() << ",\"functions\":[\n";
    bool first = true;
    while (!c.work.empty()) {
      const FunctionDecl *f = c.work.front(); c.work.pop_front();
      std::string id = c.fid(f);
      if (c.dumped.count(id)) continue;
      c.dumped[id] = 1;
      std::string s;
      FnDumper(c, f).dump(s);
      if (!first) os << ",\n";
      first = false;
      os << s;
    }
    os << "],\n\"classes\":[";
    first = true;
    for (auto *r : c.classes) {
      json::Object o;
      o["q"] = shortQual(r);
      o["full"] = r->getTypeForDecl() ? typeStr(QualType(r->getTypeForDecl(), 0), ac) : shortQual(r);
      o["file"] = c.file(classLoc(r)); o["l"] = (int64_t)c.line(classLoc(r));
      json::Array fs;
      for (auto *f : r->fields()) {
        json::Object fo; fo["n"] = f->getNameAsString(); fo["q"] = shortQual(f); fo["t"] = typeStr(f->getType(), ac);
        fo["sugar"] = f->getType().getAsString();
        if (f->isMutable()) fo["mut"] = true;
        if (f->getType().isConstQualified()) fo["const"] = true;
        fo["l"] = (int64_t)c.line(f->getLocation());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      if (r->hasDefinition()) for (auto &b : r->bases()) bs.push_back(typeStr(b.getType(), ac));
      o["bases"] = std::move(bs);
      json::Array ms;
      for (auto *m : r->methods()) {
        json::Object mo; mo["n"] = m->getNameAsString(); mo["t"] = typeStr(m->getType(), ac);
        if (m->isPureVirtual()) mo["pure"] = true;
        if (m->isDeleted()) mo["del"] = true;
        if (m->isDefaulted()) mo["def"] = true;
        if (m->isImplicit()) mo["impl"] = true;
        if (m->isConst()) mo["cm"] = true;
        if (m->isStatic()) mo["st"] = true;
        if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"] = true; if (cd->isCopyConstructor()) mo["copy"] = true; if (cd->isMoveConstructor()) mo["move"] = true; }
        if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
        if (m->isCopyAssignmentOperator()) mo["casg"] = true;
        if (m->isMoveAssignmentOperator()) mo["masg"] = true;
        mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
      if (!first) os << ",\n"; first = false;
      os << json::Value(std::move(o));
    }
    os << "],\n\"deps\":[";
    first = true;
    {
      std::set<std::string> deps;
      for (auto it = ac.getSourceManager().fileinfo_begin(); it != ac.getSourceManager().fileinfo_end(); ++it) {
        std::string n = it->first.getName().str();
        if (n.rfind("/usr/", 0) == 0) continue;
        llvm::SmallString<256> p(n);
        llvm::sys::fs::make_absolute(p);
        llvm::sys::path::remove_dots(p, true);
        deps.insert(std::string(p));
      }
      for (auto &d : deps) { if (!first) os << ","; first = false; os << json::Value(d); }
    }
    os << "],\n\"enums\":[";
    first = true;
    for (auto *e : c.enums) {
      json::Object o; o["q"] = shortQual(e); o["file"] = c.file(e->getLocation());
      json::Array es; for (auto *k : e->enumerators()) { json::Object eo; eo["n"] = k->getNameAsString(); llvm::SmallString<24> str; k->getInitVal().toString(str, 10); eo["v"] = std::string(str); es.push_back(std::move(eo)); }
      o["vals"] = std::move(es);
      if (!first) os << ",\n"; first = false;
      os << json::Value(std::move(o));
    }
    os << "]}\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  // alayafacts OUT TU --root R --excl E ... -- clang args
  std::string tu;
  std::vector<std::string> args;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "--root") { g_roots.push_back(argv[++i]); continue; }
    if (a == "--excl") { g_excl.push_back(argv[++i]); continue; }
    if (g_out.empty()) g_out = a; else tu = a;
  }
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {tu});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
