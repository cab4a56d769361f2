// astfacts FILE -- flags...   prints facts about the type-checked program as JSON lines:
//   static: variables with static storage (constness, who modifies them, whether a local one is initialised from arguments)
//   ctor:   fields of scalar type that a constructor leaves without a value
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
static std::string Root;
struct Facts : RecursiveASTVisitor<Facts> {
  ASTContext &C; SourceManager &SM;
  std::vector<const FunctionDecl *> fns; std::vector<const VarDecl *> vars; std::vector<const CXXConstructorDecl *> ctors;
  std::set<const Decl *> seen;
  Facts(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  std::string file(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getFilename() : ""; }
  unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool ours(SourceLocation l) { if (l.isInvalid()) return false; std::string f = file(l); return f.compare(0, Root.size(), Root) == 0; }
  std::string where(SourceLocation l) { std::string f = file(l); return (f.compare(0, Root.size(), Root) == 0 ? f.substr(Root.size()) : f) + ":" + std::to_string(line(l)); }
  bool VisitFunctionDecl(FunctionDecl *f) { if (f->doesThisDeclarationHaveABody() && ours(f->getLocation())) { fns.push_back(f); if (auto *k = dyn_cast<CXXConstructorDecl>(f)) ctors.push_back(k); } return true; }
  bool VisitCallExpr(CallExpr *e) {
    static const std::set<std::string> names = { "rand", "srand", "random", "srandom", "drand48", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "tmpnam", "strerror", "putenv", "setenv", "unsetenv", "chdir", "signal", "global", "umask", "setbuf", "sync_with_stdio" };
    if (auto *f = e->getDirectCallee()) if (!ours(f->getLocation()) && ours(e->getBeginLoc())) { std::string n = f->getNameAsString(); ++calls; if (names.count(n) && (n != "global" || f->getQualifiedNameAsString() == "std::locale::global")) hidden.push_back({n, where(e->getBeginLoc())}); }
    return true;
  }
  unsigned calls = 0; std::vector<std::pair<std::string, std::string>> hidden;
  std::vector<const FieldDecl *> flds;
  bool VisitFieldDecl(FieldDecl *f) { if (ours(f->getLocation())) if (auto *r = dyn_cast<CXXRecordDecl>(f->getParent())) if (r->getQualifiedNameAsString() == "flut::interruptible") flds.push_back(f); return true; }
  bool VisitVarDecl(VarDecl *v) { if (v->hasGlobalStorage() && ours(v->getLocation()) && !isa<ParmVarDecl>(v)) vars.push_back(v); return true; }
  static bool hasMutable(QualType t) {
    if (auto *r = t->getAsCXXRecordDecl()) if (r->hasDefinition()) {
      for (auto *f : r->fields()) if (f->isMutable() || hasMutable(f->getType().getNonReferenceType().getCanonicalType().getUnqualifiedType()) ) { if (f->isMutable()) return true; if (!f->getType()->isPointerType() && !f->getType()->isReferenceType()) return true; }
    }
    return false;
  }
  static bool atomic(QualType t) { std::string s = t.getCanonicalType().getUnqualifiedType().getAsString(); return s.find("std::atomic") != std::string::npos || s.find("std::mutex") != std::string::npos || s.find("std::once_flag") != std::string::npos || s.find("once_flag") != std::string::npos; }
  struct Refs : RecursiveASTVisitor<Refs> { bool dep = false; const VarDecl *self; bool VisitDeclRefExpr(DeclRefExpr *e) { if (auto *v = dyn_cast<VarDecl>(e->getDecl())) if (v != self && (isa<ParmVarDecl>(v) || v->hasLocalStorage()) && !within.count(v)) dep = true; return true; } bool VisitCXXThisExpr(CXXThisExpr *) { if (!lambda) dep = true; return true; } bool VisitParmVarDecl(ParmVarDecl *v) { within.insert(v); return true; } bool VisitVarDecl(VarDecl *v) { within.insert(v); return true; } std::set<const VarDecl *> within; int lambda = 0; };
  // modifications of a variable or of something reached from it
  struct Direct : RecursiveASTVisitor<Direct> { const VarDecl *v; const Stmt *hit = nullptr; std::set<const VarDecl *> alias; const FunctionDecl *fn = nullptr;
    bool shouldVisitImplicitCode() const { return true; }
    static bool constTwin(const CXXMethodDecl *m) { for (auto *d : m->getParent()->decls()) { const Decl *x = d; if (auto *t = dyn_cast<FunctionTemplateDecl>(d)) x = t->getTemplatedDecl(); if (auto *o = dyn_cast<CXXMethodDecl>(x)) if (o != m && o->getDeclName() == m->getDeclName() && o->isConst()) return true; } return false; }
    bool is(const Expr *e) {
      if (!e) return false; e = e->IgnoreParenImpCasts();
      if (auto *x = dyn_cast<DeclRefExpr>(e)) { auto *d = dyn_cast<VarDecl>(x->getDecl()); return d && (d->getCanonicalDecl() == v->getCanonicalDecl() || alias.count(d)); }
      if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) return x->getBase()->IgnoreParenImpCasts()->getType()->isArrayType() && is(x->getBase());
      if (auto *x = dyn_cast<MemberExpr>(e)) return !x->isArrow() && isa<FieldDecl>(x->getMemberDecl()) && is(x->getBase());
      if (auto *x = dyn_cast<ExplicitCastExpr>(e)) return e->isLValue() && is(x->getSubExpr());
      if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) { auto op = x->getOperator(); return (op == OO_Subscript || op == OO_Star || op == OO_Arrow) && e->isLValue() && x->getNumArgs() && is(x->getArg(0)); }
      if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) return e->isLValue() && is(x->getImplicitObjectArgument());
      if (auto *x = dyn_cast<ConditionalOperator>(e)) return e->isLValue() && (is(x->getTrueExpr()) || is(x->getFalseExpr()));
      return false;
    }
    static bool nonConstRef(QualType t) { return t->isLValueReferenceType() && !t.getNonReferenceType().isConstQualified(); }
    bool VisitBinaryOperator(BinaryOperator *b) { if (b->isAssignmentOp() && is(b->getLHS())) hit = b; return true; }
    bool VisitUnaryOperator(UnaryOperator *u) { if (u->isIncrementDecrementOp() && is(u->getSubExpr())) hit = u; return true; }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr *e) { if (auto *m = e->getMethodDecl()) if (!m->isConst() && !m->isStatic() && !constTwin(m) && !e->getImplicitObjectArgument()->getType()->isPointerType() && is(e->getImplicitObjectArgument())) hit = e; return true; }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *e) { if (auto *m = dyn_cast_or_null<CXXMethodDecl>(e->getDirectCallee())) if (!m->isConst() && !m->isStatic() && !constTwin(m) && e->getNumArgs() && is(e->getArg(0))) hit = e; return true; }
    bool VisitCallExpr(CallExpr *e) {
      auto *f = e->getDirectCallee(); if (!f) return true; const FunctionDecl *pat = f->getPrimaryTemplate() ? f->getPrimaryTemplate()->getTemplatedDecl() : f;
      unsigned off = isa<CXXOperatorCallExpr>(e) && isa<CXXMethodDecl>(f) ? 1 : 0;
      for (unsigned i = off; i < e->getNumArgs() && i - off < f->getNumParams(); ++i) args(e->getArg(i), f->getParamDecl(i - off)->getType(), i - off < pat->getNumParams() ? pat->getParamDecl(i - off)->getType() : QualType(), e);
      return true;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr *e) { auto *f = e->getConstructor(); const FunctionDecl *pat = f->getPrimaryTemplate() ? f->getPrimaryTemplate()->getTemplatedDecl() : f; for (unsigned i = 0; i < e->getNumArgs() && i < f->getNumParams(); ++i) args(e->getArg(i), f->getParamDecl(i)->getType(), i < pat->getNumParams() ? pat->getParamDecl(i)->getType() : QualType(), e); return true; }
    void args(const Expr *a, QualType t, QualType pat, const Stmt *e) {
      if (nonConstRef(t) && (pat.isNull() || !pat->isRValueReferenceType()) && is(a)) hit = e;
      if (t->isRValueReferenceType() && a->IgnoreParenImpCasts()->isXValue()) if (auto *c = dyn_cast<CallExpr>(a->IgnoreParenImpCasts())) if (c->getNumArgs() == 1 && is(c->getArg(0))) hit = e;
      if (t->isPointerType() && !t->getPointeeType().isConstQualified() && !t->getPointeeType()->isFunctionType()) { const Expr *x = a->IgnoreParenImpCasts(); if (auto *u = dyn_cast<UnaryOperator>(x)) { if (u->getOpcode() == UO_AddrOf && is(u->getSubExpr())) hit = e; } else if (x->getType()->isArrayType() && is(x)) hit = e; }
    }
    bool VisitReturnStmt(ReturnStmt *r) { if (!fn || !r->getRetValue()) return true; QualType t = fn->getReturnType(); if (nonConstRef(t) && is(r->getRetValue())) hit = r; if (t->isPointerType() && !t->getPointeeType().isConstQualified()) { const Expr *x = r->getRetValue()->IgnoreParenImpCasts(); if (auto *u = dyn_cast<UnaryOperator>(x)) { if (u->getOpcode() == UO_AddrOf && is(u->getSubExpr())) hit = r; } else if (x->getType()->isArrayType() && is(x)) hit = r; } return true; }
    bool VisitVarDecl(VarDecl *d) { if (nonConstRef(d->getType()) && d->getInit() && is(d->getInit()) && alias.insert(d).second) again = true; return true; }
    bool again = false;
    void run(const FunctionDecl *f) { fn = f; do { again = false; TraverseStmt(f->getBody()); } while (again && !hit); }
  };
  void out(llvm::json::Object o) { llvm::outs() << llvm::json::Value(std::move(o)) << "\n"; }
  void statics() {
    std::set<std::string> done;
    for (auto *v : vars) {
      auto *c = v->getCanonicalDecl(); if (!seen.insert(c).second) continue;
      QualType t = v->getType(); bool cst = v->isConstexpr() || (t.isConstQualified() || C.getBaseElementType(t).isConstQualified() || t->isReferenceType()) ;
      bool dep = false, local = v->isStaticLocal();
      if (local && v->getInit()) { Refs r; r.self = v; r.TraverseStmt(const_cast<Expr *>(v->getInit())); dep = r.dep; }
      std::vector<std::string> mut;
      if (!cst || hasMutable(t)) {
        std::set<std::string> m;
        for (auto *f : fns) {
          Stmt *b = f->getBody(); if (!b) continue;
          Direct D; D.v = v; D.run(f); if (D.hit) m.insert(f->getQualifiedNameAsString() + " (" + where(D.hit->getBeginLoc()) + ")");
        }
        mut.assign(m.begin(), m.end());
      }
      llvm::json::Array ma; for (auto &x : mut) ma.push_back(x);
      out(llvm::json::Object{{"fact", "static"}, {"name", v->getQualifiedNameAsString()}, {"where", where(v->getLocation())}, {"type", t.getAsString()}, {"const", cst}, {"internal", v->getFormalLinkage() == Linkage::Internal}, {"local", local}, {"tls", v->getTLSKind() != VarDecl::TLS_None}, {"atomic", atomic(t)}, {"init_from_arguments", dep}, {"mutated", std::move(ma)}, {"function", local ? cast<NamedDecl>(v->getParentFunctionOrMethod() ? cast<Decl>(v->getParentFunctionOrMethod()) : (const Decl *)v)->getQualifiedNameAsString() : ""}});
    }
  }
  void strong() {
    for (auto *f : fns) {
      if (f->isDependentContext() || f->isTemplated()) { out(llvm::json::Object{{"fact", "header"}, {"strong", false}, {"name", f->getQualifiedNameAsString()}, {"where", where(f->getLocation())}}); continue; }
      if (SM.isInMainFile(SM.getExpansionLoc(f->getLocation()))) continue;
      out(llvm::json::Object{{"fact", "header"}, {"strong", C.GetGVALinkageForFunction(f) == GVA_StrongExternal}, {"name", f->getQualifiedNameAsString()}, {"where", where(f->getLocation())}});
    }
    for (auto *v : vars) {
      if (v->isTemplated() || v->isStaticLocal() || SM.isInMainFile(SM.getExpansionLoc(v->getLocation())) || v->isThisDeclarationADefinition() != VarDecl::Definition) continue;
      out(llvm::json::Object{{"fact", "header"}, {"strong", C.GetGVALinkageForVariable(v) == GVA_StrongExternal}, {"name", v->getQualifiedNameAsString()}, {"where", where(v->getLocation())}});
    }
  }
  struct Touch : RecursiveASTVisitor<Touch> { std::set<const FieldDecl *> f; bool all = false; bool VisitMemberExpr(MemberExpr *e) { if (auto *d = dyn_cast<FieldDecl>(e->getMemberDecl())) f.insert(d); return true; } bool VisitCXXMemberCallExpr(CXXMemberCallExpr *e) { if (auto *o = e->getImplicitObjectArgument()) if (isa<CXXThisExpr>(o->IgnoreParenImpCasts())) all = true; return true; } bool VisitCallExpr(CallExpr *e) { for (auto *x : e->arguments()) if (isa<CXXThisExpr>(x->IgnoreParenImpCasts())) all = true; return true; } bool VisitUnaryOperator(UnaryOperator *u) { if (u->getOpcode() == UO_Deref && isa<CXXThisExpr>(u->getSubExpr()->IgnoreParenImpCasts())) all = true; return true; } };
  void ctorFacts() {
    for (auto *k : ctors) {
      if (k->isDependentContext() || k->isDelegatingConstructor() || k->isDeleted() || k->isDefaulted()) continue;
      auto *r = k->getParent(); if (r->isUnion() || r->isLambda()) continue;
      std::set<const FieldDecl *> init, written; Touch T;
      for (auto *i : k->inits()) { if (i->isMemberInitializer()) { bool none = false; if (auto *ce = dyn_cast_or_null<CXXConstructExpr>(i->getInit())) { (void)ce; } if (isa_and_nonnull<ImplicitValueInitExpr>(i->getInit())) {} init.insert(i->getMember()); if (i->isWritten()) written.insert(i->getMember()); } if (i->getInit() && i->isWritten()) T.TraverseStmt(i->getInit()); }
      if (k->getBody()) T.TraverseStmt(k->getBody());
      llvm::json::Array miss;
      for (auto *f : r->fields()) {
        QualType t = C.getBaseElementType(f->getType());
        if (auto *a = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl())) if (a->getQualifiedNameAsString() == "std::array" && a->getTemplateArgs()[0].getKind() == TemplateArgument::Type && C.getBaseElementType(a->getTemplateArgs()[0].getAsType())->isScalarType()) { if (!written.count(f) && !f->hasInClassInitializer() && !T.f.count(f) && !T.all && a->getTemplateArgs()[1].getAsIntegral() != 0) miss.push_back(f->getNameAsString()); continue; }
        if (f->isUnnamedBitfield() || !(t->isArithmeticType() || t->isAnyPointerType() || t->isEnumeralType())) continue;
        if (init.count(f) || f->hasInClassInitializer() || T.f.count(f) || T.all) continue;
        miss.push_back(f->getNameAsString());
      }
      out(llvm::json::Object{{"fact", "ctor"}, {"class", QualType(r->getTypeForDecl(), 0).getAsString()}, {"where", where(k->getLocation())}, {"kind", k->isDefaultConstructor() ? "default" : k->isCopyOrMoveConstructor() ? "copy" : "other"}, {"missing", std::move(miss)}});
    }
  }
};
struct Consumer : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Facts F(C); F.TraverseDecl(C.getTranslationUnitDecl()); F.statics(); F.ctorFacts(); for (auto &h : F.hidden) F.out(llvm::json::Object{{"fact", "hidden"}, {"call", h.first}, {"where", h.second}}); F.strong(); for (auto *f : F.flds) F.out(llvm::json::Object{{"fact", "field"}, {"class", "flut::interruptible"}, {"name", f->getNameAsString()}, {"type", f->getType().getAsString()}, {"atomic", Facts::atomic(f->getType())}, {"const", f->getType().isConstQualified()}, {"plain", f->getType()->isScalarType()}, {"where", F.where(f->getLocation())}}); F.out(llvm::json::Object{{"fact", "count"}, {"functions", (int64_t)F.fns.size()}, {"calls", (int64_t)F.calls}}); } };
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); } };
int main(int argc, const char **argv) {
  Root = argv[1]; std::vector<std::string> files; int i = 2; for (; i < argc && std::string(argv[i]) != "--"; ++i) files.push_back(argv[i]);
  std::vector<std::string> flags; for (++i; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags); tooling::ClangTool t(db, files);
  return t.run(tooling::newFrontendActionFactory<Action>().get());
}
