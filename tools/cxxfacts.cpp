// cxxfacts: prints a compact JSON description of the resolved (template-instantiated) program of one
// translation unit: records (bases, fields, methods), enums, and function bodies as s-expressions.
// Only declarations located under one of the --root=<dir> prefixes are printed.
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static llvm::raw_ostream *OS;

struct Ctx {
  ASTContext *C;
  SourceManager *SM;
  PrintingPolicy PP;
  Ctx(ASTContext &c) : C(&c), SM(&c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  std::string file(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    auto f = SM->getFilename(L);
    return f.str();
  }
  int line(SourceLocation L) { return SM->getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : Roots)
      if (f.rfind(r, 0) == 0)
        return true;
    return false;
  }
  std::string ty(QualType t) { return t.getAsString(PP); }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream o(s);
    D->printQualifiedName(o, PP);
    o.flush();
    return s;
  }
  // name of a record incl. template args
  std::string rn(const CXXRecordDecl *R) {
    if (!R)
      return "";
    return ty(C->getRecordType(R).getUnqualifiedType());
  }
};

struct Lower {
  Ctx &X;
  Lower(Ctx &x) : X(x) {}

  Array exprs(llvm::iterator_range<Stmt::child_iterator> r) {
    Array a;
    for (auto *c : r)
      if (c)
        a.push_back(E(dyn_cast<Expr>(c)));
    return a;
  }
  // conversions that change the value: float to integer, pointer or number to truth value
  static const char *conv(const CastExpr *x) {
    for (const Expr *e = x; auto *c = dyn_cast<CastExpr>(e); e = c->getSubExpr()) {
      switch (c->getCastKind()) {
      case CK_FloatingToIntegral:
        return "fi";
      case CK_PointerToBoolean:
      case CK_MemberPointerToBoolean:
        return "pb";
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
        return "nb";
      default:
        break;
      }
      if (!isa<ImplicitCastExpr>(c->getSubExpr()))
        break;
    }
    return "";
  }
  Value callee(const FunctionDecl *F) {
    Object o;
    o["n"] = F->getNameAsString();
    o["ty"] = X.ty(F->getType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = X.rn(M->getParent());
      if (M->isVirtual())
        o["virt"] = true;
      if (M->isStatic())
        o["static"] = true;
    } else
      o["q"] = X.qn(F);
    Array refs;
    for (auto *P : F->parameters()) {
      QualType t = P->getType();
      // r: mutable lvalue reference or pointer to non-const
      if (t->isLValueReferenceType() && !t.getNonReferenceType().isConstQualified())
        refs.push_back("&");
      else if (t->isPointerType() && !t->getPointeeType().isConstQualified())
        refs.push_back("*");
      else
        refs.push_back("");
    }
    o["ref"] = std::move(refs);
    return o;
  }
  // values of the template parameters of a function that are not types
  void targs(Value &co, const FunctionDecl *F, const Expr *ref) {
    auto *P = F->getPrimaryTemplate();
    if (!P)
      return;
    llvm::ArrayRef<TemplateArgumentLoc> written;
    if (ref)
      ref = ref->IgnoreParenImpCasts();
    if (auto *d = dyn_cast_or_null<DeclRefExpr>(ref))
      written = d->template_arguments();
    else if (auto *m = dyn_cast_or_null<MemberExpr>(ref))
      written = m->template_arguments();
    Array r;
    unsigned i = 0;
    for (auto *D : *P->getTemplateParameters()) {
      if (isa<NonTypeTemplateParmDecl>(D)) {
        auto *S = F->getTemplateSpecializationArgs();
        if (i < written.size() && written[i].getArgument().getKind() == TemplateArgument::Expression)
          r.push_back(Array{D->getNameAsString(), E(written[i].getSourceExpression())});
        else if (S && i < S->size() && S->get(i).getKind() == TemplateArgument::Integral)
          r.push_back(Array{D->getNameAsString(), Array{"int", std::to_string(S->get(i).getAsIntegral().getExtValue())}});
      }
      i++;
    }
    if (!r.empty())
      co.getAsObject()->insert({"targs", std::move(r)});
  }
  Array args(const Expr *const *a, unsigned n) {
    Array r;
    for (unsigned i = 0; i < n; i++)
      r.push_back(E(a[i]));
    return r;
  }
  Value E(const Expr *e) {
    if (!e)
      return Array{"none"};
    e = e->IgnoreParens();
    if (auto *x = dyn_cast<ExprWithCleanups>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
      // a template parameter of a function stays a parameter: the branches of all instantiations are seen in each
      if (isa<FunctionDecl>(x->getAssociatedDecl()) || isa<FunctionTemplateDecl>(x->getAssociatedDecl()))
        return Array{"var", x->getParameter()->getNameAsString()};
      return E(x->getReplacement());
    }
    if (auto *x = dyn_cast<ConstantExpr>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e))
      return E(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<CastExpr>(e)) {
      if (isa<CXXDynamicCastExpr>(e) || isa<CXXStaticCastExpr>(e) || isa<CXXReinterpretCastExpr>(e) || isa<CXXConstCastExpr>(e) ||
          isa<CStyleCastExpr>(e) || isa<CXXFunctionalCastExpr>(e))
        return Array{"cast", X.ty(e->getType()), E(x->getSubExpr()), e->getStmtClassName(), conv(x)};
      if (*conv(x))
        return Array{"cast", X.ty(e->getType()), E(x->getSubExpr()), "", conv(x)};
      return E(x->getSubExpr());
    }
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e))
      return Array{"defarg", E(x->getExpr())};
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *D = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D))
        return Array{"enum", X.qn(ec)};
      if (auto *fd = dyn_cast<FieldDecl>(D))
        return Array{"fieldref", X.rn(dyn_cast<CXXRecordDecl>(fd->getParent())), fd->getNameAsString()};
      if (auto *fn = dyn_cast<FunctionDecl>(D))
        return Array{"fn", callee(fn)};
      if (auto *vd = dyn_cast<VarDecl>(D)) {
        if (vd->isLocalVarDeclOrParm())
          return Array{"var", vd->getNameAsString()};
        return Array{"gvar", X.qn(vd)};
      }
      return Array{"var", D->getNameAsString()};
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *D = x->getMemberDecl();
      if (auto *m = dyn_cast<CXXMethodDecl>(D))
        return Array{"method", E(x->getBase()), callee(m)};
      std::string owner;
      if (auto *f = dyn_cast<FieldDecl>(D))
        owner = X.rn(dyn_cast<CXXRecordDecl>(f->getParent()));
      return Array{"mem", E(x->getBase()), D->getNameAsString(), owner};
    }
    if (isa<CXXThisExpr>(e))
      return Array{"this"};
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Value c = nullptr;
      if (auto *f = x->getDirectCallee())
        c = callee(f);
      return Array{"opcall", getOperatorSpelling(x->getOperator()), args(x->getArgs(), x->getNumArgs()), std::move(c)};
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      auto *md = x->getMethodDecl();
      if (me && md) {
        Value co = callee(md);
        // an explicitly qualified call (Base::f) is not dispatched virtually
        if (me->hasQualifier())
          co.getAsObject()->insert({"qual", true});
        return Array{"mcall", E(me->getBase()), std::move(co), args(x->getArgs(), x->getNumArgs()),
                     X.ty(x->getImplicitObjectArgument()->getType()), X.line(x->getExprLoc())};
      }
      return Array{"icall", E(x->getCallee()), args(x->getArgs(), x->getNumArgs()), X.line(x->getExprLoc())};
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      if (auto *f = x->getDirectCallee()) {
        Value co = callee(f);
        targs(co, f, x->getCallee());
        return Array{"call", std::move(co), args(x->getArgs(), x->getNumArgs()), X.line(x->getExprLoc())};
      }
      return Array{"icall", E(x->getCallee()), args(x->getArgs(), x->getNumArgs()), X.line(x->getExprLoc())};
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      if (x->isElidable() && x->getNumArgs() == 1)
        return E(x->getArg(0));
      const char *k = x->getConstructor()->isCopyConstructor()   ? "copy"
                      : x->getConstructor()->isMoveConstructor() ? "move"
                                                                 : "";
      return Array{"new", X.ty(x->getType().getUnqualifiedType()), args(x->getArgs(), x->getNumArgs()), k};
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e))
      return Array{"heapnew", X.ty(x->getAllocatedType()), E(x->getInitializer()),
                   x->getArraySize() ? E(*x->getArraySize()) : Value(nullptr)};
    if (auto *x = dyn_cast<CXXDeleteExpr>(e))
      return Array{"delete", E(x->getArgument())};
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
      return Array{"idx", E(x->getBase()), E(x->getIdx())};
    if (auto *x = dyn_cast<CompoundAssignOperator>(e))
      return Array{"aug", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS()), X.line(e->getExprLoc()),
                   x->getType()->isPointerType() ? "p" : x->getType()->isIntegerType() ? (x->getComputationResultType()->isIntegerType() ? "i" : "fi") : ""};
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign)
        return Array{"asg", E(x->getLHS()), E(x->getRHS()), X.line(e->getExprLoc())};
      // arithmetic on pointers and division of integers are marked
      const char *k = x->getType()->isPointerType() ? "p" : x->getType()->isIntegerType() && (x->getOpcode() == BO_Div || x->getOpcode() == BO_Rem) ? "i" : "";
      if (x->isComparisonOp() && x->getLHS()->IgnoreImpCasts()->getType()->isAnyPointerType())
        k = "p";
      if (*k)
        return Array{"bin", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS()), k};
      return Array{"bin", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS())};
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix())
        op = "post" + op;
      if (x->isIncrementDecrementOp() && x->getType()->isPointerType())
        return Array{"un", op, E(x->getSubExpr()), "p"};
      return Array{"un", op, E(x->getSubExpr())};
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e))
      return Array{"cond", E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr())};
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      return Array{"int", s.str().str()};
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      return Array{"float", s.str().str()};
    }
    if (auto *x = dyn_cast<clang::StringLiteral>(e))
      return Array{"str", x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?")};
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e))
      return Array{"bool", x->getValue()};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return Array{"null"};
    if (auto *x = dyn_cast<CXXThrowExpr>(e))
      return Array{"throw", E(x->getSubExpr()), X.line(e->getExprLoc())};
    if (auto *x = dyn_cast<InitListExpr>(e))
      return Array{"init", X.ty(e->getType()), args(const_cast<InitListExpr *>(x)->getInits(), x->getNumInits())};
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      Array ps;
      for (auto *P : x->getCallOperator()->parameters())
        ps.push_back(Array{P->getNameAsString(), X.ty(P->getType())});
      return Array{"lambda", std::move(ps), S(x->getBody()), X.line(e->getExprLoc())};
    }
    if (isa<UnaryExprOrTypeTraitExpr>(e))
      return Array{"int", "sizeof"};
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e))
      return Array{"zero", X.ty(x->getType())};
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e))
      return Array{"zero", X.ty(x->getType())};
    if (auto *x = dyn_cast<CharacterLiteral>(e))
      return Array{"int", std::to_string(x->getValue())};
    Array r{"other", e->getStmtClassName()};
    for (auto *c : e->children())
      if (auto *ce = dyn_cast_or_null<Expr>(c))
        r.push_back(E(ce));
    return r;
  }
  Value S(const Stmt *s) {
    if (!s)
      return Array{"nop"};
    int L = X.line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      Array b;
      for (auto *c : x->body())
        b.push_back(S(c));
      return Array{"block", std::move(b)};
    }
    if (auto *x = dyn_cast<CapturedStmt>(s))
      return S(x->getCapturedStmt());
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      Array b;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) {
          Array one{"decl", v->getNameAsString(), X.ty(v->getType()), v->hasInit() ? E(v->getInit()) : Value(nullptr), L};
          b.push_back(std::move(one));
        }
      return Array{"block", std::move(b)};
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      Array pre;
      if (x->getInit())
        pre.push_back(S(x->getInit()));
      if (x->getConditionVariableDeclStmt())
        pre.push_back(S(x->getConditionVariableDeclStmt()));
      Array i{"if", E(x->getCond()), S(x->getThen()), S(x->getElse()), L};
      if (pre.empty())
        return i;
      pre.push_back(std::move(i));
      return Array{"block", std::move(pre)};
    }
    if (auto *x = dyn_cast<ForStmt>(s))
      return Array{"for", S(x->getInit()), E(x->getCond()), x->getInc() ? E(x->getInc()) : Value(nullptr), S(x->getBody()), L};
    if (auto *x = dyn_cast<CXXForRangeStmt>(s))
      return Array{"forrange", x->getLoopVariable()->getNameAsString(), X.ty(x->getLoopVariable()->getType()), E(x->getRangeInit()), S(x->getBody()), L};
    if (auto *x = dyn_cast<WhileStmt>(s))
      return Array{"while", E(x->getCond()), S(x->getBody()), L};
    if (auto *x = dyn_cast<DoStmt>(s))
      return Array{"do", E(x->getCond()), S(x->getBody()), L};
    if (auto *x = dyn_cast<SwitchStmt>(s))
      return Array{"switch", E(x->getCond()), S(x->getBody()), L, X.ty(x->getCond()->IgnoreImpCasts()->getType().getUnqualifiedType())};
    if (auto *x = dyn_cast<CaseStmt>(s))
      return Array{"case", E(x->getLHS()), S(x->getSubStmt()), L};
    if (auto *x = dyn_cast<DefaultStmt>(s))
      return Array{"default", S(x->getSubStmt()), L};
    if (auto *x = dyn_cast<ReturnStmt>(s))
      return Array{"ret", x->getRetValue() ? E(x->getRetValue()) : Value(nullptr), L};
    if (isa<BreakStmt>(s))
      return Array{"break"};
    if (isa<ContinueStmt>(s))
      return Array{"continue"};
    if (isa<NullStmt>(s))
      return Array{"nop"};
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++)
        h.push_back(S(x->getHandler(i)->getHandlerBlock()));
      return Array{"try", S(x->getTryBlock()), std::move(h), L};
    }
    if (auto *x = dyn_cast<AttributedStmt>(s))
      return S(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s))
      return S(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(s))
      return Array{"expr", E(x), L};
    return Array{"otherstmt", s->getStmtClassName(), L};
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx X;
  Lower Lo;
  std::set<const Decl *> seen;
  V(ASTContext &c) : X(c), Lo(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !X.inRoot(R->getLocation()))
      return true;
    Object o;
    o["k"] = "record";
    o["name"] = X.rn(R);
    o["file"] = X.file(R->getLocation());
    o["line"] = X.line(R->getLocation());
    Array bases, fields, methods;
    for (auto &b : R->bases())
      bases.push_back(X.ty(b.getType().getUnqualifiedType()));
    for (auto *f : R->fields())
      fields.push_back(Array{f->getNameAsString(), X.ty(f->getType()), f->hasInClassInitializer() ? Lo.E(f->getInClassInitializer()) : Value(nullptr), X.line(f->getLocation())});
    for (auto *m : R->methods()) {
      if (m->isImplicit())
        continue;
      const char *kind = "";
      if (auto *c = dyn_cast<CXXConstructorDecl>(m))
        kind = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor";
      else if (isa<CXXDestructorDecl>(m))
        kind = "dtor";
      else if (m->isCopyAssignmentOperator())
        kind = "copyassign";
      else if (m->isMoveAssignmentOperator())
        kind = "moveassign";
      methods.push_back(Object{{"n", m->getNameAsString()}, {"ty", X.ty(m->getType())}, {"virt", m->isVirtual()},
                               {"pure", m->isPureVirtual()}, {"kind", kind}, {"def", m->isDefaulted()}, {"del", m->isDeleted()},
                               {"const", m->isConst()}, {"acc", (int)m->getAccess()}});
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    o["methods"] = std::move(methods);
    *OS << Value(std::move(o)) << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !X.inRoot(D->getLocation()) || D->isDependentContext())
      return true;
    Array vs;
    for (auto *e : D->enumerators())
      vs.push_back(e->getNameAsString());
    *OS << Value(Object{{"k", "enum"}, {"name", X.qn(D)}, {"file", X.file(D->getLocation())}, {"line", X.line(D->getLocation())}, {"vals", std::move(vs)}}) << "\n";
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isImplicit())
      return true;
    if (F->isDefaulted())
      return true;
    if (!X.inRoot(F->getLocation()))
      return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return true;
    if (!seen.insert(F->getCanonicalDecl()).second)
      return true;
    Object o;
    o["k"] = "func";
    o["n"] = F->getNameAsString();
    o["q"] = X.qn(F);
    o["file"] = X.file(F->getLocation());
    o["line"] = X.line(F->getBeginLoc());
    o["end"] = X.line(F->getEndLoc());
    o["ty"] = X.ty(F->getType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = X.rn(M->getParent());
      o["virt"] = M->isVirtual();
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["pure"] = M->isPureVirtual();
      o["acc"] = (int)M->getAccess();
    }
    const char *kind = "";
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
      kind = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor";
      Array inits;
      for (auto *i : c->inits()) {
        if (!i->isWritten())
          continue;
        if (i->isBaseInitializer())
          inits.push_back(Array{"base", X.ty(QualType(i->getBaseClass(), 0)), Lo.E(i->getInit())});
        else if (i->isDelegatingInitializer())
          inits.push_back(Array{"deleg", "", Lo.E(i->getInit())});
        else if (i->isAnyMemberInitializer())
          inits.push_back(Array{"mem", i->getAnyMember()->getNameAsString(), Lo.E(i->getInit())});
      }
      o["inits"] = std::move(inits);
    } else if (isa<CXXDestructorDecl>(F))
      kind = "dtor";
    else if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator())
        kind = "copyassign";
      else if (M->isMoveAssignmentOperator())
        kind = "moveassign";
    }
    o["kind"] = kind;
    Array ps;
    for (auto *P : F->parameters())
      ps.push_back(Array{P->getNameAsString(), X.ty(P->getType())});
    o["params"] = std::move(ps);
    if (auto *P = F->getPrimaryTemplate()) {
      Array ts;
      for (auto *D : *P->getTemplateParameters())
        if (isa<NonTypeTemplateParmDecl>(D))
          ts.push_back(D->getNameAsString());
      if (!ts.empty())
        o["targs"] = std::move(ts);
    }
    o["body"] = Lo.S(F->getBody());
    *OS << Value(std::move(o)) << "\n";
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &c) override {
    V v(c);
    v.TraverseDecl(c.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char **argv) {
  // cxxfacts OUT FILE --root=DIR... -- flags
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[1], ec);
  OS = &out;
  std::vector<std::string> flags;
  bool f = false;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (f)
      flags.push_back(a);
    else if (a == "--")
      f = true;
    else if (a.rfind("--root=", 0) == 0)
      Roots.push_back(a.substr(7));
  }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool t(db, {argv[2]});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
