// cxxir: exports the type-checked program (resolved AST of every function
// definition located under one of the given roots) as JSON lines.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
#include <vector>
#include <fstream>

using namespace clang;
static std::vector<std::string> gRoots;
static std::set<std::string> gSeen;
static llvm::raw_fd_ostream *gOut;
static unsigned gErrors = 0;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
  }
  return o + "\"";
}

class Exp : public RecursiveASTVisitor<Exp> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> ids; int nid = 0;
public:
  Exp(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    return f.str();
  }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string ty(QualType q) {
    if (q.isNull()) return "?";
    return q.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return b.str().str();
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s);
    D->printQualifiedName(o, PP);
    return o.str();
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D); if (it != ids.end()) return it->second;
    return ids[D] = ++nid;
  }
  // macro names of the whole expansion chain
  std::string macros(SourceLocation L) {
    std::string r;
    int n = 0;
    while (L.isMacroID() && n++ < 12) {
      if (!SM.isMacroArgExpansion(L)) {
        r += Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str(); r += " ";
      }
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return r;
  }
  bool debugMacro(SourceLocation L) {
    if (!L.isMacroID()) return false;
    std::string m = " " + macros(L);
    return m.find(" condDebugMsg") != std::string::npos || m.find(" debugMsg") != std::string::npos ||
           m.find(" condDebugStmt") != std::string::npos || m.find(" debugStmt") != std::string::npos;
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *p = dyn_cast<ParenExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<ImplicitCastExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<FullExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXDefaultArgExpr>(E)) E = p->getExpr();
      else if (auto *p = dyn_cast<CXXDefaultInitExpr>(E)) E = p->getExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = p->getReplacement();
      else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(E)) E = p->getSubExpr();
      else break;
    }
    return E;
  }
  template <class R> std::string args(const R &r) {
    std::string s = "["; bool f = true;
    for (const Expr *a : r) { if (!f) s += ","; f = false; s += ex(a); }
    return s + "]";
  }
  std::string L(const Stmt *S) { return ",\"l\":" + std::to_string(line(S->getBeginLoc())); }

  std::string calleeInfo(const FunctionDecl *FD) {
    std::string s = ",\"f\":" + esc(qn(FD)) + ",\"u\":" + esc(usr(FD));
    s += ",\"t\":" + esc(ty(FD->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isVirtual()) s += ",\"virt\":1";
      if (M->isConst()) s += ",\"const\":1";
      if (M->isStatic()) s += ",\"static\":1";
    }
    // which params are mutable refs / pointers to non-const
    std::string m; unsigned i = 0;
    for (auto *p : FD->parameters()) {
      QualType t = p->getType();
      bool mut = (t->isReferenceType() && !t.getNonReferenceType().isConstQualified()) ||
                 (t->isPointerType() && !t->getPointeeType().isConstQualified());
      if (mut) { if (!m.empty()) m += ","; m += std::to_string(i); }
      i++;
    }
    if (!m.empty()) s += ",\"mut\":[" + m + "]";
    return s;
  }

  std::string ex(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return "{\"k\":\"none\"}";
    if (isa<CXXThisExpr>(E)) return "{\"k\":\"this\"}";
    if (auto *e = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> b; e->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
      return "{\"k\":\"i\",\"v\":" + b.str().str() + "}";
    }
    if (auto *e = dyn_cast<CharacterLiteral>(E)) return "{\"k\":\"i\",\"v\":" + std::to_string(e->getValue()) + "}";
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(E)) return std::string("{\"k\":\"b\",\"v\":") + (e->getValue() ? "true" : "false") + "}";
    if (auto *e = dyn_cast<FloatingLiteral>(E)) {
      llvm::SmallString<32> b; e->getValue().toString(b);
      return "{\"k\":\"fl\",\"v\":" + esc(b.str()) + "}";
    }
    if (auto *e = dyn_cast<clang::StringLiteral>(E)) return "{\"k\":\"str\",\"v\":" + esc(e->isOrdinary() ? e->getString() : llvm::StringRef("?")) + "}";
    if (isa<GNUNullExpr>(E) || isa<CXXNullPtrLiteralExpr>(E)) return "{\"k\":\"null\"}";
    if (auto *e = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = e->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> b; ec->getInitVal().toString(b, 10);
        return "{\"k\":\"enum\",\"n\":" + esc(qn(ec)) + ",\"v\":" + b.str().str() + "}";
      }
      if (auto *fd = dyn_cast<FunctionDecl>(D)) return "{\"k\":\"fn\"" + calleeInfo(fd) + "}";
      if (auto *pd = dyn_cast<ParmVarDecl>(D))
        return "{\"k\":\"v\",\"d\":\"p\",\"n\":" + esc(pd->getName()) + ",\"i\":" + std::to_string(id(pd)) + ",\"t\":" + esc(ty(pd->getType())) + "}";
      if (auto *vd = dyn_cast<VarDecl>(D)) {
        if (vd->isLocalVarDecl())
          return std::string("{\"k\":\"v\",\"d\":\"") + (vd->isStaticLocal() ? "s" : "l") + "\",\"n\":" + esc(vd->getName()) + ",\"i\":" + std::to_string(id(vd)) + ",\"t\":" + esc(ty(vd->getType())) + "}";
        return "{\"k\":\"v\",\"d\":\"g\",\"n\":" + esc(qn(vd)) + ",\"i\":0,\"t\":" + esc(ty(vd->getType())) + "}";
      }
      return "{\"k\":\"v\",\"d\":\"o\",\"n\":" + esc(qn(D)) + ",\"i\":" + std::to_string(id(D)) + ",\"t\":" + esc(ty(D->getType())) + "}";
    }
    if (auto *e = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = e->getMemberDecl();
      if (auto *fd = dyn_cast<FunctionDecl>(D))
        return "{\"k\":\"mfn\"" + calleeInfo(fd) + ",\"b\":" + ex(e->getBase()) + "}";
      if (isa<VarDecl>(D)) return "{\"k\":\"v\",\"d\":\"g\",\"n\":" + esc(qn(D)) + ",\"i\":0,\"t\":" + esc(ty(D->getType())) + "}";
      return "{\"k\":\"m\",\"n\":" + esc(qn(D)) + ",\"t\":" + esc(ty(D->getType())) + ",\"b\":" + ex(e->getBase()) + "}";
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(E)) {
      std::string s = "{\"k\":\"op\",\"op\":" + esc(getOperatorSpelling(e->getOperator()));
      if (e->getDirectCallee()) s += calleeInfo(e->getDirectCallee());
      s += L(E) + ",\"a\":" + args(e->arguments()) + "}";
      return s;
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = e->getMethodDecl();
      if (M && isa<CXXConversionDecl>(M))
        return "{\"k\":\"conv\",\"t\":" + esc(ty(e->getType())) + ",\"u\":" + esc(usr(M)) + ",\"f\":" + esc(qn(M)) + L(E) + ",\"o\":" + ex(e->getImplicitObjectArgument()) + "}";
      std::string s = "{\"k\":\"call\"";
      if (M) {
        s += calleeInfo(M);
        if (auto *me = dyn_cast<MemberExpr>(strip(e->getCallee()))) if (me->hasQualifier()) s += ",\"qual\":1";
      } else s += ",\"f\":\"?ptrmem\",\"u\":\"\"";
      s += L(E) + ",\"o\":" + (e->getImplicitObjectArgument() ? ex(e->getImplicitObjectArgument()) : ex(e->getCallee())) + ",\"a\":" + args(e->arguments()) + "}";
      return s;
    }
    if (auto *e = dyn_cast<CallExpr>(E)) {
      std::string s = "{\"k\":\"call\"";
      if (auto *FD = e->getDirectCallee()) { s += calleeInfo(FD); if (FD->isNoReturn()) s += ",\"noret\":1"; }
      else s += ",\"f\":\"?\",\"u\":\"\",\"fe\":" + ex(e->getCallee());
      s += L(E) + ",\"a\":" + args(e->arguments()) + "}";
      return s;
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *K = e->getConstructor();
      std::string s = "{\"k\":\"ctor\",\"t\":" + esc(ty(e->getType())) + ",\"u\":" + esc(usr(K));
      if (K->isCopyOrMoveConstructor()) s += ",\"cp\":1";
      s += ",\"f\":" + esc(qn(K)) + L(E) + ",\"a\":" + args(e->arguments()) + "}";
      return s;
    }
    if (auto *e = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "{\"k\":\"ctor\",\"t\":" + esc(ty(e->getType())) + ",\"u\":\"\",\"f\":\"?\"" + L(E) + ",\"a\":[]}";
    if (auto *e = dyn_cast<ExplicitCastExpr>(E)) {
      const char *ck = isa<CXXDynamicCastExpr>(e) ? "dynamic" : isa<CXXStaticCastExpr>(e) ? "static" :
        isa<CXXReinterpretCastExpr>(e) ? "reinterpret" : isa<CXXConstCastExpr>(e) ? "const" : isa<CXXFunctionalCastExpr>(e) ? "func" : "c";
      return std::string("{\"k\":\"cast\",\"ck\":\"") + ck + "\",\"t\":" + esc(ty(e->getType())) + ",\"e\":" + ex(e->getSubExpr()) + "}";
    }
    if (auto *e = dyn_cast<UnaryOperator>(E)) {
      std::string o = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) o = "p" + o;
      return "{\"k\":\"un\",\"op\":" + esc(o) + L(E) + ",\"e\":" + ex(e->getSubExpr()) + "}";
    }
    if (auto *e = dyn_cast<BinaryOperator>(E)) {
      return "{\"k\":\"bin\",\"op\":" + esc(e->getOpcodeStr()) + ",\"t\":" + esc(ty(e->getType())) + L(E) + ",\"x\":" + ex(e->getLHS()) + ",\"y\":" + ex(e->getRHS()) + "}";
    }
    if (auto *e = dyn_cast<ConditionalOperator>(E))
      return "{\"k\":\"cond\"" + L(E) + ",\"c\":" + ex(e->getCond()) + ",\"x\":" + ex(e->getTrueExpr()) + ",\"y\":" + ex(e->getFalseExpr()) + "}";
    if (auto *e = dyn_cast<ArraySubscriptExpr>(E))
      return "{\"k\":\"idx\",\"x\":" + ex(e->getBase()) + ",\"y\":" + ex(e->getIdx()) + "}";
    if (auto *e = dyn_cast<CXXNewExpr>(E)) {
      std::string s = "{\"k\":\"new\",\"t\":" + esc(ty(e->getAllocatedType())) + L(E);
      if (e->getInitializer()) s += ",\"e\":" + ex(e->getInitializer());
      if (e->isArray()) s += ",\"arr\":1";
      return s + "}";
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(E))
      return "{\"k\":\"delete\",\"t\":" + esc(ty(e->getDestroyedType())) + L(E) + ",\"e\":" + ex(e->getArgument()) + (e->isArrayForm() ? ",\"arr\":1" : "") + "}";
    if (auto *e = dyn_cast<CXXThrowExpr>(E))
      return "{\"k\":\"throw\"" + L(E) + (e->getSubExpr() ? ",\"t\":" + esc(ty(e->getSubExpr()->getType())) + ",\"e\":" + ex(e->getSubExpr()) : std::string("")) + "}";
    if (auto *e = dyn_cast<InitListExpr>(E)) return "{\"k\":\"ilist\",\"t\":" + esc(ty(e->getType())) + ",\"a\":" + args(e->inits()) + "}";
    if (auto *e = dyn_cast<LambdaExpr>(E)) {
      std::string s = "{\"k\":\"lambda\",\"p\":" + params(e->getCallOperator()) + L(E) + ",\"caps\":[";
      bool f = true;
      for (auto &c : e->captures()) if (c.capturesVariable()) {
        if (!f) s += ","; f = false;
        s += "[" + std::to_string(id(c.getCapturedVar())) + "," + (c.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
      }
      return s + "],\"body\":" + st(e->getBody()) + "}";
    }
    if (auto *e = dyn_cast<CXXScalarValueInitExpr>(E)) return "{\"k\":\"i\",\"v\":0}";
    if (isa<ImplicitValueInitExpr>(E)) return "{\"k\":\"i\",\"v\":0}";
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R; 
      if (!e->isValueDependent() && e->EvaluateAsInt(R, C)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); return "{\"k\":\"i\",\"v\":" + b.str().str() + "}"; }
      return "{\"k\":\"other\",\"n\":\"sizeof\"}";
    }
    if (auto *e = dyn_cast<CXXTypeidExpr>(E)) {
      if (e->isTypeOperand()) return "{\"k\":\"typeid\",\"t\":" + esc(ty(e->getTypeOperand(C))) + "}";
      return "{\"k\":\"typeid\",\"e\":" + ex(e->getExprOperand()) + "}";
    }
    if (auto *e = dyn_cast<StmtExpr>(E)) return "{\"k\":\"sexpr\",\"s\":" + st(e->getSubStmt()) + "}";
    if (auto *e = dyn_cast<OpaqueValueExpr>(E)) return e->getSourceExpr() ? ex(e->getSourceExpr()) : "{\"k\":\"other\",\"n\":\"opaque\"}";
    // fallback: keep children
    std::string s = "{\"k\":\"other\",\"n\":" + esc(E->getStmtClassName()) + ",\"a\":[";
    bool f = true;
    for (const Stmt *c : E->children()) if (c && isa<Expr>(c)) { if (!f) s += ","; f = false; s += ex(cast<Expr>(c)); }
    return s + "]}";
  }

  std::string params(const FunctionDecl *F) {
    std::string s = "["; bool f = true;
    for (auto *p : F->parameters()) {
      if (!f) s += ","; f = false;
      s += "{\"n\":" + esc(p->getName()) + ",\"i\":" + std::to_string(id(p)) + ",\"t\":" + esc(ty(p->getType())) + "}";
    }
    return s + "]";
  }
  std::string vd(const VarDecl *v) {
    std::string s = "{\"n\":" + esc(v->getName()) + ",\"i\":" + std::to_string(id(v)) + ",\"t\":" + esc(ty(v->getType()));
    if (v->isStaticLocal()) s += ",\"st\":1";
    if (v->getType()->isReferenceType()) s += ",\"ref\":1";
    if (auto *rd = v->getType()->getAsCXXRecordDecl()) if (rd->hasDefinition() && rd->getDestructor() && inRoots(rd->getLocation()))
      s += ",\"dtor\":" + esc(usr(rd->getDestructor()));
    if (v->getInit()) s += ",\"e\":" + ex(v->getInit());
    return s + "}";
  }

  std::string st(const Stmt *S) {
    if (!S) return "null";
    if (auto *s = dyn_cast<CompoundStmt>(S)) {
      if (debugMacro(s->getLBracLoc())) return "{\"k\":\"nop\"}";
      if (s->getLBracLoc().isMacroID() && !s->body_empty()) {
        // assertion macros: { if (<failed>) { Error e(...); throw e; } }
        std::string m = macros(s->getLBracLoc());
        if (m.find("check_error") != std::string::npos || m.find("checkError") != std::string::npos || m.find("assertTrue") != std::string::npos ||
            m.find("assertFalse") != std::string::npos || m.find("checkRuntime") != std::string::npos || m.find("check_runtime") != std::string::npos)
          if (auto *i = dyn_cast<IfStmt>(*s->body_begin()))
            if (!i->getElse() && i->getThen()->getBeginLoc().isMacroID())
              return "{\"k\":\"check\"" + L(S) + ",\"mac\":" + esc(m) + ",\"c\":" + ex(i->getCond()) + "}";
      }
      std::string r = "{\"k\":\"block\"" + L(S);
      if (s->getLBracLoc().isMacroID()) r += ",\"mac\":" + esc(macros(s->getLBracLoc()));
      r += ",\"s\":["; bool f = true;
      for (auto *c : s->body()) { if (!f) r += ","; f = false; r += st(c); }
      return r + "]}";
    }
    if (auto *s = dyn_cast<IfStmt>(S)) {
      std::string r = "{\"k\":\"if\"" + L(S);
      if (s->getInit()) r += ",\"init\":" + st(s->getInit());
      if (auto *v = s->getConditionVariable()) r += ",\"cv\":" + vd(v);
      return r + ",\"c\":" + ex(s->getCond()) + ",\"x\":" + st(s->getThen()) + ",\"y\":" + st(s->getElse()) + "}";
    }
    if (auto *s = dyn_cast<WhileStmt>(S)) {
      std::string r = "{\"k\":\"while\"" + L(S);
      if (auto *v = s->getConditionVariable()) r += ",\"cv\":" + vd(v);
      return r + ",\"c\":" + ex(s->getCond()) + ",\"b\":" + st(s->getBody()) + "}";
    }
    if (auto *s = dyn_cast<DoStmt>(S)) return "{\"k\":\"do\"" + L(S) + ",\"c\":" + ex(s->getCond()) + ",\"b\":" + st(s->getBody()) + "}";
    if (auto *s = dyn_cast<ForStmt>(S)) {
      std::string r = "{\"k\":\"for\"" + L(S) + ",\"i\":" + st(s->getInit());
      r += ",\"c\":" + (s->getCond() ? ex(s->getCond()) : std::string("null"));
      r += ",\"n\":" + (s->getInc() ? ex(s->getInc()) : std::string("null"));
      return r + ",\"b\":" + st(s->getBody()) + "}";
    }
    if (auto *s = dyn_cast<CXXForRangeStmt>(S)) {
      return "{\"k\":\"forr\"" + L(S) + ",\"v\":" + vd(s->getLoopVariable()) + ",\"r\":" + ex(s->getRangeInit()) + ",\"b\":" + st(s->getBody()) + "}";
    }
    if (auto *s = dyn_cast<SwitchStmt>(S)) return "{\"k\":\"switch\"" + L(S) + ",\"c\":" + ex(s->getCond()) + ",\"b\":" + st(s->getBody()) + "}";
    if (auto *s = dyn_cast<CaseStmt>(S)) return "{\"k\":\"case\"" + L(S) + ",\"v\":" + ex(s->getLHS()) + ",\"s\":" + st(s->getSubStmt()) + "}";
    if (auto *s = dyn_cast<DefaultStmt>(S)) return "{\"k\":\"default\"" + L(S) + ",\"s\":" + st(s->getSubStmt()) + "}";
    if (isa<BreakStmt>(S)) return "{\"k\":\"break\"" + L(S) + "}";
    if (isa<ContinueStmt>(S)) return "{\"k\":\"continue\"" + L(S) + "}";
    if (auto *s = dyn_cast<ReturnStmt>(S)) return "{\"k\":\"return\"" + L(S) + (s->getRetValue() ? ",\"e\":" + ex(s->getRetValue()) : std::string("")) + "}";
    if (auto *s = dyn_cast<DeclStmt>(S)) {
      std::string r = "{\"k\":\"decl\"" + L(S) + ",\"v\":["; bool f = true;
      for (auto *d : s->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { if (!f) r += ","; f = false; r += vd(v); }
      return r + "]}";
    }
    if (auto *s = dyn_cast<CXXTryStmt>(S)) {
      std::string r = "{\"k\":\"try\"" + L(S) + ",\"b\":" + st(s->getTryBlock()) + ",\"h\":[";
      for (unsigned i = 0; i < s->getNumHandlers(); i++) {
        auto *h = s->getHandler(i); if (i) r += ",";
        r += "{\"t\":" + (h->getExceptionDecl() ? esc(ty(h->getCaughtType())) : std::string("\"...\"")) + (h->getExceptionDecl() ? ",\"v\":" + vd(h->getExceptionDecl()) : std::string("")) + ",\"b\":" + st(h->getHandlerBlock()) + "}";
      }
      return r + "]}";
    }
    if (isa<NullStmt>(S)) return "{\"k\":\"nop\"}";
    if (auto *s = dyn_cast<LabelStmt>(S)) return "{\"k\":\"label\",\"n\":" + esc(s->getName()) + ",\"s\":" + st(s->getSubStmt()) + "}";
    if (auto *s = dyn_cast<GotoStmt>(S)) return "{\"k\":\"goto\",\"n\":" + esc(s->getLabel()->getName()) + "}";
    if (auto *s = dyn_cast<AttributedStmt>(S)) return st(s->getSubStmt());
    if (auto *e = dyn_cast<Expr>(S)) return "{\"k\":\"expr\"" + L(S) + ",\"e\":" + ex(e) + "}";
    return "{\"k\":\"ostmt\",\"n\":" + esc(S->getStmtClassName()) + "}";
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isImplicit()) return true;
    if (F->isDefaulted() && !F->isUserProvided()) return true;
    if (!F->isThisDeclarationADefinition()) return true;
    if (!inRoots(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string u = usr(F);
    std::string file = fileOf(F->getLocation());
    std::string key = (F->hasExternalFormalLinkage() || !F->isDefined()) ? u : u + "@" + file;
    if (!gSeen.insert(key).second) return true;
    Stmt *B = F->getBody(); if (!B) return true;
    std::string s = "{\"R\":\"fn\",\"u\":" + esc(u) + ",\"q\":" + esc(qn(F)) + ",\"file\":" + esc(file) + ",\"line\":" + std::to_string(line(F->getLocation())) + ",\"end\":" + std::to_string(line(F->getEndLoc()));
    s += ",\"p\":" + params(F) + ",\"ret\":" + esc(ty(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      s += ",\"cls\":" + esc(qn(M->getParent()));
      if (M->isVirtual()) s += ",\"virt\":1";
      if (M->isConst()) s += ",\"const\":1";
      if (M->isStatic()) s += ",\"static\":1";
      const char *acc = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      s += std::string(",\"acc\":\"") + acc + "\"";
      s += ",\"ov\":["; bool f = true;
      for (auto *o : M->overridden_methods()) { if (!f) s += ","; f = false; s += esc(usr(o)); }
      s += "]";
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
        s += ",\"ctor\":1,\"inits\":["; f = true;
        for (auto *I : K->inits()) {
          if (!f) s += ","; f = false;
          if (I->isAnyMemberInitializer()) s += "{\"m\":" + esc(qn(I->getAnyMember())) + ",\"t\":" + esc(ty(I->getAnyMember()->getType()));
          else s += "{\"base\":" + esc(ty(QualType(I->getBaseClass() ? I->getBaseClass() : I->getTypeSourceInfo()->getType().getTypePtr(), 0)));
          if (I->isWritten()) s += ",\"w\":1";
          s += ",\"l\":" + std::to_string(line(I->getSourceLocation()));
          s += ",\"e\":" + ex(I->getInit()) + "}";
        }
        s += "]";
      }
      if (isa<CXXDestructorDecl>(F)) s += ",\"dtor\":1";
    } else if (F->getStorageClass() == SC_Static) s += ",\"fstatic\":1";
    s += ",\"body\":" + st(B) + "}\n";
    *gOut << s;
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || !V->hasGlobalStorage()) return true;
    if (!(V->isThisDeclarationADefinition() || V->isStaticDataMember()) || V->getDeclContext()->isDependentContext()) return true;
    if (!inRoots(V->getLocation())) return true;
    if (!V->getInit()) return true;
    std::string u = usr(V) + "@" + fileOf(V->getLocation());
    if (!gSeen.insert(u).second) return true;
    if (V->getInit()->isValueDependent()) return true;
    *gOut << "{\"R\":\"gv\",\"q\":" + esc(qn(V)) + ",\"file\":" + esc(fileOf(V->getLocation())) + ",\"line\":" + std::to_string(line(V->getLocation())) + ",\"t\":" + esc(ty(V->getType())) + ",\"e\":" + ex(V->getInit()) + "}\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->getDeclContext()->isDependentContext() || !inRoots(D->getLocation())) return true;
    std::string u = "E" + usr(D);
    if (!gSeen.insert(u).second) return true;
    std::string s = "{\"R\":\"enum\",\"q\":" + esc(qn(D)) + ",\"file\":" + esc(fileOf(D->getLocation())) + ",\"line\":" + std::to_string(line(D->getLocation())) + ",\"c\":[";
    bool f = true;
    for (auto *c : D->enumerators()) {
      if (!f) s += ","; f = false;
      llvm::SmallString<24> b; c->getInitVal().toString(b, 10);
      s += "[" + esc(qn(c)) + "," + b.str().str() + "]";
    }
    *gOut << s << "]}\n";
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoots(R->getLocation())) return true;
    std::string u = "R" + usr(R);
    if (!gSeen.insert(u).second) return true;
    std::string s = "{\"R\":\"cls\",\"q\":" + esc(qn(R)) + ",\"t\":" + esc(ty(C.getRecordType(R))) + ",\"file\":" + esc(fileOf(R->getLocation())) + ",\"line\":" + std::to_string(line(R->getLocation())) + ",\"bases\":[";
    bool f = true;
    for (auto &b : R->bases()) { if (!f) s += ","; f = false; s += esc(ty(b.getType())); }
    s += "],\"fields\":["; f = true;
    for (auto *d : R->fields()) { if (!f) s += ","; f = false; s += "[" + esc(qn(d)) + "," + esc(ty(d->getType())) + "]"; }
    s += "],\"methods\":["; f = true;
    for (auto *m : R->methods()) {
      if (m->isImplicit()) continue;
      if (!f) s += ","; f = false;
      s += "{\"u\":" + esc(usr(m)) + ",\"q\":" + esc(qn(m));
      if (m->isVirtual()) s += ",\"virt\":1"; if (m->isPureVirtual()) s += ",\"pure\":1"; if (m->isConst()) s += ",\"const\":1"; if (m->isStatic()) s += ",\"static\":1";
      s += std::string(",\"acc\":\"") + (m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private") + "\"";
      s += ",\"np\":" + std::to_string(m->getNumParams()) + ",\"ov\":["; bool g = true;
      for (auto *o : m->overridden_methods()) { if (!g) s += ","; g = false; s += esc(usr(o)); }
      s += "]}";
    }
    *gOut << s << "]}\n";
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) gErrors++;
    Exp e(C); e.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

// usage: cxxir OUT root1:root2 file... -- flags
int main(int argc, const char **argv) {
  std::string out = argv[1]; std::string roots = argv[2];
  size_t p = 0; while (p <= roots.size()) { size_t q = roots.find(':', p); if (q == std::string::npos) q = roots.size(); if (q > p) gRoots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> files, flags; int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  std::error_code EC; llvm::raw_fd_ostream o(out, EC); if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  gOut = &o;
  int rc = 0;
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, files);
  rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  o << "{\"R\":\"end\",\"tu\":" << files.size() << ",\"err\":" << gErrors << "}\n";
  o.flush();
  return rc;
}
