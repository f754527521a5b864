// astx: facts about exception objects and handlers in the syntax trees of the
// files below a root, templates included (uninstantiated patterns).
//   usage: astx <root> <file> -- <clang flags>     (prints JSON lines)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <set>

using namespace clang;
static std::string Root;

static bool isExceptionRecord(const CXXRecordDecl *R, int depth = 0) {
  if (!R || depth > 12) return false;
  std::string n = R->getQualifiedNameAsString();
  if (n == "std::exception") return true;
  if (!R->hasDefinition()) return false;
  for (auto &B : R->getDefinition()->bases())
    if (isExceptionRecord(B.getType()->getAsCXXRecordDecl(), depth + 1)) return true;
  return false;
}
static bool isExceptionType(QualType T) {
  if (T.isNull()) return false;
  return isExceptionRecord(T.getNonReferenceType()->getAsCXXRecordDecl());
}

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; std::vector<const FunctionDecl *> fns; std::set<std::string> seen;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  bool mine(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    return f.starts_with(Root);
  }
  void emit(llvm::json::Object o, SourceLocation L, std::string fn) {
    L = SM.getExpansionLoc(L);
    o["file"] = SM.getFilename(L).str(); o["line"] = (int)SM.getExpansionLineNumber(L); o["col"] = (int)SM.getExpansionColumnNumber(L);
    o["fn"] = fn;
    std::string s; llvm::raw_string_ostream os(s); os << llvm::json::Value(std::move(o)); os.flush();
    if (seen.insert(s).second) llvm::outs() << s << "\n";
  }
  // the function around a node
  std::string around(const Stmt *S) {
    DynTypedNode n = DynTypedNode::create(*S);
    for (int k = 0; k < 200; ++k) {
      auto ps = C.getParents(n);
      if (ps.empty()) return "";
      n = ps[0];
      if (auto *F = n.get<FunctionDecl>()) return F->getQualifiedNameAsString();
    }
    return "";
  }
  const FunctionDecl *aroundDecl(DynTypedNode n) {
    for (int k = 0; k < 200; ++k) {
      auto ps = C.getParents(n);
      if (ps.empty()) return nullptr;
      n = ps[0];
      if (auto *F = n.get<FunctionDecl>()) return F;
    }
    return nullptr;
  }
  // where does the value of this expression go?
  std::string fate(const Expr *E, int depth = 0) {
    DynTypedNode n = DynTypedNode::create(*E); const Stmt *cur = E;
    for (int k = 0; k < 100; ++k) {
      auto ps = C.getParents(n);
      if (ps.empty()) return "unknown";
      n = ps[0];
      if (auto *D = n.get<VarDecl>()) return var(D, depth);
      if (auto *I = n.get<CXXCtorInitializer>()) return I->isBaseInitializer() ? "base" : "member";
      auto *S = n.get<Stmt>();
      if (!S) return "unknown";
      if (isa<CXXThrowExpr>(S)) return "thrown";
      if (isa<ReturnStmt>(S)) return "returned";
      if (auto *Cs = dyn_cast<CStyleCastExpr>(S)) if (Cs->getType()->isVoidType()) return "dropped";
      if (auto *Cs = dyn_cast<CXXStaticCastExpr>(S)) if (Cs->getType()->isVoidType()) return "dropped";
      if (auto *B = dyn_cast<BinaryOperator>(S)) {
        if (B->getOpcode() == BO_Comma) { if (B->getLHS() == cur) return "dropped"; cur = S; continue; }
        return "used";
      }
      if (isa<ConditionalOperator>(S)) { cur = S; continue; }
      if (isa<CXXConstructExpr>(S) || isa<CXXUnresolvedConstructExpr>(S) || isa<CastExpr>(S) || isa<ExprWithCleanups>(S) || isa<MaterializeTemporaryExpr>(S)
          || isa<CXXBindTemporaryExpr>(S) || isa<ParenExpr>(S) || isa<ParenListExpr>(S) || isa<InitListExpr>(S) || isa<ConstantExpr>(S)) {
        // an argument of another object's constructor: that object counts if it is an exception too
        if (auto *K = dyn_cast<CXXConstructExpr>(S)) if (!isExceptionType(K->getType())) return "used";
        cur = S; continue;
      }
      // read through a member (its message, say): dropped unless what is read is thrown or returned
      if (isa<MemberExpr>(S) || isa<CXXDependentScopeMemberExpr>(S)) { auto f = inside(S); return f.empty() ? "dropped" : f; }
      if (isa<Expr>(S)) { auto f = inside(S); return f.empty() ? "used" : f; }
      return "dropped";  // an expression statement
    }
    return "unknown";
  }
  // the throw or return statement an expression is part of
  std::string inside(const Stmt *S) {
    DynTypedNode n = DynTypedNode::create(*S);
    for (int k = 0; k < 100; ++k) {
      auto ps = C.getParents(n);
      if (ps.empty()) return "";
      n = ps[0];
      auto *X = n.get<Stmt>();
      if (!X) return "";
      if (isa<CXXThrowExpr>(X)) return "thrown";
      if (isa<ReturnStmt>(X)) return "returned";
      if (!isa<Expr>(X)) return "";
    }
    return "";
  }
  std::string var(const VarDecl *D, int depth) {
    if (depth > 3) return "unknown";
    auto *F = aroundDecl(DynTypedNode::create(*D));
    if (!F || !F->getBody()) return "unknown";
    struct R : RecursiveASTVisitor<R> {
      const VarDecl *D; std::vector<const DeclRefExpr *> refs;
      bool VisitDeclRefExpr(DeclRefExpr *E) { if (E->getDecl() == D) refs.push_back(E); return true; }
    } r; r.D = D;
    r.TraverseStmt(const_cast<Stmt *>(F->getBody()));
    for (auto *E : r.refs) { auto f = fate(E, depth + 1); if (f != "dropped") return f == "used" ? "used" : f; }
    return "dropped";
  }
  bool outer(const Expr *E) {   // not itself the copy/argument of another exception construction
    auto ps = C.getParents(*E);
    for (int k = 0; k < 20 && !ps.empty(); ++k) {
      auto *S = ps[0].get<Expr>();
      if (!S) return true;
      if ((isa<CXXConstructExpr>(S) && isExceptionType(S->getType()))) return false;
      if (isa<CXXFunctionalCastExpr>(S) || isa<ImplicitCastExpr>(S) || isa<MaterializeTemporaryExpr>(S) || isa<CXXBindTemporaryExpr>(S) || isa<ExprWithCleanups>(S)) { ps = C.getParents(*S); continue; }
      return true;
    }
    return true;
  }
  void construct(const Expr *E) {
    if (!mine(E->getBeginLoc()) || !isExceptionType(E->getType()) || !outer(E)) return;
    auto *F = aroundDecl(DynTypedNode::create(*E));
    if (auto *K = dyn_cast_or_null<CXXConstructorDecl>(F)) if (isExceptionRecord(K->getParent())) return;
    emit(llvm::json::Object{{"k", "construct"}, {"type", E->getType().getNonReferenceType().getUnqualifiedType().getAsString()}, {"fate", fate(E)}}, E->getBeginLoc(), around(E));
  }
  bool VisitCXXConstructExpr(CXXConstructExpr *E) { construct(E); return true; }
  bool VisitCXXUnresolvedConstructExpr(CXXUnresolvedConstructExpr *E) { construct(E); return true; }
  bool VisitCallExpr(CallExpr *E) {   // a function that makes an exception object
    if (!E->isTypeDependent() && E->isPRValue() && !isa<CXXOperatorCallExpr>(E)) construct(E);
    return true;
  }
  // a throw that can only end the program: inside a noexcept function, outside any try block and any local function
  bool trapped(const CXXThrowExpr *E) {
    DynTypedNode n = DynTypedNode::create(*E);
    for (int k = 0; k < 200; ++k) {
      auto ps = C.getParents(n);
      if (ps.empty()) return false;
      n = ps[0];
      if (n.get<CXXTryStmt>() || n.get<LambdaExpr>()) return false;
      if (auto *F = n.get<FunctionDecl>()) {
        auto *P = F->getType()->getAs<FunctionProtoType>();
        if (!P) return false;
        if (isa<CXXDestructorDecl>(F) && P->getExceptionSpecType() == EST_None) return true;
        if (P->getExceptionSpecType() == EST_Unevaluated || P->getExceptionSpecType() == EST_Unparsed || P->getExceptionSpecType() == EST_Uninstantiated || P->getExceptionSpecType() == EST_DependentNoexcept) return false;
        return P->canThrow() == CT_Cannot;
      }
    }
    return false;
  }
  bool VisitCXXThrowExpr(CXXThrowExpr *E) {
    if (mine(E->getBeginLoc())) emit(llvm::json::Object{{"k", "throw"}, {"trapped", trapped(E)}}, E->getBeginLoc(), around(E));
    return true;
  }
  // does control leave the handler by an error on every path?
  bool errorLeave(const Stmt *S) {
    if (!S) return false;
    if (isa<CXXThrowExpr>(S)) return true;
    if (auto *E = dyn_cast<ExprWithCleanups>(S)) return errorLeave(E->getSubExpr());
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      if (!R->getRetValue()) return false;
      Expr::EvalResult v;
      if (R->getRetValue()->isValueDependent()) return false;
      if (R->getRetValue()->EvaluateAsInt(v, C)) return v.Val.getInt() != 0;
      return false;
    }
    if (auto *K = dyn_cast<CallExpr>(S)) {
      if (auto *F = K->getDirectCallee()) return F->isNoReturn() || F->hasAttr<NoReturnAttr>();
      return false;
    }
    if (auto *B = dyn_cast<CompoundStmt>(S)) { for (auto *X : B->body()) if (errorLeave(X)) return true; return false; }
    if (auto *I = dyn_cast<IfStmt>(S)) return errorLeave(I->getThen()) && errorLeave(I->getElse());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { if (!errorLeave(T->getTryBlock())) return false; return true; }
    return false;
  }
  // could the handler pass the error on in a way the rule does not follow?
  bool passesOn(const Stmt *S) {
    struct R : RecursiveASTVisitor<R> {
      bool yes = false;
      bool VisitBinaryOperator(BinaryOperator *B) { if (B->isAssignmentOp()) yes = true; return true; }
      bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *E) { if (E->getOperator() == OO_Equal) yes = true; return true; }
      bool VisitCXXThrowExpr(CXXThrowExpr *) { yes = true; return true; }
      bool VisitReturnStmt(ReturnStmt *S) {
        if (auto *V = S->getRetValue()) { auto *X = V->IgnoreParenImpCasts(); if (!isa<IntegerLiteral>(X) && !isa<CXXBoolLiteralExpr>(X) && !isa<FloatingLiteral>(X)) yes = true; }
        return true;
      }
      bool VisitCallExpr(CallExpr *E) {
        if (isa<CXXOperatorCallExpr>(E)) return true;
        auto *F = E->getDirectCallee();
        if (!F) { yes = true; return true; }
        if (F->getName().contains("exception")) yes = true;
        if (!F->isInStdNamespace() && !isa<CXXMethodDecl>(F)) yes = true;
        return true;
      }
    } r;
    r.TraverseStmt(const_cast<Stmt *>(S));
    return r.yes;
  }
  bool VisitCXXCatchStmt(CXXCatchStmt *S) {
    if (mine(S->getBeginLoc())) emit(llvm::json::Object{{"k", "catch"}, {"leaves", errorLeave(S->getHandlerBlock())}, {"maybe", passesOn(S->getHandlerBlock())}}, S->getBeginLoc(), around(S));
    return true;
  }
};

struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  Root = argv[1];
  std::vector<std::string> args{"clang++"};
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  args.push_back("-fsyntax-only"); args.push_back(argv[2]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Act>(), FM.get());
  bool ok = inv.run();
  llvm::outs() << "{\"k\":\"end\",\"ok\":" << (ok ? "true" : "false") << "}\n";
  return 0;
}
