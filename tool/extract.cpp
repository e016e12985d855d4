// imap-extract: dumps the resolved AST (after overload resolution and template
// instantiation) of every function defined under a source root as JSON lines.
//   imap-extract --root=/repo --skip=/repo/libs,... --out=FILE driver.cpp -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::string Root = "/repo", OutFile;
static std::vector<std::string> Skip;
static bool HadError = false;

namespace {
struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> typeNames;
  std::map<const FunctionDecl *, int> fnIds;
  std::vector<const FunctionDecl *> fns;
  std::set<const FunctionDecl *> done;
  std::vector<const FunctionDecl *> queue;
  std::map<std::string, int> files;
  std::vector<std::string> fileNames;
  std::set<const CXXRecordDecl *> recs;
  PrintingPolicy PP;
  std::string o;
  Emitter(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }
  std::string tname(QualType T) {
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    if (auto *BT = T->getAs<BuiltinType>()) {
      switch (BT->getKind()) {
      case BuiltinType::Bool: return "bool";
      default:
        if (BT->isInteger()) return (BT->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(T));
      }
    }
    if (T->isEnumeralType()) return "enum " + T.getAsString(PP);
    return T.getAsString(PP);
  }
  int ty(QualType T) {
    if (T.isNull()) return 0;
    std::string s = tname(T);
    auto it = types.find(s); if (it != types.end()) return it->second;
    int n = types.size() + 1; types[s] = n; typeNames.push_back(s); return n;
  }
  int fileId(StringRef f) { auto it = files.find(f.str()); if (it != files.end()) return it->second; int n = files.size(); files[f.str()] = n; fileNames.push_back(f.str()); return n; }
  std::string fileOf(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid() ? P.getFilename() : ""; }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    for (auto &s : Skip) if (f.compare(0, s.size(), s) == 0) return false;
    return true;
  }
  void str(StringRef s) {
    o += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c == '\t') o += "\\t";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    o += '"';
  }
  void num(long long n) { o += std::to_string(n); }
  // location "l": [line] only, file is the function's unless macro
  void loc(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); o += ",\"l\":"; num(P.isValid() ? P.getLine() : 0); }
  int fnId(const FunctionDecl *F) {
    if (const FunctionDecl *D = nullptr; F->isDefined(D) && D) F = D;
    else F = F->getCanonicalDecl();
    auto it = fnIds.find(F); if (it != fnIds.end()) return it->second;
    int n = fns.size(); fnIds[F] = n; fns.push_back(F);
    return n;
  }
  static std::string short_(const NamedDecl *D) { return D->getNameAsString(); }
  std::string qn(const FunctionDecl *F) {
    // canonical qualified name without template arguments
    std::string s;
    llvm::SmallVector<std::string, 8> parts;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) parts.push_back(CD->getParent()->getNameAsString());
    else if (isa<CXXDestructorDecl>(F)) parts.push_back("~");
    else parts.push_back(F->getDeclName().getAsString());
    const DeclContext *DC = F->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *R = dyn_cast<CXXRecordDecl>(DC)) { if (R->isLambda()) parts.push_back("(lambda)"); else parts.push_back(R->getNameAsString()); }
      else if (auto *N = dyn_cast<NamespaceDecl>(DC)) { if (!N->isInline() ) parts.push_back(N->getNameAsString()); }
      else if (auto *FF = dyn_cast<FunctionDecl>(DC)) { parts.push_back(FF->getDeclName().getAsString()); }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) s += "::"; s += *it; }
    return s;
  }
  std::string recName(const CXXRecordDecl *R) { return tname(C.getRecordType(R)); }

  void exprs(const Expr *const *b, const Expr *const *e) { o += '['; for (auto p = b; p != e; ++p) { if (p != b) o += ','; expr(*p); } o += ']'; }
  template <class R> void exprRange(R r) { o += '['; bool f = true; for (auto *e : r) { if (!f) o += ','; f = false; expr(e); } o += ']'; }

  bool constInt(const Expr *E, llvm::APSInt &V) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    if (!E->getType()->isIntegralOrEnumerationType()) return false;
    Expr::EvalResult R;
    if (E->isInstantiationDependent()) return false;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects || !R.Val.isInt()) return false;
    V = R.Val.getInt(); return true;
  }
  void intv(const llvm::APSInt &V, QualType T) {
    o += "{\"k\":\"int\",\"v\":"; llvm::SmallString<40> s; V.toString(s, 10); o += s.str();
    o += ",\"t\":"; num(ty(T)); o += '}';
  }
  void expr(const Expr *E) {
    if (!E) { o += "null"; return; }
    // peel
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) E = X->getSourceExpr(); else break; }
      else if (auto *X = dyn_cast<GenericSelectionExpr>(E)) E = X->getResultExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingToBoolean: case CK_PointerToBoolean: goto out;
        default: E = X->getSubExpr();
        }
      } else break;
    }
  out:
    if (!E) { o += "null"; return; }
    if (!isa<DeclRefExpr>(E) || E->isPRValue() || true) {
      llvm::APSInt V;
      bool isrefvar = false;
      (void)isrefvar;
      if (constInt(E, V)) {
        // keep logical structure for short-circuit? constants suffice
        o += "{\"k\":\"int\",\"v\":"; llvm::SmallString<40> s; V.toString(s, 10); o += s.str();
        o += ",\"t\":"; num(ty(E->getType()));
        if (auto *DR = dyn_cast<DeclRefExpr>(E)) { o += ",\"n\":"; str(DR->getDecl()->getNameAsString()); }
        o += '}';
        return;
      }
    }
    auto T = [&] { o += ",\"t\":"; num(ty(E->getType())); };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { llvm::APSInt V(X->getValue(), !X->getType()->isSignedIntegerType()); intv(V, E->getType()); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { o += "{\"k\":\"flt\",\"v\":"; llvm::SmallString<40> s; X->getValue().toString(s); str(s); T(); o += '}'; return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o += "{\"k\":\"str\",\"v\":"; if (X->getCharByteWidth() == 1) str(X->getString()); else str(""); o += '}'; return; }
    if (isa<PredefinedExpr>(E)) { o += "{\"k\":\"str\",\"v\":\"\"}"; return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o += "{\"k\":\"null\"}"; return; }
    if (isa<CXXThisExpr>(E)) { o += "{\"k\":\"this\",\"t\":"; num(ty(E->getType()->getPointeeType())); o += "}"; return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o += "{\"k\":\"fn\",\"fn\":"; num(fnId(F)); o += '}'; return; }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        if (B->getBinding() && !isa<DeclRefExpr>(B->getBinding())) { if (VarDecl *H = B->getHoldingVar()) { o += "{\"k\":\"var\",\"id\":"; num(id(H)); o += ",\"n\":"; str(short_(B)); T(); o += '}'; return; } expr(B->getBinding()); return; }
        if (VarDecl *H = B->getHoldingVar()) { o += "{\"k\":\"var\",\"id\":"; num(id(H)); o += ",\"n\":"; str(short_(B)); T(); o += '}'; return; }
      }
      o += "{\"k\":\"var\",\"id\":"; num(id(D)); o += ",\"n\":"; str(short_(D)); T();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() || V->isStaticDataMember()) { o += ",\"g\":"; str(V->getQualifiedNameAsString()); }
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { (void)EC; o += ",\"ec\":1"; }
      o += '}'; return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { o += "{\"k\":\"fn\",\"fn\":"; num(fnId(F)); o += ",\"b\":"; expr(X->getBase()); o += '}'; return; }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { o += "{\"k\":\"var\",\"id\":"; num(id(V)); o += ",\"n\":"; str(short_(V)); o += ",\"g\":"; str(V->getQualifiedNameAsString()); T(); o += '}'; return; }
      o += "{\"k\":\"mem\",\"f\":"; str(X->getMemberDecl()->getNameAsString());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) {
          o += ",\"r\":"; str(R->isAnonymousStructOrUnion() ? std::string() : recName(R));
          if (R->isAnonymousStructOrUnion()) o += ",\"anon\":1";
        }
        if (FD->isMutable()) o += ",\"mut\":1";
      }
      if (X->isArrow()) o += ",\"ar\":1";
      T(); o += ",\"b\":"; expr(X->getBase()); o += '}'; return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o += "{\"k\":\"idx\""; T(); loc(E->getExprLoc()); o += ",\"b\":"; expr(X->getBase()); o += ",\"i\":"; expr(X->getIdx()); o += '}'; return; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { lambda(X); return; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o += "{\"k\":\"call\",\"oper\":"; str(getOperatorSpelling(X->getOperator()));
      if (auto *F = X->getDirectCallee()) { o += ",\"fn\":"; num(fnId(F)); if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o += ",\"m\":1"; }
      T(); loc(E->getExprLoc()); o += ",\"a\":"; exprRange(X->arguments()); o += '}'; return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o += "{\"k\":\"call\"";
      if (auto *F = X->getMethodDecl()) { o += ",\"fn\":"; num(fnId(F)); o += ",\"m\":1"; 
        o += ",\"a\":["; expr(X->getImplicitObjectArgument()); for (auto *A : X->arguments()) { o += ','; expr(A); } o += ']';
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) if (ME->isArrow()) o += ",\"ar\":1";
      } else { o += ",\"ptr\":"; expr(X->getCallee()); o += ",\"a\":"; exprRange(X->arguments()); }
      T(); loc(E->getExprLoc()); o += '}'; return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o += "{\"k\":\"call\"";
      if (auto *F = X->getDirectCallee()) { o += ",\"fn\":"; num(fnId(F)); }
      else { o += ",\"ptr\":"; expr(X->getCallee()); }
      T(); loc(E->getExprLoc()); o += ",\"a\":"; exprRange(X->arguments()); o += '}'; return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      if ((CD->isCopyOrMoveConstructor()) && X->getNumArgs() == 1) { o += "{\"k\":\"copy\""; if (CD->isMoveConstructor()) o += ",\"mv\":1"; o += ",\"fn\":"; num(fnId(CD)); T(); o += ",\"e\":"; expr(X->getArg(0)); o += '}'; return; }
      o += "{\"k\":\"ctor\",\"fn\":"; num(fnId(CD)); T(); loc(E->getExprLoc());
      o += ",\"a\":"; exprRange(X->arguments()); o += '}'; return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o += "{\"k\":\"ctor\",\"fn\":"; num(fnId(X->getConstructor())); T(); loc(E->getExprLoc()); o += ",\"a\":[],\"inh\":1}"; return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { if (X->isSemanticForm() || !X->getSemanticForm()) {} else X = X->getSemanticForm(); o += "{\"k\":\"il\""; T(); o += ",\"a\":"; exprRange(X->inits());
      if (X->getInitializedFieldInUnion()) { o += ",\"uf\":"; str(X->getInitializedFieldInUnion()->getNameAsString()); } o += '}'; return; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o += "{\"k\":\"zero\""; T(); o += '}'; return; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { o += "{\"k\":\"un\",\"op\":"; str(UnaryOperator::getOpcodeStr(X->getOpcode())); if (X->isPostfix()) o += ",\"post\":1"; T(); loc(X->getOperatorLoc()); o += ",\"e\":"; expr(X->getSubExpr()); o += '}'; return; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o += "{\"k\":\"bin\",\"op\":"; str(X->getOpcodeStr()); T(); loc(X->getOperatorLoc());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) { o += ",\"ct\":"; num(ty(CA->getComputationResultType())); }
      o += ",\"a\":"; expr(X->getLHS()); o += ",\"b\":"; expr(X->getRHS()); o += '}'; return;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { o += "{\"k\":\"cond\""; T(); o += ",\"c\":"; expr(X->getCond()); o += ",\"a\":"; expr(X->getTrueExpr()); o += ",\"b\":"; expr(X->getFalseExpr()); o += '}'; return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { o += "{\"k\":\"new\""; T(); o += ",\"a\":["; if (X->isArray() && X->getArraySize() && *X->getArraySize()) { expr(*X->getArraySize()); if (X->getInitializer()) o += ','; } if (X->getInitializer()) expr(X->getInitializer()); o += "]"; if (X->isArray()) o += ",\"arr\":1"; loc(E->getExprLoc()); o += '}'; return; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o += "{\"k\":\"delete\",\"e\":"; expr(X->getArgument()); loc(E->getExprLoc()); o += '}'; return; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o += "{\"k\":\"throw\",\"e\":"; expr(X->getSubExpr()); loc(E->getExprLoc()); o += '}'; return; }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) { castExpr(X, T); return; }
    if (auto *X = dyn_cast<CastExpr>(E)) { castExpr(X, T); return; }
    if (auto *X = dyn_cast<CXXForRangeStmt>((const Stmt*)E)) { (void)X; }
    o += "{\"k\":\"opaque\",\"cls\":"; str(E->getStmtClassName()); T(); o += ",\"a\":[";
    bool f = true;
    for (auto *S : E->children()) if (S) if (auto *SE = dyn_cast<Expr>(S)) { if (!f) o += ','; f = false; expr(SE); }
    o += "]}";
  }
  template <class TT> void castExpr(const CastExpr *X, TT &T) {
    const Expr *E = X;
    switch (X->getCastKind()) {
    case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_LValueToRValue: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_BaseToDerived:
      expr(X->getSubExpr()); return;
    default: break;
    }
    o += "{\"k\":\"cast\",\"ck\":"; str(X->getCastKindName()); o += ",\"t\":"; num(ty(E->getType())); o += ",\"e\":"; expr(X->getSubExpr()); o += '}';
    (void)T;
  }
  void params(const FunctionDecl *F) {
    o += "\"p\":[";
    bool f = true;
    for (auto *P : F->parameters()) {
      if (!f) o += ','; f = false;
      o += "{\"id\":"; num(id(P)); o += ",\"n\":"; str(P->getNameAsString()); o += ",\"t\":"; num(ty(P->getType()));
      if (P->getType()->isReferenceType()) { o += ",\"ref\":1"; if (P->getType().getNonReferenceType().isConstQualified()) o += ",\"cst\":1"; }
      if (P->getType()->isPointerType() && P->getType()->getPointeeType().isConstQualified()) o += ",\"cst\":1";
      o += '}';
    }
    o += ']';
  }
  void lambda(const LambdaExpr *X) {
    o += "{\"k\":\"lambda\",\"t\":"; num(ty(X->getType())); loc(X->getBeginLoc());
    o += ",\"cap\":[";
    bool f = true;
    auto ci = X->capture_init_begin();
    for (auto &Cp : X->captures()) {
      const Expr *init = *ci++;
      if (!f) o += ','; f = false;
      o += "{";
      if (Cp.capturesThis()) { o += "\"this\":1"; }
      else if (Cp.capturesVariable()) { o += "\"id\":"; num(id(Cp.getCapturedVar())); o += ",\"n\":"; str(Cp.getCapturedVar()->getNameAsString()); if (Cp.getCaptureKind() == LCK_ByRef) o += ",\"ref\":1";
        if (Cp.getCapturedVar()->isInitCapture()) { o += ",\"init\":"; expr(init); } }
      o += "}";
    }
    o += "],\"ops\":[";
    f = true;
    const CXXMethodDecl *Op = X->getCallOperator();
    auto one = [&](const FunctionDecl *F) {
      if (!F->hasBody()) return;
      if (!f) o += ','; f = false;
      o += "{\"fid\":"; num(fnId(F)); o += ","; params(F); o += ",\"ret\":"; num(ty(F->getReturnType())); o += ",\"body\":"; stmt(F->getBody()); o += "}";
      done.insert(F);
    };
    if (FunctionTemplateDecl *FT = Op->getDescribedFunctionTemplate()) { for (auto *S : FT->specializations()) one(S); }
    else one(Op);
    o += "]}";
  }
  void vardecl(const VarDecl *V) {
    o += "{\"id\":"; num(id(V)); o += ",\"n\":"; str(V->getNameAsString()); o += ",\"t\":"; num(ty(V->getType()));
    if (V->getType()->isReferenceType()) { o += ",\"ref\":1"; if (V->getType().getNonReferenceType().isConstQualified()) o += ",\"cst\":1"; }
    if (V->isStaticLocal()) o += ",\"static\":1";
    loc(V->getLocation());
    if (V->getInit()) { o += ",\"init\":"; expr(V->getInit()); }
    o += '}';
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) for (auto *B : DD->bindings()) if (auto *H = B->getHoldingVar()) { o += ','; vardecl(H); }
  }
  void stmt(const Stmt *S) {
    if (!S) { o += "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { o += "{\"s\":\"expr\""; loc(E->getBeginLoc()); o += ",\"e\":"; expr(E); o += '}'; return; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o += "{\"s\":\"block\",\"b\":["; bool f = true; for (auto *c : X->body()) { if (!f) o += ','; f = false; stmt(c); } o += "]}"; return; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o += "{\"s\":\"decl\",\"d\":["; bool f = true;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) o += ','; f = false; vardecl(V); }
      o += "]"; loc(S->getBeginLoc()); o += "}"; return;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) { o += "{\"s\":\"if\""; loc(S->getBeginLoc()); if (X->getInit()) { o += ",\"init\":"; stmt(X->getInit()); } if (X->getConditionVariable()) { o += ",\"cv\":"; vardecl(X->getConditionVariable()); }
      o += ",\"c\":"; expr(X->getCond()); o += ",\"a\":"; stmt(X->getThen()); o += ",\"b\":"; stmt(X->getElse()); o += '}'; return; }
    if (auto *X = dyn_cast<ForStmt>(S)) { o += "{\"s\":\"for\""; loc(S->getBeginLoc()); o += ",\"i\":"; stmt(X->getInit()); o += ",\"c\":"; expr(X->getCond()); o += ",\"n\":"; expr(X->getInc()); o += ",\"b\":"; stmt(X->getBody()); o += '}'; return; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o += "{\"s\":\"range\""; loc(S->getBeginLoc()); o += ",\"v\":["; vardecl(X->getLoopVariable()); o += "],\"r\":"; expr(X->getRangeInit()); o += ",\"b\":"; stmt(X->getBody()); o += '}'; return; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o += "{\"s\":\"while\""; loc(S->getBeginLoc()); o += ",\"c\":"; expr(X->getCond()); o += ",\"b\":"; stmt(X->getBody()); o += '}'; return; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o += "{\"s\":\"do\""; loc(S->getBeginLoc()); o += ",\"c\":"; expr(X->getCond()); o += ",\"b\":"; stmt(X->getBody()); o += '}'; return; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o += "{\"s\":\"switch\""; loc(S->getBeginLoc()); o += ",\"c\":"; expr(X->getCond()); o += ",\"b\":"; stmt(X->getBody()); o += '}'; return; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o += "{\"s\":\"case\",\"v\":"; expr(X->getLHS()); if (X->getRHS()) { o += ",\"v2\":"; expr(X->getRHS()); } o += ",\"b\":"; stmt(X->getSubStmt()); o += '}'; return; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o += "{\"s\":\"default\",\"b\":"; stmt(X->getSubStmt()); o += '}'; return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o += "{\"s\":\"ret\""; loc(S->getBeginLoc()); o += ",\"e\":"; expr(X->getRetValue()); o += '}'; return; }
    if (isa<BreakStmt>(S)) { o += "{\"s\":\"break\"}"; return; }
    if (isa<ContinueStmt>(S)) { o += "{\"s\":\"continue\"}"; return; }
    if (isa<NullStmt>(S)) { o += "{\"s\":\"null\"}"; return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt()); return; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { o += "{\"s\":\"label\",\"b\":"; stmt(X->getSubStmt()); o += '}'; return; }
    if (isa<GotoStmt>(S)) { o += "{\"s\":\"goto\"}"; return; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o += "{\"s\":\"try\",\"b\":"; stmt(X->getTryBlock()); o += ",\"h\":["; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { if (i) o += ','; stmt(X->getHandler(i)->getHandlerBlock()); } o += "]}"; return; }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o += "{\"s\":\"omp\",\"cls\":"; str(S->getStmtClassName()); loc(S->getBeginLoc()); o += ",\"cl\":[";
      bool f = true;
      for (auto *Cl : X->clauses()) {
        if (!Cl) continue; if (Cl->isImplicit()) continue;
        if (!f) o += ','; f = false;
        o += "{\"c\":"; str(llvm::omp::getOpenMPClauseName(Cl->getClauseKind())); o += ",\"v\":[";
        bool g = true;
        for (const Stmt *ch : const_cast<OMPClause *>(Cl)->children()) if (ch) if (auto *E = dyn_cast<Expr>(ch)) { if (!g) o += ','; g = false; expr(E); }
        o += "]}";
      }
      o += "],\"b\":";
      if (X->hasAssociatedStmt()) stmt(X->getRawStmt()); else o += "null";
      o += '}'; return;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) { stmt(X->getCapturedStmt()); return; }
    o += "{\"s\":\"opaque\",\"cls\":"; str(S->getStmtClassName()); o += '}';
  }
  std::string targs(const FunctionDecl *F) {
    std::string s;
    if (auto *A = F->getTemplateSpecializationArgs()) { llvm::raw_string_ostream r(s); for (unsigned i = 0; i < A->size(); ++i) { if (i) r << ", "; A->get(i).print(PP, r, true); } }
    return s;
  }
  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext()) return;
    if (!done.insert(F).second) return;
    if (!inRoot(F->getLocation())) return;
    o.clear();
    o += "{\"rec\":\"fn\",\"fid\":"; num(fnId(F)); o += ",\"file\":"; str(fileOf(F->getLocation())); loc(F->getLocation());
    o += ","; params(F); o += ",\"ret\":"; num(ty(F->getReturnType()));
    if (F->getReturnType()->isReferenceType()) o += ",\"rref\":1";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o += ",\"inits\":[";
      bool f = true;
      for (auto *I : CD->inits()) {
        if (!f) o += ','; f = false;
        o += "{";
        if (I->isAnyMemberInitializer()) { o += "\"f\":"; str(I->getAnyMember()->getNameAsString()); if (I->getAnyMember()->getType()->isReferenceType()) o += ",\"ref\":1"; }
        else if (I->isDelegatingInitializer()) { o += "\"deleg\":1"; }
        else { o += "\"base\":"; str(tname(QualType(I->getBaseClass(), 0))); }
        if (I->isWritten()) o += ",\"w\":1";
        o += ",\"e\":"; expr(I->getInit()); o += "}";
      }
      o += "]";
    }
    o += ",\"body\":"; stmt(F->getBody()); o += "}";
    OS << o << "\n";
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!recs.insert(R).second) return;
    if (!inRoot(R->getLocation())) return;
    o.clear();
    o += "{\"rec\":\"record\",\"n\":"; str(recName(R)); o += ",\"sn\":"; str(R->getNameAsString()); o += ",\"file\":"; str(fileOf(R->getLocation())); loc(R->getLocation());
    if (R->isUnion()) o += ",\"union\":1";
    o += ",\"bases\":[";
    bool f = true;
    for (auto &B : R->bases()) { if (!f) o += ','; f = false; str(tname(B.getType())); }
    o += "],\"fields\":[";
    f = true;
    for (auto *F : R->fields()) {
      if (!f) o += ','; f = false;
      o += "{\"n\":"; str(F->getNameAsString()); o += ",\"t\":"; num(ty(F->getType()));
      if (F->isBitField()) { o += ",\"bf\":"; num(F->getBitWidthValue(C)); }
      if (F->isAnonymousStructOrUnion()) o += ",\"anon\":1";
      if (F->getType()->isReferenceType()) o += ",\"ref\":1";
      if (F->hasInClassInitializer() && F->getInClassInitializer()) { o += ",\"init\":"; expr(F->getInClassInitializer()); }
      o += "}";
    }
    o += "]}";
    OS << o << "\n";
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !V->getInit()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (V->isTemplated()) return;
    if (!inRoot(V->getLocation())) return;
    o.clear();
    o += "{\"rec\":\"global\",\"qn\":"; str(V->getQualifiedNameAsString()); o += ",\"file\":"; str(fileOf(V->getLocation())); o += ",\"d\":"; vardecl(V); o += "}";
    OS << o << "\n";
  }
  void finish() {
    o.clear();
    o += "{\"rec\":\"decls\",\"fns\":[";
    for (size_t i = 0; i < fns.size(); ++i) {
      auto *F = fns[i];
      if (i) o += ',';
      o += "{\"qn\":"; str(qn(F)); o += ",\"n\":"; str(F->getDeclName().getAsString());
      if (F->getTemplateSpecializationArgs()) { o += ",\"ta\":"; str(targs(F)); }
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        if (!M->getParent()->isLambda()) { o += ",\"cls\":"; str(recName(M->getParent())); }
        else o += ",\"lam\":1";
        if (M->isConst()) o += ",\"cst\":1";
        if (M->isStatic()) o += ",\"static\":1";
        if (M->isVirtual()) o += ",\"virt\":1";
        if (isa<CXXConstructorDecl>(M)) o += ",\"ctor\":1";
        if (M->isImplicit() || M->isDefaulted()) o += ",\"impl\":1";
      }
      if (F->isNoReturn()) o += ",\"nr\":1";
      o += ",\"np\":"; num(F->getNumParams());
      o += ",\"pt\":["; for (unsigned k = 0; k < F->getNumParams(); ++k) { if (k) o += ','; QualType T = F->getParamDecl(k)->getType(); bool mref = (T->isLValueReferenceType() && !T.getNonReferenceType().isConstQualified()) || (T->isPointerType() && !T->getPointeeType().isConstQualified()); o += mref ? "1" : "0"; } o += "]";
      o += ",\"rt\":"; num(ty(F->getReturnType()));
      if (F->getReturnType()->isReferenceType()) o += ",\"rref\":1";
      o += ",\"file\":"; str(fileOf(F->getLocation())); loc(F->getLocation());
      o += '}';
    }
    o += "],\"types\":[\"\"";
    for (auto &t : typeNames) { o += ','; str(t); }
    o += "]}";
    OS << o << "\n";
  }
};
struct V : RecursiveASTVisitor<V> {
  Emitter &E;
  V(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { E.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { E.record(R); return true; }
  bool VisitVarDecl(VarDecl *D) { E.global(D); return true; }
  bool TraverseLambdaExpr(LambdaExpr *L) { // lambda bodies are emitted in place
    return RecursiveASTVisitor<V>::TraverseLambdaExpr(L);
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    const CXXMethodDecl *Op = L->getCallOperator();
    if (FunctionTemplateDecl *FT = Op->getDescribedFunctionTemplate()) { for (auto *S : FT->specializations()) E.done.insert(S); }
    else E.done.insert(Op);
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    Emitter E(C, OS);
    V v(E);
    v.TraverseDecl(C.getTranslationUnitDecl());
    E.finish();
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
  void EndSourceFileAction() override { if (getCompilerInstance().getDiagnostics().hasErrorOccurred()) HadError = true; }
};
} // namespace
int main(int argc, const char **argv) {
  std::string drv; std::vector<std::string> flags; bool dd = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (dd) flags.push_back(a);
    else if (a == "--") dd = true;
    else if (a.rfind("--root=", 0) == 0) Root = a.substr(7);
    else if (a.rfind("--out=", 0) == 0) OutFile = a.substr(6);
    else if (a.rfind("--skip=", 0) == 0) { std::string s = a.substr(7); size_t p; while ((p = s.find(',')) != std::string::npos) { Skip.push_back(s.substr(0, p)); s = s.substr(p + 1); } if (!s.empty()) Skip.push_back(s); }
    else drv = a;
  }
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool T(DB, {drv});
  struct F : clang::tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } fac;
  int rc = T.run(&fac);
  return rc || HadError ? 3 : 0;
}
