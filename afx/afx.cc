// afx: extracts a resolved, type-checked program description (JSON) of one
// translation unit, restricted to declarations located under a given root.
// Template instantiations and lambdas are emitted with their resolved bodies.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;
typedef json::Object O;
typedef json::Array A;

static std::vector<std::string> Roots;
static std::string OutPath;

/* every byte as the code point of the same number */
static std::string latin1(llvm::StringRef S) {
  std::string r;
  for (unsigned char c : S) {
    if (c < 128) r += char(c);
    else { r += char(0xc0 | (c >> 6)); r += char(0x80 | (c & 63)); }
  }
  return r;
}

class X {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> LocalIds;
  std::map<std::string, int> TypeIds;
  A Types;
  std::set<const Decl *> SeenFn, SeenRec, SeenVar, SeenEnum;
  std::deque<const FunctionDecl *> FnQueue;

public:
  A Functions, Records, Vars, Enums;
  X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = false;
    PP.SuppressDefaultTemplateArgs = true;
  }
  A takeTypes() { return std::move(Types); }

  static std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), B)) return "?";
    return std::string(B.str());
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[S] = Id;
    Types.push_back(S);
    return Id;
  }
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getFilename() : "";
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    std::string F = fileOf(D->getLocation());
    for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  std::string qname(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    PrintingPolicy P(PP); D->printQualifiedName(OS, P); OS.flush();
    return S;
  }
  std::string fullName(const NamedDecl *D) { // with template args of enclosing records
    std::string S; llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true); OS.flush();
    return S;
  }
  std::string local(const Decl *D) {
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    std::string S = "v" + std::to_string(LocalIds.size());
    LocalIds[D] = S;
    return S;
  }

  // ---------- expressions
  O node(const char *K, const Stmt *S) {
    O o; o["k"] = K; o["l"] = lineOf(S->getBeginLoc());
    return o;
  }
  void addConst(O &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->isGLValue()) return;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      llvm::SmallString<40> B; R.Val.getInt().toString(B, 10);
      if (R.Val.getInt().isRepresentableByInt64())
        o["v"] = (int64_t)R.Val.getInt().getExtValue();
      else o["vs"] = std::string(B.str());
    }
  }
  void noteCallee(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && inRoot(Def)) FnQueue.push_back(Def);
    else if (F->isDefaulted() && inRoot(F)) FnQueue.push_back(F);
  }
  void callee(O &o, const FunctionDecl *F) {
    o["f"] = usr(F); o["q"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = fullName(M->getParent());
      if (M->isStatic()) o["st"] = 1;
      if (M->isConst()) o["cst"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
    }
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      A a;
      for (const auto &Arg : TA->asArray()) {
        std::string S; llvm::raw_string_ostream OS(S); Arg.print(PP, OS, true); OS.flush();
        a.push_back(S);
      }
      o["ta"] = std::move(a);
    }
    noteCallee(F);
  }
  // parameter passing by reference-to-nonconst info
  A pmodes(const FunctionDecl *F) {
    A a;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      const char *m = "v";
      if (T->isReferenceType()) m = T.getNonReferenceType().isConstQualified() ? "cr" : (T->isRValueReferenceType() ? "rr" : "r");
      else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? "cp" : "p";
      a.push_back(m);
    }
    return a;
  }
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return ex(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return ex(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return ex(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::ConstantExprClass: return ex(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::CXXDefaultArgExprClass: { auto v = ex(cast<CXXDefaultArgExpr>(E)->getExpr()); if (auto *o = v.getAsObject()) (*o)["dflt"] = 1; return v; }
    case Stmt::CXXDefaultInitExprClass: { auto v = ex(cast<CXXDefaultInitExpr>(E)->getExpr()); if (auto *o = v.getAsObject()) (*o)["dflt"] = 1; return v; }
    case Stmt::CXXStdInitializerListExprClass: return ex(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    default: break;
    }
    if (auto *IC = dyn_cast<ImplicitCastExpr>(E)) {
      switch (IC->getCastKind()) {
      case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating:
      case CK_FloatingToIntegral: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_BooleanToSignedIntegral: {
        O o = node("cast", E);
        o["ck"] = "implicit"; o["op"] = IC->getCastKindName();
        o["t"] = ty(E->getType()); addConst(o, E);
        o["e"] = ex(IC->getSubExpr());
        return o;
      }
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
        auto v = ex(IC->getSubExpr());
        return v;
      }
      default: {
        auto v = ex(IC->getSubExpr());
        if (auto *o = v.getAsObject())
          if (IC->getCastKind() == CK_LValueToRValue && !o->get("v")) addConst(*o, E);
        return v;
      }
      }
    }
    O o;
    if (auto *I = dyn_cast<IntegerLiteral>(E)) { o = node("int", E); }
    else if (auto *I = dyn_cast<CharacterLiteral>(E)) { o = node("int", E); o["chr"] = 1; }
    else if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { o = node("int", E); o["bool"] = 1; }
    else if (auto *F = dyn_cast<FloatingLiteral>(E)) { o = node("float", E); o["fv"] = F->getValueAsApproximateDouble(); }
    else if (auto *S = dyn_cast<StringLiteral>(E)) { o = node("str", E); if (S->getCharByteWidth() == 1) o["s"] = latin1(S->getString()); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o = node("null", E); }
    else if (isa<PredefinedExpr>(E)) { o = node("str", E); o["s"] = "__func__"; }
    else if (isa<CXXThisExpr>(E)) { o = node("this", E); }
    else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      o = node("ref", E);
      const ValueDecl *V = D->getDecl();
      o["n"] = V->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["dk"] = "enum"; o["q"] = qname(EC); }
      else if (auto *F = dyn_cast<FunctionDecl>(V)) { o["dk"] = "fn"; callee(o, F); }
      else if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->isLocalVarDeclOrParm()) {
          o["dk"] = isa<ParmVarDecl>(VD) ? "param" : (VD->isStaticLocal() ? "slocal" : "local");
          o["id"] = local(VD->getCanonicalDecl());
        } else { o["dk"] = "global"; o["q"] = qname(VD); o["id"] = usr(VD); noteVar(VD); }
      } else { o["dk"] = "other"; if (auto *B = dyn_cast<BindingDecl>(V)) { o["id"] = local(B); } }
    }
    else if (auto *M = dyn_cast<MemberExpr>(E)) {
      o = node("mem", E);
      const ValueDecl *V = M->getMemberDecl();
      o["n"] = V->getNameAsString();
      if (auto *F = dyn_cast<FieldDecl>(V)) { o["fld"] = qname(F); o["cls"] = fullName(F->getParent()); if (F->isMutable()) o["mut"] = 1; }
      else if (auto *VD = dyn_cast<VarDecl>(V)) { o["k"] = "ref"; o["dk"] = "global"; o["q"] = qname(VD); o["id"] = usr(VD); noteVar(VD); }
      else if (auto *F = dyn_cast<FunctionDecl>(V)) { callee(o, F); }
      o["b"] = ex(M->getBase());
      if (M->isArrow()) o["arrow"] = 1;
    }
    else if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      o = node("call", E);
      if (auto *F = MC->getMethodDecl()) { callee(o, F); o["pm"] = pmodes(F); }
      o["obj"] = ex(MC->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) if (ME->isArrow()) o["arrow"] = 1;
      A a; for (auto *Arg : MC->arguments()) a.push_back(ex(Arg)); o["a"] = std::move(a);
      if (!MC->getMethodDecl()) o["fe"] = ex(MC->getCallee());
    }
    else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      o = node("call", E);
      o["opc"] = getOperatorSpelling(OC->getOperator());
      const FunctionDecl *F = OC->getDirectCallee();
      if (F) { callee(o, F); o["pm"] = pmodes(F); }
      unsigned St = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = ex(OC->getArg(0)); St = 1; }
      A a; for (unsigned i = St; i < OC->getNumArgs(); i++) a.push_back(ex(OC->getArg(i)));
      o["a"] = std::move(a);
    }
    else if (auto *CE = dyn_cast<CallExpr>(E)) {
      o = node("call", E);
      if (auto *F = CE->getDirectCallee()) { callee(o, F); o["pm"] = pmodes(F); }
      else o["fe"] = ex(CE->getCallee());
      A a; for (auto *Arg : CE->arguments()) a.push_back(ex(Arg)); o["a"] = std::move(a);
    }
    else if (auto *CC = dyn_cast<CXXConstructExpr>(E)) {
      o = node("ctor", E);
      callee(o, CC->getConstructor());
      o["pm"] = pmodes(CC->getConstructor());
      A a; for (auto *Arg : CC->arguments()) a.push_back(ex(Arg)); o["a"] = std::move(a);
      if (CC->isElidable()) o["elide"] = 1;
      if (CC->getConstructor()->isCopyOrMoveConstructor()) o["cm"] = CC->getConstructor()->isMoveConstructor() ? "move" : "copy";
      if (CC->getConstructor()->isDefaulted()) o["dfltd"] = 1;
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = 1;
    }
    else if (auto *IC = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o = node("ctor", E); callee(o, IC->getConstructor()); o["inh"] = 1; o["a"] = A(); }
    else if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      o = node("new", E); o["nt"] = ty(N->getAllocatedType());
      if (N->getInitializer()) o["e"] = ex(N->getInitializer());
      if (N->getNumPlacementArgs()) { o["placement"] = 1; o["pl"] = ex(N->getPlacementArg(0)); }
      if (N->isArray()) o["arr"] = ex(N->getArraySize().value_or(nullptr));
    }
    else if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { o = node("delete", E); o["e"] = ex(D->getArgument()); }
    else if (auto *U = dyn_cast<UnaryOperator>(E)) { o = node("un", E); o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()); if (U->isPostfix()) o["post"] = 1; o["e"] = ex(U->getSubExpr()); }
    else if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o = node(B->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = B->getOpcodeStr(); o["a"] = ex(B->getLHS()); o["b"] = ex(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = ty(CA->getComputationResultType());
    }
    else if (auto *CO = dyn_cast<AbstractConditionalOperator>(E)) { o = node("cond", E); o["c"] = ex(CO->getCond()); o["a"] = ex(CO->getTrueExpr()); o["b"] = ex(CO->getFalseExpr()); }
    else if (auto *AS = dyn_cast<ArraySubscriptExpr>(E)) { o = node("idx", E); o["a"] = ex(AS->getBase()); o["b"] = ex(AS->getIdx()); o["at"] = ty(AS->getBase()->IgnoreParenImpCasts()->getType()); }
    else if (auto *CE = dyn_cast<ExplicitCastExpr>(E)) {
      o = node("cast", E);
      const char *ck = "c";
      if (isa<CXXStaticCastExpr>(E)) ck = "static"; else if (isa<CXXReinterpretCastExpr>(E)) ck = "reinterpret";
      else if (isa<CXXConstCastExpr>(E)) ck = "const"; else if (isa<CXXDynamicCastExpr>(E)) ck = "dynamic";
      else if (isa<CXXFunctionalCastExpr>(E)) ck = "functional";
      o["ck"] = ck; o["op"] = CE->getCastKindName();
      o["e"] = ex(CE->getSubExpr());
      o["ft"] = ty(CE->getSubExpr()->getType());
    }
    else if (auto *L = dyn_cast<LambdaExpr>(E)) {
      o = node("lambda", E);
      A caps;
      for (auto &Cp : L->captures()) {
        O c;
        if (Cp.capturesThis()) c["this"] = 1;
        else if (Cp.capturesVariable()) {
          c["n"] = Cp.getCapturedVar()->getNameAsString();
          c["id"] = local(Cp.getCapturedVar()->getCanonicalDecl());
        }
        c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      auto *Op = L->getCallOperator();
      o["f"] = usr(Op);
      A fs;
      if (auto *FT = Op->getDescribedFunctionTemplate()) {
        for (auto *S : FT->specializations()) if (S->hasBody()) fs.push_back(fnBody(S, true));
      } else fs.push_back(fnBody(Op, true));
      o["fs"] = std::move(fs);
    }
    else if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (IL->isSemanticForm() == false && IL->getSemanticForm()) IL = IL->getSemanticForm();
      if (IL->isTransparent()) return ex(IL->getInit(0));
      o = node("ilist", E); A a;
      for (unsigned i = 0; i < IL->getNumInits(); i++) a.push_back(ex(IL->getInit(i)));
      if (IL->hasArrayFiller() && IL->getArrayFiller()) o["filler"] = ex(IL->getArrayFiller());
      o["a"] = std::move(a);
      if (auto *RD = IL->getType()->getAsCXXRecordDecl()) {
        A f; for (auto *F : RD->fields()) f.push_back(F->getNameAsString()); o["flds"] = std::move(f);
        o["cls"] = fullName(RD);
      }
    }
    else if (auto *T = dyn_cast<CXXThrowExpr>(E)) { o = node("throw", E); o["e"] = ex(T->getSubExpr()); if (T->getSubExpr()) o["tt"] = ty(T->getSubExpr()->getType()); }
    else if (isa<UnaryExprOrTypeTraitExpr>(E)) {
      o = node("sizeof", E);
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      if (U->isArgumentType()) o["st"] = ty(U->getArgumentType()); else { o["e"] = ex(U->getArgumentExpr()); o["st"] = ty(U->getArgumentExpr()->getType()); }
    }
    else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o = node("zero", E); }
    else if (auto *T = dyn_cast<CXXTypeidExpr>(E)) { o = node("typeid", E); if (T->isTypeOperand()) o["tt"] = ty(T->getTypeOperand(C)); else o["tt"] = ty(T->getExprOperand()->getType()); }
    else if (auto *OV = dyn_cast<OpaqueValueExpr>(E)) { if (OV->getSourceExpr()) return ex(OV->getSourceExpr()); o = node("unk", E); }
    else if (auto *AI = dyn_cast<ArrayInitLoopExpr>(E)) { return ex(AI->getCommonExpr()); }
    else if (auto *PE = dyn_cast<PseudoObjectExpr>(E)) { return ex(PE->getResultExpr()); }
    else if (auto *SE = dyn_cast<StmtExpr>(E)) { o = node("stmtexpr", E); o["s"] = st(SE->getSubStmt()); }
    else { o = node("unk", E); o["c"] = E->getStmtClassName(); A a; for (auto *Ch : E->children()) if (Ch && isa<Expr>(Ch)) a.push_back(ex(cast<Expr>(Ch))); o["a"] = std::move(a); }
    o["t"] = ty(E->getType());
    if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["xv"] = 1;
    addConst(o, E);
    return o;
  }

  O varDecl(const VarDecl *V) {
    O o; o["id"] = local(V->getCanonicalDecl()); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["l"] = lineOf(V->getLocation());
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (V->hasInit()) o["init"] = ex(V->getInit());
    if (V->isStaticLocal()) { o["const"] = V->getType().getNonReferenceType().isConstQualified() || V->isConstexpr(); constVal(o, V); }
    return o;
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { O o = node("expr", S); o["e"] = ex(E); return o; }
    O o;
    if (auto *CS = dyn_cast<CompoundStmt>(S)) { o = node("block", S); A a; for (auto *c : CS->body()) a.push_back(st(c)); o["s"] = std::move(a); }
    else if (auto *D = dyn_cast<DeclStmt>(S)) {
      o = node("decl", S); A a;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V)); else if (auto *R = dyn_cast<CXXRecordDecl>(d)) record(R);
      o["vars"] = std::move(a);
    }
    else if (auto *I = dyn_cast<IfStmt>(S)) {
      o = node("if", S);
      if (I->getInit()) o["init"] = st(I->getInit());
      if (I->getConditionVariable()) o["var"] = varDecl(I->getConditionVariable());
      o["c"] = ex(I->getCond()); o["t"] = st(I->getThen()); if (I->getElse()) o["e"] = st(I->getElse());
    }
    else if (auto *F = dyn_cast<ForStmt>(S)) { o = node("for", S); o["init"] = st(F->getInit()); o["c"] = ex(F->getCond()); o["inc"] = ex(F->getInc()); o["b"] = st(F->getBody()); }
    else if (auto *W = dyn_cast<WhileStmt>(S)) { o = node("while", S); o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); }
    else if (auto *W = dyn_cast<DoStmt>(S)) { o = node("do", S); o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); }
    else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      o = node("rfor", S); O v; const VarDecl *V = R->getLoopVariable();
      v["id"] = local(V->getCanonicalDecl()); v["n"] = V->getNameAsString(); v["t"] = ty(V->getType()); if (V->getType()->isReferenceType()) v["ref"] = 1;
      o["var"] = std::move(v); o["r"] = ex(R->getRangeInit()); o["rt"] = ty(R->getRangeInit()->getType()); o["b"] = st(R->getBody());
    }
    else if (auto *W = dyn_cast<SwitchStmt>(S)) { o = node("switch", S); o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); if (W->isAllEnumCasesCovered()) o["all"] = 1; o["ct"] = ty(W->getCond()->IgnoreParenImpCasts()->getType()); }
    else if (auto *K = dyn_cast<CaseStmt>(S)) { o = node("case", S); o["c"] = ex(K->getLHS()); o["s"] = st(K->getSubStmt()); }
    else if (auto *K = dyn_cast<DefaultStmt>(S)) { o = node("default", S); o["s"] = st(K->getSubStmt()); }
    else if (isa<BreakStmt>(S)) o = node("break", S);
    else if (isa<ContinueStmt>(S)) o = node("continue", S);
    else if (auto *R = dyn_cast<ReturnStmt>(S)) { o = node("return", S); if (R->getRetValue()) o["e"] = ex(R->getRetValue()); }
    else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      o = node("try", S); o["b"] = st(T->getTryBlock()); A a;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); O h; h["l"] = lineOf(H->getBeginLoc()); if (!H->getCaughtType().isNull()) h["t"] = ty(H->getCaughtType()); if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl()); h["b"] = st(H->getHandlerBlock()); a.push_back(std::move(h)); }
      o["h"] = std::move(a);
    }
    else if (isa<NullStmt>(S)) o = node("null", S);
    else if (auto *AS = dyn_cast<AttributedStmt>(S)) return st(AS->getSubStmt());
    else { o = node("unk", S); o["c"] = S->getStmtClassName(); A a; for (auto *Ch : S->children()) if (Ch) a.push_back(st(Ch)); o["s"] = std::move(a); }
    return o;
  }

  O fnBody(const FunctionDecl *F, bool IsLambda = false) {
    SeenFn.insert(F->getCanonicalDecl());
    O o; o["f"] = usr(F); o["q"] = qname(F); o["n"] = fullName(F);
    o["file"] = fileOf(F->getLocation()); o["l"] = lineOf(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    if (IsLambda) o["lambda"] = 1;
    if (F->isTemplateInstantiation()) o["inst"] = 1;
    if (F->isDefaulted()) o["dfltd"] = 1;
    if (F->isVariadic()) o["variadic"] = 1;
    if (F->isNoReturn()) o["noreturn"] = 1;
    o["static_fn"] = F->getStorageClass() == SC_Static;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = fullName(M->getParent()); o["clsu"] = usr(M->getParent());
      if (M->isConst()) o["cst"] = 1; if (M->isStatic()) o["st"] = 1; if (M->isVirtual()) o["virt"] = 1;
      switch (M->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_private: o["acc"] = "private"; break; default: o["acc"] = "protected"; }
      record(M->getParent());
      A ov; for (auto *m : M->overridden_methods()) ov.push_back(usr(m)); if (ov.size()) o["over"] = std::move(ov);
    }
    const char *k = "fn";
    if (isa<CXXConstructorDecl>(F)) k = "ctor"; else if (isa<CXXDestructorDecl>(F)) k = "dtor"; else if (isa<CXXConversionDecl>(F)) k = "conv"; else if (isa<CXXMethodDecl>(F)) k = "method";
    o["kind"] = k;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->getExceptionSpecType() != EST_Unevaluated && FPT->isNothrow()) o["noexcept"] = 1;
    A ps;
    for (auto *P : F->parameters()) { O p; p["id"] = local(P->getCanonicalDecl()); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType()); if (P->getType()->isReferenceType()) p["ref"] = 1; if (P->hasDefaultArg()) { p["hd"] = 1; if (!P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["d"] = ex(P->getDefaultArg()); } ps.push_back(std::move(p)); }
    o["ps"] = std::move(ps); o["pm"] = pmodes(F);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor()) o["cm"] = "copy"; if (CD->isMoveConstructor()) o["cm"] = "move";
      if (CD->isExplicit()) o["explicit"] = 1;
      A is;
      for (auto *I : CD->inits()) {
        O i;
        if (I->isAnyMemberInitializer()) i["fld"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else i["deleg"] = 1;
        i["w"] = I->isWritten(); i["l"] = lineOf(I->getSourceLocation());
        i["e"] = ex(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    if (F->getBody()) o["body"] = st(F->getBody());
    return o;
  }
  void function(const FunctionDecl *F) {
    if (!F || F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) { if (!(F->isDefaulted() && F->isThisDeclarationADefinition())) return; Def = F; }
    if (!inRoot(Def)) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) if (M->getParent()->isLambda()) return;
    if (!SeenFn.insert(Def->getCanonicalDecl()).second) return;
    if (!Def->getBody() && !Def->isDefaulted()) return;
    Functions.push_back(fnBody(Def));
    drain();
  }
  void drain() {
    while (!FnQueue.empty()) {
      auto *F = FnQueue.front(); FnQueue.pop_front();
      if (F->isDependentContext()) continue;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) continue;
      if (SeenFn.count(F->getCanonicalDecl())) continue;
      SeenFn.insert(F->getCanonicalDecl());
      Functions.push_back(fnBody(F));
    }
  }
  void record(const CXXRecordDecl *R) {
    if (!R) return; R = R->getDefinition(); if (!R) return;
    if (R->isDependentContext() || !inRoot(R)) return;
    if (!SeenRec.insert(R->getCanonicalDecl()).second) return;
    O o; o["n"] = fullName(R); o["q"] = qname(R); o["u"] = usr(R); o["file"] = fileOf(R->getLocation()); o["l"] = lineOf(R->getLocation());
    if (R->isLambda()) o["lambda"] = 1;
    if (R->isUnion()) o["union"] = 1;
    A fs; for (auto *F : R->fields()) { O f; f["n"] = F->getNameAsString(); f["t"] = ty(F->getType()); f["l"] = lineOf(F->getLocation()); if (F->isMutable()) f["mut"] = 1; if (F->getType().isConstQualified()) f["const"] = 1;
      switch (F->getAccess()) { case AS_public: f["acc"] = "public"; break; case AS_private: f["acc"] = "private"; break; default: f["acc"] = "protected"; }
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = ex(F->getInClassInitializer());
      fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    A bs; for (auto &B : R->bases()) { O b; b["t"] = ty(B.getType()); if (auto *BR = B.getType()->getAsCXXRecordDecl()) { b["n"] = fullName(BR); record(BR); } b["acc"] = B.getAccessSpecifier() == AS_public ? "public" : "nonpublic"; bs.push_back(std::move(b)); }
    o["bases"] = std::move(bs);
    A ms; for (auto *M : R->methods()) { O m; m["f"] = usr(M); m["n"] = M->getNameAsString(); if (M->isDeleted()) m["del"] = 1; if (M->isDefaulted()) m["dfltd"] = 1; if (M->isImplicit()) m["impl"] = 1; if (M->isConst()) m["cst"] = 1; if (M->isVirtual()) m["virt"] = 1; if (M->isStatic()) m["st"] = 1;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { m["kind"] = "ctor"; if (CD->isCopyConstructor()) m["cm"] = "copy"; if (CD->isMoveConstructor()) m["cm"] = "move"; if (CD->isDefaultConstructor()) m["cm"] = "default"; }
      else if (isa<CXXDestructorDecl>(M)) m["kind"] = "dtor";
      if (M->isCopyAssignmentOperator()) m["cm"] = "copyassign"; if (M->isMoveAssignmentOperator()) m["cm"] = "moveassign";
      m["ret"] = ty(M->getReturnType());
      switch (M->getAccess()) { case AS_public: m["acc"] = "public"; break; case AS_private: m["acc"] = "private"; break; default: m["acc"] = "protected"; }
      m["user"] = M->isUserProvided();
      ms.push_back(std::move(m)); }
    o["methods"] = std::move(ms);
    o["trivcopy"] = R->isTriviallyCopyable() ;
    o["hasCopy"] = R->hasSimpleCopyConstructor() || R->hasUserDeclaredCopyConstructor() || R->needsImplicitCopyConstructor();
    Records.push_back(std::move(o));
    drain();
  }
  json::Value apv(const APValue &V) {
    switch (V.getKind()) {
    case APValue::Int: return V.getInt().isRepresentableByInt64() ? (int64_t)V.getInt().getExtValue() : (int64_t)V.getInt().getRawData()[0];
    case APValue::Float: return V.getFloat().convertToDouble();
    case APValue::Array: { A a; unsigned n = V.getArrayInitializedElts(), N = V.getArraySize(); for (unsigned i = 0; i < N; i++) a.push_back(i < n ? apv(V.getArrayInitializedElt(i)) : apv(V.getArrayFiller())); return a; }
    case APValue::Struct: { A a; for (unsigned i = 0; i < V.getStructNumBases(); i++) a.push_back(apv(V.getStructBase(i))); for (unsigned i = 0; i < V.getStructNumFields(); i++) a.push_back(apv(V.getStructField(i))); return a; }
    default: return nullptr;
    }
  }
  void constVal(O &o, const VarDecl *V) {
    if (V->getType()->isDependentType() || !V->hasInit() || V->getInit()->isValueDependent() || V->getType()->isReferenceType()) return;
    const VarDecl *D = V;
    if (!D->getAnyInitializer(D)) return;
    if (D->getInit()->isValueDependent()) return;
    Expr::EvalResult R; SmallVector<PartialDiagnosticAt, 4> N;
    APValue Val;
    if (D->getInit()->EvaluateAsInitializer(Val, C, D, N, true)) { o["val"] = apv(Val); }
  }
  void noteVar(const VarDecl *V) { var(V); }
  void var(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (!inRoot(V)) return;
    const VarDecl *D = V->getDefinition(); if (!D) D = V->getInitializingDeclaration(); if (!D) D = V;
    if (!SeenVar.insert(D->getCanonicalDecl()).second) return;
    O o; o["id"] = usr(D); o["q"] = qname(D); o["t"] = ty(D->getType()); o["file"] = fileOf(D->getLocation()); o["l"] = lineOf(D->getLocation());
    o["const"] = D->getType().isConstQualified() || D->isConstexpr() || C.getBaseElementType(D->getType()).isConstQualified();
    o["def"] = D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    o["internal"] = D->getFormalLinkage() == Linkage::Internal;
    if (D->isStaticDataMember()) o["member"] = 1;
    if (D->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (D->hasInit()) { constVal(o, D); o["init"] = ex(D->getInit()); }
    Vars.push_back(std::move(o));
    drain();
  }
  void enumd(const EnumDecl *E) {
    if (!inRoot(E) || E->isDependentContext()) return;
    if (!SeenEnum.insert(E->getCanonicalDecl()).second) return;
    if (!E->getDefinition()) return; E = E->getDefinition();
    O o; o["q"] = qname(E); o["file"] = fileOf(E->getLocation()); o["l"] = lineOf(E->getLocation());
    A a; for (auto *c : E->enumerators()) { A p; p.push_back(c->getNameAsString()); p.push_back((int64_t)c->getInitVal().getExtValue()); a.push_back(std::move(p)); }
    o["c"] = std::move(a); Enums.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
  X &x;
public:
  V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { x.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isLambda()) x.record(R); return true; }
  bool VisitVarDecl(VarDecl *D) { if (!D->isLocalVarDeclOrParm()) x.var(D); return true; }
  bool VisitEnumDecl(EnumDecl *E) { x.enumd(E); return true; }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    O o; o["functions"] = std::move(x.Functions); o["records"] = std::move(x.Records); o["vars"] = std::move(x.Vars); o["enums"] = std::move(x.Enums); o["types"] = x.takeTypes();
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << json::Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char **argv) {
  // afx ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: afx ROOT OUT FILE -- flags\n"; return 2; }
  { std::string r = argv[1]; size_t p; while ((p = r.find(':')) != std::string::npos) { Roots.push_back(r.substr(0, p)); r = r.substr(p + 1); } Roots.push_back(r); }
  OutPath = argv[2];
  std::vector<std::string> Flags;
  int i = 4; if (std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
