// Dumps the type-checked program (functions, records, globals) of one
// translation unit as JSON, restricted to declarations whose spelling lies
// under the given roots.  No analysis is done here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <set>
#include <map>
#include <regex>
using namespace clang;
namespace json = llvm::json;

static int64_t i64(const llvm::APSInt &V) { return V.isRepresentableByInt64() ? V.getExtValue() : (int64_t)V.getLimitedValue(); }
static std::vector<std::string> Roots;
static std::string OutPath;

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> Ids; int NextId = 1;
  std::unique_ptr<MangleContext> MC;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; return Ids[D] = NextId++; }
  std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); auto F = SM.getFileEntryRefForID(SM.getFileID(L)); if (!F) return ""; llvm::SmallString<256> R; StringRef N = F->getFileEntry().tryGetRealPathName(); if (N.empty()) N = F->getName(); return N.str(); }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) { if (L.isInvalid()) return false; std::string F = file(L); for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true; return false; }
  std::string ty(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) { std::string S; llvm::raw_string_ostream OS(S); D->printQualifiedName(OS, PP); return OS.str(); }
  // qualified name with template arguments of enclosing classes
  std::string fullName(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true); return OS.str();
  }
  std::string recName(const CXXRecordDecl *R) { return C.getTypeDeclType(R).getCanonicalType().getAsString(PP); }
  std::string sig(const FunctionDecl *F) {
    std::string S;
    for (auto *P : F->parameters()) { if (!S.empty()) S += ","; S += ty(P->getType()); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) return "(" + S + ")const";
    return "(" + S + ")";
  }
  std::string fname(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string N; 
      if (isa<CXXConstructorDecl>(F)) N = "<ctor>"; else if (isa<CXXDestructorDecl>(F)) N = "<dtor>"; else { N = F->getNameAsString();  }
      std::string TA = targs(F);
      return recName(M->getParent()) + "::" + N + TA;
    }
    return qn(F) + targs(F);
  }
  std::string targs(const FunctionDecl *F) {
    auto *A = F->getTemplateSpecializationArgs(); if (!A) return "";
    std::string S; llvm::raw_string_ostream OS(S); printTemplateArgumentList(OS, A->asArray(), PP); return OS.str();
  }
  json::Object base(const char *K, const Stmt *S) { json::Object O; O["k"] = K; O["l"] = (int64_t)line(S->getBeginLoc()); std::string F; return O; }
  json::Value vref(const ValueDecl *D) {
    json::Object O;
    O["name"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl() || isa<ParmVarDecl>(V)) { O["k"] = "var"; O["id"] = id(V); if (V->isStaticLocal()) O["static"] = true; }
      else { O["k"] = "global"; O["q"] = qn(V); if (auto *RD = dyn_cast<CXXRecordDecl>(V->getDeclContext())) O["q"] = recName(RD) + "::" + V->getNameAsString(); 
        if (const Expr *I = V->getAnyInitializer()) if (V->getType().isConstQualified()) { Expr::EvalResult R; if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) O["val"] = (int64_t)i64(R.Val.getInt()); }
      }
      if (V->getType()->isReferenceType()) O["ref"] = true;
      O["t"] = ty(V->getType());
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "enum"; O["q"] = qn(E); O["val"] = i64(E->getInitVal()); O["t"] = ty(E->getType()); }
    else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fn"; O["q"] = fname(F); O["sig"] = sig(F); note(F); }
    else if (auto *FD = dyn_cast<FieldDecl>(D)) { O["k"] = "fieldref"; O["q"] = qn(FD); }
    else { O["k"] = "decl"; O["q"] = qn(D); }
    return std::move(O);
  }
  std::vector<const FunctionDecl*> Work; std::set<const FunctionDecl*> Seen;
  void note(const FunctionDecl *F) { const FunctionDecl *D = nullptr; if (F->hasBody(D) && D && Seen.insert(D->getCanonicalDecl()).second) if (inRoots(D->getLocation())) Work.push_back(D); }
  json::Object callee(const FunctionDecl *F) {
    note(F);
    json::Object O; O["q"] = fname(F); O["sig"] = sig(F); O["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = recName(M->getParent()); if (M->isVirtual()) O["virt"] = true; if (M->isConst()) O["const"] = true; if (M->isStatic()) O["static"] = true; }
    json::Array P; for (auto *A : F->parameters()) P.push_back(ty(A->getType())); O["pt"] = std::move(P);
    O["rt"] = ty(F->getReturnType());
    if (F->isImplicit() || F->isDefaulted()) O["implicit"] = true;
    return O;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // constant folding for pure integer expressions (not for plain literals)
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { json::Value V = expr(X->getExpr()); if (auto *O = V.getAsObject()) (*O)["defarg"] = true; return V; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_FloatingCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_NullToPointer: {
        auto O = base("icast", E); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr()); O["t"] = ty(E->getType()); O["ft"] = ty(X->getSubExpr()->getType()); return std::move(O); }
      case CK_LValueToRValue: { 
        return expr(X->getSubExpr()); }
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: { auto O = base("upcast", E); O["e"] = expr(X->getSubExpr()); O["t"] = ty(E->getType()); return std::move(O); }
      case CK_ArrayToPointerDecay: { auto O = base("decay", E); O["e"] = expr(X->getSubExpr()); return std::move(O); }
      default: return expr(X->getSubExpr());
      }
    }
    auto O = base("?", E);
    O["t"] = ty(E->getType());
    if (E->isLValue()) O["lv"] = true;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["k"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = std::string(S.str()); return std::move(O); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); O["char"] = true; return std::move(O); }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); return std::move(O); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "float"; llvm::SmallString<32> S; X->getValue().toString(S, 17); O["v"] = std::string(S.str()); return std::move(O); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; std::string s = X->getBytes().str(); O["v"] = json::fixUTF8(s); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return std::move(O); }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return std::move(O); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) { json::Value V = vref(X->getDecl()); auto &VO = *V.getAsObject(); VO["l"] = (int64_t)line(E->getBeginLoc()); if (E->isLValue()) VO["lv"] = true; return V; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) { O["k"] = "member"; O["name"] = FD->getNameAsString(); O["rec"] = recName(cast<CXXRecordDecl>(FD->getParent())); O["arrow"] = X->isArrow(); O["e"] = expr(X->getBase()); if (FD->getType()->isReferenceType()) O["ref"] = true; return std::move(O); }
      if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { O["k"] = "method"; O["callee"] = callee(MD); O["arrow"] = X->isArrow(); O["e"] = expr(X->getBase()); return std::move(O); }
      return vref(X->getMemberDecl());
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) O["post"] = true; O["e"] = expr(X->getSubExpr()); return std::move(O); }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) { O["k"] = "opassign"; O["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str(); O["ct"] = ty(CA->getComputationResultType()); }
      else if (X->isAssignmentOp()) { O["k"] = "assign"; }
      else { O["k"] = "bin"; O["op"] = X->getOpcodeStr().str(); }
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return std::move(O);
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { O["k"] = "cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); return std::move(O); }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "index"; O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return std::move(O); }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      if (isa<CXXFunctionalCastExpr>(X) && X->getCastKind() == CK_ConstructorConversion) return expr(X->getSubExpr());
      O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["style"] = isa<CXXDynamicCastExpr>(X) ? "dynamic" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXConstCastExpr>(X) ? "const" : isa<CXXStaticCastExpr>(X) ? "static" : "c";
      O["ft"] = ty(X->getSubExpr()->IgnoreParenImpCasts()->getType());
      if (X->getType()->isReferenceType() || (X->isLValue())) O["toref"] = true;
      O["e"] = expr(X->getSubExpr()); return std::move(O);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = X->getConstructor();
      json::Array A; for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
      O["k"] = "construct"; O["callee"] = callee(CD); O["args"] = std::move(A);
      if (X->isElidable()) O["elide"] = true; if (CD->isCopyOrMoveConstructor()) O["copy"] = true;
      O["rec"] = recName(CD->getParent());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "construct"; O["callee"] = callee(X->getConstructor()); O["args"] = json::Array(); return std::move(O); }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; O["at"] = ty(X->getAllocatedType()); if (X->isArray()) { O["array"] = true; if (X->getArraySize()) O["size"] = expr(*X->getArraySize()); } if (X->getInitializer()) O["init"] = expr(X->getInitializer()); json::Array PA; for (auto *A : X->placement_arguments()) PA.push_back(expr(A)); if (!PA.empty()) O["placement"] = std::move(PA); return std::move(O); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["array"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); return std::move(O); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) { O["e"] = expr(X->getSubExpr()); O["tt"] = ty(X->getSubExpr()->getType()); } return std::move(O); }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "sizeof"; O["at"] = ty(X->getTypeOfArgument()); Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) O["v"] = std::to_string(i64(R.Val.getInt())); if (!X->isArgumentType()) O["e"] = expr(X->getArgumentExpr()); return std::move(O); }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Array A; for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { O["callee"] = callee(F); if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic()) O["member"] = true; } else O["fn"] = expr(X->getCallee());
      O["args"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Array A; for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
      O["k"] = "mcall"; 
      if (auto *M = X->getMethodDecl()) { O["callee"] = callee(M); 
        const Expr *Cal = X->getCallee()->IgnoreParens(); if (auto *ME = dyn_cast<MemberExpr>(Cal)) { if (ME->hasQualifier()) O["nonvirt"] = true; O["arrow"] = ME->isArrow(); }
        O["obj"] = expr(X->getImplicitObjectArgument()); if (X->getImplicitObjectArgument() && X->getImplicitObjectArgument()->getType()->isPointerType()) O["objptr"] = true; }
      else O["fn"] = expr(X->getCallee());
      O["args"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Array A; for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
      O["k"] = "call"; if (auto *F = X->getDirectCallee()) O["callee"] = callee(F); else O["fn"] = expr(X->getCallee());
      O["args"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) { if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm(); json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["k"] = "initlist"; O["args"] = std::move(A); return std::move(O); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { O["k"] = "zeroinit"; return std::move(O); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { O["k"] = "lambda"; O["cls"] = recName(X->getLambdaClass()); note(X->getCallOperator()); O["callee"] = callee(X->getCallOperator());
      json::Array A; for (auto &Cp : X->captures()) if (Cp.capturesVariable()) { json::Object CO; CO["var"] = vref(cast<ValueDecl>(Cp.getCapturedVar())); CO["byref"] = Cp.getCaptureKind() == LCK_ByRef; A.push_back(std::move(CO)); } else if (Cp.capturesThis()) { json::Object CO; CO["this"] = true; A.push_back(std::move(CO)); } O["caps"] = std::move(A); return std::move(O); }
    if (isa<ArrayInitLoopExpr>(E)) { auto *X = cast<ArrayInitLoopExpr>(E); O["k"] = "arraycopy"; O["e"] = expr(X->getCommonExpr()->getSourceExpr()); return std::move(O); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { O["k"] = "typeid"; O["at"] = X->isTypeOperand() ? ty(X->getTypeOperand(C)) : "expr"; if (!X->isTypeOperand()) O["e"] = expr(X->getExprOperand()); return std::move(O); }
    if (isa<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = "__func__"; return std::move(O); }
    O["k"] = "other"; O["cls"] = E->getStmtClassName();
    json::Array A; for (auto *Ch : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE)); O["args"] = std::move(A);
    return std::move(O);
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object O; O["name"] = V->getNameAsString(); O["id"] = id(V); O["t"] = ty(V->getType()); if (V->getType()->isReferenceType()) O["ref"] = true; if (V->isStaticLocal()) O["static"] = true; O["l"] = (int64_t)line(V->getLocation());
    if (V->getType().isConstQualified()) O["constq"] = true;
    if (V->getType()->isArrayType()) O["arr"] = true;
    if (V->getType()->isRecordType()) O["rec"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit()); return std::move(O);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto O = base("expr", S); O["e"] = expr(E); return std::move(O); }
    auto O = base("?", S);
    if (auto *X = dyn_cast<CompoundStmt>(S)) { json::Array A; for (auto *B : X->body()) A.push_back(stmt(B)); O["k"] = "block"; O["b"] = std::move(A); O["el"] = (int64_t)line(X->getEndLoc()); return std::move(O); }
    if (auto *X = dyn_cast<DeclStmt>(S)) { json::Array A; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V)); O["k"] = "decl"; O["d"] = std::move(A); return std::move(O); }
    if (auto *X = dyn_cast<IfStmt>(S)) { O["k"] = "if"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse()); return std::move(O); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "for"; O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"] = "rangefor"; O["var"] = varDecl(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; O["e"] = expr(X->getRetValue()); return std::move(O); }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return std::move(O); }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return std::move(O); }
    if (isa<NullStmt>(S)) { O["k"] = "null"; return std::move(O); }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(X->getLHS()); Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) O["val"] = (int64_t)i64(R.Val.getInt()); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array A; for (unsigned i = 0; i < X->getNumHandlers(); i++) { auto *H = X->getHandler(i); json::Object HO; if (H->getExceptionDecl()) { HO["var"] = varDecl(H->getExceptionDecl()); HO["t"] = ty(H->getCaughtType()); } HO["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(HO)); } O["h"] = std::move(A); return std::move(O); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["name"] = X->getName(); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<GotoStmt>(S)) { O["k"] = "goto"; O["name"] = X->getLabel()->getNameAsString(); return std::move(O); }
    O["k"] = "otherstmt"; O["cls"] = S->getStmtClassName(); return std::move(O);
  }
  json::Value func(const FunctionDecl *F) {
    json::Object O; O["q"] = fname(F); O["sig"] = sig(F); O["n"] = F->getNameAsString(); O["file"] = file(F->getLocation()); O["l"] = (int64_t)line(F->getLocation()); O["rt"] = ty(F->getReturnType());
    O["el"] = (int64_t)line(F->getEndLoc());
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->getLinkageInternal() == Linkage::Internal) O["intern"] = true;
    json::Array P; for (auto *A : F->parameters()) { json::Object PO; PO["name"] = A->getNameAsString(); PO["id"] = id(A); PO["t"] = ty(A->getType()); if (A->getType()->isReferenceType()) PO["ref"] = true; if (A->hasDefaultArg() && !A->hasUninstantiatedDefaultArg() && !A->hasUnparsedDefaultArg()) PO["def"] = expr(A->getDefaultArg()); P.push_back(std::move(PO)); } O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = recName(M->getParent()); O["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method"; if (M->isVirtual()) O["virt"] = true; if (M->isStatic()) O["static"] = true; if (M->isConst()) O["const"] = true;
      O["access"] = (int)M->getAccess(); if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isDefaulted() || M->isImplicit()) O["implicit"] = true;
      json::Array OV; for (auto *B : M->overridden_methods()) OV.push_back(fname(B)); if (!OV.empty()) O["overrides"] = std::move(OV);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { if (CD->isCopyConstructor()) O["copyctor"] = true; json::Array IA; for (auto *I : CD->inits()) { json::Object IO; if (I->isAnyMemberInitializer()) { IO["field"] = I->getAnyMember()->getNameAsString(); IO["t"] = ty(I->getAnyMember()->getType()); } else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0)); else IO["deleg"] = true; IO["written"] = I->isWritten(); IO["l"] = (int64_t)line(I->getSourceLocation().isValid() ? I->getSourceLocation() : CD->getLocation()); IO["e"] = expr(I->getInit()); IA.push_back(std::move(IO)); } O["inits"] = std::move(IA); }
    } else O["kind"] = "fn";
    O["body"] = stmt(F->getBody()); return std::move(O);
  }
  json::Value record(const CXXRecordDecl *R) {
    json::Object O; O["q"] = recName(R); O["file"] = file(R->getLocation()); O["l"] = (int64_t)line(R->getLocation()); O["abstract"] = R->isAbstract();
    O["struct"] = R->isStruct() || R->isUnion();
    json::Array B; for (auto &X : R->bases()) { B.push_back(ty(X.getType())); } O["bases"] = std::move(B);
    const ASTRecordLayout *L = nullptr; if (!R->isInvalidDecl() && !R->isDependentType()) { bool bad = false; for (auto *F : R->fields()) if (F->isInvalidDecl()) bad = true; if (!bad) L = &C.getASTRecordLayout(R); }
    if (L) O["size"] = (int64_t)L->getSize().getQuantity();
    json::Array F; unsigned i = 0; for (auto *X : R->fields()) { json::Object FO; FO["name"] = X->getNameAsString(); FO["t"] = ty(X->getType()); FO["l"] = (int64_t)line(X->getLocation()); if (L) FO["off"] = (int64_t)L->getFieldOffset(i); if (L && !X->getType()->isReferenceType()) FO["size"] = (int64_t)C.getTypeSizeInChars(X->getType()).getQuantity(); FO["access"] = (int)X->getAccess(); if (X->hasInClassInitializer()) { FO["dinit"] = true; if (X->getInClassInitializer()) FO["dinite"] = expr(X->getInClassInitializer()); }
      QualType T = X->getType(); FO["scalar"] = (bool)(T->isScalarType()); FO["ptr"] = T->isPointerType(); FO["ref"] = T->isReferenceType(); FO["mut"] = X->isMutable(); F.push_back(std::move(FO)); i++; } O["fields"] = std::move(F);
    json::Array M; for (auto *X : R->methods()) { json::Object MO; MO["n"] = isa<CXXConstructorDecl>(X) ? "<ctor>" : isa<CXXDestructorDecl>(X) ? "<dtor>" : X->getNameAsString(); MO["sig"] = sig(X); MO["virt"] = X->isVirtual(); MO["pure"] = X->isPureVirtual(); MO["user"] = X->isUserProvided(); MO["del"] = X->isDeleted(); MO["access"] = (int)X->getAccess(); MO["const"] = X->isConst(); MO["static"] = X->isStatic(); if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) MO["copyctor"] = CD->isCopyConstructor(); MO["copyassign"] = X->isCopyAssignmentOperator();
      json::Array OV; for (auto *Bm : X->overridden_methods()) OV.push_back(fname(Bm)); if (!OV.empty()) MO["overrides"] = std::move(OV); M.push_back(std::move(MO)); } O["methods"] = std::move(M);
    O["icopyctor"] = R->needsImplicitCopyConstructor() || R->hasSimpleCopyConstructor(); O["ucopyctor"] = R->hasUserDeclaredCopyConstructor(); O["ucopyassign"] = R->hasUserDeclaredCopyAssignment(); O["udtor"] = R->hasUserDeclaredDestructor();
    return std::move(O);
  }
  json::Value global(const VarDecl *V) {
    json::Object O; O["q"] = isa<CXXRecordDecl>(V->getDeclContext()) ? recName(cast<CXXRecordDecl>(V->getDeclContext())) + "::" + V->getNameAsString() : qn(V); O["t"] = ty(V->getType()); O["file"] = file(V->getLocation()); O["l"] = (int64_t)line(V->getLocation()); if (V->getInit()) O["init"] = expr(V->getInit()); return std::move(O);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D; std::vector<const CXXRecordDecl*> Recs; std::vector<const VarDecl*> Globals; std::vector<const EnumDecl*> Enums;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isInvalidDecl()) { return true; }
    if (!D.inRoots(F->getLocation())) return true;
    D.note(F); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext()) { SourceLocation Lc = R->getLocation(); if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) Lc = CT->getSpecializedTemplate()->getTemplatedDecl()->getLocation(); if (D.inRoots(Lc)) Recs.push_back(R); } return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && D.inRoots(V->getLocation()) && V->isThisDeclarationADefinition() == VarDecl::Definition) Globals.push_back(V); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (!E->isDependentContext() && D.inRoots(E->getLocation())) Enums.push_back(E); return true; }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI; Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); Visitor V(D); V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object Out; json::Array Fs, Rs, Gs, Es;
    for (size_t i = 0; i < D.Work.size(); i++) { const FunctionDecl *F = D.Work[i]; if (F->isDependentContext()) continue; Fs.push_back(D.func(F)); }
    std::set<const CXXRecordDecl*> RS; for (auto *R : V.Recs) if (RS.insert(R).second) Rs.push_back(D.record(R));
    for (auto *G : V.Globals) Gs.push_back(D.global(G));
    for (auto *E : V.Enums) { json::Object EO; EO["q"] = D.qn(E); json::Array A; for (auto *X : E->enumerators()) { json::Object XO; XO["n"] = X->getNameAsString(); XO["v"] = (int64_t)i64(X->getInitVal()); A.push_back(std::move(XO)); } EO["vals"] = std::move(A); Es.push_back(std::move(EO)); }
    Out["functions"] = std::move(Fs); Out["records"] = std::move(Rs); Out["globals"] = std::move(Gs); Out["enums"] = std::move(Es);
    Out["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << json::Value(std::move(Out)); 
  }
};
class Action : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); } };

int main(int argc, char **argv) {
  // extract OUT SRC ROOT[,ROOT...] -- flags
  if (argc < 5) return 2;
  OutPath = argv[1]; std::string Src = argv[2]; std::string R = argv[3]; size_t p = 0; while (p <= R.size()) { size_t q = R.find(',', p); if (q == std::string::npos) q = R.size(); Roots.push_back(R.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> Args; for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Args);
  tooling::ClangTool T(DB, {Src});
  // two spellings g++ accepts and clang rejects; line structure is kept
  auto Buf = llvm::MemoryBuffer::getFile(Src); std::string Text;
  if (Buf) { Text = (*Buf)->getBuffer().str();
    Text = std::regex_replace(Text, std::regex("(^|\\n)([ \\t]*template[ \\t]+class[ \\t]+)(Grid<)"), "$1$2envire::$3");
    Text = std::regex_replace(Text, std::regex("(\\b[A-Za-z_]\\w*[ \\t]+[A-Za-z_]\\w*)\\([ \\t]*((?:envire::)?Transform)\\([ \\t]*((?:[A-Za-z_]\\w*::)*Identity\\(\\))[ \\t]*\\)[ \\t]*\\);"), "$1(($2($3)));");
    T.mapVirtualFile(Src, Text); }
  T.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
