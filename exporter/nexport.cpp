// nexport: exports the resolved program of /repo as compact JSON.
//
// For every function with a body whose definition lies under the repository root (methods, constructors,
// function-template and class-template instantiations, lambdas) it writes the type-checked, overload-resolved
// body: implicit casts that do not change the value are dropped, callees / variables / fields are resolved to
// declarations, constant expressions carry their value, assert() is recognised by its expansion.
//
// usage: nexport ROOT OUT.json SOURCE -- compiler flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root, OutPath;

namespace {

struct Exporter {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  Array Functions;
  Array Records;
  Array Globals;
  Array Enums;
  Array Declared;
  std::set<const Decl *> DoneRecords, DoneFns;
  std::vector<const CXXRecordDecl *> PendingLambdas;

  Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> F(P.getFilename());
    SM.getFileManager().makeAbsolutePath(F);
    llvm::sys::path::remove_dots(F, true);
    return std::string(F.str());
  }
  bool inRepo(SourceLocation L) {
    std::string F = file(L);
    return F.size() > Root.size() && F.compare(0, Root.size(), Root) == 0;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string F = file(L);
    if (F.compare(0, Root.size(), Root) == 0) F = F.substr(Root.size());
    return F + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }

  // A key that is stable between translation units.
  std::string key(const FunctionDecl *F) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        OS << "lambda@" << loc(M->getParent()->getBeginLoc()) << ":"
           << SM.getSpellingColumnNumber(SM.getExpansionLoc(M->getParent()->getBeginLoc()));
        if (F->isTemplateInstantiation() || isa<FunctionDecl>(F)) {
          OS << "(";
          for (unsigned i = 0; i < F->getNumParams(); ++i) OS << (i ? "," : "") << ty(F->getParamDecl(i)->getType());
          OS << ")";
        }
        return OS.str();
      }
    F->getNameForDiagnostic(OS, PP, true);
    OS << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) OS << (i ? "," : "") << ty(F->getParamDecl(i)->getType());
    OS << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) OS << " const";
    if (F->getFormalLinkage() == Linkage::Internal) OS << "@" << loc(F->getLocation()).substr(0, loc(F->getLocation()).rfind(':'));
    return OS.str();
  }

  Object callee(const FunctionDecl *F) {
    Object O;
    O["name"] = F->getNameInfo().getAsString();
    O["qual"] = F->getQualifiedNameAsString();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &T : TA->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        T.print(PP, OS, false);
        A.push_back(OS.str());
      }
      O["targs"] = std::move(A);
    }
    const FunctionDecl *Def = nullptr;
    F->hasBody(Def);
    const FunctionDecl *W = Def ? Def : F;
    if (inRepo(W->getLocation()) || inRepo(F->getLocation())) {
      O["key"] = key(F);
      O["repo"] = true;
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(Ctx.getRecordType(M->getParent()));
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      if (isa<CXXConstructorDecl>(F)) {
        O["ctor"] = true;
        auto *CD = cast<CXXConstructorDecl>(F);
        O["copy"] = CD->isCopyConstructor();
        O["move"] = CD->isMoveConstructor();
        O["defctor"] = CD->isDefaultConstructor();
        O["trivialish"] = CD->isImplicit() || CD->isDefaulted();
      }
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
      if (M->isImplicit() || M->isDefaulted()) O["implicit"] = true;
      if (M->getParent()->isLambda()) { O["lambda"] = true; O["key"] = key(F); O["repo"] = true; noteLambda(M->getParent()); }
    }
    Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["ptypes"] = std::move(PT);
    O["rtype"] = ty(F->getReturnType());
    return O;
  }

  void noteLambda(const CXXRecordDecl *R) { if (inRepo(R->getLocation())) PendingLambdas.push_back(R); }

  Value none() { return nullptr; }

  // ---- expressions -------------------------------------------------------------------------------------
  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      const Expr *N = E;
      if (auto *X = dyn_cast<ParenExpr>(E)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) N = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) N = X->getExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; N = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
        case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_BitCast: case CK_NullToPointer: case CK_BuiltinFnToFnPtr: case CK_ToVoid:
          N = X->getSubExpr(); break;
        default: return E;
        }
      }
      if (N == E) return E;
      E = N;
    }
  }

  void constval(const Expr *E, Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType() || T->isFloatingType())) return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return;
    if (R.Val.isInt()) {
      if (T->isBooleanType()) O["cv"] = (bool)R.Val.getInt().getBoolValue();
      else { llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["cv"] = std::string(S.str()); }
      O["cvk"] = T->isBooleanType() ? "b" : "i";
    } else if (R.Val.isFloat()) {
      double d = R.Val.getFloat().convertToDouble();
      char buf[64]; snprintf(buf, sizeof buf, "%a", d);
      O["cv"] = std::string(buf); O["cvk"] = "f";
    }
  }

  Value exprs(llvm::ArrayRef<const Expr *> A) {
    Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }
  template <class It> Array exprRange(It B, It E) {
    Array R;
    for (; B != E; ++B) R.push_back(expr(*B));
    return R;
  }

  Value expr(const Expr *E) {
    E = strip(E);
    if (!E) return none();
    Object O;
    O["l"] = loc(E->getExprLoc());
    O["t"] = ty(E->getType());
    fill(E, O);
    return O;
  }

  void fill(const Expr *E, Object &O) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["k"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, true); O["v"] = std::string(S.str()); return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); O["char"] = true; return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float";
      llvm::SmallString<64> S; X->getValue().toString(S, 40, 0, true);
      O["v"] = std::string(S.str());
      auto T = Lexer::getSourceText(CharSourceRange::getTokenRange(E->getSourceRange()), SM, Ctx.getLangOpts());
      O["text"] = T.str();
      return;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); return; }
    if (isa<CXXNullPtrLiteralExpr>(E)) { O["k"] = "null"; return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = X->isOrdinary() || X->isUTF8() ? json::fixUTF8(X->getString()) : std::string("?"); return; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      O["k"] = "ref"; O["name"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = std::string(S.str());
        O["qual"] = D->getQualifiedNameAsString(); return;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["callee"] = callee(F); return; }
      O["id"] = id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        bool g = V->hasGlobalStorage();
        O["dk"] = isa<ParmVarDecl>(V) ? "parm" : g ? "global" : "var";
        if (g) { O["qual"] = V->getQualifiedNameAsString(); O["staticlocal"] = V->isStaticLocal(); O["repo"] = inRepo(V->getLocation()); if (inRepo(V->getLocation())) noteGlobal(V); }
        if (isa<DecompositionDecl>(V)) O["dk"] = "decomp";
      } else if (auto *B = dyn_cast<BindingDecl>(D)) { O["dk"] = "binding"; O["binding"] = expr(B->getBinding()); }
      else O["dk"] = "other";
      O["const"] = D->getType().isConstQualified();
      constval(E, O);
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        O["k"] = "ref"; O["name"] = V->getNameAsString(); O["id"] = id(V); O["dk"] = "global"; O["qual"] = V->getQualifiedNameAsString();
        O["repo"] = inRepo(V->getLocation()); if (inRepo(V->getLocation())) noteGlobal(V);
        constval(E, O); return;
      }
      O["k"] = "member"; O["name"] = D->getNameAsString(); O["arrow"] = X->isArrow(); O["base"] = expr(X->getBase());
      if (auto *F = dyn_cast<FieldDecl>(D)) { O["dk"] = "field"; O["mutable"] = F->isMutable(); O["cls"] = ty(Ctx.getRecordType(F->getParent())); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "method"; O["callee"] = callee(F); }
      else O["dk"] = "other";
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto *M = X->getMethodDecl()) O["callee"] = callee(M);
      if (auto *Obj = X->getImplicitObjectArgument()) {
        O["obj"] = expr(Obj);
        auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()));
        O["arrow"] = ME ? ME->isArrow() : false;
      }
      O["args"] = exprRange(X->arg_begin(), X->arg_end());
      constval(E, O);
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call"; O["oper"] = getOperatorSpelling(X->getOperator());
      auto *F = X->getDirectCallee();
      if (F) O["callee"] = callee(F);
      auto B = X->arg_begin();
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { O["obj"] = expr(*B); ++B; }
      O["args"] = exprRange(B, X->arg_end());
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = X->getDirectCallee()) O["callee"] = callee(F);
      else O["fn"] = expr(X->getCallee());
      O["args"] = exprRange(X->arg_begin(), X->arg_end());
      constval(E, O);
      return;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      auto D = X->getDecomposedForm();
      O["k"] = "rewritten"; O["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
      O["a"] = expr(D.LHS); O["b"] = expr(D.RHS);
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      if (auto *C = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = ty(C->getComputationResultType());
      if (!X->isAssignmentOp()) constval(E, O);
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix();
      O["a"] = expr(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      // assert(): cond ? (void)0 : __assert_fail(...)
      const Expr *FE = strip(X->getFalseExpr());
      if (auto *CE = dyn_cast<CallExpr>(FE))
        if (auto *F = CE->getDirectCallee())
          if (F->getName() == "__assert_fail" || F->getName() == "__assert_rtn" || F->getName() == "_wassert") {
            O["k"] = "assert"; O["a"] = expr(X->getCond()); return;
          }
      O["k"] = "cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "index"; O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      std::string K = X->getCastKindName();
      O["k"] = "cast"; O["ck"] = K; O["explicit"] = isa<ExplicitCastExpr>(X);
      if (isa<CXXReinterpretCastExpr>(X)) O["ck"] = "Reinterpret";
      if (isa<CXXConstCastExpr>(X)) O["ck"] = "ConstCast";
      if (auto *CS = dyn_cast<CStyleCastExpr>(X)) {
        QualType ST = CS->getSubExpr()->getType(), DT = CS->getType();
        bool ptr = ST->isPointerType() && DT->isPointerType();
        if (ptr) O["ck"] = "CStylePtr";
        if (ptr && ST->getPointeeType().isConstQualified() && !DT->getPointeeType().isConstQualified()) O["dropsconst"] = true;
      }
      O["from"] = ty(X->getSubExpr()->getType());
      O["a"] = expr(X->getSubExpr());
      constval(E, O);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct"; O["callee"] = callee(X->getConstructor());
      O["list"] = X->isListInitialization(); O["stdinit"] = X->isStdInitListInitialization();
      O["temp"] = isa<CXXTemporaryObjectExpr>(X);
      O["zeroinit"] = X->requiresZeroInitialization();
      O["args"] = exprRange(X->arg_begin(), X->arg_end());
      noteRecord(X->getType());
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "construct"; O["callee"] = callee(X->getConstructor()); O["args"] = Array(); return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"] = "initlist"; Array A;
      for (unsigned i = 0; i < S->getNumInits(); ++i) A.push_back(expr(S->getInit(i)));
      O["args"] = std::move(A);
      if (S->hasArrayFiller()) O["filler"] = expr(S->getArrayFiller());
      noteRecord(X->getType());
      return;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { O["k"] = "stdinitlist"; O["a"] = expr(X->getSubExpr()); return; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; return; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { O["k"] = "defarg"; O["a"] = expr(X->getExpr()); return; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      Array Caps;
      auto FI = X->getLambdaClass()->field_begin();
      auto II = X->capture_init_begin();
      for (auto &C : X->captures()) {
        Object CO;
        if (C.capturesThis()) { CO["k"] = C.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
        else if (C.capturesVariable()) {
          CO["k"] = C.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          CO["id"] = id(C.getCapturedVar()); CO["name"] = C.getCapturedVar()->getNameAsString();
          if (auto *VD = dyn_cast<VarDecl>(C.getCapturedVar())) if (VD->isInitCapture()) CO["init"] = expr(VD->getInit());
        } else CO["k"] = "other";
        Caps.push_back(std::move(CO));
        (void)FI; (void)II;
      }
      O["captures"] = std::move(Caps);
      auto *Op = X->getCallOperator();
      O["cls"] = "lambda@" + loc(X->getLambdaClass()->getBeginLoc()) + ":" + std::to_string(SM.getSpellingColumnNumber(SM.getExpansionLoc(X->getLambdaClass()->getBeginLoc())));
      O["mutable"] = X->isMutable();
      if (Op && !X->isGenericLambda()) O["key"] = key(Op);
      O["generic"] = X->isGenericLambda();
      noteLambda(X->getLambdaClass());
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) { O["a"] = expr(X->getSubExpr()); O["et"] = ty(X->getSubExpr()->getType()); } return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "sizeof"; constval(E, O); (void)X; return; }
    if (isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E)) { O["k"] = "trait"; constval(E, O); return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; if (X->getInitializer()) O["a"] = expr(X->getInitializer()); return; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["a"] = expr(X->getArgument()); return; }
    if (isa<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = "__func__"; return; }
    O["k"] = "unknown"; O["cls"] = E->getStmtClassName();
    Array Ch;
    for (auto *C : E->children()) if (C) { if (auto *CE = dyn_cast<Expr>(C)) Ch.push_back(expr(CE)); }
    O["args"] = std::move(Ch);
  }

  // ---- statements --------------------------------------------------------------------------------------
  Object var(const VarDecl *V) {
    Object O;
    O["id"] = id(V); O["name"] = V->getNameAsString(); O["t"] = ty(V->getType()); O["wt"] = V->getType().getAsString(PP);
    O["l"] = loc(V->getLocation());
    O["static"] = V->isStaticLocal(); O["ref"] = V->getType()->isReferenceType(); O["const"] = V->getType().getNonReferenceType().isConstQualified();
    O["inline"] = V->isInline(); O["externonly"] = V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly;
    O["thread"] = V->getTLSKind() != VarDecl::TLS_None;
    O["constexpr"] = V->isConstexpr();
    { QualType WT = V->getType(); O["auto"] = WT->getContainedAutoType() != nullptr; }
    if (auto *I = V->getInit()) { O["init"] = expr(I); O["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list"; }
    noteRecord(V->getType());
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S) return none();
    if (auto *E = dyn_cast<Expr>(S)) {
      Object O; O["k"] = "expr"; O["l"] = loc(E->getExprLoc()); O["a"] = expr(E); return O;
    }
    Object O;
    O["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"] = "block"; Array A; for (auto *C : X->body()) A.push_back(stmt(C)); O["body"] = std::move(A); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; Array A;
      for (auto *D : X->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          Object V = var(DD); Array B; for (auto *BD : DD->bindings()) { Object BO; BO["id"] = id(BD); BO["name"] = BD->getNameAsString(); B.push_back(std::move(BO)); }
          V["bindings"] = std::move(B); A.push_back(std::move(V));
        } else if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      }
      O["vars"] = std::move(A);
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
      if (X->isConsteval()) { O["consteval"] = true; }
      else O["c"] = expr(X->getCond());
      if (X->isConstexpr()) O["constexpr"] = true;
      O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse());
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "for"; O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; O["c"] = expr(X->getCond()); if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rangefor"; if (X->getInit()) O["init"] = stmt(X->getInit());
      Object V = var(X->getLoopVariable()); V.erase("init");
      if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) { Array B; for (auto *BD : DD->bindings()) { Object BO; BO["id"] = id(BD); BO["name"] = BD->getNameAsString(); B.push_back(std::move(BO)); } V["bindings"] = std::move(B); }
      O["var"] = std::move(V); O["range"] = expr(X->getRangeInit()); O["body"] = stmt(X->getBody());
    }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; if (X->getRetValue()) O["a"] = expr(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) O["k"] = "break";
    else if (isa<ContinueStmt>(S)) O["k"] = "continue";
    else if (isa<NullStmt>(S)) O["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); O["allenum"] = X->isAllEnumCasesCovered(); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(X->getLHS()); O["body"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["body"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["body"] = stmt(X->getTryBlock()); Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *C = X->getHandler(i); Object HO; if (C->getExceptionDecl()) HO["var"] = var(C->getExceptionDecl()); HO["body"] = stmt(C->getHandlerBlock()); H.push_back(std::move(HO)); }
      O["handlers"] = std::move(H);
    }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["body"] = stmt(X->getSubStmt()); }
    else if (isa<GotoStmt>(S)) O["k"] = "goto";
    else { O["k"] = "unknown"; O["cls"] = S->getStmtClassName(); }
    return O;
  }

  void noteGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!DoneRecords.insert(V).second) return;
    const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
    Object O = var(Def);
    O["qual"] = V->getQualifiedNameAsString();
    Globals.push_back(std::move(O));
  }

  void noteRecord(QualType T) {
    T = T.getNonReferenceType();
    if (T->isPointerType()) T = T->getPointeeType();
    auto *R = T->getAsCXXRecordDecl();
    if (!R || !R->hasDefinition()) return;
    R = R->getDefinition();
    if (!inRepo(R->getLocation()) || R->isLambda()) return;
    if (R->isDependentType()) return;
    if (!DoneRecords.insert(R).second) return;
    Object O;
    O["name"] = ty(Ctx.getRecordType(R));
    O["qual"] = R->getQualifiedNameAsString();
    O["l"] = loc(R->getLocation());
    Array F;
    for (auto *FD : R->fields()) {
      Object FO; FO["name"] = FD->getNameAsString(); FO["t"] = ty(FD->getType()); FO["mutable"] = FD->isMutable();
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) FO["init"] = expr(FD->getInClassInitializer());
      F.push_back(std::move(FO));
      noteRecord(FD->getType());
    }
    O["fields"] = std::move(F);
    Array B;
    for (auto &BS : R->bases()) { B.push_back(ty(BS.getType())); noteRecord(BS.getType()); }
    O["bases"] = std::move(B);
    O["aggregate"] = R->isAggregate();
    Records.push_back(std::move(O));
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) return;
    F = Def;
    if (!DoneFns.insert(F).second) return;
    if (!inRepo(F->getLocation())) return;
    if (!F->getBody()) return;
    if (F->isImplicit() && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) return;
    Object O;
    O["key"] = key(F);
    O["name"] = F->getNameInfo().getAsString();
    O["qual"] = F->getQualifiedNameAsString();
    O["l"] = loc(F->getLocation());
    O["end"] = loc(F->getEndLoc());
    O["rtype"] = ty(F->getReturnType());
    O["internal"] = F->getFormalLinkage() == Linkage::Internal;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(Ctx.getRecordType(M->getParent())); O["const"] = M->isConst(); O["static"] = M->isStatic();
      O["access"] = (int)M->getAccess();
      O["lambda"] = M->getParent()->isLambda();
      O["virtual"] = M->isVirtual();
      noteRecord(Ctx.getRecordType(M->getParent()));
    }
    Array P;
    for (auto *PD : F->parameters()) { Object V = var(PD); P.push_back(std::move(V)); }
    O["params"] = std::move(P);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true; Array I;
      for (auto *In : C->inits()) {
        Object IO;
        if (In->isMemberInitializer()) IO["field"] = In->getMember()->getNameAsString();
        else if (In->isDelegatingInitializer()) IO["delegating"] = true;
        else if (In->isBaseInitializer()) IO["base"] = ty(QualType(In->getBaseClass(), 0));
        IO["written"] = In->isWritten();
        IO["init"] = expr(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
    flushLambdas();
  }

  void flushLambdas() {
    while (!PendingLambdas.empty()) {
      auto *R = PendingLambdas.back(); PendingLambdas.pop_back();
      for (auto *M : R->methods()) if (M->getOverloadedOperator() == OO_Call) function(M);
      for (auto *D : R->decls())
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
          for (auto *Sp : FT->specializations()) function(Sp);
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  Visitor(Exporter &E) : X(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (X.inRepo(F->getLocation()) && !F->isDependentContext()) {
      X.function(F);
      if (!F->isImplicit() && F->getFormalLinkage() == Linkage::External && !F->isDeleted()) {
        Object O; O["key"] = X.key(F); O["l"] = X.loc(F->getLocation()); O["hasbody"] = F->hasBody() || F->isDefaulted(); O["qual"] = F->getQualifiedNameAsString();
        O["tmpl"] = F->isTemplateInstantiation();
        O["inl"] = F->isInlined();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) O["pure"] = M->isPureVirtual();
        X.Declared.push_back(std::move(O));
      }
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (X.inRepo(V->getLocation()) && V->hasGlobalStorage() && !V->getType()->isDependentType() && !V->isStaticLocal()) X.noteGlobal(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (X.inRepo(R->getLocation()) && R->isThisDeclarationADefinition() && !R->isDependentType()) X.noteRecord(X.Ctx.getRecordType(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (X.inRepo(E->getLocation()) && E->isThisDeclarationADefinition()) {
      Object O; O["qual"] = E->getQualifiedNameAsString(); Array A;
      for (auto *C : E->enumerators()) { llvm::SmallString<32> S; C->getInitVal().toString(S, 10); Object CO; CO["name"] = C->getNameAsString(); CO["v"] = std::string(S.str()); A.push_back(std::move(CO)); }
      O["values"] = std::move(A); X.Enums.push_back(std::move(O));
    }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.flushLambdas();
    Object O;
    O["functions"] = std::move(X.Functions); O["records"] = std::move(X.Records); O["globals"] = std::move(X.Globals);
    O["enums"] = std::move(X.Enums); O["declared"] = std::move(X.Declared);
    O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(O)) << "\n";
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: nexport ROOT OUT SOURCE -- flags\n"; return 2; }
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  OutPath = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
