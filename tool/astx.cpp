// astx: dump the type-checked program of the analysed sources as compact JSON.
//
// Every function definition, class and variable whose definition lies under one
// of the -root prefixes is emitted: resolved callees, resolved member owners,
// template instantiations, types.  No checking happens here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/CommandLine.h"
#include <set>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source prefix to emit"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("out", llvm::cl::desc("output file"), llvm::cl::cat(Cat));

static Array Functions, Classes, Vars;
static std::set<std::string> SeenF, SeenC, SeenV;

namespace {

class Dumper {
public:
  ASTContext &C;
  PrintingPolicy PP;
  explicit Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.PrintCanonicalTypes = true;
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> S;
    if (!D || index::generateUSRForDecl(D, S)) return "";
    return std::string(S.str());
  }
  std::string qn(const NamedDecl *D) { return D ? D->getQualifiedNameAsString() : ""; }
  unsigned line(SourceLocation L) {
    return C.getSourceManager().getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    return C.getSourceManager().getFilename(C.getSourceManager().getExpansionLoc(L)).str();
  }
  std::string cls(const CXXRecordDecl *R) {
    if (!R) return "";
    return ty(C.getRecordType(R));
  }
  int64_t id(const Decl *D) { return (int64_t)(intptr_t)D->getCanonicalDecl(); }

  Object mk(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    if (S) O["l"] = (int64_t)line(S->getBeginLoc());
    return O;
  }
  Object mke(const char *K, const Expr *E) {
    Object O = mk(K, E);
    O["t"] = ty(E->getType());
    return O;
  }

  Array exprs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *E : Es) A.push_back(expr(E));
    return A;
  }
  template <class R> Array args(R Range) {
    Array A;
    for (auto *E : Range) A.push_back(expr(E));
    return A;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralToBoolean:
      case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_Dynamic: case CK_FloatingCast: {
        Object O = mke("cast", E);
        O["c"] = X->getCastKindName();
        O["e"] = expr(X->getSubExpr());
        return std::move(O);
      }
      default:
        if (isa<ExplicitCastExpr>(X)) {
          if (isa<CXXConstructExpr>(X->getSubExprAsWritten()->IgnoreImplicit()) || X->getCastKind() == CK_ConstructorConversion ||
              X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_NoOp)
            return expr(X->getSubExpr());
          Object O = mke("cast", E);
          O["c"] = X->getCastKindName();
          O["e"] = expr(X->getSubExpr());
          return std::move(O);
        }
        return expr(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object O = mke("int", E);
      O["v"] = X->getValue().getLimitedValue() > (uint64_t)INT64_MAX ? Value("big") : Value((int64_t)X->getValue().getLimitedValue());
      return std::move(O);
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object O = mke("flt", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S);
      O["v"] = std::string(S.str());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object O = mke("bool", E); O["v"] = X->getValue(); return std::move(O); }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      Object O = mke("str", E);
      O["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string("?");
      return std::move(O);
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object O = mke("int", E); O["v"] = (int64_t)X->getValue(); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mke("null", E);
    if (isa<CXXThisExpr>(E)) return mke("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      Object O = mke("ref", E);
      const ValueDecl *D = X->getDecl();
      O["n"] = D->getNameAsString();
      O["id"] = id(D);
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["d"] = "func"; O["f"] = usr(F); O["q"] = qn(F); }
      else if (isa<ParmVarDecl>(D)) O["d"] = "parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["d"] = V->isLocalVarDecl() ? "var" : "glob"; O["q"] = qn(D);
        if (V->isStaticLocal()) O["d"] = "glob";
        if (!V->isLocalVarDecl() && V->hasInit() && V->getType().isConstQualified()) {
          Expr::EvalResult R;
          if (V->getType()->isIntegralOrEnumerationType() && V->getInit()->EvaluateAsInt(R, C))
            O["cv"] = (int64_t)R.Val.getInt().getExtValue();
        }
        if (!V->isLocalVarDecl()) O["f"] = usr(V);
      }
      else if (isa<BindingDecl>(D)) O["d"] = "binding";
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["d"] = "enum"; O["q"] = qn(D); O["cv"] = (int64_t)EC->getInitVal().getExtValue(); }
      else { O["d"] = "other"; O["q"] = qn(D); }
      return std::move(O);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      Object O = mke("mem", E);
      O["b"] = expr(X->getBase());
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["q"] = qn(X->getMemberDecl());
      O["arrow"] = X->isArrow();
      O["bt"] = ty(X->getBase()->getType());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) O["o"] = cls(dyn_cast<CXXRecordDecl>(FD->getParent()));
      else if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { O["f"] = usr(MD); O["o"] = cls(MD->getParent()); }
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object O = mke("op", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        O["f"] = usr(F); O["q"] = qn(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["m"] = true; O["o"] = cls(M->getParent()); }
      }
      Array A, T;
      for (auto *Arg : X->arguments()) { A.push_back(expr(Arg)); T.push_back(ty(Arg->getType())); }
      O["a"] = std::move(A);
      O["at"] = std::move(T);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object O = mke("mcall", E);
      auto *M = X->getMethodDecl();
      O["b"] = expr(X->getImplicitObjectArgument());
      O["bt"] = X->getImplicitObjectArgument() ? ty(X->getImplicitObjectArgument()->getType()) : "";
      if (M) {
        O["f"] = usr(M); O["q"] = qn(M); O["n"] = M->getNameAsString();
        O["o"] = cls(M->getParent());
        bool Qualified = false;
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) Qualified = ME->hasQualifier();
        O["virt"] = M->isVirtual() && !Qualified;
        if (isa<CXXConversionDecl>(M)) O["conv"] = true;
      }
      Array A, T;
      for (auto *Arg : X->arguments()) { A.push_back(expr(Arg)); T.push_back(ty(Arg->getType())); }
      O["a"] = std::move(A); O["at"] = std::move(T);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object O = mke("call", E);
      if (auto *F = X->getDirectCallee()) {
        O["f"] = usr(F); O["q"] = qn(F); O["n"] = F->getNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) O["o"] = cls(M->getParent());
        if (auto *TA = F->getTemplateSpecializationArgs()) {
          Array TT;
          for (auto &A : TA->asArray()) if (A.getKind() == TemplateArgument::Type) TT.push_back(ty(A.getAsType()));
          O["ta"] = std::move(TT);
        }
      } else O["fe"] = expr(X->getCallee());
      Array A, T;
      for (auto *Arg : X->arguments()) { A.push_back(expr(Arg)); T.push_back(ty(Arg->getType())); }
      O["a"] = std::move(A); O["at"] = std::move(T);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object O = mke("ctor", E);
      auto *K = X->getConstructor();
      O["f"] = usr(K);
      O["o"] = cls(K->getParent());
      O["copy"] = K->isCopyOrMoveConstructor();
      O["list"] = X->isListInitialization();
      Array A, T;
      for (auto *Arg : X->arguments()) { A.push_back(expr(Arg)); T.push_back(ty(Arg->getType())); }
      O["a"] = std::move(A); O["at"] = std::move(T);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; return mke("unk", E); }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object O = mke("new", E);
      O["e"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr);
      O["arr"] = X->isArray();
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object O = mke("delete", E); O["e"] = expr(X->getArgument()); return std::move(O); }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object O = mke(X->isAssignmentOp() ? "asg" : "bin", E);
      O["op"] = X->getOpcodeStr().str();
      O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      O["xt"] = ty(X->getLHS()->getType()); O["yt"] = ty(X->getRHS()->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = ty(CA->getComputationResultType());
      return std::move(O);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object O = mke("un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      Object O = mke("cond", E);
      O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object O = mke("sub", E);
      O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx());
      return std::move(O);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Object O = mke("ilist", E);
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      Array A;
      for (auto *I : S->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      return std::move(O);
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return mke("zero", E);
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object O = mke("throw", E);
      O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr);
      O["et"] = X->getSubExpr() ? ty(X->getSubExpr()->getType()) : "";
      return std::move(O);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object O = mke("lambda", E);
      Array P, Cap;
      for (auto *Pm : X->getCallOperator()->parameters()) P.push_back(parm(Pm));
      for (auto &K : X->captures()) {
        Object CO;
        if (K.capturesThis()) CO["this"] = true;
        else if (K.capturesVariable()) { CO["id"] = id(K.getCapturedVar()); CO["ref"] = K.getCaptureKind() == LCK_ByRef; CO["n"] = K.getCapturedVar()->getNameAsString();
          if (auto *VD = dyn_cast<VarDecl>(K.getCapturedVar())) if (VD->isInitCapture()) CO["init"] = expr(VD->getInit()); }
        Cap.push_back(std::move(CO));
      }
      O["p"] = std::move(P); O["cap"] = std::move(Cap);
      O["f"] = usr(X->getCallOperator());
      O["s"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object O = mke("sizeof", E);
      (void)X;
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { Object O = mke("typeid", E); O["e"] = X->isTypeOperand() ? Value(ty(X->getTypeOperand(C))) : expr(X->getExprOperand()); return std::move(O); }
    Expr::EvalResult R;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
      Object O = mke("int", E); O["v"] = (int64_t)R.Val.getInt().getExtValue(); return std::move(O);
    }
    Object O = mke("unk", E);
    O["w"] = E->getStmtClassName();
    return std::move(O);
  }

  Object parm(const ParmVarDecl *P) {
    Object O;
    O["n"] = P->getNameAsString();
    O["id"] = id(P);
    O["t"] = ty(P->getType());
    if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) O["def"] = expr(P->getDefaultArg());
    else if (P->hasDefaultArg()) O["def"] = true;
    return O;
  }

  Value vardecl(const VarDecl *V) {
    Object O;
    O["n"] = V->getNameAsString();
    O["id"] = id(V);
    O["t"] = ty(V->getType());
    O["l"] = (int64_t)line(V->getLocation());
    O["static"] = V->isStaticLocal();
    O["i"] = V->hasInit() ? expr(V->getInit()) : Value(nullptr);
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *X : D->bindings()) { Object BO; BO["n"] = X->getNameAsString(); BO["id"] = id(X); B.push_back(std::move(BO)); }
      O["bind"] = std::move(B);
    }
    return std::move(O);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object O = mk("expr", S); O["e"] = expr(E); return std::move(O); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Object O = mk("block", S); Array A;
      for (auto *I : X->body()) A.push_back(stmt(I));
      O["a"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object O = mk("decl", S); Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(vardecl(V));
      O["a"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      Object O = mk("if", S);
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = vardecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["x"] = stmt(X->getThen()); O["y"] = stmt(X->getElse());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object O = mk("for", S);
      O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc()); O["s"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { Object O = mk("while", S); O["c"] = expr(X->getCond()); O["s"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<DoStmt>(S)) { Object O = mk("do", S); O["c"] = expr(X->getCond()); O["s"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object O = mk("forrange", S);
      O["v"] = vardecl(X->getLoopVariable()); O["r"] = expr(X->getRangeInit()); O["s"] = stmt(X->getBody());
      O["rt"] = ty(X->getRangeInit()->getType());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { Object O = mk("ret", S); O["e"] = expr(X->getRetValue()); return std::move(O); }
    if (isa<BreakStmt>(S)) return mk("break", S);
    if (isa<ContinueStmt>(S)) return mk("continue", S);
    if (isa<NullStmt>(S)) return mk("null", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object O = mk("try", S);
      O["s"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); I++) {
        auto *H = X->getHandler(I);
        Object HO; HO["t"] = H->getCaughtType().isNull() ? "..." : ty(H->getCaughtType());
        if (H->getExceptionDecl()) HO["v"] = vardecl(H->getExceptionDecl());
        HO["s"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Object O = mk("switch", S);
      O["c"] = expr(X->getCond()); O["s"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      Object O = mk("case", S);
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = (int64_t)R.Val.getInt().getExtValue();
      O["s"] = stmt(X->getSubStmt());
      return std::move(O);
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { Object O = mk("default", S); O["s"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    Object O = mk("unkstmt", S);
    O["w"] = S->getStmtClassName();
    return std::move(O);
  }

  bool inRoots(SourceLocation L) {
    auto F = file(L);
    for (auto &R : Roots) if (llvm::StringRef(F).starts_with(R)) return true;
    return false;
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def != F) return;
    if (!inRoots(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (F->isImplicit() || F->isDefaulted()) return;
    std::string U = usr(F);
    if (U.empty() || !SeenF.insert(U).second) return;
    Object O;
    O["f"] = U; O["q"] = qn(F); O["n"] = F->getNameAsString();
    O["file"] = file(F->getLocation()); O["l"] = (int64_t)line(F->getLocation());
    O["el"] = (int64_t)line(F->getEndLoc());
    O["t"] = ty(F->getReturnType());
    Array P;
    for (auto *X : F->parameters()) P.push_back(parm(X));
    O["p"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["o"] = cls(M->getParent()); O["static"] = M->isStatic(); O["virt"] = M->isVirtual(); O["const"] = M->isConst();
      Array OV;
      for (auto *X : M->overridden_methods()) OV.push_back(usr(X));
      O["over"] = std::move(OV);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array I;
      for (auto *In : K->inits()) {
        Object IO;
        if (In->isBaseInitializer()) IO["base"] = ty(QualType(In->getBaseClass(), 0));
        else if (In->isDelegatingInitializer()) IO["deleg"] = true;
        else if (In->isAnyMemberInitializer()) { IO["field"] = In->getAnyMember()->getNameAsString(); IO["ft"] = ty(In->getAnyMember()->getType()); }
        IO["written"] = In->isWritten();
        IO["e"] = expr(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["s"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    SourceLocation Loc = R->getLocation();
    // an explicit instantiation is reported where its template is written
    if (auto *P = R->getTemplateInstantiationPattern()) Loc = P->getLocation();
    if (!inRoots(Loc)) return;
    std::string N = cls(R);
    if (!SeenC.insert(N).second) return;
    Object O;
    O["q"] = N; O["file"] = file(Loc); O["l"] = (int64_t)line(Loc);
    O["poly"] = R->isPolymorphic();
    auto *D = R->getDestructor();
    O["vdtor"] = D && D->isVirtual();
    O["abstract"] = R->isAbstract();
    Array B, Fs, Ms;
    for (auto &X : R->bases()) B.push_back(ty(X.getType()));
    for (auto *X : R->fields()) {
      Object FO; FO["n"] = X->getNameAsString(); FO["t"] = ty(X->getType()); FO["l"] = (int64_t)line(X->getLocation());
      FO["acc"] = (int64_t)X->getAccess();
      if (X->hasInClassInitializer() && X->getInClassInitializer()) FO["i"] = expr(X->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto *X : R->methods()) {
      Object MO; MO["n"] = X->getNameAsString(); MO["f"] = usr(X); MO["virt"] = X->isVirtual(); MO["pure"] = X->isPureVirtual();
      MO["l"] = (int64_t)line(X->getLocation()); MO["implicit"] = X->isImplicit(); MO["acc"] = (int64_t)X->getAccess();
      Array OV, PT;
      for (auto *Y : X->overridden_methods()) OV.push_back(usr(Y));
      for (auto *Y : X->parameters()) PT.push_back(ty(Y->getType()));
      MO["over"] = std::move(OV); MO["pt"] = std::move(PT); MO["t"] = ty(X->getReturnType());
      MO["ctor"] = isa<CXXConstructorDecl>(X); MO["dtor"] = isa<CXXDestructorDecl>(X); MO["static"] = X->isStatic();
      Ms.push_back(std::move(MO));
    }
    O["bases"] = std::move(B); O["fields"] = std::move(Fs); O["methods"] = std::move(Ms);
    Classes.push_back(std::move(O));
  }

  void var(const VarDecl *V) {
    if (!V->isFileVarDecl() || V->isTemplated()) return;
    if (!inRoots(V->getLocation())) return;
    std::string U = usr(V);
    bool Def = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!Def || !SeenV.insert(U).second) return;
    Object O;
    O["f"] = U; O["q"] = qn(V); O["t"] = ty(V->getType()); O["file"] = file(V->getLocation()); O["l"] = (int64_t)line(V->getLocation());
    O["i"] = V->hasInit() ? expr(V->getInit()) : Value(nullptr);
    Vars.push_back(std::move(O));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper D;
  explicit Visitor(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.var(V); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  int R = T.run(tooling::newFrontendActionFactory<Action>().get());
  Object Root;
  Root["functions"] = std::move(Functions);
  Root["classes"] = std::move(Classes);
  Root["vars"] = std::move(Vars);
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out.empty() ? std::string("-") : Out.getValue(), EC);
  OS << Value(std::move(Root)) << "\n";
  return R;
}
