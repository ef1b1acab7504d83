// Exports the type-checked program of one translation unit as JSON: for every
// function body found under the given root directories the clang CFG with all
// sub-expressions as elements, implicit destructors and constructor
// initialisers; plus records, enums and initialised globals.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static json::Object Out;

static std::string latin(llvm::StringRef S) {
  // bytes -> code points, so that JSON text stays valid
  std::string R;
  for (unsigned char C : S) {
    if (C < 0x80) R += char(C);
    else { R += char(0xC0 | (C >> 6)); R += char(0x80 | (C & 0x3F)); }
  }
  return R;
}

class Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object Funcs, Records, Enums, Globals;

  // per function state
  std::map<const Stmt *, int> Ids;
  json::Array Nodes;
  std::map<const ValueDecl *, int> VarIds;
  json::Array Vars;
  std::map<const Stmt *, std::vector<int>> TryOf;
  std::map<const Stmt *, int> TryIds;

public:
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
    PP.SuppressUnwrittenScope = false;
  }

  bool inRoots(SourceLocation L, std::string *File = nullptr, unsigned *Line = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    std::string F = P.getFilename();
    if (File) *File = F;
    if (Line) *Line = P.getLine();
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? 0 : P.getLine();
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true);
    return OS.str();
  }
  std::string fid(const FunctionDecl *F) {
    std::string S = qname(F) + "(";
    bool First = true;
    for (auto *P : F->parameters()) {
      if (!First) S += ", ";
      First = false;
      S += ty(P->getType());
    }
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) S += " const";
    return S;
  }

  int varId(const ValueDecl *D) {
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int Id = VarIds.size();
    VarIds[D] = Id;
    json::Object O;
    O["id"] = Id;
    O["name"] = D->getNameAsString();
    O["type"] = ty(D->getType());
    if (auto *V = dyn_cast<VarDecl>(D)) {
      O["static"] = V->isStaticLocal();
      O["param"] = isa<ParmVarDecl>(V);
    }
    Vars.push_back(std::move(O));
    return Id;
  }

  const Expr *skip(const Expr *E) {
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) E = X->getSubExpr();
        else return E;
      } else if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
          E = X->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
  }

  void tyInfo(json::Object &O, QualType T) {
    if (T.isNull()) return;
    O["type"] = ty(T);
    QualType N = T.getCanonicalType().getNonReferenceType();
    if (N->isIntegralOrEnumerationType() && !N->isDependentType() && !N->isIncompleteType()) {
      O["w"] = (int64_t)C.getTypeSize(N);
      O["sg"] = N->isSignedIntegerOrEnumerationType();
    }
  }

  int node(const Stmt *S) {
    if (!S) return -1;
    if (auto *E = dyn_cast<Expr>(S)) S = skip(E);
    auto It = Ids.find(S);
    if (It != Ids.end()) return It->second;
    int Id = Nodes.size();
    Ids[S] = Id;
    Nodes.push_back(nullptr);
    json::Object O;
    build(S, O);
    O["l"] = line(S->getBeginLoc());
    auto T = TryOf.find(S);
    if (T != TryOf.end() && !T->second.empty()) {
      json::Array A;
      for (int X : T->second) A.push_back(X);
      O["try"] = std::move(A);
    }
    Nodes[Id] = std::move(O);
    return Id;
  }

  void callee(json::Object &O, const FunctionDecl *F) {
    O["fn"] = qname(F);
    O["fid"] = fid(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      O["cm"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["sm"] = M->isStatic();
    }
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    O["nm"] = F->getNameAsString();
    O["inroot"] = inRoots(F->getLocation());
    if (F->isNoReturn()) O["noret"] = true;
  }

  void build(const Stmt *S, json::Object &O) {
    if (auto *E = dyn_cast<Expr>(S)) {
      tyInfo(O, E->getType());
      if (E->isGLValue()) O["lv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          (E->getType()->isIntegralOrEnumerationType()) && E->isPRValue()) {
        Expr::EvalResult R;
        if (!isa<CallExpr>(E) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
          O["k"] = "const";
          llvm::SmallString<32> Str;
          R.Val.getInt().toString(Str, 10);
          O["v"] = std::string(Str.str());
          const Expr *U = E->IgnoreParenImpCasts();
          if (auto *D = dyn_cast<DeclRefExpr>(U)) O["cname"] = qname(D->getDecl());
          else if (auto *M = dyn_cast<MemberExpr>(U)) O["cname"] = qname(M->getMemberDecl());
          return;
        }
      }
      if (E->getType()->isAnyPointerType() || E->getType()->isNullPtrType())
        if (!E->isValueDependent() && E->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull)) {
          O["k"] = "null";
          return;
        }
    }
    if (auto *X = dyn_cast<CastExpr>(S)) {
      O["k"] = X->getCastKind() == CK_LValueToRValue ? "load" : "cast";
      O["ck"] = X->getCastKindName();
      O["a"] = node(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<StringLiteral>(S)) {
      O["k"] = "str";
      if (X->getCharByteWidth() == 1) O["v"] = latin(X->getBytes());
      return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      O["k"] = "float";
      O["v"] = X->getValueAsApproximateDouble();
      return;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasLocalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) {
          O["k"] = "var";
          O["var"] = varId(V);
          O["name"] = V->getNameAsString();
          if (V->isStaticLocal()) O["sl"] = true;
        } else {
          O["k"] = "glob";
          O["name"] = qname(V);
        }
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "func";
        callee(O, F);
      } else if (isa<EnumConstantDecl>(D)) {
        O["k"] = "other"; O["cls"] = "EnumRef";
      } else {
        O["k"] = "var"; O["var"] = varId(D); O["name"] = D->getNameAsString();
      }
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(S)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "mem";
        O["arrow"] = X->isArrow();
        O["base"] = node(X->getBase());
        O["fq"] = qname(F);
        if (F->getParent()->isUnion()) O["un"] = 1;
        O["name"] = F->getNameAsString();
      } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "glob"; O["name"] = qname(V);
      } else {
        O["k"] = "memfn";
        O["base"] = node(X->getBase());
        O["arrow"] = X->isArrow();
        if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) callee(O, M);
      }
      return;
    }
    if (isa<CXXThisExpr>(S)) { O["k"] = "this"; return; }
    if (auto *X = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["a"] = node(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(S)) {
      O["k"] = X->isLogicalOp() ? "log" : (X->isAssignmentOp() ? "asg" : "bin");
      O["op"] = X->getOpcodeStr().str();
      O["a"] = node(X->getLHS());
      O["b"] = node(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) {
        json::Object T; tyInfo(T, CA->getComputationResultType());
        O["ct"] = std::move(T);
      }
      return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(S)) {
      O["k"] = "cond";
      O["c"] = node(X->getCond());
      O["a"] = node(X->getTrueExpr());
      O["b"] = node(X->getFalseExpr());
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "idx";
      O["base"] = node(X->getBase());
      O["i"] = node(X->getIdx());
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      json::Array A;
      const FunctionDecl *F = X->getDirectCallee();
      unsigned Start = 0;
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
        O["opc"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          O["obj"] = node(X->getArg(0));
          O["oarrow"] = false;
          Start = 1;
        }
      } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          O["obj"] = node(ME->getBase());
          O["oarrow"] = ME->isArrow();
          O["qual"] = ME->hasQualifier();
        } else
          O["fexpr"] = node(MC->getCallee());
      } else if (!F)
        O["fexpr"] = node(X->getCallee());
      if (F) callee(O, F);
      for (unsigned I = Start; I < X->getNumArgs(); ++I) A.push_back(node(X->getArg(I)));
      O["args"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "ctor";
      callee(O, X->getConstructor());
      json::Array A;
      for (auto *Y : X->arguments()) A.push_back(node(Y));
      O["args"] = std::move(A);
      O["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
      O["elid"] = X->isElidable();
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new";
      O["at"] = ty(X->getAllocatedType());
      O["array"] = X->isArray();
      if (X->isArray() && X->getArraySize()) O["n"] = node(*X->getArraySize());
      if (X->getInitializer()) O["init"] = node(X->getInitializer());
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      O["k"] = "delete";
      O["a"] = node(X->getArgument());
      O["array"] = X->isArrayForm();
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(S)) {
      O["k"] = "throw";
      if (X->getSubExpr()) O["a"] = node(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret";
      if (X->getRetValue()) O["a"] = node(X->getRetValue());
      return;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object VO;
          VO["var"] = varId(V);
          VO["type"] = ty(V->getType());
          tyInfo(VO, V->getType());
          VO["static"] = V->isStaticLocal();
          if (V->getInit()) VO["init"] = node(V->getInit());
          A.push_back(std::move(VO));
        }
      O["vars"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["k"] = "other"; O["cls"] = "sizeof"; (void)X; return;
    }
    if (auto *X = dyn_cast<InitListExpr>(S)) {
      O["k"] = "initlist";
      json::Array A;
      for (auto *Y : X->inits()) A.push_back(node(Y));
      O["ch"] = std::move(A);
      return;
    }
    if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
      O["k"] = "zero"; return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "lambda";
      json::Array A;
      for (auto *Y : X->capture_inits()) if (Y) A.push_back(node(Y));
      O["ch"] = std::move(A);
      return;
    }
    O["k"] = "other";
    O["cls"] = S->getStmtClassName();
    json::Array A;
    if (isa<Expr>(S))
      for (auto *Y : S->children()) if (Y) A.push_back(node(Y));
    O["ch"] = std::move(A);
  }

  void tryWalk(const Stmt *S, std::vector<int> &Stack) {
    if (!S) return;
    if (!Stack.empty()) TryOf[S] = Stack;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int Id = TryIds.size();
      TryIds[T] = Id;
      Stack.push_back(Id);
      tryWalk(T->getTryBlock(), Stack);
      Stack.pop_back();
      for (unsigned I = 0; I < T->getNumHandlers(); ++I) tryWalk(T->getHandler(I), Stack);
      return;
    }
    for (auto *Y : S->children()) tryWalk(Y, Stack);
  }

  void function(const FunctionDecl *F) {
    std::string Id = fid(F);
    if (Funcs.find(Id) != Funcs.end()) return;
    Ids.clear(); Nodes.clear(); VarIds.clear(); Vars.clear(); TryOf.clear(); TryIds.clear();
    std::vector<int> Stack;
    tryWalk(F->getBody(), Stack);
    json::Object O;
    std::string File; unsigned Line = 0;
    inRoots(F->getBody()->getBeginLoc(), &File, &Line);
    O["fid"] = Id; O["fn"] = qname(F); O["nm"] = F->getNameAsString();
    O["file"] = File; O["line"] = line(F->getLocation());
    O["endline"] = line(F->getBody()->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      O["virt"] = M->isVirtual();
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["access"] = (int)M->getAccess();
      json::Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fid(X));
      O["overrides"] = std::move(Ov);
    }
    O["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "fn";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) O["copyctor"] = CD->isCopyConstructor();
    json::Array P;
    for (auto *X : F->parameters()) P.push_back(varId(X));
    O["params"] = std::move(P);

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) { O["nocfg"] = true; Funcs[Id] = std::move(O); return; }
    json::Array Blocks;
    for (const CFGBlock *B : *G) {
      json::Object BO2;
      BO2["id"] = (int64_t)B->getBlockID();
      json::Array El;
      std::set<int> Seen;
      for (const CFGElement &E : *B) {
        if (auto S = E.getAs<CFGStmt>()) {
          const Stmt *St = S->getStmt();
          if (isa<CompoundStmt>(St)) continue;
          int N = node(St);
          if (!Seen.insert(N).second) continue;
          El.push_back(N);
        } else if (auto I = E.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *CI = I->getInitializer();
          json::Object X;
          X["e"] = "init";
          if (CI->isAnyMemberInitializer()) {
            X["field"] = CI->getAnyMember()->getNameAsString();
            X["fq"] = qname(CI->getAnyMember());
            tyInfo(X, CI->getAnyMember()->getType());
          } else if (CI->isBaseInitializer()) X["base"] = ty(QualType(CI->getBaseClass(), 0));
          else X["deleg"] = true;
          X["written"] = CI->isWritten();
          X["init"] = node(CI->getInit());
          X["l"] = line(CI->getSourceLocation());
          El.push_back(std::move(X));
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          json::Object X;
          X["e"] = "dtor"; X["var"] = varId(D->getVarDecl());
          X["type"] = ty(D->getVarDecl()->getType());
          X["l"] = line(D->getTriggerStmt()->getEndLoc());
          El.push_back(std::move(X));
        } else if (auto D = E.getAs<CFGDeleteDtor>()) {
          json::Object X; X["e"] = "deldtor"; X["n"] = node(D->getDeleteExpr()->getArgument());
          El.push_back(std::move(X));
        } else if (auto D = E.getAs<CFGMemberDtor>()) {
          json::Object X; X["e"] = "memdtor"; X["fq"] = qname(D->getFieldDecl());
          El.push_back(std::move(X));
        } else if (auto D = E.getAs<CFGBaseDtor>()) {
          json::Object X; X["e"] = "basedtor"; X["base"] = ty(D->getBaseSpecifier()->getType());
          El.push_back(std::move(X));
        }
      }
      BO2["el"] = std::move(El);
      if (const Stmt *T = B->getTerminatorStmt()) {
        json::Object TO;
        TO["k"] = T->getStmtClassName();
        if (isa<SwitchStmt>(T)) TO["c"] = node(cast<SwitchStmt>(T)->getCond());
        else if (const Expr *LC = B->getLastCondition()) TO["c"] = node(LC);
        TO["l"] = line(T->getBeginLoc());
        if (isa<CXXTryStmt>(T)) TO["try"] = TryIds[T];
        BO2["term"] = std::move(TO);
      }
      if (const Stmt *L = B->getLabel()) {
        json::Object LO;
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R, R2;
          if (CS->getLHS()->EvaluateAsInt(R, C)) {
            LO["case"] = std::to_string(R.Val.getInt().getExtValue());
            if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R2, C))
              LO["hi"] = std::to_string(R2.Val.getInt().getExtValue());
          }
          const Expr *U = CS->getLHS()->IgnoreParenImpCasts();
          if (auto *CE = dyn_cast<ConstantExpr>(U)) U = CE->getSubExpr()->IgnoreParenImpCasts();
          if (auto *D = dyn_cast<DeclRefExpr>(U)) LO["cname"] = qname(D->getDecl());
        } else if (isa<DefaultStmt>(L)) LO["default"] = true;
        else if (auto *CT = dyn_cast<CXXCatchStmt>(L)) {
          LO["catch"] = true;
          if (CT->getExceptionDecl()) LO["ctype"] = ty(CT->getExceptionDecl()->getType());
        }
        BO2["label"] = std::move(LO);
      }
      json::Array Su;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
        const CFGBlock *T = I->getReachableBlock();
        if (T) Su.push_back((int64_t)T->getBlockID());
        else Su.push_back(nullptr);
      }
      BO2["succ"] = std::move(Su);
      if (B->hasNoReturnElement()) BO2["noret"] = true;
      if (B->getLoopTarget()) BO2["loop"] = true;
      Blocks.push_back(std::move(BO2));
    }
    O["blocks"] = std::move(Blocks);
    O["entry"] = (int64_t)G->getEntry().getBlockID();
    O["exit"] = (int64_t)G->getExit().getBlockID();
    O["nodes"] = std::move(Nodes);
    O["vars"] = std::move(Vars);
    Nodes = json::Array(); Vars = json::Array();
    Funcs[Id] = std::move(O);
  }

  void record(const CXXRecordDecl *R) {
    std::string N = qname(R);
    if (Records.find(N) != Records.end()) return;
    json::Object O;
    std::string File; unsigned Line;
    inRoots(R->getLocation(), &File, &Line);
    O["file"] = File; O["line"] = (int64_t)Line;
    json::Array F;
    for (auto *X : R->fields()) {
      json::Object FO;
      FO["name"] = X->getNameAsString(); FO["fq"] = qname(X);
      tyInfo(FO, X->getType());
      FO["mutable"] = X->isMutable();
      FO["access"] = (int)X->getAccess();
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (auto &X : R->bases()) B.push_back(ty(X.getType()));
    O["bases"] = std::move(B);
    json::Array M;
    for (auto *X : R->methods()) {
      json::Object MO;
      MO["fid"] = fid(X); MO["nm"] = X->getNameAsString();
      MO["virt"] = X->isVirtual(); MO["pure"] = X->isPureVirtual();
      MO["implicit"] = X->isImplicit(); MO["defaulted"] = X->isDefaulted(); MO["deleted"] = X->isDeleted();
      MO["const"] = X->isConst(); MO["static"] = X->isStatic();
      MO["access"] = (int)X->getAccess();
      MO["ret"] = ty(X->getReturnType());
      MO["copyasg"] = X->isCopyAssignmentOperator();
      if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) MO["copyctor"] = CD->isCopyConstructor();
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    Records[N] = std::move(O);
  }

  static bool apInt(const APValue &V, json::Array &A) {
    if (!V.isArray()) return false;
    for (unsigned I = 0; I < V.getArraySize(); ++I) {
      const APValue &E = I < V.getArrayInitializedElts() ? V.getArrayInitializedElt(I) : V.getArrayFiller();
      if (E.isInt()) A.push_back(E.getInt().getExtValue());
      else return false;
    }
    return true;
  }

  void global(const VarDecl *V, const std::string &Name) {
    const VarDecl *D = nullptr;
    const Expr *I = V->getAnyInitializer(D);
    if (!I || I->isValueDependent()) return;
    json::Object O;
    O["type"] = ty(V->getType());
    std::string File; unsigned Line = 0;
    inRoots((D ? D : V)->getLocation(), &File, &Line);
    O["file"] = File; O["line"] = (int64_t)Line;
    QualType T = V->getType();
    O["const"] = C.getBaseElementType(T).isConstQualified();
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (I->EvaluateAsInt(R, C)) O["int"] = std::to_string(R.Val.getInt().getExtValue());
    } else if (T->isArrayType() && C.getBaseElementType(T)->isIntegralOrEnumerationType()) {
      if (auto *SL = dyn_cast<StringLiteral>(skip(I))) {
        json::Array A; uint64_t N = 0;
        if (auto *CA = C.getAsConstantArrayType(T)) N = CA->getSize().getZExtValue();
        else if (auto *CB = C.getAsConstantArrayType(SL->getType())) N = CB->getSize().getZExtValue();
        llvm::StringRef B = SL->getBytes();
        for (uint64_t K = 0; K < N; ++K) A.push_back((int64_t)(K < B.size() ? (signed char)B[K] : 0));
        O["arr"] = std::move(A);
      } else if (const APValue *AV = (D ? D : V)->evaluateValue()) {
        json::Array A;
        if (apInt(*AV, A)) O["arr"] = std::move(A);
      }
    } else {
      // look for a single string literal (std::string constants, const char*)
      if (auto *CE = dyn_cast<CXXConstructExpr>(skip(I))) {
        json::Array A;
        for (auto *Arg : CE->arguments()) {
          Expr::EvalResult R;
          if (Arg->getType()->isIntegralOrEnumerationType() && Arg->EvaluateAsInt(R, C)) A.push_back(R.Val.getInt().getExtValue());
        }
        O["ints"] = std::move(A);
      }
      std::vector<const Stmt *> W{I};
      std::vector<const StringLiteral *> L;
      while (!W.empty()) {
        const Stmt *S = W.back(); W.pop_back();
        if (!S) continue;
        if (auto *E = dyn_cast<Expr>(S)) S = skip(E);
        if (auto *SL = dyn_cast<StringLiteral>(S)) L.push_back(SL);
        for (auto *Y : S->children()) W.push_back(Y);
      }
      if (L.size() == 1 && L[0]->getCharByteWidth() == 1) O["str"] = latin(L[0]->getBytes());
      else if (L.empty() && ty(T).find("basic_string<char") != std::string::npos) {
        auto *CE = dyn_cast<CXXConstructExpr>(I->IgnoreImplicit());
        if (CE && CE->getNumArgs() == 0) O["str"] = "";
      }
    }
    if (Globals.find(Name) == Globals.end()) Globals[Name] = std::move(O);
  }

  struct V : RecursiveASTVisitor<V> {
    Exporter &X;
    V(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
      if (F->isImplicit() || F->isDefaulted()) return true;
      if (!X.inRoots(F->getBody()->getBeginLoc())) return true;
      X.function(F);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
      if (!X.inRoots(R->getLocation())) return true;
      X.record(R);
      return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
      if (!X.inRoots(E->getLocation())) return true;
      json::Object O; json::Array A;
      for (auto *C : E->enumerators()) {
        json::Object EO; EO["name"] = C->getNameAsString();
        EO["q"] = X.qname(C);
        EO["v"] = C->getInitVal().getExtValue();
        A.push_back(std::move(EO));
      }
      O["items"] = std::move(A);
      std::string N = X.qname(E);
      if (E->getName().empty()) {
        std::string File; unsigned Line = 0; X.inRoots(E->getLocation(), &File, &Line);
        N += "@" + std::to_string(Line);
      }
      X.Enums[N] = std::move(O);
      return true;
    }
    bool VisitVarDecl(VarDecl *D) {
      if (isa<ParmVarDecl>(D) || D->getDeclContext()->isDependentContext()) return true;
      if (!X.inRoots(D->getLocation())) return true;
      if (D->isStaticLocal()) {
        auto *F = dyn_cast<FunctionDecl>(D->getDeclContext());
        if (!F) return true;
        X.global(D, X.qname(F) + "::" + D->getNameAsString());
        return true;
      }
      if (D->hasLocalStorage()) return true;
      X.global(D, X.qname(D));
      return true;
    }
  };

  void run() {
    V Vis(*this);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    Out["funcs"] = std::move(Funcs);
    Out["records"] = std::move(Records);
    Out["enums"] = std::move(Enums);
    Out["globals"] = std::move(Globals);
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C);
    E.run();
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

// usage: export FILE OUT ROOT[,ROOT...] -- clang args
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::string File = argv[1], OutF = argv[2], R = argv[3];
  size_t P = 0;
  while (P <= R.size()) {
    size_t Q = R.find(',', P);
    if (Q == std::string::npos) Q = R.size();
    if (Q > P) Roots.push_back(R.substr(P, Q - P));
    P = Q + 1;
  }
  std::vector<std::string> Args;
  for (int I = 5; I < argc; ++I) Args.push_back(argv[I]);
  std::ifstream In(File);
  if (!In) { llvm::errs() << "cannot open " << File << "\n"; return 2; }
  std::string Code((std::istreambuf_iterator<char>(In)), std::istreambuf_iterator<char>());
  bool Ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), Code, Args, File, "pion-export");
  if (!Ok) return 3;
  std::error_code EC;
  llvm::raw_fd_ostream OS(OutF, EC);
  if (EC) return 2;
  OS << json::Value(std::move(Out));
  return 0;
}
