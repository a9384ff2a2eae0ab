// ltx: export the resolved program (typed AST + clang CFG) of /repo's functions as JSON.
// usage: ltx <root-prefix> <out.json> <file.cc> -- <compiler args>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::OStream;

static std::string Root, OutPath;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  OStream &J;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  std::map<const Stmt *, int> sid;
  std::map<const Decl *, int> did;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::vector<QualType> typeQ;
  std::vector<const RecordDecl *> recs;
  std::set<const RecordDecl *> recSeen;
  std::set<const FunctionDecl *> fnSeen;
  std::vector<const VarDecl *> globals;
  std::vector<const EnumDecl *> enums;
  Exporter(ASTContext &C, OStream &J) : C(C), J(J), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L, unsigned *line = nullptr, unsigned *col = nullptr) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) { if (line) *line = 0; if (col) *col = 0; return ""; }
    if (line) *line = P.getLine();
    if (col) *col = P.getColumn();
    std::string f = P.getFilename();
    llvm::SmallString<256> rp;
    if (!llvm::sys::fs::real_path(f, rp)) f = std::string(rp);
    return f;
  }
  std::map<FileID, std::string> fcache;
  std::string fileFast(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fcache.find(F);
    if (it != fcache.end()) return it->second;
    return fcache[F] = fileOf(L);
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    return fileFast(L).compare(0, Root.size(), Root) == 0;
  }
  int typeId(QualType T) {
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = typeList.size();
    types[s] = n; typeList.push_back(s); typeQ.push_back(T);
    return n;
  }
  int stmtId(const Stmt *S) {
    auto it = sid.find(S);
    if (it != sid.end()) return it->second;
    int n = sid.size() + 1; sid[S] = n; return n;
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = did.find(D);
    if (it != did.end()) return it->second;
    int n = did.size() + 1; did[D] = n; return n;
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP); os.flush(); return s;
  }
  std::string rqn(const RecordDecl *R) {
    if (isa<ClassTemplateSpecializationDecl>(R)) return C.getRecordType(R).getCanonicalType().getAsString(PP);
    return qn(R);
  }
  std::string fnKey(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        unsigned l, c; std::string f = fileOf(M->getParent()->getLocation(), &l, &c);
        auto b = f.rfind('/');
        std::string par;
        // distinguish instantiations of an enclosing template
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) par = fnKey(cast<FunctionDecl>(DC));
        return "lambda@" + f.substr(b + 1) + ":" + std::to_string(l) + ":" + std::to_string(c) + "#" + par + "#" + F->getNameAsString();
      }
    std::string n = NG.getName(F);
    if (n.empty()) n = qn(F);
    if (F->getFormalLinkage() == Linkage::Internal && !F->isInAnonymousNamespace()) {
      std::string f = fileFast(F->getLocation());
      auto b = f.rfind('/');
      n += "@" + f.substr(b + 1);
    }
    return n;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (F->isDefaulted() && !F->getBody()) return true;
    fns.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (recSeen.insert(R).second) recs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (E->isThisDeclarationADefinition() && !E->isDependentContext() && inRoot(E->getLocation())) enums.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && V->isThisDeclarationADefinition() &&
        !V->getDeclContext()->isDependentContext() && inRoot(V->getLocation()))
      globals.push_back(V);
    return true;
  }
  std::vector<FunctionDecl *> fns;

  void loc(SourceLocation L) {
    unsigned l, c;
    auto &SM = C.getSourceManager();
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isValid()) { J.attribute("l", (int64_t)P.getLine()); }
  }
  void varDecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("d", declId(V));
      J.attribute("n", V->getNameAsString());
      J.attribute("t", typeId(V->getType()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
      if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
        J.attributeArray("bind", [&] {
          for (auto *B : DD->bindings()) J.object([&] {
            J.attribute("d", declId(B)); J.attribute("n", B->getNameAsString());
            J.attribute("t", typeId(B->getType()));
            if (auto *HV = B->getHoldingVar()) { J.attribute("hv", declId(HV)); if (HV->getInit()) { J.attributeBegin("init"); stmt(HV->getInit()); J.attributeEnd(); } }
            else if (B->getBinding()) { J.attributeBegin("init"); stmt(B->getBinding()); J.attributeEnd(); }
          });
        });
      }
      if (V->getInit()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
    });
  }
  static std::string toUtf8(const StringLiteral *SL) {
    std::string out;
    auto add = [&](uint32_t c) {
      if (c < 0x80) out += (char)c;
      else if (c < 0x800) { out += (char)(0xC0 | c >> 6); out += (char)(0x80 | (c & 63)); }
      else if (c < 0x10000) { if (c >= 0xD800 && c < 0xE000) c = 0xFFFD; out += (char)(0xE0 | c >> 12); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
      else { out += (char)(0xF0 | c >> 18); out += (char)(0x80 | ((c >> 12) & 63)); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
    };
    if (SL->getCharByteWidth() == 1) { out = SL->getBytes().str(); if (!llvm::json::isUTF8(out)) out = llvm::json::fixUTF8(out); }
    else for (unsigned i = 0; i < SL->getLength(); i++) add(SL->getCodeUnit(i));
    return out;
  }
  void fnRef(const FunctionDecl *F) {
    J.attribute("fn", fnKey(F));
    J.attribute("qn", qn(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) J.attribute("cm", true);
      if (M->isStatic()) J.attribute("sm", true);
      if (M->isVirtual()) J.attribute("vm", true);
    }
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) J.attribute("nr", true);
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    J.object([&] {
      J.attribute("i", stmtId(S));
      J.attribute("k", S->getStmtClassName());
      loc(S->getBeginLoc());
      bool kids = true;
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", typeId(E->getType()));
        if (E->isLValue()) J.attribute("lv", 1); else if (E->isXValue()) J.attribute("lv", 2);
        if (!E->isValueDependent() && (E->getType()->isIntegralOrEnumerationType()) && !isa<IntegerLiteral>(E)) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
            J.attribute("cv", std::string(s));
          }
        }
        if (E->getType()->isFloatingType() && !E->isValueDependent()) {
          Expr::EvalResult R;
          if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
            llvm::SmallString<32> s; R.Val.getFloat().toString(s);
            J.attribute("fv", std::string(s));
          }
        }
      }
      if (auto *X = dyn_cast<DeclRefExpr>(S)) {
        auto *D = X->getDecl();
        J.attribute("d", declId(D)); J.attribute("n", D->getNameAsString());
        J.attribute("dk", D->getDeclKindName());
        if (auto *F = dyn_cast<FunctionDecl>(D)) fnRef(F);
        else if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage()) J.attribute("g", qn(V)); }
        else if (auto *B = dyn_cast<BindingDecl>(D)) { (void)B; }
        else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) J.attribute("g", qn(EC));
      } else if (auto *X = dyn_cast<MemberExpr>(S)) {
        auto *D = X->getMemberDecl();
        J.attribute("n", D->getNameAsString()); J.attribute("m", qn(D));
        J.attribute("d", declId(D));
        J.attribute("dk", D->getDeclKindName());
        if (X->isArrow()) J.attribute("ar", true);
        if (auto *F = dyn_cast<FunctionDecl>(D)) fnRef(F);
      } else if (auto *X = dyn_cast<CallExpr>(S)) {
        if (auto *F = X->getDirectCallee()) fnRef(F);
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) J.attribute("op", getOperatorSpelling(O->getOperator()));
      } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
        fnRef(X->getConstructor());
        if (X->getConstructor()->isCopyConstructor()) J.attribute("cc", "copy");
        else if (X->getConstructor()->isMoveConstructor()) J.attribute("cc", "move");
        if (X->getConstructor()->isImplicit() || X->getConstructor()->isDefaulted()) J.attribute("impl", true);
      } else if (auto *X = dyn_cast<IntegerLiteral>(S)) {
        llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
        J.attribute("v", std::string(s));
      } else if (auto *X = dyn_cast<CharacterLiteral>(S)) {
        J.attribute("v", std::to_string(X->getValue()));
      } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
        J.attribute("v", X->getValue() ? "1" : "0");
      } else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
        J.attribute("fv", [](double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return std::string(b); }(X->getValueAsApproximateDouble()));
      } else if (auto *X = dyn_cast<StringLiteral>(S)) {
        J.attribute("v", toUtf8(X)); J.attribute("w", (int)X->getCharByteWidth());
      } else if (auto *X = dyn_cast<UserDefinedLiteral>(S)) {
        (void)X;
      } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
        J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
        if (X->isPostfix()) J.attribute("post", true);
      } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
        J.attribute("op", X->getOpcodeStr());
        if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) { J.attribute("ct", typeId(CA->getComputationResultType())); J.attribute("clt", typeId(CA->getComputationLHSType())); }
      } else if (auto *X = dyn_cast<CastExpr>(S)) {
        J.attribute("ck", X->getCastKindName());
        if (auto *IC = dyn_cast<ImplicitCastExpr>(X)) { if (IC->isPartOfExplicitCast()) J.attribute("pex", true); }
        if (auto *CF = X->getConversionFunction()) { if (auto *F = dyn_cast<FunctionDecl>(CF)) { J.attribute("cfn", fnKey(F)); J.attribute("cqn", qn(F)); } }
      } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
        J.attribute("tt", (int)X->getKind());
        kids = false;
      } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
        if (X->isArray()) J.attribute("arr", true);
        J.attribute("at", typeId(X->getAllocatedType()));
      } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
        if (X->isArrayForm()) J.attribute("arr", true);
      } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
        J.attribute("fn", fnKey(X->getCallOperator()));
        J.attributeArray("caps", [&] {
          for (auto &cp : X->captures()) J.object([&] {
            if (cp.capturesThis()) J.attribute("this", true);
            else if (cp.capturesVariable()) { J.attribute("d", declId(cp.getCapturedVar())); J.attribute("n", cp.getCapturedVar()->getNameAsString());
              if (auto *VD = dyn_cast<VarDecl>(cp.getCapturedVar())) { J.attribute("t", typeId(VD->getType())); if (VD->isInitCapture() && VD->getInit()) { J.attributeBegin("init"); stmt(VD->getInit()); J.attributeEnd(); } } }
            J.attribute("ref", cp.getCaptureKind() == LCK_ByRef);
          });
        });
        kids = false;
      } else if (auto *X = dyn_cast<DeclStmt>(S)) {
        J.attributeArray("vars", [&] {
          for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
        });
        kids = false;
      } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
        J.attributeBegin("range"); stmt(X->getRangeStmt()); J.attributeEnd();
        J.attributeBegin("begin"); stmt(X->getBeginStmt()); J.attributeEnd();
        J.attributeBegin("end"); stmt(X->getEndStmt()); J.attributeEnd();
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); stmt(X->getInc()); J.attributeEnd();
        J.attributeBegin("var"); stmt(X->getLoopVarStmt()); J.attributeEnd();
        J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<ForStmt>(S)) {
        J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd();
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); stmt(X->getInc()); J.attributeEnd();
        J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<WhileStmt>(S)) {
        if (X->getConditionVariableDeclStmt()) { J.attributeBegin("cvar"); stmt(X->getConditionVariableDeclStmt()); J.attributeEnd(); }
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<DoStmt>(S)) {
        J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<IfStmt>(S)) {
        if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
        if (X->getConditionVariableDeclStmt()) { J.attributeBegin("cvar"); stmt(X->getConditionVariableDeclStmt()); J.attributeEnd(); }
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        J.attributeBegin("then"); stmt(X->getThen()); J.attributeEnd();
        J.attributeBegin("else"); stmt(X->getElse()); J.attributeEnd();
        if (X->isConstexpr()) J.attribute("cx", true);
        kids = false;
      } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
        if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
        J.attributeBegin("cond"); stmt(X->getCond()); J.attributeEnd();
        J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<CXXCatchStmt>(S)) {
        if (X->getExceptionDecl()) J.attribute("ct", typeId(X->getExceptionDecl()->getType()));
        J.attributeBegin("body"); stmt(X->getHandlerBlock()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) {
        J.attributeBegin("sub"); stmt(X->getExpr()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) {
        J.attributeBegin("sub"); stmt(X->getExpr()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {
        J.attributeBegin("sub"); stmt(X->getReplacement()); J.attributeEnd();
        kids = false;
      } else if (auto *X = dyn_cast<OpaqueValueExpr>(S)) {
        if (X->getSourceExpr()) { J.attribute("src", stmtId(X->getSourceExpr())); }
        kids = false;
      } else if (auto *X = dyn_cast<InitListExpr>(S)) {
        if (auto *RD = X->getType()->getAsRecordDecl()) J.attribute("rec", qn(RD));
      }
      if (kids && S->child_begin() != S->child_end())
        J.attributeArray("c", [&] { for (auto *K : S->children()) stmt(K); });
    });
  }
  void cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddInitializers = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddEHEdges = false;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) { J.attribute("cfg", nullptr); return; }
    std::map<const DeclStmt*, const DeclStmt*> Syn;
    for (auto I = G->synthetic_stmt_begin(); I != G->synthetic_stmt_end(); ++I) Syn[I->first] = I->second;
    J.attributeObject("cfg", [&] {
      J.attribute("entry", (int)G->getEntry().getBlockID());
      J.attribute("exit", (int)G->getExit().getBlockID());
      J.attributeArray("b", [&] {
        for (auto *B : *G) {
          J.object([&] {
            J.attribute("id", (int)B->getBlockID());
            if (B->hasNoReturnElement()) J.attribute("nr", true);
            J.attributeArray("e", [&] {
              for (auto &El : *B) {
                if (auto CS = El.getAs<CFGStmt>()) {
                  auto SY = Syn.find(dyn_cast<DeclStmt>(CS->getStmt()));
                  if (SY != Syn.end() && SY->first) {
                    J.object([&] { J.attribute("syn", stmtId(SY->second)); J.attribute("d", declId(SY->first->getSingleDecl())); });
                  } else J.value(stmtId(CS->getStmt()));
                }
                else if (auto CI = El.getAs<CFGInitializer>()) {
                  auto *I = CI->getInitializer();
                  J.object([&] {
                    J.attribute("init", I->isAnyMemberInitializer() ? I->getAnyMember()->getNameAsString() : std::string("<base>"));
                    if (I->getInit()) J.attribute("s", stmtId(I->getInit()));
                  });
                } else if (auto CD = El.getAs<CFGAutomaticObjDtor>()) {
                  J.object([&] { J.attribute("dtor", declId(CD->getVarDecl())); J.attribute("n", CD->getVarDecl()->getNameAsString());
                    if (auto *DD = CD->getDestructorDecl(C)) J.attribute("fn", fnKey(DD)); });
                }
              }
            });
            if (auto *T = B->getTerminatorStmt()) J.attribute("term", stmtId(T));
            if (B->getTerminator().getKind() != CFGTerminator::StmtBranch) J.attribute("tk", (int)B->getTerminator().getKind());
            if (auto *T = B->getTerminatorCondition(false)) J.attribute("tc", stmtId(T));
            if (auto *L = B->getLabel()) J.attribute("lab", stmtId(L));
            J.attributeArray("s", [&] {
              for (auto &Sc : B->succs()) {
                if (auto *R = Sc.getReachableBlock()) J.value((int)R->getBlockID());
                else J.value(nullptr);
              }
            });
          });
        }
      });
    });
  }
  void fn(const FunctionDecl *F) {
    J.object([&] {
      J.attribute("key", fnKey(F));
      J.attribute("qn", qn(F));
      J.attribute("n", F->getNameAsString());
      unsigned l, c; std::string f = fileOf(F->getLocation(), &l, &c);
      J.attribute("file", f.substr(Root.size()));
      J.attribute("line", (int)l);
      auto &SM = C.getSourceManager();
      PresumedLoc PE = SM.getPresumedLoc(SM.getExpansionLoc(F->getEndLoc()));
      if (PE.isValid()) J.attribute("eline", (int)PE.getLine());
      J.attribute("ret", typeId(F->getReturnType()));
      J.attribute("dk", static_cast<const Decl*>(F)->getDeclKindName());
      if (F->isDefaulted()) J.attribute("def", true);
      if (F->isImplicit()) J.attribute("implicit", true);
      if (F->isTemplateInstantiation()) J.attribute("inst", true);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("cls", rqn(M->getParent()));
        if (M->isConst()) J.attribute("cm", true);
        if (M->isStatic()) J.attribute("sm", true);
        if (M->isVirtual()) J.attribute("vm", true);
        if (M->isCopyAssignmentOperator()) J.attribute("ca", true);
        if (M->isMoveAssignmentOperator()) J.attribute("ma", true);
        if (M->getAccess() == AS_public) J.attribute("pub", true);
        if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
          if (K->isCopyConstructor()) J.attribute("cc", true);
          if (K->isMoveConstructor()) J.attribute("mc", true);
          J.attributeArray("inits", [&] {
            for (auto *I : K->inits()) J.object([&] {
              if (I->isAnyMemberInitializer()) { J.attribute("m", I->getAnyMember()->getNameAsString()); J.attribute("mq", qn(I->getAnyMember())); }
              else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
              else if (I->isBaseInitializer()) J.attribute("base", typeId(QualType(I->getBaseClass(), 0)));
              J.attribute("w", I->isWritten());
              if (I->getInit()) { J.attributeBegin("e"); stmt(I->getInit()); J.attributeEnd(); }
            });
          });
        }
      }
      J.attributeArray("params", [&] {
        for (auto *P : F->parameters()) J.object([&] {
          J.attribute("d", declId(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", typeId(P->getType()));
          if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) { J.attributeBegin("def"); stmt(P->getDefaultArg()); J.attributeEnd(); }
        });
      });
      J.attributeBegin("body"); stmt(F->getBody()); J.attributeEnd();
      cfg(F);
    });
  }
  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    J.object([&] {
      J.attributeArray("functions", [&] {
        for (size_t i = 0; i < fns.size(); i++) if (fnSeen.insert(fns[i]).second) fn(fns[i]);
      });
      J.attributeArray("globals", [&] {
        for (auto *V : globals) J.object([&] {
          J.attribute("qn", qn(V));
          unsigned l, c; std::string f = fileOf(V->getLocation(), &l, &c);
          J.attribute("file", f.substr(Root.size())); J.attribute("line", (int)l);
          J.attribute("t", typeId(V->getType()));
          J.attribute("d", declId(V));
          if (V->getInit()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
        });
      });
      J.attributeArray("enums", [&] {
        for (auto *E : enums) J.object([&] {
          J.attribute("qn", qn(E));
          J.attributeArray("v", [&] { for (auto *K : E->enumerators()) J.object([&] { J.attribute("n", K->getNameAsString()); llvm::SmallString<32> s; K->getInitVal().toString(s, 10); J.attribute("v", std::string(s)); }); });
        });
      });
      J.attributeArray("records", [&] {
        for (auto *R : recs) J.object([&] {
          J.attribute("qn", rqn(R));
          J.attribute("t", typeId(C.getRecordType(R)));
          unsigned l, c; std::string f = fileOf(R->getLocation(), &l, &c);
          J.attribute("file", f.substr(Root.size())); J.attribute("line", (int)l);
          if (R->isUnion()) J.attribute("union", true);
          if (auto *X = dyn_cast<CXXRecordDecl>(R)) {
            if (X->isLambda()) J.attribute("lambda", true);
            J.attributeArray("bases", [&] { for (auto &B : X->bases()) J.value(typeId(B.getType())); });
            J.attribute("ucc", X->hasUserDeclaredCopyConstructor());
            J.attribute("uca", X->hasUserDeclaredCopyAssignment());
            J.attribute("udt", X->hasUserDeclaredDestructor());
            J.attributeArray("ctors", [&] { for (auto *K : X->ctors()) J.object([&] { J.attribute("fn", fnKey(K)); if (K->isDeleted()) J.attribute("del", true); if (K->isCopyConstructor()) J.attribute("cc", true); if (K->isMoveConstructor()) J.attribute("mc", true); if (K->isImplicit()) J.attribute("impl", true); if (K->isDefaulted()) J.attribute("defd", true); }); });
          }
          J.attributeArray("fields", [&] {
            for (auto *FD : R->fields()) J.object([&] {
              J.attribute("n", FD->getNameAsString()); J.attribute("t", typeId(FD->getType())); J.attribute("d", declId(FD));
              unsigned l, c; fileOf(FD->getLocation(), &l, &c); J.attribute("l", (int)l);
              if (FD->getInClassInitializer()) { J.attributeBegin("init"); stmt(FD->getInClassInitializer()); J.attributeEnd(); }
              J.attribute("acc", (int)FD->getAccess());
            });
          });
        });
      });
      // types last: list grows while exporting
      J.attributeArray("types", [&] {
        for (size_t i = 0; i < typeList.size(); i++) {
          QualType T = typeQ[i];
          J.object([&] {
            J.attribute("s", typeList[i]);
            QualType N = T.getNonReferenceType();
            if (T->isReferenceType()) J.attribute("ref", T->isRValueReferenceType() ? 2 : 1);
            if (N.isConstQualified()) J.attribute("const", true);
            if (!N->isDependentType()) {
              if (N->isIntegralOrEnumerationType() && !N->isIncompleteType()) { J.attribute("w", (int64_t)C.getTypeSize(N)); J.attribute("sg", N->isSignedIntegerOrEnumerationType()); if (N->isBooleanType()) J.attribute("bool", true); if (N->isEnumeralType()) J.attribute("enum", true); }
              if (N->isFloatingType()) J.attribute("fl", (int64_t)C.getTypeSize(N));
              if (N->isPointerType()) { J.attribute("ptr", typeIdNoGrow(N->getPointeeType())); }
              if (N->isArrayType()) { if (auto *CA = C.getAsConstantArrayType(N)) { J.attribute("alen", (int64_t)CA->getSize().getZExtValue()); J.attribute("elem", typeIdNoGrow(CA->getElementType())); } }
              if (auto *RD = N->getAsCXXRecordDecl()) { J.attribute("rec", qn(RD)); }
            }
          });
        }
      });
    });
  }
  std::string typeIdNoGrow(QualType T) { return T.getCanonicalType().getAsString(PP); }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "ltx: errors\n"; exit(3); }
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    if (EC) { llvm::errs() << "ltx: cannot write\n"; exit(4); }
    OStream J(os);
    Exporter X(C, J);
    X.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  Root = argv[1]; OutPath = argv[2];
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
  return T.run(&fac);
}
