// gwmx: resolved-program extractor.
// Parses one translation unit with clang and prints, as JSON, every function
// body, class and enum whose definition lies under one of the given roots.
// Macros are expanded, overloads/templates/virtuals resolved by clang's Sema;
// nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

static std::string replaceAll(std::string s, const std::string &a, const std::string &b) {
  size_t p = 0;
  while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); }
  return s;
}

class Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
public:
  json::Array Functions, Classes, Enums, Globals;
  std::set<const Decl *> Seen;
  std::map<const ValueDecl *, int> Ids;
  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true; PP.Bool = true; PP.TerseOutput = true;
  }
  bool inRoots(SourceLocation L, std::string *file = nullptr, unsigned *line = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return false;
    std::string f = P.getFilename();
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) f = rp.str();
    }
    for (auto &r : Roots)
      if (f.rfind(r, 0) == 0) { if (file) *file = f; if (line) *line = P.getLine(); return true; }
    return false;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro name
    SourceLocation cur = L; std::string name;
    while (cur.isMacroID()) {
      name = Lexer::getImmediateMacroName(cur, SM, Ctx.getLangOpts()).str();
      cur = SM.getImmediateMacroCallerLoc(cur);
    }
    return name;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    if (T->isPointerType()) return ty(T->getPointeeType()) + "*";
    std::string s = T.getAsString(PP);
    if (auto *RD = T->getAsCXXRecordDecl()) {
      std::string q = RD->getQualifiedNameAsString();
      if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        if (q.rfind("arma::", 0) == 0) {
          std::string a0;
          if (CTS->getTemplateArgs().size() > 0 && CTS->getTemplateArgs()[0].getKind() == TemplateArgument::Type)
            a0 = CTS->getTemplateArgs()[0].getAsType().getAsString(PP);
          bool d = a0 == "double";
          bool u = a0 == "unsigned long long" || a0 == "unsigned long";
          if (q == "arma::Mat") return d ? "mat" : u ? "umat" : "mat<" + a0 + ">";
          if (q == "arma::Col") return d ? "vec" : u ? "uvec" : "vec<" + a0 + ">";
          if (q == "arma::Row") return d ? "rowvec" : u ? "urowvec" : "rowvec<" + a0 + ">";
          if (q == "arma::Cube") return d ? "cube" : "cube<" + a0 + ">";
          // expression template: does it resolve to col / row / scalar element ?
          return q;
        }
        if (s.size() > 160) s = s.substr(0, 160);
        return s;
      }
      return q;
    }
    if (s.size() > 160) s = s.substr(0, 160);
    return s;
  }
  std::string fnKey(const FunctionDecl *FD) {
    std::string s = FD->getQualifiedNameAsString();
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      bool inr = inRoots(FD->getLocation());
      if (inr) {
        s += "<";
        for (unsigned i = 0; i < TA->size(); i++) {
          if (i) s += ",";
          std::string t; llvm::raw_string_ostream os(t);
          TA->get(i).print(PP, os, true); s += os.str();
        }
        s += ">";
      }
    }
    if (!inRoots(FD->getLocation())) return s;
    s += "(";
    for (unsigned i = 0; i < FD->getNumParams(); i++) {
      if (i) s += ",";
      s += ptype(FD->getParamDecl(i)->getType());
    }
    s += ")";
    return s;
  }
  std::string ptype(QualType T) {
    std::string s;
    if (T->isReferenceType()) {
      QualType P = T->getPointeeType();
      s = (P.isConstQualified() ? "const " : "") + ty(P) + (T->isRValueReferenceType() ? "&&" : "&");
    } else if (T->isPointerType()) {
      QualType P = T->getPointeeType();
      s = (P.isConstQualified() ? "const " : "") + ty(P) + "*";
    } else s = ty(T);
    return s;
  }
  int idOf(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1; Ids[D] = n; return n;
  }

  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k; o["l"] = line(S->getBeginLoc());
    return o;
  }
  json::Value Args(const Expr *const *b, unsigned n) {
    json::Array a;
    for (unsigned i = 0; i < n; i++) {
      if (isa<CXXDefaultArgExpr>(b[i])) {
        auto *D = cast<CXXDefaultArgExpr>(b[i]);
        json::Value v = E(D->getExpr());
        if (auto *o = v.getAsObject()) (*o)["def"] = true;
        a.push_back(std::move(v));
      } else a.push_back(E(b[i]));
    }
    return a;
  }
  json::Value E(const Expr *X) {
    if (!X) return nullptr;
    // strip noise
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) { X = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) { X = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(X)) { X = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
        auto ck = P->getCastKind();
        if (ck == CK_FloatingToIntegral || ck == CK_IntegralToBoolean || ck == CK_FloatingToBoolean ||
            ck == CK_PointerToBoolean || ck == CK_MemberPointerToBoolean || ck == CK_IntegralToFloating || ck==CK_IntegralCast) break;
        X = P->getSubExpr(); continue;
      }
      break;
    }
    std::string T = ty(X->getType());
    auto fin = [&](json::Object o) -> json::Value { o["t"] = T; return o; };
    if (auto *C = dyn_cast<CastExpr>(X)) {
      auto o = node("cast", X);
      switch (C->getCastKind()) {
        case CK_FloatingToIntegral: o["c"] = "f2i"; break;
        case CK_IntegralToFloating: o["c"] = "i2f"; break;
        case CK_IntegralCast: o["c"] = "i2i"; break;
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_MemberPointerToBoolean: o["c"] = "bool"; break;
        case CK_Dynamic: o["c"] = "dyn"; break;
        default: o["c"] = "id"; break;
      }
      o["imp"] = isa<ImplicitCastExpr>(X);
      o["from"] = ty(C->getSubExpr()->getType());
      o["e"] = E(C->getSubExpr());
      if (auto *FC = dyn_cast<CXXFunctionalCastExpr>(X)) {
        // T(x): the constructor conversion is the sub expression
        (void)FC;
      }
      return fin(std::move(o));
    }
    if (auto *L = dyn_cast<IntegerLiteral>(X)) {
      auto o = node("int", X); llvm::SmallString<32> s; L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      o["v"] = s.str().str(); return fin(std::move(o));
    }
    if (auto *L = dyn_cast<FloatingLiteral>(X)) {
      auto o = node("flt", X); llvm::SmallString<40> s; L->getValue().toString(s, 0, 0); o["v"] = s.str().str();
      return fin(std::move(o));
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) { auto o = node("bool", X); o["v"] = L->getValue(); return fin(std::move(o)); }
    if (auto *L = dyn_cast<clang::StringLiteral>(X)) { auto o = node("str", X); o["v"] = L->isOrdinary() ? json::fixUTF8(L->getString()) : ""; return fin(std::move(o)); }
    if (auto *L = dyn_cast<CharacterLiteral>(X)) { auto o = node("int", X); o["v"] = std::to_string(L->getValue()); return fin(std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) { return fin(node("null", X)); }
    if (isa<PredefinedExpr>(X)) { auto o = node("str", X); o["v"] = "__FUNCTION__"; return fin(std::move(o)); }
    if (isa<CXXThisExpr>(X)) return fin(node("this", X));
    if (auto *R = dyn_cast<DeclRefExpr>(X)) {
      auto *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = node("enum", X); o["n"] = EC->getQualifiedNameAsString(); o["v"] = (int64_t)EC->getInitVal().getExtValue();
        return fin(std::move(o));
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        auto o = node("fn", X); o["n"] = fnKey(FD); o["q"] = FD->getQualifiedNameAsString();
        return fin(std::move(o));
      }
      auto o = node("var", X); o["n"] = D->getNameAsString(); o["id"] = idOf(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["k"] = "gvar"; o["q"] = V->getQualifiedNameAsString();
        }
      } else if (isa<FieldDecl>(D)) o["k"] = "fieldref", o["q"] = D->getQualifiedNameAsString();
      return fin(std::move(o));
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      auto *D = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { auto o = node("gvar", X); o["n"] = V->getNameAsString(); o["q"] = V->getQualifiedNameAsString(); return fin(std::move(o)); }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = node("enum", X); o["n"] = EC->getQualifiedNameAsString(); o["v"] = (int64_t)EC->getInitVal().getExtValue(); return fin(std::move(o)); }
      auto o = node("mem", X); o["n"] = D->getNameAsString(); o["q"] = D->getQualifiedNameAsString();
      o["arrow"] = M->isArrow(); o["b"] = E(M->getBase());
      return fin(std::move(o));
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto o = node("op", X); o["o"] = getOperatorSpelling(C->getOperator());
      if (auto *FD = C->getDirectCallee()) { o["fn"] = fnKey(FD); o["q"] = FD->getQualifiedNameAsString();
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) o["const"] = MD->isConst(); }
      o["a"] = Args(C->getArgs(), C->getNumArgs());
      return fin(std::move(o));
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(X)) {
      auto o = node("mcall", X);
      const Expr *CE = C->getCallee()->IgnoreParenImpCasts();
      if (auto *MD = C->getMethodDecl()) {
        o["fn"] = fnKey(MD); o["q"] = MD->getQualifiedNameAsString(); o["m"] = MD->getNameAsString();
        bool virt = MD->isVirtual();
        if (auto *ME = dyn_cast<MemberExpr>(CE)) { if (ME->hasQualifier()) virt = false;
          if (auto *RD = ME->getBase()->getBestDynamicClassType()) (void)RD; }
        o["virt"] = virt; o["const"] = MD->isConst(); o["inroot"] = inRoots(MD->getLocation());
        json::Array pk; for (auto *p : MD->parameters()) pk.push_back(ptype(p->getType())); o["pt"] = std::move(pk);
        o["o"] = E(C->getImplicitObjectArgument());
        o["arrow"] = isa<MemberExpr>(CE) ? cast<MemberExpr>(CE)->isArrow() : false;
      } else {
        // call through pointer to member
        o["k"] = "pmcall";
        if (auto *B = dyn_cast<BinaryOperator>(CE)) {
          o["o"] = E(B->getLHS()); o["f"] = E(B->getRHS());
          if (auto *MPT = B->getRHS()->getType()->getAs<MemberPointerType>())
            if (auto *FPT = MPT->getPointeeType()->getAs<FunctionProtoType>()) {
              json::Array pk; for (auto p : FPT->param_types()) pk.push_back(ptype(p)); o["pt"] = std::move(pk);
            }
        }
      }
      o["a"] = Args(C->getArgs(), C->getNumArgs());
      return fin(std::move(o));
    }
    if (auto *C = dyn_cast<CallExpr>(X)) {
      auto o = node("call", X);
      if (auto *FD = C->getDirectCallee()) {
        o["fn"] = fnKey(FD); o["q"] = FD->getQualifiedNameAsString(); o["inroot"] = inRoots(FD->getLocation());
        json::Array pk; for (auto *p : FD->parameters()) pk.push_back(ptype(p->getType())); o["pt"] = std::move(pk);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) o["static"] = MD->isStatic();
      } else {
        o["f"] = E(C->getCallee());
        if (auto *PT = C->getCallee()->getType()->getAs<clang::PointerType>())
          if (auto *FPT = PT->getPointeeType()->getAs<FunctionProtoType>()) {
            json::Array pk; for (auto p : FPT->param_types()) pk.push_back(ptype(p)); o["pt"] = std::move(pk);
          }
      }
      o["a"] = Args(C->getArgs(), C->getNumArgs());
      return fin(std::move(o));
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(X)) {
      auto o = node("ctor", X);
      auto *CD = C->getConstructor();
      o["fn"] = fnKey(CD); o["cls"] = CD->getParent()->getQualifiedNameAsString();
      o["copy"] = CD->isCopyOrMoveConstructor(); o["move"] = CD->isMoveConstructor();
      o["inroot"] = inRoots(CD->getLocation()); o["defaulted"] = CD->isDefaulted() || CD->isImplicit();
      o["list"] = C->isListInitialization();
      json::Array pk; for (auto *p : CD->parameters()) pk.push_back(ptype(p->getType())); o["pt"] = std::move(pk);
      o["a"] = Args(C->getArgs(), C->getNumArgs());
      return fin(std::move(o));
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(X)) { auto o = node("ctor", X); o["fn"] = fnKey(C->getConstructor()); o["cls"] = C->getConstructor()->getParent()->getQualifiedNameAsString(); o["a"] = json::Array(); return fin(std::move(o)); }
    if (auto *I = dyn_cast<InitListExpr>(X)) {
      auto o = node("init", X); json::Array a;
      if (I->isTransparent() && I->getNumInits() == 1) return E(I->getInit(0));
      for (auto *e : I->inits()) a.push_back(E(e));
      o["a"] = std::move(a); return fin(std::move(o));
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) return fin(node("zero", X));
    if (auto *B = dyn_cast<BinaryOperator>(X)) {
      auto o = node(B->isAssignmentOp() ? "asg" : "bin", X);
      o["o"] = B->getOpcodeStr().str(); o["x"] = E(B->getLHS()); o["y"] = E(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = ty(CA->getComputationResultType());
      o["lt"] = ty(B->getLHS()->getType());
      o["rt"] = ty(B->getRHS()->getType());
      return fin(std::move(o));
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) {
      // &Class::method
      if (U->getOpcode() == UO_AddrOf)
        if (auto *R = dyn_cast<DeclRefExpr>(U->getSubExpr()->IgnoreParens()))
          if (auto *FD = dyn_cast<FunctionDecl>(R->getDecl())) {
            auto o = node("fnaddr", X); o["n"] = fnKey(FD); o["q"] = FD->getQualifiedNameAsString(); return fin(std::move(o));
          }
      auto o = node("un", X); o["o"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix();
      o["e"] = E(U->getSubExpr()); return fin(std::move(o));
    }
    if (auto *C = dyn_cast<ConditionalOperator>(X)) {
      auto o = node("cond", X); o["c"] = E(C->getCond()); o["x"] = E(C->getTrueExpr()); o["y"] = E(C->getFalseExpr());
      return fin(std::move(o));
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(X)) {
      auto o = node("idx", X); o["b"] = E(A->getBase()); o["i"] = E(A->getIdx()); return fin(std::move(o));
    }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) {
      auto o = node("new", X); o["nt"] = ty(N->getAllocatedType()); o["array"] = N->isArray();
      if (N->isArray() && N->getArraySize()) o["n"] = E(*N->getArraySize());
      if (N->getInitializer()) o["e"] = E(N->getInitializer());
      return fin(std::move(o));
    }
    if (auto *N = dyn_cast<CXXDeleteExpr>(X)) { auto o = node("del", X); o["array"] = N->isArrayForm(); o["e"] = E(N->getArgument()); return fin(std::move(o)); }
    if (auto *N = dyn_cast<CXXThrowExpr>(X)) { auto o = node("throw", X); o["e"] = N->getSubExpr() ? E(N->getSubExpr()) : json::Value(nullptr); o["tt"] = N->getSubExpr() ? ty(N->getSubExpr()->getType()) : ""; return fin(std::move(o)); }
    if (auto *L = dyn_cast<LambdaExpr>(X)) {
      auto o = node("lambda", X); json::Array ps;
      for (auto *p : L->getCallOperator()->parameters()) ps.push_back(Param(p));
      o["p"] = std::move(ps); o["body"] = S(L->getBody());
      json::Array caps;
      for (auto &c : L->captures()) if (c.capturesVariable()) { json::Object co; co["n"] = c.getCapturedVar()->getNameAsString(); co["id"] = idOf(c.getCapturedVar()); co["ref"] = c.getCaptureKind() == LCK_ByRef; 
         if (auto *cv = dyn_cast<VarDecl>(c.getCapturedVar())) if (cv->isInitCapture() && cv->getInit()) co["init"] = E(cv->getInit());
         caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      return fin(std::move(o));
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) { auto o = node("sizeof", X); o["v"] = U->isArgumentType() ? ty(U->getArgumentType()) : ty(U->getArgumentExpr()->getType()); return fin(std::move(o)); }
    if (auto *O = dyn_cast<OpaqueValueExpr>(X)) { if (O->getSourceExpr()) return E(O->getSourceExpr()); }
    if (auto *A = dyn_cast<ArrayInitLoopExpr>(X)) { return E(A->getCommonExpr()); }
    auto o = node("unk", X); o["c"] = X->getStmtClassName(); 
    json::Array ch; for (auto *c : X->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(E(ce)); else ch.push_back(S(c)); }
    o["ch"] = std::move(ch);
    return fin(std::move(o));
  }
  json::Value Param(const ParmVarDecl *p) {
    json::Object o; o["n"] = p->getNameAsString(); o["id"] = idOf(p); o["t"] = ty(p->getType()); o["pt"] = ptype(p->getType());
    return o;
  }
  json::Value VarD(const VarDecl *V) {
    json::Object o; o["n"] = V->getNameAsString(); o["id"] = idOf(V); o["t"] = ty(V->getType()); o["pt"] = ptype(V->getType());
    o["ref"] = V->getType()->isReferenceType(); o["static"] = V->isStaticLocal(); o["l"] = line(V->getLocation());
    o["const"] = V->getType().getNonReferenceType().isConstQualified();
    if (V->getInit()) o["i"] = E(V->getInit());
    if (auto *CA = Ctx.getAsConstantArrayType(V->getType())) { o["arr"] = (int64_t)CA->getSize().getZExtValue(); }
    return o;
  }
  json::Value S(const Stmt *X) {
    if (!X) return nullptr;
    auto withMacro = [&](json::Object &o) { auto m = macroOf(X->getBeginLoc()); if (!m.empty()) o["mac"] = m; };
    if (auto *C = dyn_cast<CompoundStmt>(X)) {
      auto o = node("block", X); json::Array a; for (auto *s : C->body()) a.push_back(S(s)); o["s"] = std::move(a); withMacro(o); return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(X)) {
      auto o = node("decl", X); json::Array a;
      for (auto *d : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          a.push_back(VarD(V));
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto *b : DD->bindings()) { json::Object bo; bo["n"] = b->getNameAsString(); bo["id"] = idOf(b); bo["t"] = ty(b->getType()); if (b->getBinding()) bo["e"] = E(b->getBinding()); bs.push_back(std::move(bo)); }
            a.back().getAsObject()->insert({"bind", std::move(bs)});
          }
        }
      }
      o["d"] = std::move(a); return o;
    }
    if (auto *I = dyn_cast<IfStmt>(X)) {
      auto o = node("if", X); withMacro(o);
      if (I->getInit()) o["init"] = S(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cv"] = S(I->getConditionVariableDeclStmt());
      o["c"] = E(I->getCond()); o["x"] = S(I->getThen()); o["y"] = S(I->getElse()); return o;
    }
    if (auto *F = dyn_cast<ForStmt>(X)) {
      auto o = node("for", X); o["init"] = S(F->getInit()); o["c"] = E(F->getCond()); o["inc"] = E(F->getInc()); o["body"] = S(F->getBody()); return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(X)) { auto o = node("while", X); o["c"] = E(W->getCond()); o["body"] = S(W->getBody()); if (W->getConditionVariableDeclStmt()) o["cv"] = S(W->getConditionVariableDeclStmt()); return o; }
    if (auto *W = dyn_cast<DoStmt>(X)) { auto o = node("do", X); o["c"] = E(W->getCond()); o["body"] = S(W->getBody()); return o; }
    if (auto *R = dyn_cast<CXXForRangeStmt>(X)) {
      auto o = node("rfor", X); o["v"] = VarD(R->getLoopVariable()); o["r"] = E(R->getRangeInit()); o["body"] = S(R->getBody()); return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(X)) { auto o = node("switch", X); o["c"] = E(W->getCond()); o["body"] = S(W->getBody()); return o; }
    if (auto *C = dyn_cast<CaseStmt>(X)) { auto o = node("case", X); o["v"] = E(C->getLHS()); o["s"] = S(C->getSubStmt()); return o; }
    if (auto *C = dyn_cast<DefaultStmt>(X)) { auto o = node("default", X); o["s"] = S(C->getSubStmt()); return o; }
    if (isa<BreakStmt>(X)) return node("break", X);
    if (isa<ContinueStmt>(X)) return node("continue", X);
    if (isa<NullStmt>(X)) return node("nop", X);
    if (auto *R = dyn_cast<ReturnStmt>(X)) { auto o = node("ret", X); o["e"] = E(R->getRetValue()); withMacro(o); return o; }
    if (auto *T = dyn_cast<CXXTryStmt>(X)) {
      auto o = node("try", X); o["body"] = S(T->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); json::Object h; h["l"] = line(H->getBeginLoc()); h["t"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : "...";
        if (H->getExceptionDecl()) { h["n"] = H->getExceptionDecl()->getNameAsString(); h["id"] = idOf(H->getExceptionDecl()); h["byref"] = H->getExceptionDecl()->getType()->isReferenceType(); }
        h["body"] = S(H->getHandlerBlock()); hs.push_back(std::move(h)); }
      o["h"] = std::move(hs); return o;
    }
    if (auto *A = dyn_cast<AttributedStmt>(X)) return S(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(X)) { auto o = node("label", X); o["n"] = L->getName(); o["s"] = S(L->getSubStmt()); return o; }
    if (auto *G = dyn_cast<GotoStmt>(X)) { auto o = node("goto", X); o["n"] = G->getLabel()->getNameAsString(); return o; }
    if (auto *O = dyn_cast<OMPExecutableDirective>(X)) {
      auto o = node("omp", X); o["d"] = llvm::omp::getOpenMPDirectiveName(O->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : O->clauses()) {
        json::Object co; co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (c->isImplicit()) co["implicit"] = true;
        json::Array ch; for (auto *e : c->children()) if (e) if (auto *ee = dyn_cast<Expr>(e)) ch.push_back(E(ee));
        co["e"] = std::move(ch);
        if (auto *RC = dyn_cast<OMPReductionClause>(c)) { json::Array vs; for (auto *v : RC->varlists()) vs.push_back(E(v)); co["e"] = std::move(vs); co["op"] = RC->getNameInfo().getAsString(); }
        if (auto *NC = dyn_cast<OMPNumThreadsClause>(c)) { json::Array vs; vs.push_back(E(NC->getNumThreads()->IgnoreImpCasts())); co["e"] = std::move(vs);
           // captured expression: print the original initialiser
           if (auto *dr = dyn_cast<DeclRefExpr>(NC->getNumThreads()->IgnoreParenImpCasts())) if (auto *oc = dyn_cast<OMPCapturedExprDecl>(dr->getDecl())) { json::Array v2; v2.push_back(E(oc->getInit())); co["e"] = std::move(v2);} }
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (O->hasAssociatedStmt()) {
        const Stmt *B = O->getRawStmt();
        o["body"] = S(B);
      }
      return o;
    }
    if (auto *C = dyn_cast<CapturedStmt>(X)) return S(C->getCapturedStmt());
    if (auto *C = dyn_cast<OMPCanonicalLoop>(X)) return S(C->getLoopStmt());
    if (auto *Ex = dyn_cast<Expr>(X)) { auto o = node("expr", X); o["e"] = E(Ex); withMacro(o); return o; }
    auto o = node("unkstmt", X); o["c"] = X->getStmtClassName(); return o;
  }

  void addFunction(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted() && !FD->isDeleted()) return;
    if (FD->isDependentContext()) return;
    std::string f; unsigned ln;
    if (!inRoots(FD->getLocation(), &f, &ln)) return;
    if (!Seen.insert(FD).second) return;
    json::Object o; o["key"] = fnKey(FD); o["q"] = FD->getQualifiedNameAsString(); o["n"] = FD->getNameAsString(); o["file"] = f; o["l"] = (int64_t)ln;
    o["le"] = line(FD->getEndLoc());
    o["rt"] = ty(FD->getReturnType()); o["rpt"] = ptype(FD->getReturnType());
    json::Array ps; for (auto *p : FD->parameters()) ps.push_back(Param(p)); o["p"] = std::move(ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = MD->getParent()->getQualifiedNameAsString(); o["static"] = MD->isStatic(); o["const"] = MD->isConst(); o["virt"] = MD->isVirtual();
      o["access"] = (int)MD->getAccess();
      if (MD->getParent()->isLambda()) return;
      json::Array ov; for (auto *b : MD->overridden_methods()) ov.push_back(fnKey(b)); o["ov"] = std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        o["ctor"] = true; o["copyctor"] = CD->isCopyConstructor(); o["movector"] = CD->isMoveConstructor();
        json::Array in;
        for (auto *I : CD->inits()) {
          json::Object io; io["l"] = line(I->getSourceLocation());
          if (I->isMemberInitializer()) { io["m"] = I->getMember()->getNameAsString(); io["q"] = I->getMember()->getQualifiedNameAsString(); }
          else if (I->isBaseInitializer()) io["b"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          io["written"] = I->isWritten();
          io["e"] = E(I->getInit()); in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      if (isa<CXXDestructorDecl>(MD)) o["dtor"] = true;
    }
    o["defaulted"] = FD->isDefaulted(); o["deleted"] = FD->isDeleted();
    if (FD->doesThisDeclarationHaveABody() && FD->getBody()) o["body"] = S(FD->getBody());
    Functions.push_back(std::move(o));
  }
  void addClass(const CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return;
    std::string f; unsigned ln;
    if (!inRoots(RD->getLocation(), &f, &ln)) return;
    if (!Seen.insert(RD).second) return;
    json::Object o; o["q"] = RD->getQualifiedNameAsString(); o["file"] = f; o["l"] = (int64_t)ln;
    json::Array bs; for (auto &b : RD->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *F : RD->fields()) { json::Object fo; fo["n"] = F->getNameAsString(); fo["q"] = F->getQualifiedNameAsString(); fo["t"] = ty(F->getType()); fo["pt"] = ptype(F->getType()); fo["l"] = line(F->getLocation()); if (F->getInClassInitializer()) fo["i"] = E(F->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : RD->methods()) { json::Object mo; mo["n"] = M->getNameAsString(); mo["key"] = fnKey(M); mo["virt"] = M->isVirtual(); mo["pure"] = M->isPureVirtual(); mo["implicit"] = M->isImplicit(); mo["const"] = M->isConst(); mo["static"] = M->isStatic(); mo["l"] = line(M->getLocation());
      mo["deleted"] = M->isDeleted(); mo["access"] = (int)M->getAccess(); mo["pt"] = json::Array(); json::Array pk; for (auto *p : M->parameters()) pk.push_back(ptype(p->getType())); mo["pt"] = std::move(pk); mo["rt"] = ptype(M->getReturnType());
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fnKey(b)); mo["ov"] = std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { mo["ctor"] = true; mo["copyctor"] = CD->isCopyConstructor(); mo["movector"] = CD->isMoveConstructor(); }
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = true;
      mo["copyasg"] = M->isCopyAssignmentOperator(); mo["moveasg"] = M->isMoveAssignmentOperator();
      ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms); o["abstract"] = RD->isAbstract(); o["poly"] = RD->isPolymorphic();
    Classes.push_back(std::move(o));
  }
  void addEnum(const EnumDecl *ED) {
    std::string f; unsigned ln;
    if (!ED->isThisDeclarationADefinition() || !inRoots(ED->getLocation(), &f, &ln) || !Seen.insert(ED).second) return;
    json::Object o; o["q"] = ED->getQualifiedNameAsString(); o["file"] = f; o["l"] = (int64_t)ln; json::Array cs;
    for (auto *c : ED->enumerators()) { json::Object co; co["n"] = c->getNameAsString(); co["v"] = (int64_t)c->getInitVal().getExtValue(); cs.push_back(std::move(co)); }
    o["c"] = std::move(cs); Enums.push_back(std::move(o));
  }
  void addGlobal(const VarDecl *V) {
    std::string f; unsigned ln;
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !V->isThisDeclarationADefinition() || !inRoots(V->getLocation(), &f, &ln) || !Seen.insert(V).second) return;
    json::Object o; o["q"] = V->getQualifiedNameAsString(); o["file"] = f; o["l"] = (int64_t)ln; o["t"] = ty(V->getType());
    if (V->getInit()) o["i"] = E(V->getInit());
    Globals.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  Dumper &D;
public:
  explicit Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.addFunction(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.addClass(R); return true; }
  bool VisitEnumDecl(EnumDecl *R) { D.addEnum(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.addGlobal(V); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); Visitor V(D);
    for (auto *d : C.getTranslationUnitDecl()->decls()) {
      // skip system headers quickly
      if (auto *ns = dyn_cast<NamespaceDecl>(d)) { if (ns->getName() == "std" || ns->getName() == "arma" || ns->getName() == "__gnu_cxx") continue; }
      V.TraverseDecl(d);
    }
    json::Object o; o["functions"] = std::move(D.Functions); o["classes"] = std::move(D.Classes); o["enums"] = std::move(D.Enums); o["globals"] = std::move(D.Globals);
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << json::Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  // gwmx OUT ROOTS(colon separated) FILE -- flags...
  if (argc < 5) return 2;
  OutPath = argv[1]; std::string r = argv[2]; size_t p;
  while ((p = r.find(':')) != std::string::npos) { Roots.push_back(r.substr(0, p)); r = r.substr(p + 1); }
  Roots.push_back(r);
  std::string file = argv[3]; std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {file});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
