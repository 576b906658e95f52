// Extractor: parses one translation unit with clang and prints, as JSON, a
// resolved model (functions, records, callees) of everything that is defined
// in files below the roots given with --root.  No code of the analysed program
// is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {
class Builder {
public:
  ASTContext &C;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  Object Functions, Callees, Records;
  std::set<std::string> seenFn, seenCallee, seenRec;
  std::map<const Decl *, int> varIds;
  std::vector<const FunctionDecl *> pendingLambdas;
  std::vector<const CXXRecordDecl *> pendingRecs;
  Builder(ASTContext &c) : C(c), NG(c), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
  }
  std::string fileOf(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F)
      return "";
    llvm::SmallString<256> p(F->getName());
    SM.getFileManager().makeAbsolutePath(p);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p);
  }
  int lineOf(SourceLocation L) {
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(SM.getExpansionLoc(L));
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid())
      return false;
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0)
        return true;
    return false;
  }
  std::string tstr(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string tk(QualType T) {
    T = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    if (T->isBooleanType())
      return "b";
    if (T->isEnumeralType())
      return "e";
    if (T->isIntegerType())
      return T->isUnsignedIntegerType() ? "u" : "i";
    if (T->isFloatingType())
      return "f";
    if (T->isAnyPointerType() || T->isNullPtrType())
      return "p";
    if (T->isVoidType())
      return "v";
    if (T->isRecordType())
      return "c";
    if (T->isArrayType())
      return "a";
    return "?";
  }
  // "v" by value, "r" non-const lvalue ref, "cr" const ref, "rr" rvalue ref
  std::string refk(QualType T) {
    T = T.getCanonicalType();
    if (T->isLValueReferenceType())
      return T->getPointeeType().isConstQualified() ? "cr" : "r";
    if (T->isRValueReferenceType())
      return "rr";
    return "v";
  }
  std::string recName(const RecordDecl *R) {
    if (!R)
      return "";
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  int vid(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = varIds.find(D);
    if (it != varIds.end())
      return it->second;
    int n = varIds.size() + 1;
    varIds[D] = n;
    return n;
  }
  std::string fid(const FunctionDecl *F) {
    if (isa<CXXDeductionGuideDecl>(F))
      return "guide";
    if (F->isDependentContext())
      return "dependent:" + F->getQualifiedNameAsString();
    std::string s = NG.getName(F);
    if (s.empty())
      s = F->getQualifiedNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        s = "lambda:" + fileOf(M->getBeginLoc()) + ":" +
            std::to_string(lineOf(M->getBeginLoc())) + ":" +
            std::to_string(C.getSourceManager().getExpansionColumnNumber(
                M->getBeginLoc())) + ":" + s;
    return s;
  }
  Array params(const FunctionDecl *F) {
    Array A;
    for (auto *P : F->parameters()) {
      Object o;
      o["id"] = vid(P);
      o["n"] = P->getNameAsString();
      o["t"] = tstr(P->getType());
      o["tk"] = tk(P->getType());
      o["ref"] = refk(P->getType());
      QualType pt = P->getType().getCanonicalType();
      if (pt->isPointerType())
        o["pconst"] = pt->getPointeeType().isConstQualified();
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() &&
          P->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult V;
        const Expr *D = P->getDefaultArg();
        if (D && !D->isValueDependent() && D->EvaluateAsInt(V, C))
          o["dflt"] = (int64_t)V.Val.getInt().getExtValue();
      }
      A.push_back(std::move(o));
    }
    return A;
  }
  void fnCommon(Object &o, const FunctionDecl *F) {
    o["q"] = F->getQualifiedNameAsString();
    std::string nm = F->getNameAsString();
    o["n"] = nm;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
        o["tcls"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
      else
        o["tcls"] = M->getParent()->getQualifiedNameAsString();
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["acc"] = M->getAccess() == AS_public      ? "public"
                 : M->getAccess() == AS_protected ? "protected"
                                                  : "private";
      if (M->isVirtual()) {
        Array ov;
        for (auto *X : M->overridden_methods())
          ov.push_back(fid(X));
        o["ov"] = std::move(ov);
      }
      if (isa<CXXConstructorDecl>(F)) {
        auto *K = cast<CXXConstructorDecl>(F);
        o["kind"] = K->isCopyConstructor()   ? "cctor"
                    : K->isMoveConstructor() ? "mctor"
                                             : "ctor";
      } else if (isa<CXXDestructorDecl>(F))
        o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(F))
        o["kind"] = "conv";
      else if (M->isCopyAssignmentOperator())
        o["kind"] = "cassign";
      else if (M->isMoveAssignmentOperator())
        o["kind"] = "massign";
      else
        o["kind"] = "method";
    } else
      o["kind"] = "fn";
    o["ret"] = tstr(F->getReturnType());
    o["rtk"] = tk(F->getReturnType());
    o["rref"] = refk(F->getReturnType());
    o["externC"] = F->isExternC();
    o["noreturn"] = F->isNoReturn();
    o["variadic"] = F->isVariadic();
    if (auto *FT = F->getType()->getAs<FunctionProtoType>())
      o["noexcept"] = FT->getExceptionSpecType() != EST_Unevaluated &&
                      FT->getExceptionSpecType() != EST_Uninstantiated &&
                      FT->canThrow() == CT_Cannot;
    o["implicit"] = F->isImplicit();
    o["defaulted"] = F->isDefaulted();
    o["deleted"] = F->isDeleted();
    o["params"] = params(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &x : TA->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(PP, os, true);
        a.push_back(os.str());
      }
      o["targs"] = std::move(a);
    }
  }
  std::string callee(const FunctionDecl *F) {
    std::string id = fid(F);
    if (seenCallee.insert(id).second) {
      Object o;
      fnCommon(o, F);
      const FunctionDecl *Def = nullptr;
      o["file"] = fileOf(F->getLocation());
      bool has = F->hasBody(Def) ||
                 (F->getTemplateInstantiationPattern() &&
                  F->getTemplateInstantiationPattern()->hasBody());
      o["hasbody"] = has;
      o["inrepo"] = inRoots(F->getLocation());
      Callees[id] = std::move(o);
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        record(M->getParent());
    }
    return id;
  }
  void record(const CXXRecordDecl *R) {
    if (!R)
      return;
    R = R->getDefinition();
    if (!R || R->isDependentContext())
      return;
    std::string n = recName(R);
    if (!seenRec.insert(n).second)
      return;
    Object o;
    o["name"] = n;
    o["q"] = R->getQualifiedNameAsString();
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    bool in = inRoots(R->getLocation());
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
      in = inRoots(S->getSpecializedTemplate()->getLocation());
    o["inrepo"] = in;
    o["abstract"] = R->isAbstract();
    Array bases;
    for (auto &B : R->bases()) {
      auto *BR = B.getType()->getAsCXXRecordDecl();
      if (BR) {
        bases.push_back(Object{{"n", recName(BR)}, {"virtual", B.isVirtual()}});
        record(BR);
      }
    }
    o["bases"] = std::move(bases);
    if (in || true) {
      Array fs;
      for (auto *F : R->fields()) {
        Object f;
        f["n"] = F->getNameAsString();
        f["t"] = tstr(F->getType());
        f["tk"] = tk(F->getType());
        f["ref"] = refk(F->getType());
        f["line"] = lineOf(F->getLocation());
        f["mutable"] = F->isMutable();
        f["isconst"] = F->getType().isConstQualified();
        if (in && F->hasInClassInitializer() && F->getInClassInitializer())
          f["init"] = expr(F->getInClassInitializer());
        f["trivdef"] = F->getType().isPODType(C) ||
                       F->getType()->isScalarType();
        if (auto *FR = F->getType()->getAsCXXRecordDecl()) {
          f["rec"] = recName(FR);
          if (in)
            record(FR);
        }
        fs.push_back(std::move(f));
      }
      o["fields"] = std::move(fs);
      if (in) {
        Array ms;
        for (auto *M : R->methods()) {
          if (M->isInvalidDecl())
            continue;
          ms.push_back(callee(M));
        }
        o["methods"] = std::move(ms);
      }
    }
    Object sp;
    auto kind = [&](bool has, bool user, bool del) -> std::string {
      return del ? "deleted" : user ? "user" : has ? "implicit" : "none";
    };
    bool ucc = R->hasUserDeclaredCopyConstructor(),
         uca = R->hasUserDeclaredCopyAssignment();
    std::string cc = "implicit", ca = "implicit";
    for (auto *K : R->ctors())
      if (K->isCopyConstructor())
        cc = K->isDeleted() ? "deleted" : K->isUserProvided() ? "user" : "implicit";
    for (auto *M : R->methods())
      if (M->isCopyAssignmentOperator())
        ca = M->isDeleted() ? "deleted" : M->isUserProvided() ? "user" : "implicit";
    (void)ucc; (void)uca; (void)kind;
    o["cctor"] = cc;
    o["cassign"] = ca;
    o["userDefaultCtor"] = R->hasUserProvidedDefaultConstructor();
    bool anyUserCtor = R->hasUserDeclaredConstructor();
    o["anyUserCtor"] = anyUserCtor;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      o["tmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
      Array a;
      for (auto &x : S->getTemplateArgs().asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(PP, os, true);
        a.push_back(os.str());
      }
      o["targs"] = std::move(a);
    }
    Records[n] = std::move(o);
  }
  // ---------------------------------------------------------------- exprs
  Object node(const char *k, const Expr *E) {
    Object o;
    o["k"] = k;
    o["t"] = tstr(E->getType());
    o["tk"] = tk(E->getType());
    o["l"] = lineOf(E->getExprLoc());
    if (E->isGLValue())
      o["lv"] = true;
    return o;
  }
  Array args(llvm::ArrayRef<const Expr *> As) {
    Array A;
    for (auto *a : As)
      A.push_back(expr(a));
    return A;
  }
  Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    if (!E->isValueDependent() && !E->isTypeDependent() &&
        (E->getType()->isIntegralOrEnumerationType()) && !E->isLValue() &&
        !isa<InitListExpr>(E->IgnoreImplicit())) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && R.Val.isInt() && !R.HasSideEffects) {
        Object o = node("int", E);
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = std::string(s);
        if (auto *DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts()))
          o["name"] = DR->getDecl()->getQualifiedNameAsString();
        return o;
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass:
      return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass:
      return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::ConstantExprClass:
      return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass:
      return expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass:
      return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass:
      return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass:
      return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: {
      return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    }
    case Stmt::CXXStdInitializerListExprClass:
      return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::UnaryExprOrTypeTraitExprClass:
      return node("sizeof", E);
    case Stmt::CXXRewrittenBinaryOperatorClass:
      return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    default:
      break;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      Object o = node("int", E);
      llvm::SmallString<32> s;
      L->getValue().toString(s, 10, true);
      o["v"] = std::string(s);
      return o;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      Object o = node("float", E);
      llvm::SmallString<32> s;
      L->getValue().toString(s, 0, 0);
      o["v"] = L->getValueAsApproximateDouble();
      return o;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = node("int", E);
      o["v"] = L->getValue() ? "1" : "0";
      return o;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      Object o = node("str", E);
      o["v"] = L->getCharByteWidth() == 1
                   ? llvm::json::fixUTF8(L->getString())
                   : std::string("?");
      return o;
    }
    if (isa<PredefinedExpr>(E)) {
      Object o = node("str", E);
      o["v"] = "__func__";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node("null", E);
    if (isa<CXXThisExpr>(E))
      return node("this", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *VD = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(VD)) {
        Object o = node("fref", E);
        o["f"] = callee(F);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        Object o = node("var", E);
        o["id"] = vid(V);
        o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage()) {
          o["g"] = V->getQualifiedNameAsString();
          o["slocal"] = V->isStaticLocal();
          if (V->getType().isConstQualified() && V->getAnyInitializer() &&
              inRoots(V->getLocation()) &&
              !V->getAnyInitializer()->isValueDependent() &&
              V->getType()->isArithmeticType())
            o["ginit"] = expr(V->getAnyInitializer());
        }
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(VD)) {
        if (B->getBinding())
          return expr(B->getBinding());
      }
      Object o = node("ref", E);
      o["n"] = VD->getQualifiedNameAsString();
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        Object o = node("mem", E);
        o["n"] = F->getNameAsString();
        o["cls"] = recName(F->getParent());
        if (auto *CR = dyn_cast<CXXRecordDecl>(F->getParent()))
          record(CR);
        o["b"] = expr(M->getBase());
        o["arrow"] = M->isArrow();
        o["isref"] = F->getType()->isReferenceType();
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Object o = node("var", E);
        o["id"] = vid(V);
        o["n"] = V->getNameAsString();
        o["g"] = V->getQualifiedNameAsString();
        return o;
      }
      Object o = node("mfref", E);
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
        o["f"] = callee(F);
      o["b"] = expr(M->getBase());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus)
        return expr(U->getSubExpr());
      if (U->getOpcode() == UO_AddrOf)
        if (auto *DR = dyn_cast<DeclRefExpr>(U->getSubExpr()->IgnoreParens())) {
          if (auto *F = dyn_cast<FunctionDecl>(DR->getDecl())) {
            Object o = node("fref", E);
            o["f"] = callee(F);
            return o;
          }
          if (auto *F = dyn_cast<FieldDecl>(DR->getDecl())) {
            Object o = node("memptr", E);
            o["n"] = F->getNameAsString();
            o["cls"] = recName(F->getParent());
            return o;
          }
        }
      Object o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      o["post"] = U->isPostfix();
      o["e"] = expr(U->getSubExpr());
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Object o = node(B->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = B->getOpcodeStr().str();
      o["lhs"] = expr(B->getLHS());
      o["rhs"] = expr(B->getRHS());
      return o;
    }
    if (auto *K = dyn_cast<AbstractConditionalOperator>(E)) {
      Object o = node("cond", E);
      o["c"] = expr(K->getCond());
      o["a"] = expr(K->getTrueExpr());
      o["b"] = expr(K->getFalseExpr());
      return o;
    }
    if (auto *OV = dyn_cast<OpaqueValueExpr>(E))
      return expr(OV->getSourceExpr());
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = K->getConstructor();
      if (K->isElidable() && K->getNumArgs() >= 1)
        return expr(K->getArg(0));
      Object o = node("ctor", E);
      o["f"] = callee(D);
      o["cls"] = recName(D->getParent());
      o["zero"] = K->requiresZeroInitialization();
      o["a"] = args(llvm::ArrayRef<const Expr *>(K->getArgs(), K->getNumArgs()));
      record(D->getParent());
      return o;
    }
    if (auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object o = node("ctor", E);
      o["f"] = callee(K->getConstructor());
      o["cls"] = recName(K->getConstructor()->getParent());
      o["a"] = Array();
      o["inherited"] = true;
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
      return node("zero", E);
    if (auto *L = dyn_cast<InitListExpr>(E)) {
      if (L->isSemanticForm() == false && L->getSemanticForm())
        L = L->getSemanticForm();
      Object o = node("ilist", E);
      Array a;
      for (auto *x : L->inits())
        a.push_back(expr(x));
      o["a"] = std::move(a);
      if (auto *R = L->getType()->getAsCXXRecordDecl()) {
        o["cls"] = recName(R);
        record(R);
      }
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Object o = node("new", E);
      o["init"] = expr(N->getInitializer());
      o["at"] = tstr(N->getAllocatedType());
      if (N->isArray() && N->getArraySize())
        o["size"] = expr(*N->getArraySize());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = node("delete", E);
      o["arr"] = D->isArrayForm();
      o["e"] = expr(D->getArgument());
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Object o = node("throw", E);
      o["e"] = expr(T->getSubExpr());
      if (T->getSubExpr())
        o["et"] = tstr(T->getSubExpr()->getType());
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Object o = node("lam", E);
      if (auto *M = L->getCallOperator()) {
        if (!M->isDependentContext()) {
          o["f"] = callee(M);
          pendingLambdas.push_back(M);
        }
      }
      Array caps;
      auto ii = L->capture_init_begin();
      for (auto &cp : L->captures()) {
        Object c;
        c["by"] = cp.getCaptureKind() == LCK_ByRef ? "ref"
                  : cp.getCaptureKind() == LCK_This ? "this"
                  : cp.getCaptureKind() == LCK_StarThis ? "starthis" : "copy";
        if (cp.capturesVariable()) {
          c["id"] = vid(cast<ValueDecl>(cp.getCapturedVar()));
          c["n"] = cp.getCapturedVar()->getNameAsString();
          c["init"] = expr(*ii);
        }
        ++ii;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      const Expr *S = K->getSubExpr();
      switch (K->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase: case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion: case CK_LValueBitCast:
        if (K->getCastKind() == CK_DerivedToBase ||
            K->getCastKind() == CK_UncheckedDerivedToBase) {
          Object o = node("cast", E);
          o["ck"] = "DerivedToBase";
          o["e"] = expr(S);
          return o;
        }
        return expr(S);
      case CK_NullToPointer: case CK_NullToMemberPointer:
        return node("null", E);
      case CK_ToVoid: {
        return expr(S);
      }
      default: {
        Object o = node("cast", E);
        o["ck"] = K->getCastKindName();
        o["e"] = expr(S);
        return o;
      }
      }
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = OC->getDirectCallee();
      if (F) {
        llvm::ArrayRef<const Expr *> As(OC->getArgs(), OC->getNumArgs());
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
          Object o = node("mcall", E);
          o["f"] = callee(F);
          o["op"] = getOperatorSpelling(OC->getOperator());
          o["o"] = expr(As[0]);
          o["oc"] = As[0]->getType().isConstQualified();
          o["a"] = args(As.drop_front());
          return o;
        }
        Object o = node("call", E);
        o["f"] = callee(F);
        o["op"] = getOperatorSpelling(OC->getOperator());
        o["a"] = args(As);
        return o;
      }
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *F = MC->getMethodDecl();
      if (F) {
        Object o = node("mcall", E);
        o["f"] = callee(F);
        const Expr *Ob = MC->getImplicitObjectArgument();
        o["o"] = expr(Ob);
        auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
        bool arrow = ME ? ME->isArrow() : Ob->getType()->isPointerType();
        o["arrow"] = arrow;
        if (ME)
          o["qual"] = ME->hasQualifier();
        o["a"] = args(
            llvm::ArrayRef<const Expr *>(MC->getArgs(), MC->getNumArgs()));
        return o;
      }
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = K->getDirectCallee();
      Object o = node("call", E);
      if (F)
        o["f"] = callee(F);
      else
        o["fe"] = expr(K->getCallee());
      o["a"] = args(llvm::ArrayRef<const Expr *>(K->getArgs(), K->getNumArgs()));
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = node("idx", E);
      o["b"] = expr(A->getBase());
      o["i"] = expr(A->getIdx());
      return o;
    }
    if (auto *PD = dyn_cast<CXXPseudoDestructorExpr>(E)) {
      (void)PD;
      return node("nop", E);
    }
    Object o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    Array ch;
    for (auto *c : E->children())
      if (auto *ce = dyn_cast_or_null<Expr>(c))
        ch.push_back(expr(ce));
    o["a"] = std::move(ch);
    return o;
  }
  // ---------------------------------------------------------------- stmts
  Object vardecl(const VarDecl *V) {
    Object o;
    o["id"] = vid(V);
    o["n"] = V->getNameAsString();
    o["t"] = tstr(V->getType());
    o["tk"] = tk(V->getType());
    o["ref"] = refk(V->getType());
    o["static"] = V->isStaticLocal();
    o["l"] = lineOf(V->getLocation());
    if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) {
      o["rec"] = recName(R);
      record(R);
    }
    o["hasinit"] = V->getInit() != nullptr;
    if (V->getInit()) {
      o["init"] = expr(V->getInit());
    }
    return o;
  }
  Object snode(const char *k, const Stmt *S) {
    Object o;
    o["s"] = k;
    o["l"] = lineOf(S->getBeginLoc());
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *CS = dyn_cast<CompoundStmt>(S)) {
      Object o = snode("seq", S);
      Array b;
      for (auto *x : CS->body())
        b.push_back(stmt(x));
      o["b"] = std::move(b);
      return o;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o = snode("expr", S);
      o["e"] = expr(E);
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Object o = snode("decl", S);
      Array v;
      for (auto *x : D->decls())
        if (auto *V = dyn_cast<VarDecl>(x))
          v.push_back(vardecl(V));
      o["v"] = std::move(v);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      Object o = snode("if", S);
      if (I->getInit())
        o["init"] = stmt(I->getInit());
      if (auto *V = I->getConditionVariable())
        o["cv"] = vardecl(V);
      o["c"] = expr(I->getCond());
      o["t"] = stmt(I->getThen());
      o["e"] = stmt(I->getElse());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      Object o = snode("for", S);
      o["init"] = stmt(F->getInit());
      o["c"] = expr(F->getCond());
      o["inc"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      Object o = snode("while", S);
      if (auto *V = W->getConditionVariable())
        o["cv"] = vardecl(V);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      Object o = snode("do", S);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = snode("rfor", S);
      o["v"] = vardecl(R->getLoopVariable());
      o["r"] = expr(R->getRangeInit());
      o["b"] = stmt(R->getBody());
      return o;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Object o = snode("ret", S);
      o["e"] = expr(R->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S))
      return snode("brk", S);
    if (isa<ContinueStmt>(S))
      return snode("cont", S);
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      Object o = snode("sw", S);
      if (W->getInit())
        o["init"] = stmt(W->getInit());
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      Object o = snode("case", S);
      o["v"] = expr(K->getLHS());
      o["b"] = stmt(K->getSubStmt());
      return o;
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) {
      Object o = snode("default", S);
      o["b"] = stmt(K->getSubStmt());
      return o;
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Object o = snode("try", S);
      o["b"] = stmt(T->getTryBlock());
      Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        Object ho;
        if (H->getExceptionDecl()) {
          ho["v"] = vardecl(H->getExceptionDecl());
          ho["t"] = tstr(H->getCaughtType());
        }
        ho["b"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (isa<NullStmt>(S))
      return snode("null", S);
    if (auto *A = dyn_cast<AttributedStmt>(S))
      return stmt(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) {
      Object o = snode("label", S);
      o["n"] = L->getName();
      o["b"] = stmt(L->getSubStmt());
      return o;
    }
    if (auto *G = dyn_cast<GotoStmt>(S)) {
      Object o = snode("goto", S);
      o["n"] = G->getLabel()->getNameAsString();
      return o;
    }
    Object o = snode("unk", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }
  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def)
      return;
    F = Def;
    if (F->isDependentContext() || F->isInvalidDecl())
      return;
    if (!F->doesThisDeclarationHaveABody())
      return;
    if (!inRoots(F->getLocation()))
      return;
    if (F->isImplicit() && !isa<CXXMethodDecl>(F))
      return;
    std::string id = fid(F);
    if (!seenFn.insert(id).second)
      return;
    Object o;
    fnCommon(o, F);
    callee(F);
    o["file"] = fileOf(F->getBody()->getBeginLoc());
    o["line"] = lineOf(F->getLocation());
    o["endline"] = lineOf(F->getBody()->getEndLoc());
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      record(M->getParent());
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array is;
      for (auto *I : K->inits()) {
        Object i;
        if (I->isDelegatingInitializer())
          i["kind"] = "deleg";
        else if (I->isBaseInitializer()) {
          i["kind"] = "base";
          i["n"] = recName(I->getBaseClass()->getAsCXXRecordDecl());
        } else if (I->isAnyMemberInitializer()) {
          i["kind"] = "member";
          i["n"] = I->getAnyMember()->getNameAsString();
          i["def"] = I->isInClassMemberInitializer();
        }
        i["written"] = I->isWritten();
        i["e"] = expr(I->getInit());
        i["l"] = lineOf(I->getSourceLocation());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    Functions[id] = std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Builder &B;
  Visitor(Builder &b) : B(b) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    B.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() &&
        B.inRoots(R->getLocation()))
      B.record(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Builder B(C);
    Visitor V(B);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < B.pendingLambdas.size(); ++i)
      B.function(B.pendingLambdas[i]);
    Object o;
    o["functions"] = std::move(B.Functions);
    o["callees"] = std::move(B.Callees);
    o["records"] = std::move(B.Records);
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  std::vector<std::string> flags;
  std::string src;
  bool rest = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (rest)
      flags.push_back(a);
    else if (a == "--")
      rest = true;
    else if (a == "--root")
      Roots.push_back(argv[++i]);
    else if (a == "-o")
      OutFile = argv[++i];
    else
      src = a;
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
