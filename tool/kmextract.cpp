// kmextract: dumps the resolved AST (functions, records, enums, globals) of one
// translation unit as JSON. Only entities whose source lives below --root are
// emitted; everything is taken from the type-checked program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static json::Value ival(const llvm::APSInt &v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  return (uint64_t)v.trunc(64 < v.getBitWidth() ? 64 : v.getBitWidth()).getZExtValue();
}
static std::string g_root;
static std::string g_out;

namespace {

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array functions, records, enums, globals;
  std::map<const Decl*, int> declIds;
  std::map<std::string, int> typeIds;
  json::Array types;
  std::set<std::string> seenFn;
  std::set<std::string> seenRec;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto E = SM.getExpansionLoc(L);
    auto F = SM.getFilename(E);
    return F.str();
  }
  bool inRoot(const Decl *D) {
    auto f = fileOf(D->getLocation());
    return f.rfind(g_root, 0) == 0;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  std::string usr(const Decl *D) {
    D = D->getCanonicalDecl();
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(D, buf)) {
      return "nousr:" + std::to_string(declId(D));
    }
    std::string s = buf.str().str();
    // templates instantiated functions share USR of the pattern in some cases
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (FD->isTemplateInstantiation() || (isa<CXXMethodDecl>(FD) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(FD)->getParent()))) {
        std::string n;
        llvm::raw_string_ostream os(n);
        FD->getNameForDiagnostic(os, PP, true);
        os << FD->getType().getCanonicalType().getAsString(PP);
        s += "|" + os.str();
      }
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
        if (MD->getParent()->isLambda()) {
          s = "lambda:" + lambdaKey(MD->getParent());
          if (FD->isTemplateInstantiation())
            s += "|" + FD->getType().getCanonicalType().getAsString(PP);
        }
      }
    }
    return s;
  }
  std::string lambdaKey(const CXXRecordDecl *R) {
    auto L = SM.getExpansionLoc(R->getBeginLoc());
    auto sp = SM.getFileOffset(L);
    std::string k = SM.getFilename(L).str() + "@" + std::to_string(sp);
    // lambdas inside template instantiations: distinguish by enclosing function
    const DeclContext *DC = R->getDeclContext();
    while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
    if (DC) {
      auto *FD = cast<FunctionDecl>(DC);
      std::string n;
      llvm::raw_string_ostream os(n);
      FD->getNameForDiagnostic(os, PP, true);
      k += "@" + os.str();
      if (FD->isTemplateInstantiation())
        k += FD->getType().getCanonicalType().getAsString(PP);
    }
    return k;
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int id = declIds.size() + 1;
    declIds[D] = id;
    return id;
  }
  std::string tstr(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    auto CT = T.getCanonicalType();
    auto s = CT.getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[s] = id;
    json::Object o;
    o["s"] = s;
    auto NR = CT.getNonReferenceType();
    o["ref"] = CT->isReferenceType();
    o["rref"] = CT->isRValueReferenceType();
    o["const"] = NR.isConstQualified();
    if (NR->isPointerType()) { o["ptr"] = true; o["pc"] = NR->getPointeeType().isConstQualified(); }
    auto B = NR.getUnqualifiedType();
    o["b"] = B.getAsString(PP);
    if (!NR->isDependentType()) {
      if (auto *ET = B->getAs<EnumType>()) {
        o["enum"] = ET->getDecl()->getQualifiedNameAsString();
        if (ET->getDecl()->isComplete()) {
          o["bits"] = (int)C.getTypeSize(B);
          o["signed"] = B->isSignedIntegerOrEnumerationType();
        }
      } else if (B->isBooleanType()) {
        o["bool"] = true; o["bits"] = 1; o["signed"] = false;
      } else if (B->isIntegerType() && !B->isIncompleteType()) {
        o["bits"] = (int)C.getTypeSize(B);
        o["signed"] = B->isSignedIntegerOrEnumerationType();
      } else if (B->isFloatingType()) {
        o["float"] = true;
      }
      QualType R = B;
      if (R->isPointerType()) R = R->getPointeeType();
      if (auto *RD = R->getAsCXXRecordDecl()) {
        o["rec"] = RD->getQualifiedNameAsString();
        if (RD->isLambda()) o["lambda"] = "lambda:" + lambdaKey(RD);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          json::Array ta;
          for (auto &A : S->getTemplateArgs().asArray()) addTArg(ta, A);
          o["ta"] = std::move(ta);
        }
      }
      if (auto *AT = C.getAsConstantArrayType(B)) {
        o["array"] = (int64_t)AT->getSize().getZExtValue();
        o["elem"] = AT->getElementType().getCanonicalType().getAsString(PP);
      }
    }
    while ((int)types.size() <= id) types.push_back(nullptr);
    types[id] = std::move(o);
    return id;
  }
  void addTArg(json::Array &ta, const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: ta.push_back(A.getAsType().getCanonicalType().getAsString(PP)); break;
      case TemplateArgument::Integral: ta.push_back(ival(A.getAsIntegral())); break;
      case TemplateArgument::Pack: for (auto &P : A.pack_elements()) addTArg(ta, P); break;
      default: ta.push_back("?");
    }
  }

  json::Value none() { return nullptr; }

  json::Object node(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(S->getBeginLoc());
    return o;
  }

  static bool stripCast(CastKind K) {
    switch (K) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
      case CK_ConstructorConversion: case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
      case CK_LValueBitCast:
      case CK_NonAtomicToAtomic: case CK_AtomicToNonAtomic: case CK_Dependent:
        return true;
      default: return false;
    }
  }

  json::Object calleeInfo(const FunctionDecl *FD) {
    json::Object c;
    c["q"] = FD->getQualifiedNameAsString();
    c["id"] = usr(FD);
    c["n"] = FD->getNameAsString();
    if (FD->isNoReturn()) c["noreturn"] = true;
    if (auto *B = dyn_cast<CXXMethodDecl>(FD)) {
      c["cls"] = B->getParent()->getQualifiedNameAsString();
      if (B->isVirtual()) c["virt"] = true;
      if (B->isConst()) c["const"] = true;
      if (B->isStatic()) c["static"] = true;
      if (B->getParent()->isLambda()) c["lambda"] = "lambda:" + lambdaKey(B->getParent());
    }
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
      if (FPT->getExceptionSpecType() != EST_Unevaluated && FPT->getExceptionSpecType() != EST_Uninstantiated && FPT->isNothrow()) c["noexcept"] = true;
      json::Array pt;
      for (auto P : FPT->param_types()) pt.push_back(type(P));
      c["pt"] = std::move(pt);
    }
    c["ret"] = type(FD->getReturnType());
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) addTArg(ta, A);
      c["ta"] = std::move(ta);
    }
    if (FD->isExternC()) c["extc"] = true;
    return c;
  }

  void addConst(json::Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    if (isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      if (R.Val.isInt()) o["cv"] = ival(R.Val.getInt());
    }
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Value v = expr0(E);
    if (auto *o = v.getAsObject()) {
      if (!o->get("t")) {
        (*o)["t"] = type(E->getType());
      }
      if (!o->get("cv")) addConst(*o, E);
    }
    return v;
  }

  json::Array exprs(llvm::ArrayRef<const Expr*> A) {
    json::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }

  json::Value expr0(const Expr *E) {
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      auto v = expr(P->getExpr());
      if (auto *o = v.getAsObject()) (*o)["defarg"] = true;
      return v;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) if (P->getSourceExpr()) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<UnaryOperator>(E)) if (P->getOpcode() == UO_Extension) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) { if (stripCast(P->getCastKind())) return retyped(P); }
    if (auto *P = dyn_cast<CastExpr>(E)) {
      if (stripCast(P->getCastKind())) {
        return expr(P->getSubExpr());
      }
      auto o = node("Cast", E);
      o["ck"] = P->getCastKindName();
      o["a"] = expr(P->getSubExpr());
      if (isa<ExplicitCastExpr>(P)) o["ex"] = true;
      return o;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      auto o = node("Int", E);
      o["v"] = ival(llvm::APSInt(L->getValue(), !L->getType()->isSignedIntegerType()));
      return o;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("Int", E); o["v"] = L->getValue() ? 1 : 0; return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { auto o = node("Int", E); o["v"] = (int64_t)L->getValue(); o["chr"] = true; return o; }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { auto o = node("Flt", E); o["v"] = L->getValueAsApproximateDouble(); return o; }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      auto o = node("Str", E);
      std::string s = L->getCharByteWidth() == 1 ? L->getString().str() : std::string("<wide>");
      o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);
      return o;
    }
    if (isa<PredefinedExpr>(E)) { auto o = node("Str", E); o["v"] = "__func__"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("Null", E);
    if (isa<CXXThisExpr>(E)) return node("This", E);
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      auto *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = node("Enum", E);
        o["q"] = EC->getQualifiedNameAsString();
        o["n"] = EC->getNameAsString();
        o["v"] = ival(EC->getInitVal());
        return o;
      }
      auto o = node("Ref", E);
      o["n"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["c"] = calleeInfo(FD); return o; }
      o["d"] = declId(D);
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(VD)) o["dk"] = "parm";
        else if (VD->isStaticLocal()) { o["dk"] = "slocal"; o["q"] = VD->getQualifiedNameAsString(); }
        else if (VD->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = VD->getQualifiedNameAsString(); o["u"] = usr(VD); }
        else o["dk"] = "var";
        if (VD->getType()->isReferenceType()) o["isref"] = true;
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["dk"] = "binding";
      } else o["dk"] = D->getDeclKindName();
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *D = M->getMemberDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = node("Enum", E);
        o["q"] = EC->getQualifiedNameAsString(); o["n"] = EC->getNameAsString();
        o["v"] = ival(EC->getInitVal());
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) { // static member
        auto o = node("Ref", E);
        o["n"] = D->getNameAsString(); o["dk"] = "global"; o["q"] = VD->getQualifiedNameAsString(); o["u"] = usr(VD); o["d"] = declId(D);
        return o;
      }
      auto o = node("Mem", E);
      o["l"] = line(M->getMemberLoc());
      o["b"] = expr(M->getBase());
      o["n"] = D->getNameAsString();
      o["q"] = D->getQualifiedNameAsString();
      if (M->isArrow()) o["arrow"] = true;
      if (auto *FD = dyn_cast<FunctionDecl>(D)) o["c"] = calleeInfo(FD);
      return o;
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("Call", E);
      o["l"] = line(OC->getOperatorLoc());
      o["op"] = getOperatorSpelling(OC->getOperator());
      auto *FD = OC->getDirectCallee();
      json::Array args;
      unsigned i = 0;
      if (FD) {
        o["c"] = calleeInfo(FD);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) { o["o"] = expr(OC->getArg(0)); i = 1; }
      } else o["ce"] = expr(OC->getCallee());
      for (; i < OC->getNumArgs(); ++i) args.push_back(expr(OC->getArg(i)));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("Call", E);
      o["l"] = line(MC->getExprLoc());
      auto *FD = MC->getMethodDecl();
      if (FD) {
        o["c"] = calleeInfo(FD);
        o["o"] = expr(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["qualified"] = true;
        }
      } else o["ce"] = expr(MC->getCallee());
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(MC->getArgs(), MC->getNumArgs()));
      return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      auto o = node("Call", E);
      if (auto *FD = CE->getDirectCallee()) o["c"] = calleeInfo(FD);
      else o["ce"] = expr(CE->getCallee());
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(CE->getArgs(), CE->getNumArgs()));
      return o;
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = CC->getConstructor();
      auto o = node("Ctor", E);
      o["q"] = CD->getParent()->getQualifiedNameAsString();
      o["c"] = calleeInfo(CD);
      if (CD->isCopyOrMoveConstructor()) o["cm"] = CD->isMoveConstructor() ? "move" : "copy";
      if (CC->isElidable()) o["elid"] = true;
      if (CC->isStdInitListInitialization()) o["il"] = true;
      if (isa<CXXTemporaryObjectExpr>(CC)) o["tmp"] = true;
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(CC->getArgs(), CC->getNumArgs()));
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      auto o = node("Bin", E);
      o["l"] = line(B->getOperatorLoc());
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      auto o = node("Un", E);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "post" + op;
      else if (U->isPrefix() && (op == "++" || op == "--")) op = "pre" + op;
      o["op"] = op;
      o["a"] = expr(U->getSubExpr());
      return o;
    }
    if (auto *Q = dyn_cast<AbstractConditionalOperator>(E)) {
      auto o = node("Cond", E);
      o["c"] = expr(Q->getCond());
      o["a"] = expr(Q->getTrueExpr());
      o["b"] = expr(Q->getFalseExpr());
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("Idx", E);
      o["a"] = expr(A->getBase());
      o["i"] = expr(A->getIdx());
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      auto o = node("Lambda", E);
      o["id"] = "lambda:" + lambdaKey(L->getLambdaClass());
      json::Array caps;
      auto ii = L->capture_init_begin();
      for (auto &cap : L->captures()) {
        json::Object c;
        if (cap.capturesThis()) c["this"] = true;
        else if (cap.capturesVariable()) {
          c["n"] = cap.getCapturedVar()->getNameAsString();
          c["d"] = declId(cap.getCapturedVar());
          c["ref"] = cap.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(cap.getCapturedVar()))
            if (VD->isInitCapture()) c["init"] = expr(VD->getInit());
        }
        caps.push_back(std::move(c));
        ++ii;
      }
      o["caps"] = std::move(caps);
      if (L->isGenericLambda()) {
        o["generic"] = true;
        json::Array insts;
        if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations()) { insts.push_back(usr(S)); emitFunction(S); }
        o["insts"] = std::move(insts);
      } else {
        emitFunction(L->getCallOperator());
      }
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (!I->isSemanticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      auto o = node("Init", E);
      if (I->isTransparent()) return expr(I->getInit(0));
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(const_cast<InitListExpr*>(I)->getInits(), I->getNumInits()));
      if (auto *RD = I->getType()->getAsRecordDecl()) {
        json::Array fs;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
          for (auto &b : CR->bases()) { (void)b; fs.push_back("<base>"); }
        if (I->getInitializedFieldInUnion()) fs.push_back(I->getInitializedFieldInUnion()->getNameAsString());
        else for (auto *f : RD->fields()) { if (!f->isUnnamedBitfield()) fs.push_back(f->getNameAsString()); }
        o["fields"] = std::move(fs);
      }
      if (I->hasArrayFiller()) o["filler"] = expr(I->getArrayFiller());
      return o;
    }
    if (auto *S = dyn_cast<CXXStdInitializerListExpr>(E)) {
      auto v = expr(S->getSubExpr());
      if (auto *o = v.getAsObject()) (*o)["il"] = true;
      return v;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("Zero", E);
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("New", E);
      o["at"] = type(N->getAllocatedType());
      if (N->getInitializer()) o["a"] = expr(N->getInitializer());
      if (N->isArray() && N->getArraySize()) o["n"] = expr(*N->getArraySize());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("Delete", E); o["a"] = expr(D->getArgument()); return o; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      auto o = node("Throw", E);
      if (T->getSubExpr()) { o["a"] = expr(T->getSubExpr()); o["tt"] = type(T->getSubExpr()->getType()); }
      return o;
    }
    if (auto *S = dyn_cast<StmtExpr>(E)) { auto o = node("StmtExpr", E); o["s"] = stmt(S->getSubStmt()); return o; }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto o = node("SizeOf", E);
      if (!U->isArgumentType()) o["a"] = expr(U->getArgumentExpr());
      else o["at"] = type(U->getArgumentType());
      return o;
    }
    auto o = node("Other", E);
    o["cls"] = E->getStmtClassName();
    json::Array ch;
    for (auto *S : E->children()) if (S) ch.push_back(stmt(S));
    o["ch"] = std::move(ch);
    return o;
  }

  json::Value retyped(const CastExpr *P) {
    return expr(P->getSubExpr());
  }

  json::Object varDecl(const VarDecl *VD) {
    json::Object o;
    o["k"] = "Var";
    o["l"] = line(VD->getLocation());
    o["d"] = declId(VD);
    o["n"] = VD->getNameAsString();
    o["t"] = type(VD->getType());
    if (VD->getType()->isReferenceType()) o["ref"] = true;
    if (VD->isStaticLocal()) { o["static"] = true; o["q"] = VD->getQualifiedNameAsString(); }
    if (VD->hasInit()) o["init"] = expr(VD->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
      json::Array b;
      int i = 0;
      for (auto *B : DD->bindings()) {
        json::Object bo;
        bo["d"] = declId(B);
        bo["n"] = B->getNameAsString();
        bo["t"] = type(B->getType());
        bo["i"] = i++;
        if (auto *BE = B->getBinding()) {
          bo["e"] = expr(BE);
          if (auto *HV = B->getHoldingVar()) { bo["hd"] = declId(HV); if (HV->getInit()) bo["hinit"] = expr(HV->getInit()); }
        }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      auto o = node("Block", S);
      json::Array a;
      for (auto *s : B->body()) a.push_back(stmt(s));
      o["s"] = std::move(a);
      o["le"] = line(B->getEndLoc());
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      auto o = node("Decl", S);
      json::Array a;
      for (auto *d : D->decls()) if (auto *VD = dyn_cast<VarDecl>(d)) a.push_back(varDecl(VD));
      o["d"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      auto o = node("If", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (auto *cv = I->getConditionVariable()) o["cvar"] = varDecl(cv);
      o["c"] = expr(I->getCond());
      o["a"] = stmt(I->getThen());
      o["b"] = stmt(I->getElse());
      if (I->isConstexpr()) o["constexpr"] = true;
      return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      auto o = node("While", S);
      if (auto *cv = W->getConditionVariable()) o["cvar"] = varDecl(cv);
      o["c"] = expr(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      auto o = node("Do", S);
      o["c"] = expr(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      auto o = node("For", S);
      o["init"] = stmt(F->getInit());
      if (auto *cv = F->getConditionVariable()) o["cvar"] = varDecl(cv);
      o["c"] = expr(F->getCond());
      o["inc"] = expr(F->getInc());
      o["body"] = stmt(F->getBody());
      return o;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("RangeFor", S);
      if (F->getInit()) o["init"] = stmt(F->getInit());
      o["var"] = varDecl(F->getLoopVariable());
      o["range"] = expr(F->getRangeInit());
      o["body"] = stmt(F->getBody());
      return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      auto o = node("Switch", S);
      if (W->getInit()) o["init"] = stmt(W->getInit());
      if (auto *cv = W->getConditionVariable()) o["cvar"] = varDecl(cv);
      o["c"] = expr(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      auto o = node("Case", S);
      o["v"] = expr(K->getLHS());
      if (K->getRHS()) o["vh"] = expr(K->getRHS());
      o["s"] = stmt(K->getSubStmt());
      return o;
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) { auto o = node("Default", S); o["s"] = stmt(K->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) return node("Break", S);
    if (isa<ContinueStmt>(S)) return node("Continue", S);
    if (auto *R = dyn_cast<ReturnStmt>(S)) { auto o = node("Ret", S); o["a"] = expr(R->getRetValue()); return o; }
    if (auto *G = dyn_cast<GotoStmt>(S)) { auto o = node("Goto", S); o["n"] = G->getLabel()->getNameAsString(); return o; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { auto o = node("Label", S); o["n"] = L->getDecl()->getNameAsString(); o["s"] = stmt(L->getSubStmt()); return o; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (isa<NullStmt>(S)) return node("Empty", S);
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("Try", S);
      o["b"] = stmt(T->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object ho;
        ho["k"] = "Catch";
        ho["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { ho["var"] = varDecl(H->getExceptionDecl()); ho["t"] = type(H->getCaughtType()); }
        ho["b"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    auto o = node("OtherStmt", S);
    o["cls"] = S->getStmtClassName();
    json::Array ch;
    for (auto *s : S->children()) if (s) ch.push_back(stmt(s));
    o["ch"] = std::move(ch);
    return o;
  }

  void emitFunction(const FunctionDecl *FD0) {
    const FunctionDecl *FD = nullptr;
    if (!FD0->hasBody(FD)) return;
    if (!inRoot(FD)) return;
    if (FD->isDependentContext()) return;
    auto id = usr(FD);
    if (!seenFn.insert(id).second) return;
    json::Object o = calleeInfo(FD);
    o["file"] = fileOf(FD->getLocation());
    o["l"] = line(FD->getLocation());
    o["le"] = line(FD->getEndLoc());
    o["internal"] = FD->getFormalLinkage() == Linkage::Internal;
    if (FD->isImplicit() || FD->isDefaulted()) o["implicit"] = true;
    json::Array ps;
    for (auto *P : FD->parameters()) ps.push_back(varDecl(P));
    o["params"] = std::move(ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      json::Array ov;
      for (auto *m : MD->overridden_methods()) ov.push_back(usr(m));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o["ctor"] = true;
      json::Array in;
      for (auto *I : CD->inits()) {
        json::Object io;
        io["l"] = line(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) { io["f"] = I->getAnyMember()->getNameAsString(); io["fq"] = I->getAnyMember()->getQualifiedNameAsString(); }
        else io["base"] = true;
        io["e"] = expr(I->getInit());
        io["written"] = I->isWritten();
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(FD->getBody());
    functions.push_back(std::move(o));
  }

  void emitRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext() || !inRoot(R)) return;
    auto id = usr(R);
    if (!seenRec.insert(id).second) return;
    json::Object o;
    o["q"] = R->getQualifiedNameAsString();
    o["id"] = id;
    o["file"] = fileOf(R->getLocation());
    o["l"] = line(R->getLocation());
    if (R->isUnion()) o["union"] = true;
    json::Array b;
    for (auto &B : R->bases()) b.push_back(tstr(B.getType()));
    o["bases"] = std::move(b);
    json::Array f;
    for (auto *F : R->fields()) {
      json::Object fo;
      fo["n"] = F->getNameAsString();
      fo["t"] = type(F->getType());
      fo["l"] = line(F->getLocation());
      if (F->isBitField()) fo["bits"] = (int)F->getBitWidthValue(C);
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object mo;
      mo["id"] = usr(M); mo["n"] = M->getNameAsString(); mo["virt"] = M->isVirtual(); mo["pure"] = M->isPureVirtual();
      json::Array ov;
      for (auto *m : M->overridden_methods()) ov.push_back(usr(m));
      mo["overrides"] = std::move(ov);
      mo["access"] = (int)M->getAccess();
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (auto *D = R->getDestructor()) { o["dtor"] = usr(D); if (D->isUserProvided()) o["udtor"] = true; }
    o["trivdtor"] = R->hasTrivialDestructor();
    records.push_back(std::move(o));
  }
  void emitEnum(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || !inRoot(E)) return;
    auto id = usr(E);
    if (!seenRec.insert(id).second) return;
    json::Object o;
    o["q"] = E->getQualifiedNameAsString();
    o["file"] = fileOf(E->getLocation());
    o["l"] = line(E->getLocation());
    json::Array a;
    for (auto *c : E->enumerators()) {
      json::Object co; co["n"] = c->getNameAsString(); co["v"] = ival(c->getInitVal()); co["l"] = line(c->getLocation());
      a.push_back(std::move(co));
    }
    o["e"] = std::move(a);
    enums.push_back(std::move(o));
  }
  void emitGlobal(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V)) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (!V->isThisDeclarationADefinition()) return;
    auto o = varDecl(V);
    o["q"] = V->getQualifiedNameAsString();
    o["u"] = usr(V);
    o["file"] = fileOf(V->getLocation());
    globals.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() || F->isDefaulted()) D.emitFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (!R->isLambda()) D.emitRecord(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.emitEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) { D.emitGlobal(V); return true; }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "kmextract: errors\n"; return; }
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object top;
    top["functions"] = std::move(D.functions);
    top["records"] = std::move(D.records);
    top["enums"] = std::move(D.enums);
    top["globals"] = std::move(D.globals);
    top["types"] = std::move(D.types);
    auto &SM = C.getSourceManager();
    if (auto F = SM.getFileEntryRefForID(SM.getMainFileID())) top["main"] = F->getName().str();
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

// usage: kmextract ROOT OUT DIR -- compiler args... file
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  g_root = argv[1];
  g_out = argv[2];
  std::string dir = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc - 1; ++i) args.push_back(argv[i]);
  std::string file = argv[argc - 1];
  tooling::FixedCompilationDatabase db(dir, args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
