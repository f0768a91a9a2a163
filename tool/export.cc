// stlx: exports the resolved program (typed, instantiated AST) of one
// translation unit of signal-temporal-logic as JSON, for the Python analyses.
//
//   stlx <repo-root> <out.json> <source> -- <compiler flags>
//
// Only entities written in files under <repo-root> (and in the extra roots
// given with -root=DIR before --) are exported. No function is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {
struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  json::Array Functions, Records, Vars, Raises, Enums;
  std::set<const Decl *> DoneF, DoneR;
  std::vector<const FunctionDecl *> Queue;

  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
    PP.AnonymousTagLocations = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getFileEntry().tryGetRealPathName());
    if (P.empty()) P = F->getName();
    return std::string(P);
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    for (auto &r : Roots)
      if (llvm::StringRef(f).starts_with(r)) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    return T.getAsString(PP);
  }
  std::string tyv(QualType T) { // value type: no ref, no top-level cv
    if (T.isNull()) return "";
    return ty(T.getNonReferenceType().getUnqualifiedType());
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    return s;
  }
  // qualified name with template arguments of the function and its classes
  static void stripAnon(std::string &s) {
    for (;;) {
      auto p = s.find("(anonymous namespace)::");
      if (p == std::string::npos) break;
      s.erase(p, strlen("(anonymous namespace)::"));
    }
  }
  std::string fqn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    os.flush();
    stripAnon(s);
    return s;
  }

  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return typeTree(A.getAsType());
    case TemplateArgument::Integral: {
      json::Object o;
      llvm::SmallString<16> s;
      A.getAsIntegral().toString(s);
      o["int"] = std::string(s);
      o["t"] = ty(A.getIntegralType());
      return o;
    }
    case TemplateArgument::Pack: {
      json::Array a;
      for (auto &P : A.pack_elements()) a.push_back(targ(P));
      json::Object o;
      o["pack"] = std::move(a);
      return o;
    }
    default: return json::Object{{"other", true}};
    }
  }
  json::Value typeTree(QualType T) {
    T = T.getCanonicalType();
    json::Object o;
    if (auto *R = T->getAsCXXRecordDecl()) {
      o["rec"] = fqn(R);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array a;
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Pack)
            for (auto &P : A.pack_elements()) a.push_back(targ(P));
          else
            a.push_back(targ(A));
        }
        o["args"] = std::move(a);
      }
      return o;
    }
    o["type"] = ty(T);
    return o;
  }

  // ---- statements and expressions -----------------------------------------
  json::Value nul() { return nullptr; }

  void loc(json::Object &o, SourceLocation L) {
    if (L.isValid()) o["l"] = (int)line(L);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nul();
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o{{"s", "expr"}, {"e", expr(E)}};
      loc(o, S->getBeginLoc());
      return o;
    }
    json::Object o;
    loc(o, S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["s"] = "block";
      json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl";
      json::Array a;
      for (auto *d : X->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["s"] = "if";
      if (X->isConstexpr()) o["constexpr"] = true;
      o["init"] = stmt(X->getInit());
      o["cv"] = X->getConditionVariable() ? var(X->getConditionVariable()) : nul();
      o["c"] = expr(X->getCond());
      o["t"] = stmt(X->getThen());
      o["e"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["s"] = "for";
      o["init"] = stmt(X->getInit());
      o["cv"] = X->getConditionVariable() ? var(X->getConditionVariable()) : nul();
      o["c"] = X->getCond() ? expr(X->getCond()) : nul();
      o["inc"] = X->getInc() ? expr(X->getInc()) : nul();
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "rangefor";
      o["init"] = stmt(X->getInit());
      o["range"] = expr(X->getRangeInit());
      o["v"] = var(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["s"] = "while";
      o["cv"] = X->getConditionVariable() ? var(X->getConditionVariable()) : nul();
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["s"] = "do";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["s"] = "switch";
      o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      o["allenum"] = X->isAllEnumCasesCovered();
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["s"] = "case";
      o["c"] = expr(X->getLHS());
      o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["s"] = "default";
      o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["s"] = "return";
      o["e"] = X->getRetValue() ? expr(X->getRetValue()) : nul();
    } else if (isa<BreakStmt>(S)) {
      o["s"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      o["s"] = "continue";
    } else if (isa<NullStmt>(S)) {
      o["s"] = "null";
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "try";
      o["b"] = stmt(X->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *h = X->getHandler(i);
        json::Object ho;
        ho["t"] = h->getExceptionDecl() ? tyv(h->getCaughtType()) : "...";
        if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
        ho["b"] = stmt(h->getHandlerBlock());
        ho["l"] = (int)line(h->getBeginLoc());
        a.push_back(std::move(ho));
      }
      o["h"] = std::move(a);
    } else {
      o["s"] = "unknown";
      o["cls"] = S->getStmtClassName();
    }
    return o;
  }

  json::Value var(const VarDecl *V) {
    json::Object o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = tyv(V->getType());
    o["ct"] = ty(V->getType());
    o["ref"] = V->getType()->isReferenceType();
    o["const"] = V->getType().getNonReferenceType().isConstQualified();
    o["static"] = V->isStaticLocal() || V->hasGlobalStorage();
    if (V->isConstexpr()) o["cx"] = true;
    loc(o, V->getLocation());
    if (V->getInit()) o["i"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array a;
      for (auto *b : D->bindings()) {
        json::Object bo{{"id", id(b)}, {"n", b->getNameAsString()}, {"t", tyv(b->getType())}};
        if (b->getHoldingVar()) bo["hold"] = true;
        a.push_back(std::move(bo));
      }
      o["binds"] = std::move(a);
    }
    return o;
  }

  bool ReadOnly = false;  // set by strip: the expression is only read (or bound to const)

  const Expr *strip(const Expr *E) {
    ReadOnly = false;
    for (;;) {
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: ReadOnly = true; E = X->getSubExpr(); break;
        case CK_NoOp:
          if (X->getType().isConstQualified()) ReadOnly = true;
          E = X->getSubExpr(); break;
        case CK_ConstructorConversion:
        case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_BuiltinFnToFnPtr: case CK_UserDefinedConversion:
          E = X->getSubExpr(); break;
        default: return E;
        }
      } else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
        if (isa<CXXReinterpretCastExpr>(E)) return E;
        if (X->getCastKind() != CK_NoOp && isa<CStyleCastExpr>(E)) return E;
        switch (X->getCastKind()) {
        case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_LValueToRValue:
          E = X->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
  }

  bool constval(const Expr *E, json::Object &o) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (!(T->isArithmeticType() || T->isEnumeralType())) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return false;
    return apval(R.Val, T, o);
  }
  bool apval(const APValue &V, QualType T, json::Object &o) {
    if (V.isFloat()) {
      auto f = V.getFloat();
      if (f.isInfinity()) o["val"] = f.isNegative() ? "-inf" : "inf";
      else if (f.isNaN()) o["val"] = "nan";
      else {
        llvm::SmallString<40> s;
        f.toString(s, 0, 0);
        o["val"] = std::string(s);
      }
      o["vt"] = "float";
      return true;
    }
    if (V.isInt()) {
      llvm::SmallString<24> s;
      V.getInt().toString(s);
      o["val"] = std::string(s);
      o["vt"] = T->isBooleanType() ? "bool" : T->isEnumeralType() ? "enum" : "int";
      if (auto *ET = T->getAs<EnumType>()) {
        for (auto *e : ET->getDecl()->enumerators())
          if (llvm::APSInt::isSameValue(e->getInitVal(), V.getInt())) { o["val"] = e->getNameAsString(); break; }
        o["en"] = fqn(ET->getDecl());
      }
      return true;
    }
    return false;
  }

  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !Def->isDependentContext()) {
      if (inRepo(Def->getLocation())) Queue.push_back(Def);
    }
  }

  void callee(json::Object &o, const FunctionDecl *F) {
    o["fn"] = fqn(F);
    o["fid"] = id(F);
    if (F->getPrimaryTemplate() || F->isTemplateInstantiation())
      if (auto *A = F->getTemplateSpecializationArgs()) {
        json::Array a;
        for (auto &x : A->asArray()) {
          if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType()));
          else if (x.getKind() == TemplateArgument::Integral) {
            llvm::SmallString<16> s;
            x.getAsIntegral().toString(s);
            a.push_back(std::string(s));
          } else if (x.getKind() == TemplateArgument::Pack) {
            for (auto &p : x.pack_elements())
              if (p.getKind() == TemplateArgument::Type) a.push_back(ty(p.getAsType()));
          }
        }
        o["ta"] = std::move(a);
        if (o["fn"].getAsString() && llvm::StringRef(*o["fn"].getAsString()).starts_with("tao::pegtl::")) {
          json::Array tt, tr;
          for (auto &x : A->asArray()) {
            if (x.getKind() == TemplateArgument::Template) {
              auto *D = x.getAsTemplate().getAsTemplateDecl();
              json::Object to{{"qn", D ? fqn(D) : ""}};
              if (auto *T = dyn_cast_or_null<TypeAliasTemplateDecl>(D))
                to["alias"] = T->getTemplatedDecl()->getUnderlyingType().getAsString();
              tt.push_back(std::move(to));
            } else if (x.getKind() == TemplateArgument::Type || x.getKind() == TemplateArgument::Integral) {
              tr.push_back(targ(x));
            }
          }
          o["tt"] = std::move(tt);
          o["tr"] = std::move(tr);
        }
      }
    json::Array pt;
    for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    const FunctionDecl *Def = nullptr;
    bool has = F->hasBody(Def);
    bool repo = has ? inRepo(Def->getLocation()) : inRepo(F->getLocation());
    if (repo) o["repo"] = true;
    if (repo && has) o["body"] = id(Def);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["mc"] = M->isConst();
      o["cls"] = fqn(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["mstatic"] = true;
    }
    enqueue(F);
  }

  json::Array args(llvm::ArrayRef<const Expr *> A) {
    json::Array a;
    for (auto *x : A) a.push_back(expr(x));
    return a;
  }

  json::Value expr(const Expr *E0) {
    if (!E0) return nul();
    const Expr *E = strip(E0);
    json::Object o;
    if (ReadOnly) o["ro"] = true;
    o["t"] = tyv(E->getType());
    if (E->getType().isConstQualified()) o["cq"] = true;
    if (E->isGLValue() && !E->isXValue()) o["lv"] = true;
    loc(o, E->getExprLoc());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; constval(X, o); }
    else if (isa<FloatingLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) { o["k"] = "lit"; constval(E, o); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "lit"; o["vt"] = "str";
      o["val"] = X->getCharByteWidth() == 1 ? json::fixUTF8(X->getString()) : "";
    }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "lit"; o["vt"] = "null"; }
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      o["k"] = "ref";
      o["n"] = D->getNameAsString();
      o["id"] = id(D);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "lit"; o["vt"] = "enum"; o["val"] = EC->getNameAsString();
        o["en"] = fqn(cast<EnumDecl>(EC->getDeclContext()));
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["rk"] = "func"; callee(o, F);
      } else if (auto *P = dyn_cast<ParmVarDecl>(D)) {
        o["rk"] = "param";
        (void)P;
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["rk"] = V->hasGlobalStorage() ? (V->isStaticLocal() ? "slocal" : "global") : "local";
        if (V->hasGlobalStorage()) o["qn"] = fqn(V);
        if (V->hasGlobalStorage() && V->getType().isConstQualified()) o["gconst"] = true;
        if (V->getType().isConstQualified() && V->isUsableInConstantExpressions(C)) constval(E, o);
        if (V->hasGlobalStorage()) o["repo"] = inRepo(V->getLocation());
      } else if (isa<BindingDecl>(D)) o["rk"] = "binding";
      else o["rk"] = "other";
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      o["k"] = "member";
      o["n"] = D->getNameAsString();
      o["arrow"] = X->isArrow();
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["cls"] = fqn(F->getParent()); o["mut"] = F->isMutable(); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["rk"] = "global"; o["qn"] = fqn(V); o["id"] = id(V); constval(E, o); return o; }
      o["b"] = expr(X->getBase());
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *M = X->getMethodDecl()) callee(o, M);
      auto *B = X->getImplicitObjectArgument();
      if (B) {
        o["obj"] = expr(B);
        auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        o["arrow"] = ME && ME->isArrow();
      }
      if (X->getMethodDecl() && isa<CXXConversionDecl>(X->getMethodDecl())) o["conv"] = true;
      constval(E, o);
      o["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
    }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "ocall";
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { callee(o, F); o["member"] = isa<CXXMethodDecl>(F); }
      o["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
      o["na"] = (int)X->getNumArgs();
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) callee(o, F);
      else o["callee"] = expr(X->getCallee());
      constval(E, o);
      o["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "construct";
      auto *D = X->getConstructor();
      callee(o, D);
      o["copy"] = D->isCopyOrMoveConstructor();
      o["dflt"] = D->isDefaultConstructor() && X->getNumArgs() == 0;
      o["impl"] = D->isImplicit() || D->isDefaulted();
      o["il"] = X->isStdInitListInitialization();
      o["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
    }
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "inhctor"; callee(o, X->getConstructor());
    }
    else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      o["k"] = "initlist";
      json::Array a;
      for (auto *i : X->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      if (auto *R = X->getType()->getAsCXXRecordDecl()) {
        json::Array f;
        for (auto *fd : R->fields()) f.push_back(fd->getNameAsString());
        o["f"] = std::move(f);
      }
    }
    else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "stdil"; o["e"] = expr(X->getSubExpr()); }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign"; o["op"] = X->getOpcodeStr(X->getOpcode()).drop_back().str();
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
    }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin"; o["op"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["x"] = expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["x"] = expr(X->getTrueExpr()); o["y"] = expr(X->getFalseExpr());
    }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["st"] = X->getStmtClassName();
      o["e"] = expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw"; o["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : nul();
    }
    else if (isa<CXXThisExpr>(E)) o["k"] = "this";
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "sub"; o["x"] = expr(X->getBase()); o["y"] = expr(X->getIdx()); }
    else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      auto *R = X->getLambdaClass();
      o["rid"] = id(R);
      json::Array caps;
      auto init = X->capture_init_begin();
      for (auto &c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; co["byref"] = c.getCaptureKind() != LCK_StarThis; }
        else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["initcap"] = X->isInitCapture(&c);
          co["i"] = *init ? expr(*init) : nul();
        }
        ++init;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      json::Array ops;
      auto add = [&](const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || Def->isDependentContext()) return;
        enqueue(F);
        json::Object fo;
        fo["id"] = id(Def);
        json::Array pt;
        for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
        fo["pt"] = std::move(pt);
        fo["tpl"] = F->getPrimaryTemplate() != nullptr;
        ops.push_back(std::move(fo));
      };
      auto *Op = R->getLambdaCallOperator();
      if (auto *FT = Op->getDescribedFunctionTemplate()) { for (auto *s : FT->specializations()) add(s); }
      else add(Op);
      o["ops"] = std::move(ops);
    }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["at"] = tyv(X->getAllocatedType()); o["i"] = X->getInitializer() ? expr(X->getInitializer()) : nul(); }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["e"] = expr(X->getArgument()); }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "lit"; if (!constval(X, o)) o["k"] = "unknown"; }
    else if (isa<CXXNoexceptExpr>(E) || isa<TypeTraitExpr>(E)) { o["k"] = "lit"; if (!constval(E, o)) o["k"] = "unknown"; }
    else if (auto *X = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["b"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<PredefinedExpr>(E)) { o["k"] = "lit"; o["vt"] = "str"; o["val"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : ""; }
    else { o["k"] = "unknown"; o["cls"] = E->getStmtClassName(); }
    return o;
  }

  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    F = Def;
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    if (!DoneF.insert(F->getCanonicalDecl()).second) return;
    json::Object o;
    o["id"] = id(F);
    o["qn"] = fqn(F);
    o["n"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["l"] = (int)line(F->getLocation());
    o["l2"] = (int)line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    o["internal"] = !F->isExternallyVisible();
    json::Array ps;
    for (auto *p : F->parameters()) {
      json::Object po;
      po["id"] = id(p);
      po["n"] = p->getNameAsString();
      po["t"] = tyv(p->getType());
      po["ct"] = ty(p->getType());
      po["ref"] = p->getType()->isReferenceType();
      po["const"] = p->getType().getNonReferenceType().isConstQualified();
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        po["d"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["p"] = std::move(ps);
    if (F->getPrimaryTemplate()) {
      o["tpl"] = true;
      json::Object tmp;
      if (auto *A = F->getTemplateSpecializationArgs()) {
        json::Array a;
        for (auto &x : A->asArray())
          if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType()));
        o["ta"] = std::move(a);
      }
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = fqn(M->getParent());
      o["clst"] = ty(C.getRecordType(M->getParent()));
      o["mc"] = M->isConst();
      o["mstatic"] = M->isStatic();
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
      if (M->getParent()->isLambda()) o["lambda"] = id(M->getParent());
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        o["impl"] = K->isDefaulted();
        json::Array in;
        for (auto *i : K->inits()) {
          json::Object io;
          if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
          else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          io["e"] = expr(i->getInit());
          io["written"] = i->isWritten();
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
    }
    o["defaulted"] = F->isDefaulted();
    o["b"] = stmt(F->getBody());
    Functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext() || R->isLambda()) return;
    if (!DoneR.insert(R->getCanonicalDecl()).second) return;
    json::Object o;
    o["id"] = id(R);
    o["qn"] = fqn(R);
    o["t"] = ty(C.getRecordType(R));
    o["file"] = file(R->getLocation());
    o["l"] = (int)line(R->getLocation());
    o["tree"] = typeTree(C.getRecordType(R));
    json::Array b;
    for (auto &B : R->bases()) b.push_back(typeTree(B.getType()));
    o["bases"] = std::move(b);
    json::Array f;
    for (auto *fd : R->fields()) {
      json::Object fo{{"n", fd->getNameAsString()}, {"t", ty(fd->getType())}, {"mut", fd->isMutable()},
                      {"access", fd->getAccess() == AS_public ? "public" : fd->getAccess() == AS_private ? "private" : "protected"}};
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) fo["i"] = expr(fd->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    json::Array fr;
    for (auto *F : R->friends()) {
      if (auto *D = F->getFriendDecl()) fr.push_back(D->getNameAsString());
      else if (auto *T = F->getFriendType()) fr.push_back(ty(T->getType()));
    }
    o["friends"] = std::move(fr);
    json::Array m;
    for (auto *md : R->methods()) {
      if (md->isImplicit()) continue;
      m.push_back(json::Object{{"n", md->getNameAsString()}, {"id", id(md)}, {"qn", fqn(md)}, {"deleted", md->isDeleted()},
                               {"defined", md->isDefined()}, {"l", (int)line(md->getLocation())}, {"ret", ty(md->getReturnType())},
                               {"const", md->isConst()}, {"access", md->getAccess() == AS_public ? "public" : md->getAccess() == AS_private ? "private" : "protected"}});
    }
    for (auto *d : R->decls())
      if (auto *ft = dyn_cast<FunctionTemplateDecl>(d))
        m.push_back(json::Object{{"n", ft->getNameAsString()}, {"tpl", true}, {"qn", fqn(ft)}, {"l", (int)line(ft->getLocation())}});
    o["methods"] = std::move(m);
    Records.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  json::Array Decls, Templates;
  ASTNameGenerator Names;
  explicit Visitor(Exporter &X) : X(X), Names(X.C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!X.inRepo(F->getLocation())) return true;
    if (F->doesThisDeclarationHaveABody() || F->isDefined()) X.function(F);
    if (!isa<CXXMethodDecl>(F) || !cast<CXXMethodDecl>(F)->getParent()->isLambda()) {
      if (!F->isDependentContext() && !F->isImplicit()) {
        json::Array pt;
        for (auto *p : F->parameters()) pt.push_back(X.ty(p->getType()));
        bool pure = F->isPureVirtual();
        bool inl = F->isInlined() || F->isConstexpr();
        std::string sym = Names.getName(F);
        Decls.push_back(json::Object{{"pure", pure}, {"inl", inl}, {"sym", sym}, {"qn", X.fqn(F)}, {"pt", std::move(pt)}, {"def", F->doesThisDeclarationHaveABody() || F->isDefaulted()},
                                     {"deleted", F->isDeleted()}, {"file", X.file(F->getLocation())}, {"l", (int)X.line(F->getLocation())},
                                     {"ext", F->isExternallyVisible()}, {"ret", X.ty(F->getReturnType())}, {"tpl", F->getPrimaryTemplate() != nullptr || F->isTemplateInstantiation()},
                                     {"const", isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isConst()}});
      }
    }
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T) {
    if (!X.inRepo(T->getLocation()) || isa<CXXDeductionGuideDecl>(T->getTemplatedDecl())) return true;
    auto *F = T->getTemplatedDecl();
    bool spec = false;
    for (auto *s : T->specializations()) spec = spec || (s->isDefined() && !T->isThisDeclarationADefinition());
    bool isdef = false;
    for (auto *r : T->redecls()) isdef = isdef || cast<FunctionTemplateDecl>(r)->isThisDeclarationADefinition();
    json::Array pt;
    for (auto *p : F->parameters()) pt.push_back(X.ty(p->getType()));
    Templates.push_back(json::Object{{"qn", X.fqn(T)}, {"pt", std::move(pt)}, {"def", isdef}, {"spec", spec}, {"deleted", F->isDeleted()},
                                     {"pure", F->isPureVirtual()},
                                     {"file", X.file(T->getLocation())}, {"l", (int)X.line(T->getLocation())}});
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && X.inRepo(R->getLocation())) X.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !X.inRepo(D->getLocation())) return true;
    json::Object o;
    o["qn"] = X.fqn(D);
    o["t"] = X.ty(X.C.getEnumType(D));
    json::Array a;
    for (auto *e : D->enumerators()) a.push_back(e->getNameAsString());
    o["names"] = std::move(a);
    X.Enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (auto *S = dyn_cast<VarTemplateSpecializationDecl>(V))
      if (S->getName() == "raise_on_failure" && !isa<VarTemplatePartialSpecializationDecl>(V) && !S->getDeclContext()->isDependentContext()) {
        json::Object o{{"qn", X.fqn(V)}};
        json::Array a;
        for (auto &A : S->getTemplateArgs().asArray()) a.push_back(X.targ(A));
        o["args"] = std::move(a);
        if (const VarDecl *D = V->getDefinition())
          if (auto *val = D->evaluateValue(); val && val->isInt()) o["val"] = val->getInt().getBoolValue();
        X.Raises.push_back(std::move(o));
      }
    if (isa<ParmVarDecl>(V) || !V->hasGlobalStorage() || !X.inRepo(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    json::Object o;
    o["qn"] = X.fqn(V);
    o["t"] = X.ty(V->getType());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["slocal"] = V->isStaticLocal();
    o["sym"] = Names.getName(V);
    o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly || V->isInline();
    o["inl"] = V->isInline() || V->isConstexpr() || V->isInAnonymousNamespace() || V->getTemplateSpecializationKind() != TSK_Undeclared;
    o["ext"] = V->isExternallyVisible();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["file"] = X.file(V->getLocation());
    o["l"] = (int)X.line(V->getLocation());
    o["id"] = X.id(V);
    X.Vars.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!X.Queue.empty()) {
      auto *F = X.Queue.back();
      X.Queue.pop_back();
      X.function(F);
    }
    json::Object o;
    o["functions"] = std::move(X.Functions);
    o["records"] = std::move(X.Records);
    o["vars"] = std::move(X.Vars);
    o["raises"] = std::move(X.Raises);
    o["enums"] = std::move(X.Enums);
    o["decls"] = std::move(V.Decls);
    o["templates"] = std::move(V.Templates);
    o["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getDiagnostics().setErrorLimit(0);
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage\n"; return 2; }
  Roots.push_back(argv[1]);
  OutPath = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  bool dd = false;
  for (int i = 4; i < argc; i++) {
    std::string a = argv[i];
    if (!dd && a == "--") { dd = true; continue; }
    if (!dd && a.rfind("-root=", 0) == 0) { Roots.push_back(a.substr(6)); continue; }
    if (dd) flags.push_back(a);
  }
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool Tool(DB, {src});
  (void)Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
