// cxxdump: dumps the typed, resolved clang AST of every function, record and
// enum that the repository itself defines (src/*.cpp, include/tokenizers/*.h)
// as JSON.  It is a pure syntax dump: no semantics is decided here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const void *, int> ids;
  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  int idOf(const Decl *D) {
    const void *p = D->getCanonicalDecl();
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[p] = n;
    return n;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getSpellingLineNumber(L);
  }
  bool inRepo(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    return f.rfind(gRoot, 0) == 0;
  }
  std::string relFile(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.rfind(gRoot, 0) == 0) f = f.substr(gRoot.size());
    while (!f.empty() && f[0] == '/') f = f.substr(1);
    return f;
  }

  json::Value ty(QualType T) {
    T = T.getCanonicalType();
    bool cst = T.isConstQualified();
    (void)cst;
    const Type *t = T.getTypePtr();
    if (const auto *R = dyn_cast<ReferenceType>(t)) {
      json::Array a;
      a.push_back(isa<RValueReferenceType>(t) ? "&&" : "&");
      a.push_back(R->getPointeeType().isConstQualified());
      a.push_back(ty(R->getPointeeType().getUnqualifiedType()));
      return a;
    }
    if (const auto *P = dyn_cast<PointerType>(t)) {
      json::Array a;
      a.push_back("*");
      a.push_back(P->getPointeeType().isConstQualified());
      a.push_back(ty(P->getPointeeType().getUnqualifiedType()));
      return a;
    }
    if (const auto *AT = dyn_cast<ConstantArrayType>(t)) {
      json::Array a;
      a.push_back("array");
      a.push_back(ty(AT->getElementType().getUnqualifiedType()));
      a.push_back((int64_t)AT->getSize().getZExtValue());
      return a;
    }
    if (const auto *E = dyn_cast<EnumType>(t)) {
      json::Array a;
      a.push_back("enum");
      a.push_back(E->getDecl()->getQualifiedNameAsString());
      return a;
    }
    if (const auto *F = dyn_cast<FunctionProtoType>(t)) {
      json::Array a;
      a.push_back("fn");
      a.push_back(ty(F->getReturnType()));
      for (auto p : F->param_types()) a.push_back(ty(p));
      return a;
    }
    if (const auto *RT = dyn_cast<RecordType>(t)) {
      const RecordDecl *RD = RT->getDecl();
      if (const auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
        if (CR->isLambda()) {
          json::Array a;
          a.push_back("lambda");
          a.push_back(idOf(CR));
          return a;
        }
      }
      if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array a;
        a.push_back(S->getQualifiedNameAsString());
        for (const auto &A : S->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type)
            a.push_back(ty(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Pack) {
            for (const auto &B : A.pack_elements())
              if (B.getKind() == TemplateArgument::Type)
                a.push_back(ty(B.getAsType()));
          }
        }
        return a;
      }
      return RD->getQualifiedNameAsString();
    }
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    return T.getUnqualifiedType().getAsString(PP);
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = idOf(V);
    o["name"] = V->getNameAsString();
    o["type"] = ty(V->getType());
    o["const"] = V->getType().isConstQualified();
    if (V->isStaticLocal()) o["static"] = true;
    o["line"] = lineOf(V->getLocation());
    if (V->hasInit()) o["init"] = st(V->getInit());
    if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
      o["name"] = "unnamed";
      json::Array bs;
      for (const BindingDecl *B : DD->bindings()) {
        json::Object b;
        b["id"] = idOf(B);
        b["name"] = B->getNameAsString();
        b["type"] = ty(B->getType());
        bs.push_back(std::move(b));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  json::Value funcRef(const FunctionDecl *F) {
    json::Object o;
    o["name"] = F->getQualifiedNameAsString();
    o["repo"] = inRepo(F);
    o["ret"] = ty(F->getReturnType());
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(ty(p->getType()));
    o["params"] = std::move(ps);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["method"] = true;
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      o["static"] = M->isStatic();
      o["cls"] = ty(C.getTypeDeclType(M->getParent()));
      if (M->getParent()->isLambda()) o["lambda"] = idOf(M->getParent());
    }
    return o;
  }

  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    // transparent wrappers
    while (true) {
      if (const auto *E = dyn_cast<Expr>(S)) {
        const Expr *I = E;
        if (const auto *X = dyn_cast<ExprWithCleanups>(I)) { S = X->getSubExpr(); continue; }
        if (const auto *X = dyn_cast<MaterializeTemporaryExpr>(I)) { S = X->getSubExpr(); continue; }
        if (const auto *X = dyn_cast<CXXBindTemporaryExpr>(I)) { S = X->getSubExpr(); continue; }
        if (const auto *X = dyn_cast<ConstantExpr>(I)) { S = X->getSubExpr(); continue; }
        if (const auto *X = dyn_cast<ParenExpr>(I)) { S = X->getSubExpr(); continue; }
        if (const auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(I)) { S = X->getReplacement(); continue; }
        if (const auto *X = dyn_cast<CXXDefaultArgExpr>(I)) { S = X->getExpr(); continue; }
        if (const auto *X = dyn_cast<CXXDefaultInitExpr>(I)) { S = X->getExpr(); continue; }
      }
      if (const auto *A = dyn_cast<AttributedStmt>(S)) { S = A->getSubStmt(); continue; }
      break;
    }
    json::Object o;
    o["k"] = S->getStmtClassName();
    o["line"] = lineOf(S->getBeginLoc());
    if (const auto *E = dyn_cast<Expr>(S)) {
      o["type"] = ty(E->getType());
      if (E->isLValue()) o["lv"] = true;
    }
    json::Array kids;
    bool generic = true;
    auto kid = [&](const Stmt *X) { kids.push_back(st(X)); };

    if (const auto *X = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> str;
      X->getValue().toString(str, 10, X->getType()->isSignedIntegerType());
      o["value"] = std::string(str);
    } else if (const auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["value"] = X->getValue();
    } else if (const auto *X = dyn_cast<CharacterLiteral>(S)) {
      o["value"] = (int64_t)X->getValue();
    } else if (const auto *X = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<32> str;
      X->getValue().toString(str);
      o["value"] = std::string(str);
    } else if (const auto *X = dyn_cast<StringLiteral>(S)) {
      json::Array units;
      for (unsigned i = 0; i < X->getLength(); i++)
        units.push_back((int64_t)X->getCodeUnit(i));
      o["units"] = std::move(units);
      o["width"] = (int64_t)X->getCharByteWidth();
    } else if (const auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      o["name"] = D->getNameAsString();
      o["qname"] = D->getQualifiedNameAsString();
      o["id"] = idOf(D);
      o["dk"] = D->getDeclKindName();
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> str;
        EC->getInitVal().toString(str, 10);
        o["value"] = std::string(str);
      }
      if (const auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = funcRef(F);
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        o["global"] = V->hasGlobalStorage();
        o["vtype"] = ty(V->getType());
      }
    } else if (const auto *X = dyn_cast<MemberExpr>(S)) {
      o["name"] = X->getMemberDecl()->getNameAsString();
      o["qname"] = X->getMemberDecl()->getQualifiedNameAsString();
      o["arrow"] = X->isArrow();
      o["dk"] = X->getMemberDecl()->getDeclKindName();
      if (const auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
        o["fn"] = funcRef(F);
    } else if (const auto *X = dyn_cast<CastExpr>(S)) {
      o["cast"] = X->getCastKindName();
      o["implicit"] = isa<ImplicitCastExpr>(S);
    } else if (const auto *X = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["postfix"] = X->isPostfix();
    } else if (const auto *X = dyn_cast<BinaryOperator>(S)) {
      o["op"] = X->getOpcodeStr().str();
      if (const auto *CA = dyn_cast<CompoundAssignOperator>(S)) {
        o["ctype"] = ty(CA->getComputationResultType());
      }
    } else if (const auto *X = dyn_cast<CXXConstructExpr>(S)) {
      const CXXConstructorDecl *D = X->getConstructor();
      o["fn"] = funcRef(D);
      o["cls"] = ty(X->getType().getUnqualifiedType());
      o["copy"] = D->isCopyOrMoveConstructor();
      o["list"] = X->isListInitialization();
      o["stdinit"] = X->isStdInitListInitialization();
    } else if (const auto *X = dyn_cast<CallExpr>(S)) {
      if (const FunctionDecl *F = X->getDirectCallee()) {
        o["fn"] = funcRef(F);
        if (const auto *TA = F->getTemplateSpecializationArgs())
          if (TA->size() > 0 && TA->get(0).getKind() == TemplateArgument::Integral)
            o["targ"] = (int64_t)TA->get(0).getAsIntegral().getZExtValue();
      }
      if (const auto *OC = dyn_cast<CXXOperatorCallExpr>(S))
        o["op"] = std::string(getOperatorSpelling(OC->getOperator()));
    } else if (const auto *X = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *L = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (unsigned i = 0; i < L->getNumInits(); i++) kid(L->getInit(i));
      generic = false;
    } else if (const auto *X = dyn_cast<LambdaExpr>(S)) {
      generic = false;
      o["lid"] = idOf(X->getLambdaClass());
      json::Array caps;
      for (const auto &cp : X->captures()) {
        json::Object c;
        c["this"] = cp.capturesThis();
        if (cp.capturesVariable()) {
          c["name"] = cp.getCapturedVar()->getNameAsString();
          c["id"] = idOf(cp.getCapturedVar());
          c["byref"] = cp.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(c));
      }
      o["captures"] = std::move(caps);
      json::Array ps;
      for (auto *p : X->getCallOperator()->parameters()) ps.push_back(varDecl(p));
      o["params"] = std::move(ps);
      o["ret"] = ty(X->getCallOperator()->getReturnType());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<DeclStmt>(S)) {
      generic = false;
      json::Array ds;
      for (const Decl *D : X->decls()) {
        if (const auto *V = dyn_cast<VarDecl>(D)) ds.push_back(varDecl(V));
        else {
          json::Object u; u["unsupported"] = D->getDeclKindName();
          ds.push_back(std::move(u));
        }
      }
      o["decls"] = std::move(ds);
    } else if (const auto *X = dyn_cast<IfStmt>(S)) {
      generic = false;
      if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["condvar"] = st(X->getConditionVariableDeclStmt());
      o["cond"] = st(X->getCond());
      o["then"] = st(X->getThen());
      if (X->getElse()) o["else"] = st(X->getElse());
    } else if (const auto *X = dyn_cast<ForStmt>(S)) {
      generic = false;
      if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getCond()) o["cond"] = st(X->getCond());
      if (X->getInc()) o["inc"] = st(X->getInc());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<WhileStmt>(S)) {
      generic = false;
      o["cond"] = st(X->getCond());
      if (X->getConditionVariableDeclStmt()) o["condvar"] = st(X->getConditionVariableDeclStmt());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<DoStmt>(S)) {
      generic = false;
      o["cond"] = st(X->getCond());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      generic = false;
      if (X->getInit()) o["init"] = st(X->getInit());
      o["range"] = st(X->getRangeInit());
      o["var"] = varDecl(X->getLoopVariable());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<SwitchStmt>(S)) {
      generic = false;
      o["cond"] = st(X->getCond());
      o["body"] = st(X->getBody());
    } else if (const auto *X = dyn_cast<CaseStmt>(S)) {
      generic = false;
      o["lhs"] = st(X->getLHS());
      o["sub"] = st(X->getSubStmt());
    } else if (const auto *X = dyn_cast<DefaultStmt>(S)) {
      generic = false;
      o["sub"] = st(X->getSubStmt());
    } else if (const auto *X = dyn_cast<CXXTryStmt>(S)) {
      generic = false;
      o["body"] = st(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        json::Object h;
        h["type"] = X->getHandler(i)->getExceptionDecl() ? ty(X->getHandler(i)->getCaughtType()) : json::Value("...");
        h["body"] = st(X->getHandler(i)->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["handlers"] = std::move(hs);
    } else if (const auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> str;
        R.Val.getInt().toString(str, 10);
        o["value"] = std::string(str);
      }
    }
    if (generic)
      for (const Stmt *X : S->children()) kid(X);
    if (!kids.empty()) o["c"] = std::move(kids);
    return o;
  }

  json::Value function(const FunctionDecl *F) {
    json::Object o;
    o["qname"] = F->getQualifiedNameAsString();
    o["file"] = relFile(F->getLocation());
    o["line"] = lineOf(F->getBeginLoc());
    o["endline"] = lineOf(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(varDecl(p));
    o["params"] = std::move(ps);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      json::Array ov;
      for (const auto *b : M->overridden_methods()) ov.push_back(b->getQualifiedNameAsString());
      o["overrides"] = std::move(ov);
    }
    if (const auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array in;
      for (const CXXCtorInitializer *I : K->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["delegating"] = true;
        i["written"] = I->isWritten();
        i["e"] = st(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = st(F->getBody());
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  json::Array &recs, &enums, &fns;
  std::set<std::string> seen;
  V(Dumper &D, json::Array &r, json::Array &e, json::Array &f) : D(D), recs(r), enums(e), fns(f) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || !D.inRepo(R)) return true;
    json::Object o;
    o["name"] = R->getQualifiedNameAsString();
    json::Array bs;
    for (const auto &b : R->bases()) bs.push_back(D.ty(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *f : R->fields()) {
      json::Object x;
      x["name"] = f->getNameAsString();
      x["type"] = D.ty(f->getType());
      x["mutable"] = f->isMutable();
      if (f->hasInClassInitializer()) x["init"] = D.st(f->getInClassInitializer());
      fs.push_back(std::move(x));
    }
    o["fields"] = std::move(fs);
    o["abstract"] = R->isAbstract();
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRepo(E)) return true;
    json::Object o;
    o["name"] = E->getQualifiedNameAsString();
    json::Array cs;
    for (auto *c : E->enumerators()) {
      json::Object x;
      x["name"] = c->getNameAsString();
      llvm::SmallString<32> str;
      c->getInitVal().toString(str, 10);
      x["value"] = std::string(str);
      cs.push_back(std::move(x));
    }
    o["consts"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDefaulted() || F->isImplicit()) return true;
    if (F->isDependentContext() || !D.inRepo(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    fns.push_back(D.function(F));
    return true;
  }
  bool VisitVarDecl(VarDecl *X) { return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    json::Array r, e, f;
    V v(D, r, e, f);
    v.TraverseDecl(C.getTranslationUnitDecl());
    // globals defined by the repo
    json::Array g;
    for (Decl *d : C.getTranslationUnitDecl()->decls())
      if (auto *X = dyn_cast<VarDecl>(d))
        if (D.inRepo(X)) g.push_back(D.varDecl(X));
    json::Object o;
    o["records"] = std::move(r);
    o["enums"] = std::move(e);
    o["functions"] = std::move(f);
    o["globals"] = std::move(g);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, char **argv) {
  if (argc < 3) { std::cerr << "usage: cxxdump ROOT FILE [flags...]\n"; return 2; }
  gRoot = argv[1];
  std::string file = argv[2];
  std::ifstream in(file);
  if (!in) { std::cerr << "cannot read " << file << "\n"; return 2; }
  std::stringstream ss;
  ss << in.rdbuf();
  std::vector<std::string> flags;
  for (int i = 3; i < argc; i++) flags.push_back(argv[i]);
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), ss.str(), flags, file, "cxxdump");
  return ok ? 0 : 1;
}
