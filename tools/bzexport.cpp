// bzexport: exports the type-checked, template-instantiated bodies of the
// library's functions as a small JSON IR (resolved callees, resolved types,
// discarded `if constexpr` branches gone, constants folded).
//
// usage: bzexport OUT.json ROOTPREFIX FILE.cpp -- <compiler flags>
// Only functions whose spelling location lies under ROOTPREFIX (the library)
// or in FILE.cpp itself (the probe) are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gOut, gRoot, gMain;

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext &c) : Ctx(c), SM(c.getSourceManager()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    return f.rfind(gRoot, 0) == 0 || f == gMain;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      // defaulted special members: no body unless synthesised
      return true;
    }
    if (D != F) return true;
    if (!inScope(F->getLocation())) return true;
    funId(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    // constant tables of the library
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!inScope(V->getLocation())) return true;
    if (!V->isStaticDataMember() && !V->isFileVarDecl()) return true;
    json::Object o;
    o["name"] = qname(V);
    o["type"] = typeId(V->getType());
    o["constexpr"] = V->isConstexpr();
    o["const"] = V->getType().isConstQualified();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    loc(o, V->getLocation());
    if (V->isConstexpr() || V->getType().isConstQualified()) {
      if (const VarDecl *Def = V->getDefinition(Ctx) ? V->getDefinition(Ctx) : V) {
        (void)Def;
        if (V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent())
          if (const APValue *A = V->evaluateValue()) o["value"] = apv(*A);
      }
    } else if (const VarDecl *Def = V->getDefinition(Ctx)) {
      const Expr *I = Def->getAnyInitializer();
      if (I && !I->isValueDependent()) o["init"] = expr(I);
    }
    Vars.push_back(std::move(o));
    return true;
  }

  // ---------------------------------------------------------------- helpers
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  json::Value apv(const APValue &A) {
    switch (A.getKind()) {
      case APValue::Int: {
        llvm::SmallString<32> s;
        A.getInt().toString(s, 10);
        return std::string(s.str());
      }
      case APValue::Float: {
        llvm::SmallString<32> s;
        A.getFloat().toString(s);
        return std::string(s.str());
      }
      case APValue::Array: {
        json::Array a;
        unsigned n = A.getArraySize(), m = A.getArrayInitializedElts();
        for (unsigned i = 0; i < n; i++) {
          if (i < m) a.push_back(apv(A.getArrayInitializedElt(i)));
          else if (A.hasArrayFiller()) a.push_back(apv(A.getArrayFiller()));
        }
        return a;
      }
      case APValue::Struct: {
        json::Array a;
        for (unsigned i = 0; i < A.getStructNumBases(); i++)
          a.push_back(apv(A.getStructBase(i)));
        for (unsigned i = 0; i < A.getStructNumFields(); i++)
          a.push_back(apv(A.getStructField(i)));
        return a;
      }
      default:
        return nullptr;
    }
  }
  void loc(json::Object &o, SourceLocation L) {
    if (L.isInvalid()) return;
    // macro bodies: report the expansion point
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return;
    std::string f = P.getFilename();
    auto it = Files.find(f);
    int id;
    if (it == Files.end()) {
      id = Files.size();
      Files[f] = id;
    } else
      id = it->second;
    o["l"] = json::Array{id, (int)P.getLine()};
  }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    auto it = TypeIds.find(T.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int id = Types.size();
    TypeIds[T.getAsOpaquePtr()] = id;
    Types.push_back(json::Object{});
    json::Object o;
    o["s"] = T.getAsString(PP);
    if (T.isConstQualified()) o["const"] = true;
    if (T.isVolatileQualified()) o["volatile"] = true;
    QualType U = T.getUnqualifiedType();
    if (U->isReferenceType()) {
      o["k"] = U->isRValueReferenceType() ? "rref" : "ref";
      o["to"] = typeId(U->getPointeeType());
    } else if (U->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = typeId(U->getPointeeType());
    } else if (U->isBooleanType()) {
      o["k"] = "bool";
    } else if (U->isEnumeralType()) {
      o["k"] = "enum";
    } else if (U->isIntegerType()) {
      o["k"] = U->isUnsignedIntegerType() ? "uint" : "int";
      o["bits"] = (int64_t)Ctx.getTypeSize(U);
      if (U->isCharType()) o["char"] = true;
    } else if (U->isRealFloatingType()) {
      o["k"] = "float";
      o["bits"] = (int64_t)Ctx.getTypeSize(U);
    } else if (U->isVoidType()) {
      o["k"] = "void";
    } else if (const auto *R = U->getAs<RecordType>()) {
      o["k"] = "rec";
      o["rec"] = recId(R->getDecl());
    } else if (const auto *A = Ctx.getAsConstantArrayType(U)) {
      o["k"] = "carr";
      o["n"] = (int64_t)A->getSize().getZExtValue();
      o["to"] = typeId(A->getElementType());
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }

  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type:
        return json::Object{{"t", typeId(A.getAsType())}};
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s;
        A.getAsIntegral().toString(s, 10);
        return json::Object{{"i", std::string(s.str())}};
      }
      case TemplateArgument::Pack: {
        json::Array a;
        for (const auto &x : A.pack_elements()) a.push_back(targ(x));
        return json::Object{{"pack", std::move(a)}};
      }
      default:
        return json::Object{{"other", true}};
    }
  }

  int recId(const RecordDecl *R) {
    if (const RecordDecl *D = R->getDefinition()) R = D;
    const Decl *C = R->getCanonicalDecl();
    auto it = RecIds.find(C);
    if (it != RecIds.end()) return it->second;
    int id = Recs.size();
    RecIds[C] = id;
    Recs.push_back(json::Object{});
    json::Object o;
    o["name"] = qname(R);
    o["short"] = R->getNameAsString();
    loc(o, R->getLocation());
    o["lib"] = inScope(R->getLocation());
    if ((isa<CXXRecordDecl>(R) && cast<CXXRecordDecl>(R)->isLambda())) o["lambda"] = true;
    json::Array ta;
    if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
      for (const auto &a : S->getTemplateArgs().asArray()) ta.push_back(targ(a));
    o["targs"] = std::move(ta);
    json::Array fs, bs, ms;
    if (inScope(R->getLocation()) && R->isCompleteDefinition()) {
      for (const FieldDecl *F : R->fields()) {
        json::Object f;
        f["name"] = F->getNameAsString();
        f["type"] = typeId(F->getType());
        f["mutable"] = F->isMutable();
        if (F->hasInClassInitializer() && F->getInClassInitializer())
          PendingInits.push_back({id, (int)fs.size(), F->getInClassInitializer()});
        fs.push_back(std::move(f));
      }
      if (const auto *CR = dyn_cast<CXXRecordDecl>(R))
        for (const auto &b : CR->bases()) bs.push_back(typeId(b.getType()));
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    Recs[id] = std::move(o);
    return id;
  }

  int funId(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) F = D;
    auto it = FunIds.find(F);
    if (it != FunIds.end()) return it->second;
    int id = Funs.size();
    FunIds[F] = id;
    Funs.push_back(json::Object{});
    Queue.push_back(F);
    return id;
  }

  int varId(const ValueDecl *V) {
    auto it = VarIds.find(V);
    if (it != VarIds.end()) return it->second;
    int id = VarIds.size();
    VarIds[V] = id;
    return id;
  }

  void finish() {
    for (size_t i = 0; i < Queue.size() || !PendingInits.empty();) {
      if (i < Queue.size()) {
        dumpFun(Queue[i]);
        i++;
        continue;
      }
      auto P = PendingInits;
      PendingInits.clear();
      for (auto &p : P) {
        json::Value e = expr(std::get<2>(p));
        json::Object *r = Recs[std::get<0>(p)].getAsObject();
        json::Object *f = (*(*r)["fields"].getAsArray())[std::get<1>(p)].getAsObject();
        (*f)["init"] = std::move(e);
      }
    }
  }

  void dumpFun(const FunctionDecl *F) {
    int id = FunIds[F];
    json::Object o;
    o["name"] = qname(F);
    o["short"] = F->getNameAsString();
    loc(o, F->getLocation());
    o["ret"] = typeId(F->getReturnType());
    bool lib = inScope(F->getLocation());
    o["lib"] = lib;
    json::Array ps;
    for (const ParmVarDecl *P : F->parameters())
      ps.push_back(json::Object{{"id", varId(P)},
                                {"name", P->getNameAsString()},
                                {"type", typeId(P->getType())}});
    o["params"] = std::move(ps);
    json::Array ta;
    if (const auto *A = F->getTemplateSpecializationArgs())
      for (const auto &x : A->asArray()) ta.push_back(targ(x));
    o["targs"] = std::move(ta);
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isDeleted()) o["deleted"] = true;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = recId(M->getParent());
      o["static"] = M->isStatic();
      o["cst"] = M->isConst();
      o["access"] = (int)M->getAccess();
      if (M->getParent()->isLambda()) o["lambda"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())
        o["assign"] = true;
    }
    if (const auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (C->isCopyConstructor()) o["copyctor"] = true;
      if (C->isMoveConstructor()) o["copyctor"] = true;
      if (C->isDefaultConstructor()) o["defctor"] = true;
      if (lib && C->hasBody()) {
        json::Array is;
        for (const CXXCtorInitializer *I : C->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer())
            io["field"] = I->getAnyMember()->getNameAsString();
          else if (I->isBaseInitializer())
            io["base"] = typeId(QualType(I->getBaseClass(), 0));
          else
            io["deleg"] = true;
          io["written"] = I->isWritten();
          io["e"] = expr(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (isa<CXXConversionDecl>(F)) o["conv"] = true;
    if (lib) {
      if (const Stmt *B = F->getBody())
        o["body"] = stmt(B);
    }
    Funs[id] = std::move(o);
  }

  // -------------------------------------------------------------- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    loc(o, S->getBeginLoc());
    if (const auto *C = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array a;
      for (const Stmt *x : C->body()) {
        json::Value v = stmt(x);
        if (v.kind() != json::Value::Null) a.push_back(std::move(v));
      }
      o["b"] = std::move(a);
      return o;
    }
    if (isa<NullStmt>(S)) return nullptr;
    if (const auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (const Decl *x : D->decls()) {
        if (const auto *V = dyn_cast<VarDecl>(x)) {
          json::Object v;
          v["id"] = varId(V);
          v["name"] = V->getNameAsString();
          v["type"] = typeId(V->getType());
          if (V->isStaticLocal()) v["static"] = true;
          if (V->isConstexpr()) v["constexpr"] = true;
          loc(v, V->getLocation());
          if (V->hasInit()) v["init"] = expr(V->getInit());
          a.push_back(std::move(v));
          if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
            (void)DD;
            a.back().getAsObject()->insert({"decomp", true});
          }
        }
      }
      if (a.empty()) return nullptr;
      o["d"] = std::move(a);
      return o;
    }
    if (const auto *I = dyn_cast<IfStmt>(S)) {
      if (I->isConstexpr()) {
        // In an instantiation the condition is a constant
        Expr::EvalResult R;
        if (!I->getCond()->isValueDependent() &&
            I->getCond()->EvaluateAsInt(R, Ctx)) {
          const Stmt *T = R.Val.getInt().getBoolValue() ? I->getThen() : I->getElse();
          json::Array a;
          if (I->getInit()) a.push_back(stmt(I->getInit()));
          json::Value v = stmt(T);
          if (v.kind() != json::Value::Null) a.push_back(std::move(v));
          o["k"] = "block";
          o["b"] = std::move(a);
          return o;
        }
      }
      o["k"] = "if";
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt())
        o["cv"] = stmt(I->getConditionVariableDeclStmt());
      o["c"] = expr(I->getCond());
      o["t"] = stmt(I->getThen());
      o["e"] = stmt(I->getElse());
      return o;
    }
    if (const auto *F = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["init"] = stmt(F->getInit());
      o["c"] = F->getCond() ? expr(F->getCond()) : json::Value(nullptr);
      o["inc"] = F->getInc() ? expr(F->getInc()) : json::Value(nullptr);
      o["b"] = stmt(F->getBody());
      return o;
    }
    if (const auto *W = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (const auto *W = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (const auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rangefor";
      const VarDecl *V = R->getLoopVariable();
      o["var"] = json::Object{{"id", varId(V)},
                              {"name", V->getNameAsString()},
                              {"type", typeId(V->getType())}};
      if (R->getRangeInit()) o["range"] = expr(R->getRangeInit());
      o["b"] = stmt(R->getBody());
      return o;
    }
    if (const auto *R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "return";
      if (R->getRetValue()) o["e"] = expr(R->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(S)) {
      o["k"] = "continue";
      return o;
    }
    if (const auto *W = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (const auto *C = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["v"] = expr(C->getLHS());
      o["b"] = stmt(C->getSubStmt());
      return o;
    }
    if (const auto *C = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["b"] = stmt(C->getSubStmt());
      return o;
    }
    if (const auto *T = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = stmt(T->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++)
        hs.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(hs);
      return o;
    }
    if (const auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (const auto *E = dyn_cast<Expr>(S)) {
      o["k"] = "expr";
      o["e"] = expr(E);
      return o;
    }
    o["k"] = "unk";
    o["cls"] = S->getStmtClassName();
    return o;
  }

  // ------------------------------------------------------------- expressions
  json::Value lit(const llvm::APSInt &I, const Expr *E, const char *from) {
    json::Object o;
    llvm::SmallString<32> s;
    I.toString(s, 10);
    o["k"] = "int";
    o["v"] = std::string(s.str());
    o["t"] = typeId(E->getType());
    if (from) o["from"] = from;
    return o;
  }

  json::Value call(const CallExpr *C, json::Object o) {
    o["k"] = "call";
    const FunctionDecl *F = C->getDirectCallee();
    json::Array as;
    if (const auto *M = dyn_cast<CXXMemberCallExpr>(C)) {
      o["obj"] = expr(M->getImplicitObjectArgument());
      if (M->getImplicitObjectArgument()->getType()->isPointerType())
        o["arrow"] = true;
      for (const Expr *a : M->arguments()) as.push_back(expr(a));
    } else if (const auto *O = dyn_cast<CXXOperatorCallExpr>(C)) {
      o["op"] = getOperatorSpelling(O->getOperator());
      unsigned first = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["obj"] = expr(O->getArg(0));
        first = 1;
      }
      for (unsigned i = first; i < O->getNumArgs(); i++)
        as.push_back(expr(O->getArg(i)));
    } else {
      for (const Expr *a : C->arguments()) as.push_back(expr(a));
    }
    if (F) {
      callee(o, F);
    } else {
      o["fn"] = expr(C->getCallee());
    }
    o["a"] = std::move(as);
    return o;
  }
  void callee(json::Object &o, const FunctionDecl *F) {
    o["name"] = qname(F);
    o["short"] = F->getNameAsString();
    const FunctionDecl *D = nullptr;
    F->hasBody(D);
    if (D) F = D;
    if (inScope(F->getLocation()) && !F->isDependentContext()) o["f"] = funId(F);
    if (!inScope(F->getLocation())) {
      json::Array ta;
      if (const auto *A = F->getTemplateSpecializationArgs())
        for (const auto &x : A->asArray()) ta.push_back(targ(x));
      o["targs"] = std::move(ta);
    }
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = recId(M->getParent());
      o["cst"] = M->isConst();
      if (M->isStatic()) o["static"] = true;
    }
    json::Array pt;
    for (const ParmVarDecl *P : F->parameters()) pt.push_back(typeId(P->getType()));
    o["pt"] = std::move(pt);
    if (F->isNoReturn()) o["noreturn"] = true;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // strip the nodes that carry no meaning here
    while (true) {
      if (const auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (const auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      break;
    }
    json::Object o;
    if (const auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "temp";
      o["t"] = typeId(E->getType());
      o["e"] = expr(M->getSubExpr());
      return o;
    }
    if (const auto *L = dyn_cast<IntegerLiteral>(E)) {
      llvm::APSInt I(L->getValue(), L->getType()->isUnsignedIntegerType());
      return lit(I, E, nullptr);
    }
    if (const auto *L = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int";
      o["v"] = std::to_string(L->getValue());
      o["t"] = typeId(E->getType());
      return o;
    }
    if (const auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool";
      o["v"] = L->getValue();
      o["t"] = typeId(E->getType());
      return o;
    }
    if (const auto *L = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      llvm::SmallString<32> s;
      L->getValue().toString(s, 0, 0);
      o["v"] = std::string(s.str());
      o["t"] = typeId(E->getType());
      return o;
    }
    if (const auto *L = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = L->isOrdinary() ? json::fixUTF8(L->getString()) : std::string("?");
      o["t"] = typeId(E->getType());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E)) {
      o["k"] = "nullptr";
      return o;
    }
    o["t"] = typeId(E->getType());
    loc(o, E->getExprLoc());
    if (E->isLValue()) o["lv"] = true;
    // traits and sizes: constants
    if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<SizeOfPackExpr>(E) ||
        isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx))
        return lit(R.Val.getInt(), E, E->getStmtClassName());
    }
    if (const auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (const auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        o["k"] = "int";
        o["v"] = std::string(s.str());
        o["enum"] = qname(EC);
        return o;
      }
      if (const auto *VD = dyn_cast<VarDecl>(V)) {
        bool glob = VD->hasGlobalStorage() && !VD->isStaticLocal();
        if (glob && V->getType()->isIntegralOrEnumerationType()) {
          Expr::EvalResult R;
          if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) {
            json::Value v = lit(R.Val.getInt(), E, "const");
            v.getAsObject()->insert({"name", qname(V)});
            return v;
          }
        }
        o["k"] = "var";
        o["id"] = varId(V);
        o["name"] = VD->hasGlobalStorage() ? qname(V) : V->getNameAsString();
        if (VD->hasGlobalStorage()) o["global"] = true;
        if (VD->isStaticLocal()) o["staticlocal"] = true;
        if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (D->refersToEnclosingVariableOrCapture()) o["capture"] = true;
        return o;
      }
      if (const auto *F = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "funref";
        callee(o, F);
        return o;
      }
      if (const auto *B = dyn_cast<BindingDecl>(V)) {
        (void)B;
        o["k"] = "unk";
        o["cls"] = "BindingDecl";
        return o;
      }
      o["k"] = "unk";
      o["cls"] = "DeclRef";
      return o;
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
      return o;
    }
    if (const auto *M = dyn_cast<MemberExpr>(E)) {
      if (const auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Expr::EvalResult R;
        if (VD->getType()->isIntegralOrEnumerationType() &&
            !E->isValueDependent() && E->EvaluateAsInt(R, Ctx, Expr::SE_AllowSideEffects))
          return lit(R.Val.getInt(), E, "const");
        o["k"] = "var";
        o["id"] = varId(VD);
        o["name"] = qname(VD);
        o["global"] = true;
        return o;
      }
      o["k"] = "member";
      o["b"] = expr(M->getBase());
      if (M->isArrow()) o["arrow"] = true;
      o["m"] = M->getMemberDecl()->getNameAsString();
      return o;
    }
    if (const auto *C = dyn_cast<CallExpr>(E)) return call(C, std::move(o));
    if (const auto *C = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = C->getConstructor();
      o["k"] = "ctor";
      o["rec"] = recId(CD->getParent());
      callee(o, CD);
      if (CD->isCopyOrMoveConstructor()) o["copy"] = true;
      if (CD->isDefaultConstructor()) o["def"] = true;
      if (CD->isDefaulted() || CD->isImplicit()) o["defaulted"] = true;
      if (C->requiresZeroInitialization()) o["zero"] = true;
      if (C->isStdInitListInitialization()) o["il"] = true;
      if (C->isListInitialization()) o["list"] = true;
      json::Array as;
      for (const Expr *a : C->arguments()) as.push_back(expr(a));
      o["a"] = std::move(as);
      return o;
    }
    if (const auto *U = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode());
      if (U->isPostfix()) o["post"] = true;
      o["e"] = expr(U->getSubExpr());
      return o;
    }
    if (const auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign";
      o["op"] = BinaryOperator::getOpcodeStr(
          BinaryOperator::getOpForCompoundAssignment(B->getOpcode()));
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      o["ct"] = typeId(B->getComputationResultType());
      return o;
    }
    if (const auto *B = dyn_cast<BinaryOperator>(E)) {
      o["k"] = B->getOpcode() == BO_Assign ? "assign"
               : B->getOpcode() == BO_Comma ? "comma"
                                            : "bin";
      o["op"] = B->getOpcodeStr();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      return o;
    }
    if (const auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
      if (isa<BinaryConditionalOperator>(E)) {
        o["k"] = "unk";
        o["cls"] = E->getStmtClassName();
        return o;
      }
      o["k"] = "cond";
      o["c"] = expr(C->getCond());
      o["a"] = expr(C->getTrueExpr());
      o["b"] = expr(C->getFalseExpr());
      return o;
    }
    if (const auto *C = dyn_cast<CastExpr>(E)) {
      switch (C->getCastKind()) {
        case CK_LValueToRValue:
          o["k"] = "load";
          o["e"] = expr(C->getSubExpr());
          return o;
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_BuiltinFnToFnPtr:
        case CK_UserDefinedConversion:
        case CK_ConstructorConversion:
          return expr(C->getSubExpr());
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        case CK_BaseToDerived:
          o["k"] = "basecast";
          o["e"] = expr(C->getSubExpr());
          return o;
        default:
          o["k"] = "cast";
          o["ck"] = C->getCastKindName();
          if (isa<CXXReinterpretCastExpr>(E)) o["reinterpret"] = true;
          if (isa<CXXConstCastExpr>(E)) o["constcast"] = true;
          if (isa<ExplicitCastExpr>(E)) o["explicit"] = true;
          o["e"] = expr(C->getSubExpr());
          return o;
      }
    }
    if (const auto *I = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist";
      json::Array as;
      for (const Expr *a : I->inits()) as.push_back(expr(a));
      o["a"] = std::move(as);
      if (I->hasArrayFiller()) o["fill"] = expr(I->getArrayFiller());
      return o;
    }
    if (const auto *I = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "stdil";
      o["e"] = expr(I->getSubExpr());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
      return o;
    }
    if (const auto *L = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      const CXXMethodDecl *OpC = L->getCallOperator();
      if (OpC->isDependentContext()) {
        o["generic"] = true;
        json::Array sp;
        if (const FunctionTemplateDecl *T = L->getDependentCallOperator())
          for (const FunctionDecl *S : T->specializations()) sp.push_back(funId(S));
        o["specs"] = std::move(sp);
      } else
        o["f"] = funId(OpC);
      json::Array cs;
      auto init = L->capture_init_begin();
      for (const auto &c : L->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["byref"] = c.getCaptureKind() == LCK_This;
        } else if (c.capturesVariable()) {
          co["id"] = varId(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          const auto *CV = c.getCapturedVar();
          if (const auto *VV = dyn_cast<VarDecl>(CV))
            if (VV->isInitCapture()) co["init"] = expr(VV->getInit());
        }
        cs.push_back(std::move(co));
        ++init;
      }
      o["caps"] = std::move(cs);
      return o;
    }
    if (const auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "index";
      o["a"] = expr(A->getBase());
      o["b"] = expr(A->getIdx());
      return o;
    }
    if (const auto *T = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (T->getSubExpr()) {
        o["e"] = expr(T->getSubExpr());
        o["tt"] = typeId(T->getSubExpr()->getType());
      }
      return o;
    }
    if (const auto *P = dyn_cast<PredefinedExpr>(E)) {
      (void)P;
      o["k"] = "str";
      o["v"] = "__func__";
      return o;
    }
    if (const auto *V = dyn_cast<OpaqueValueExpr>(E)) {
      if (V->getSourceExpr()) return expr(V->getSourceExpr());
    }
    o["k"] = "unk";
    o["cls"] = E->getStmtClassName();
    json::Array kids;
    for (const Stmt *c : E->children())
      if (const auto *ce = dyn_cast_or_null<Expr>(c)) kids.push_back(expr(ce));
    o["kids"] = std::move(kids);
    return o;
  }

  void write() {
    finish();
    json::Object root;
    json::Array fs, ts, rs, vs, files;
    for (auto &x : Funs) fs.push_back(std::move(x));
    for (auto &x : Types) ts.push_back(std::move(x));
    for (auto &x : Recs) rs.push_back(std::move(x));
    for (auto &x : Vars) vs.push_back(std::move(x));
    std::vector<std::string> fl(Files.size());
    for (auto &p : Files) fl[p.second] = p.first;
    for (auto &f : fl) files.push_back(f);
    root["funs"] = std::move(fs);
    root["types"] = std::move(ts);
    root["recs"] = std::move(rs);
    root["vars"] = std::move(vs);
    root["files"] = std::move(files);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(root));
  }

 private:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP{LangOptions()};
  std::map<std::string, int> Files;
  std::map<void *, int> TypeIds;
  std::map<const Decl *, int> RecIds;
  std::map<const FunctionDecl *, int> FunIds;
  std::map<const ValueDecl *, int> VarIds;
  std::vector<json::Value> Types, Recs, Funs, Vars;
  std::vector<const FunctionDecl *> Queue;
  std::vector<std::tuple<int, int, const Expr *>> PendingInits;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    E.write();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  gRoot = argv[2];
  gMain = argv[3];
  std::vector<std::string> args{"clang++", "-fsyntax-only", "-resource-dir=/usr/lib/llvm-18/lib/clang/18"};
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  args.push_back(gMain);
  llvm::IntrusiveRefCntPtr<clang::FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(args, std::make_unique<Action>(), FM.get());
  return TI.run() ? 0 : 1;
}
