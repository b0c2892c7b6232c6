// astx: exports the resolved syntax tree (types, callees, template
// instantiations, lambdas) of every function defined in the analysed source
// tree as JSON.  Pure front end: nothing of the analysed program is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source roots"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> GenFns("genfn", llvm::cl::desc("substring of generated functions to keep: dir=name"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("out", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
class Exporter {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIds;
  Array types;
  std::map<std::string, int> fileIds;
  Array files;
  std::map<const Decl *, int> declIds;
  Array functions, records, globals;
  Object enums;
  std::set<const FunctionDecl *> doneF;
  std::set<const CXXRecordDecl *> doneR;
  std::set<const VarDecl *> doneG;
  std::vector<const FunctionDecl *> queue;

  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.UsePreferredNames = false;
    PP.Bool = true;
  }
  int tid(QualType t) {
    std::string s = t.isNull() ? "?" : t.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[s] = id;
    types.push_back(s);
    return id;
  }
  int did(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = (int)declIds.size() + 1;
    declIds[d] = id;
    return id;
  }
  std::string presumedFile(SourceLocation l) {
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isValid() ? std::string(p.getFilename()) : std::string();
  }
  Value loc(SourceLocation l) {
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (!p.isValid()) return nullptr;
    std::string f = p.getFilename();
    auto it = fileIds.find(f);
    int id;
    if (it == fileIds.end()) {
      id = (int)files.size();
      fileIds[f] = id;
      files.push_back(f);
    } else
      id = it->second;
    return Array{id, (int64_t)p.getLine(), (int64_t)p.getColumn()};
  }
  bool inRoots(SourceLocation l) {
    // decided on the file really containing the code
    SourceLocation e = SM.getExpansionLoc(l);
    std::string f = SM.getFilename(e).str();
    std::string pf = presumedFile(l);
    for (auto &r : Roots)
      if (f.rfind(r, 0) == 0 || pf.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string usr(const Decl *d) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) return "#" + std::to_string(did(d));
    return b.str().str();
  }
  std::string qn(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p(PP);
    p.SuppressInlineNamespace = true;
    d->printQualifiedName(os, p);
    os.flush();
    // drop the std inline namespaces
    for (const char *in : {"std::__cxx11::", "std::__1::", "std::_V2::"}) {
      size_t i;
      while ((i = s.find(in)) != std::string::npos) s.replace(i, strlen(in), "std::");
    }
    return s;
  }
  std::string fid(const FunctionDecl *f) {
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return "L" + std::to_string(did(f));
    // local / anonymous functions: per unit
    return usr(f);
  }
  const FunctionDecl *definitionOf(const FunctionDecl *f) {
    const FunctionDecl *d = nullptr;
    if (f->hasBody(d)) return d;
    if (f->isDefaulted() && f->isImplicit()) return nullptr;
    return nullptr;
  }
  void want(const FunctionDecl *f) {
    const FunctionDecl *d = definitionOf(f);
    if (!d || d->isDependentContext()) return;
    bool in = inRoots(d->getLocation());
    if (!in) return;
    queue.push_back(d);
  }
  void wantRecord(QualType t) {
    if (t.isNull()) return;
    t = t.getNonReferenceType();
    while (t->isPointerType()) t = t->getPointeeType();
    if (auto *r = t->getAsCXXRecordDecl()) addRecord(r);
  }
  void addRecord(const CXXRecordDecl *r) {
    r = r->getDefinition();
    if (!r || r->isDependentContext() || r->isLambda()) return;
    if (!inRoots(r->getLocation())) return;
    if (!doneR.insert(r).second) return;
    Array fs;
    for (auto *f : r->fields()) {
      Object o{{"n", f->getNameAsString()}, {"t", tid(f->getType())}, {"d", did(f)}, {"l", loc(f->getLocation())}};
      if (f->isAnonymousStructOrUnion()) {
        o["anon"] = true;
        if (auto *ar = f->getType()->getAsCXXRecordDecl()) {
          Array sub;
          for (auto *g : ar->fields())
            sub.push_back(Object{{"n", g->getNameAsString()}, {"t", tid(g->getType())}, {"d", did(g)}});
          o["fields"] = std::move(sub);
          o["union"] = ar->isUnion();
        }
      }
      if (f->hasInClassInitializer() && f->getInClassInitializer()) o["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(o));
    }
    Array bases;
    for (auto &b : r->bases()) {
      bases.push_back(tid(b.getType()));
      wantRecord(b.getType());
    }
    Array ctors;
    for (auto *c : r->ctors())
      if (!c->isCopyOrMoveConstructor())
        ctors.push_back(Object{{"f", fid(c)}, {"np", (int64_t)c->getNumParams()}, {"user", c->isUserProvided()}, {"deleted", c->isDeleted()}});
    records.push_back(Object{{"q", qn(r)}, {"t", tid(QualType(r->getTypeForDecl(), 0))}, {"fields", std::move(fs)}, {"bases", std::move(bases)}, {"ctors", std::move(ctors)}, {"agg", r->isAggregate()}, {"l", loc(r->getLocation())}});
  }
  Object varObj(const VarDecl *v) {
    wantRecord(v->getType());
    Object o{{"d", did(v)}, {"n", v->getNameAsString()}, {"t", tid(v->getType())}, {"l", loc(v->getLocation())}};
    if (v->getType()->isReferenceType()) o["ref"] = true;
    if (v->getType()->isRValueReferenceType()) o["rref"] = true;
    if (v->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    return o;
  }
  Array Es(llvm::ArrayRef<const Expr *> es) {
    Array a;
    for (auto *e : es) a.push_back(E(e));
    return a;
  }
  template <class R> Array args(const R *c) {
    Array a;
    for (unsigned i = 0; i < c->getNumArgs(); i++) a.push_back(E(c->getArg(i)));
    return a;
  }
  void calleeInfo(Object &o, const FunctionDecl *f) {
    if (!f) return;
    o["q"] = qn(f);
    o["f"] = fid(f);
    Array pr;
    for (auto *p : f->parameters()) {
      QualType t = p->getType();
      // 0 by value, 1 const ref, 2 mutable ref, 3 rvalue ref, 4 pointer to mutable, 5 pointer to const
      int k = 0;
      if (t->isRValueReferenceType()) k = 3;
      else if (t->isReferenceType()) k = t.getNonReferenceType().isConstQualified() ? 1 : 2;
      else if (t->isPointerType()) k = t->getPointeeType().isConstQualified() ? 5 : 4;
      pr.push_back(k);
    }
    o["pk"] = std::move(pr);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["mconst"] = m->isConst();
      if (m->isStatic()) o["mstatic"] = true;
      o["mc"] = qn(m->getParent());
    }
    if (f->isNoReturn()) o["noreturn"] = true;
    want(f);
  }
  Value E(const Expr *e) {
    if (!e) return nullptr;
    Object o = Eobj(e);
    return Value(std::move(o));
  }
  Object mk(const char *k, const Expr *e) {
    return Object{{"k", k}, {"t", tid(e->getType())}, {"l", loc(e->getExprLoc())}};
  }
  Object Eobj(const Expr *e) {
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return Eobj(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return Eobj(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return Eobj(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return Eobj(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return Eobj(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return Eobj(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return Eobj(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return Eobj(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      Object o = mk("initlist", e);
      const Expr *s = x->getSubExpr()->IgnoreParenImpCasts();
      while (auto *m = dyn_cast<MaterializeTemporaryExpr>(s)) s = m->getSubExpr()->IgnoreParenImpCasts();
      if (auto *l = dyn_cast<InitListExpr>(s)) {
        Array a;
        for (auto *i : l->inits()) a.push_back(E(i));
        o["a"] = std::move(a);
      } else
        o["a"] = Array{E(s)};
      o["std"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
      case CK_IntegralCast:
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral:
      case CK_FloatingCast:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
      case CK_BooleanToSignedIntegral: {
        Object o = mk("cast", e);
        o["c"] = x->getCastKindName();
        o["e"] = E(x->getSubExpr());
        if (isa<ImplicitCastExpr>(x)) o["imp"] = true;
        return o;
      }
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase: {
        // only a standard container used as a base class is a part of its own
        QualType bt = x->getType();
        if (bt->isPointerType()) bt = bt->getPointeeType();
        auto *bd = bt->getAsCXXRecordDecl();
        if (!bd || !bd->isInStdNamespace()) return Eobj(x->getSubExpr());
        Object o = mk("cast", e);
        o["c"] = "StdBase";
        o["ptr"] = x->getType()->isPointerType();
        o["bt"] = tid(bt);
        o["e"] = E(x->getSubExpr());
        return o;
      }
      case CK_NullToPointer: {
        Object o = mk("null", e);
        return o;
      }
      default:
        return Eobj(x->getSubExpr());
      }
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      Object o = mk("int", e);
      o["v"] = (int64_t)(x->getType()->isSignedIntegerType() ? x->getValue().getSExtValue() : (int64_t)x->getValue().getZExtValue());
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      Object o = mk("char", e);
      o["v"] = (int64_t)(int)x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      Object o = mk("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      Object o = mk("float", e);
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      Object o = mk("str", e);
      o["v"] = x->isOrdinary() || x->isUTF8() ? llvm::json::fixUTF8(x->getString()) : std::string("?");
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", e);
    if (isa<CXXThisExpr>(e)) return mk("this", e);
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        Object o = mk("enum", e);
        o["n"] = ec->getNameAsString();
        o["q"] = qn(ec);
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        return o;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        Object o = mk("fref", e);
        calleeInfo(o, f);
        return o;
      }
      if (auto *b = dyn_cast<BindingDecl>(d)) {
        Object o = mk("ref", e);
        o["d"] = did(b);
        o["n"] = b->getNameAsString();
        return o;
      }
      Object o = mk("ref", e);
      o["d"] = did(d);
      o["n"] = d->getNameAsString();
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage() && !v->isStaticLocal()) {
          o["global"] = qn(v);
          addGlobal(v);
        }
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        // skip through anonymous unions
        const Expr *b = x->getBase();
        bool arrow = x->isArrow();
        bool viaUnion = false;
        while (auto *m = dyn_cast<MemberExpr>(b->IgnoreParenImpCasts())) {
          auto *mf = dyn_cast<FieldDecl>(m->getMemberDecl());
          if (mf && mf->isAnonymousStructOrUnion()) {
            b = m->getBase();
            arrow = m->isArrow();
            viaUnion = true;
          } else
            break;
        }
        Object o = mk("mem", e);
        o["n"] = f->getNameAsString();
        o["b"] = E(b);
        if (arrow) o["arrow"] = true;
        if (viaUnion) o["union"] = true;
        o["rc"] = qn(f->getParent());
        wantRecord(b->getType());
        return o;
      }
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Object o = mk("ref", e);
        o["d"] = did(v);
        o["n"] = v->getNameAsString();
        o["global"] = qn(v);
        addGlobal(v);
        return o;
      }
      Object o = mk("other", e);
      o["cls"] = "MemberExpr";
      o["ch"] = Array{E(x->getBase())};
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = mk("ocall", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      const FunctionDecl *f = x->getDirectCallee();
      calleeInfo(o, f);
      if (auto *m = dyn_cast_or_null<CXXMethodDecl>(f))
        if (!m->isStatic()) o["mem"] = true;
      o["a"] = args(x);
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = mk("mcall", e);
      const CXXMethodDecl *m = x->getMethodDecl();
      if (m) {
        o["m"] = m->getNameAsString();
        calleeInfo(o, m);
      }
      const Expr *ob = x->getImplicitObjectArgument();
      if (ob) {
        o["o"] = E(ob);
        o["ot"] = tid(ob->getType());
        wantRecord(ob->getType());
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if (me->isArrow()) o["arrow"] = true;
      }
      o["a"] = args(x);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      if (f) {
        Object o = mk("call", e);
        calleeInfo(o, f);
        if (auto *ta = f->getTemplateSpecializationArgs()) {
          Array a;
          for (auto &t : ta->asArray())
            if (t.getKind() == TemplateArgument::Type) a.push_back(tid(t.getAsType()));
          o["ta"] = std::move(a);
        }
        o["a"] = args(x);
        return o;
      }
      if (auto *pd = dyn_cast<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) {
        Object o = mk("pdtor", e);
        o["o"] = E(pd->getBase());
        return o;
      }
      Object o = mk("icall", e);
      o["fn"] = E(x->getCallee());
      o["a"] = args(x);
      Array pr;
      QualType ft = x->getCallee()->getType();
      if (ft->isPointerType()) ft = ft->getPointeeType();
      if (auto *fp = ft->getAs<FunctionProtoType>())
        for (QualType t : fp->param_types()) {
          int k = 0;
          if (t->isRValueReferenceType()) k = 3;
          else if (t->isReferenceType()) k = t.getNonReferenceType().isConstQualified() ? 1 : 2;
          else if (t->isPointerType()) k = t->getPointeeType().isConstQualified() ? 5 : 4;
          pr.push_back(k);
        }
      o["pk"] = std::move(pr);
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      Object o = mk("other", e);
      o["cls"] = "InheritedCtor";
      o["ch"] = Array{};
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *c = x->getConstructor();
      Object o = mk("ctor", e);
      calleeInfo(o, c);
      wantRecord(e->getType());
      if (c->isCopyConstructor()) o["copy"] = true;
      if (c->isMoveConstructor()) o["move"] = true;
      if (c->isDefaultConstructor()) o["dflt"] = true;
      if (c->isImplicit() || c->isDefaulted()) o["implicit"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      if (x->isListInitialization()) o["listinit"] = true;
      o["a"] = args(x);
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() || !x->getSemanticForm()) {
      } else
        x = x->getSemanticForm();
      Object o = mk("initlist", e);
      wantRecord(e->getType());
      Array a;
      for (auto *i : x->inits()) a.push_back(E(i));
      o["a"] = std::move(a);
      if (auto *r = e->getType()->getAsCXXRecordDecl()) {
        Array f;
        for (auto *fd : r->fields()) f.push_back(fd->getNameAsString());
        o["fields"] = std::move(f);
        o["rq"] = qn(r);
      }
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      Object o = mk("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      Object o = mk(x->isAssignmentOp() ? (x->isCompoundAssignmentOp() ? "cassign" : "assign") : "bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = Array{E(x->getLHS()), E(x->getRHS())};
      return o;
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return Eobj(x->getSemanticForm());
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      Object o = mk("cond", e);
      o["c"] = E(x->getCond());
      o["a"] = Array{E(x->getTrueExpr()), E(x->getFalseExpr())};
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      Object o = mk("sub", e);
      o["a"] = Array{E(x->getBase()), E(x->getIdx())};
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      Object o = mk("lambda", e);
      const CXXMethodDecl *m = x->getCallOperator();
      Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          const ValueDecl *v = c.getCapturedVar();
          co["d"] = did(v);
          co["n"] = v->getNameAsString();
          if (auto *vd = dyn_cast<VarDecl>(v))
            if (vd->isInitCapture()) co["init"] = E(*ii);
        }
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
      if (x->getLambdaClass()->isGenericLambda()) {
        // list instantiated call operators
        Array insts;
        if (auto *ft = x->getLambdaClass()->getDependentLambdaCallOperator()) (void)ft;
        for (auto *d : x->getLambdaClass()->decls())
          if (auto *ftd = dyn_cast<FunctionTemplateDecl>(d))
            for (auto *s : ftd->specializations())
              if (s->getNameAsString() == "operator()") {
                insts.push_back(fid(s));
                const FunctionDecl *def = definitionOf(s);
                if (def && !def->isDependentContext()) queue.push_back(def);
              }
        o["insts"] = std::move(insts);
        if (!o["insts"].getAsArray()->empty()) o["f"] = (*o["insts"].getAsArray())[0].getAsString()->str();
      } else {
        o["f"] = fid(m);
        const FunctionDecl *def = definitionOf(m);
        if (def) queue.push_back(def);
      }
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      Object o = mk("new", e);
      o["at"] = tid(x->getAllocatedType());
      Array p;
      for (unsigned i = 0; i < x->getNumPlacementArgs(); i++) p.push_back(E(x->getPlacementArg(i)));
      o["place"] = std::move(p);
      if (x->getInitializer()) o["init"] = E(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      Object o = mk("delete", e);
      o["e"] = E(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      Object o = mk("throw", e);
      if (x->getSubExpr()) o["e"] = E(x->getSubExpr());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return mk("zeroinit", e);
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Object o = mk("int", e);
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
      return o;
    }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e))
      if (x->getSourceExpr()) return Eobj(x->getSourceExpr());
    if (auto *x = dyn_cast<StmtExpr>(e)) {
      Object o = mk("stmtexpr", e);
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) return mk("str", e);
    if (auto *x = dyn_cast<SourceLocExpr>(e)) return mk("str", e);
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) {
      Object o = mk("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    Object o = mk("other", e);
    o["cls"] = e->getStmtClassName();
    Array ch;
    for (auto *s : e->children())
      if (auto *x = dyn_cast_or_null<Expr>(s)) ch.push_back(E(x));
    o["ch"] = std::move(ch);
    return o;
  }
  Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      Object o{{"k", "expr"}, {"e", E(e)}, {"l", loc(e->getExprLoc())}};
      return o;
    }
    Object o{{"l", loc(s->getBeginLoc())}};
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      Array a;
      for (auto *c : x->body()) a.push_back(S(c));
      o["b"] = std::move(a);
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) {
          Object vo = varObj(v);
          if (v->getInit()) vo["init"] = E(v->getInit());
          if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto *b : dd->bindings()) bs.push_back(Object{{"d", did(b)}, {"n", b->getNameAsString()}});
            vo["bind"] = std::move(bs);
          }
          a.push_back(std::move(vo));
        }
      }
      o["v"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      if (x->isConstexpr()) {
        o["cexpr"] = true;
        Expr::EvalResult r;
        if (x->getCond() && !x->getCond()->isValueDependent() && x->getCond()->EvaluateAsRValue(r, C) && r.Val.isInt())
          o["cv_const"] = r.Val.getInt().getBoolValue();
      }
      o["c"] = E(x->getCond());
      o["th"] = S(x->getThen());
      if (x->getElse()) o["el"] = S(x->getElse());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc());
      o["b"] = S(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      if (x->getInit()) o["init"] = S(x->getInit());
      const VarDecl *lv = x->getLoopVariable();
      Object vo = varObj(lv);
      if (auto *dd = dyn_cast<DecompositionDecl>(lv)) {
        Array bs;
        for (auto *b : dd->bindings()) bs.push_back(Object{{"d", did(b)}, {"n", b->getNameAsString()}});
        vo["bind"] = std::move(bs);
      }
      o["v"] = std::move(vo);
      o["r"] = E(x->getRangeInit());
      o["b"] = S(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      if (x->isAllEnumCasesCovered()) o["allenum"] = true;
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(x->getLHS());
      o["b"] = S(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["b"] = S(x->getSubStmt());
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      if (x->getRetValue()) o["e"] = E(x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = S(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        const CXXCatchStmt *h = x->getHandler(i);
        Object ho{{"b", S(h->getHandlerBlock())}, {"l", loc(h->getBeginLoc())}};
        if (h->getExceptionDecl()) {
          ho["v"] = varObj(h->getExceptionDecl());
          ho["ct"] = tid(h->getCaughtType());
        } else
          ho["all"] = true;
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      return S(x->getSubStmt());
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label";
      o["n"] = x->getName();
      o["b"] = S(x->getSubStmt());
    } else if (auto *x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "goto";
      o["n"] = x->getLabel()->getNameAsString();
    } else {
      o["k"] = "other";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }
  void addGlobal(const VarDecl *v) {
    v = v->getDefinition() ? v->getDefinition() : v;
    if (!inRoots(v->getLocation()) || v->getDeclContext()->isDependentContext()) return;
    if (!doneG.insert(v).second) return;
    Object o = varObj(v);
    o["q"] = qn(v);
    if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = E(v->getInit());
    globals.push_back(std::move(o));
  }
  bool keepGenerated(const FunctionDecl *f) {
    // functions physically in a generated directory are kept only on request
    std::string file = SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
    for (auto &g : GenFns) {
      size_t eq = g.find('=');
      std::string dir = g.substr(0, eq), name = g.substr(eq + 1);
      if (file.rfind(dir, 0) == 0) {
        size_t p = 0;
        while (p < name.size()) {
          size_t c = name.find(',', p);
          if (c == std::string::npos) c = name.size();
          if (f->getNameAsString() == name.substr(p, c - p)) return true;
          p = c + 1;
        }
        return false;
      }
    }
    return true;
  }
  void addFunction(const FunctionDecl *f) {
    if (!doneF.insert(f).second) return;
    if (!keepGenerated(f)) return;
    Object o{{"f", fid(f)}, {"q", qn(f)}, {"n", f->getNameAsString()}, {"l", loc(f->getLocation())}, {"ret", tid(f->getReturnType())}};
    o["el"] = loc(f->getEndLoc());
    if (f->getReturnType()->isReferenceType()) o["retref"] = true;
    std::string sig;
    Array ps;
    for (auto *p : f->parameters()) {
      ps.push_back(varObj(p));
      if (!sig.empty()) sig += ", ";
      sig += p->getType().getCanonicalType().getAsString(PP);
    }
    o["ps"] = std::move(ps);
    o["sig"] = sig;
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &t : ta->asArray())
        if (t.getKind() == TemplateArgument::Type) a.push_back(tid(t.getAsType()));
      o["ta"] = std::move(a);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qn(m->getParent());
      o["clst"] = tid(QualType(m->getParent()->getTypeForDecl(), 0));
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      if (m->getParent()->isLambda()) o["lambda"] = true;
      addRecord(m->getParent());
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["isctor"] = true;
      Array is;
      for (auto *i : c->inits()) {
        Object io{{"written", i->isWritten()}};
        if (i->isAnyMemberInitializer()) {
          io["n"] = i->getAnyMember()->getNameAsString();
        } else if (i->isBaseInitializer()) {
          io["base"] = tid(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["delegating"] = true;
        }
        io["e"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["isdtor"] = true;
    o["body"] = S(f->getBody());
    functions.push_back(std::move(o));
  }
  void drain() {
    while (!queue.empty()) {
      auto *f = queue.back();
      queue.pop_back();
      addFunction(f);
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Exporter &X;
  explicit Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->doesThisDeclarationHaveABody() && !f->isDependentContext() && X.inRoots(f->getLocation())) X.queue.push_back(f);
    X.drain();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && !r->isDependentContext()) X.addRecord(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *d) {
    if (!d->isThisDeclarationADefinition() || d->isDependentContext() || !X.inRoots(d->getLocation())) return true;
    Array a;
    std::string q;
    for (auto *c : d->enumerators()) {
      q = X.qn(c);
      a.push_back(q);
    }
    auto i = q.rfind("::");
    if (i != std::string::npos) X.enums[q.substr(0, i)] = std::move(a);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !isa<ParmVarDecl>(v)) X.addGlobal(v);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    Object o{{"types", std::move(X.types)}, {"files", std::move(X.files)}, {"functions", std::move(X.functions)}, {"records", std::move(X.records)}, {"globals", std::move(X.globals)}, {"enums", std::move(X.enums)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(Out, ec);
    os << Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  auto op = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!op) {
    llvm::errs() << llvm::toString(op.takeError());
    return 2;
  }
  tooling::ClangTool tool(op->getCompilations(), op->getSourcePathList());
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
