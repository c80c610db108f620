// Fact extractor: parses one translation unit of /repo with clang (LibTooling) and writes the
// type-resolved program (functions in a compact AST form, classes, types) as JSON.
// It never executes the analysed code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;

static std::string gRoot;   // source prefix of interest, e.g. /repo/c++/src
static std::string gExtra;  // extra prefix (witness files)
static std::string gOut;
static bool gAllHeaders = false;

namespace {

struct Out {
  std::string s;
  void raw(llvm::StringRef x) { s.append(x.data(), x.size()); }
  void str(llvm::StringRef x) {
    s.push_back('"');
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') { s.push_back('\\'); s.push_back(c); }
      else if (c < 0x20 || c >= 0x7f) {
        char buf[8]; snprintf(buf, sizeof buf, "\\u%04x", c); s.append(buf);
      } else s.push_back(c);
    }
    s.push_back('"');
  }
  void num(long long v) { s += std::to_string(v); }
};

class Extractor {
 public:
  Extractor(ASTContext& c, Sema* sema) : C(c), SM(c.getSourceManager()), names(c), PP(c.getLangOpts()) {
    (void)sema;
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = false;
  }

  ASTContext& C;
  SourceManager& SM;
  ASTNameGenerator names;
  PrintingPolicy PP;
  std::deque<const FunctionDecl*> work;
  std::set<const FunctionDecl*> seen;
  std::unordered_map<std::string, int> typeIdx; std::vector<std::string> types; std::vector<QualType> typeQ;
  std::unordered_map<std::string, int> fileIdx; std::vector<std::string> files;
  std::unordered_map<const FunctionDecl*, int> fnIdx; std::vector<const FunctionDecl*> fns;
  std::unordered_map<const CXXRecordDecl*, int> recIdx; std::vector<const CXXRecordDecl*> recs;
  std::unordered_map<const ValueDecl*, int> varIdx;
  std::unordered_map<const FieldDecl*, int> fieldIdx; std::vector<const FieldDecl*> fields;
  Out o;

  // ---- locations
  SourceLocation expLoc(SourceLocation l) { return SM.getExpansionLoc(l); }
  std::string fileOf(SourceLocation l) {
    l = expLoc(l);
    if (l.isInvalid()) return "";
    auto f = SM.getFilename(l);
    return f.str();
  }
  bool inRepo(const Decl* d) {
    std::string f = fileOf(d->getLocation());
    if (f.rfind(gRoot, 0) == 0) return true;
    if (!gExtra.empty() && f.rfind(gExtra, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation l) { l = expLoc(l); return l.isValid() ? SM.getExpansionLineNumber(l) : 0; }
  int file(SourceLocation l) {
    std::string f = fileOf(l);
    auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second;
    int i = files.size(); fileIdx[f] = i; files.push_back(f); return i;
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s); if (it != typeIdx.end()) return it->second;
    int i = types.size(); typeIdx[s] = i; types.push_back(s); typeQ.push_back(t.getCanonicalType());
    return i;
  }
  // [string, kind, n, sub]: kind u/s (int, n bits), b, p (n = pointee size, sub pointee type), r (sub referee), c (sub record), f, e, a (array), o
  void emitType(size_t i) {
    QualType t = typeQ[i];
    o.raw("["); o.str(types[i]); o.raw(",");
    auto sz = [&](QualType q) -> long long { if (q->isIncompleteType() || q->isDependentType() || q->isFunctionType() || q->isUndeducedType() || q->isSizelessType()) return 0; return C.getTypeSizeInChars(q).getQuantity(); };
    if (t->isBooleanType()) { o.raw("\"b\",1,-1"); }
    else if (t->isEnumeralType()) { bool inc = t->isIncompleteType(); o.raw("\"e\","); o.num(inc ? 0 : C.getTypeSize(t)); o.raw(",-1"); }
    else if (t->isIntegerType()) { o.raw(t->isUnsignedIntegerType() ? "\"u\"," : "\"s\","); o.num(C.getTypeSize(t)); o.raw(",-1"); }
    else if (t->isPointerType()) { auto p = t->getPointeeType(); o.raw("\"p\","); o.num(sz(p)); o.raw(","); o.num(type(p)); }
    else if (t->isReferenceType()) { auto p = t.getNonReferenceType(); o.raw("\"r\",0,"); o.num(type(p)); }
    else if (t->isFloatingType()) o.raw("\"f\",0,-1");
    else if (t->isArrayType()) { o.raw("\"a\","); o.num(sz(C.getAsArrayType(t)->getElementType())); o.raw(","); o.num(type(C.getAsArrayType(t)->getElementType())); }
    else if (auto* r = t->getAsCXXRecordDecl()) { o.raw("\"c\","); o.num(t.isConstQualified()); o.raw(","); o.num(rec(r)); }
    else if (t->isVoidType()) o.raw("\"v\",0,-1");
    else o.raw("\"o\",0,-1");
    o.raw(","); o.num(t.isConstQualified()); o.raw("]");
  }
  int rec(const CXXRecordDecl* r) {
    if (auto* d = r->getDefinition()) r = d;
    r = cast<CXXRecordDecl>(r->getCanonicalDecl());
    if (auto* d = r->getDefinition()) r = d;
    auto it = recIdx.find(r); if (it != recIdx.end()) return it->second;
    int i = recs.size(); recIdx[r] = i; recs.push_back(r); return i;
  }
  int field(const FieldDecl* f) {
    auto it = fieldIdx.find(f); if (it != fieldIdx.end()) return it->second;
    int i = fields.size(); fieldIdx[f] = i; fields.push_back(f); return i;
  }
  int var(const ValueDecl* v) {
    v = cast<ValueDecl>(v->getCanonicalDecl());
    auto it = varIdx.find(v); if (it != varIdx.end()) return it->second;
    int i = varIdx.size(); varIdx[v] = i; return i;
  }
  static std::string stripAnon(std::string s) {
    for (const char* pat : {"(anonymous namespace)::", "(anonymous)::", "(lambda)::"}) {
      size_t p; std::string ps(pat);
      if (ps == "(lambda)::") continue;
      while ((p = s.find(ps)) != std::string::npos) s.erase(p, ps.size());
    }
    return s;
  }
  std::string qname(const NamedDecl* d) {
    // qualified name without template args; functions keep enclosing function for local classes
    std::string res;
    const DeclContext* dc = d->getDeclContext();
    std::vector<std::string> parts;
    std::string self;
    if (auto* f = dyn_cast<FunctionDecl>(d)) {
      if (isa<CXXConstructorDecl>(f)) self = cast<CXXRecordDecl>(f->getDeclContext())->getNameAsString() + "::ctor";
      else if (isa<CXXDestructorDecl>(f)) self = cast<CXXRecordDecl>(f->getDeclContext())->getNameAsString() + "::dtor";
      else if (isa<CXXConversionDecl>(f)) self = "operator conv";
      else self = f->getNameInfo().getName().getAsString();
      if (isa<CXXConstructorDecl>(f)) self = "ctor";
      if (isa<CXXDestructorDecl>(f)) self = "dtor";
    } else self = d->getNameAsString();
    if (self.empty()) self = "(anon)";
    parts.push_back(self);
    while (dc && !dc->isTranslationUnit()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isAnonymousNamespace() && !ns->isInline()) parts.push_back(ns->getNameAsString());
      } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
        auto* cr = dyn_cast<CXXRecordDecl>(r);
        if (cr && cr->isLambda()) parts.push_back("(lambda)");
        else { auto n = r->getNameAsString(); parts.push_back(n.empty() ? "(anon)" : n); }
      } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        if (isa<CXXConstructorDecl>(f)) parts.push_back("ctor");
        else if (isa<CXXDestructorDecl>(f)) parts.push_back("dtor");
        else parts.push_back(f->getNameInfo().getName().getAsString());
      }
      dc = dc->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!res.empty()) res += "::"; res += *it; }
    return res;
  }
  std::string key(const FunctionDecl* f) {
    std::string k = names.getName(f);
    if (k.empty()) { k = qname(f); }
    if (isa<CXXConstructorDecl>(f) ) {}
    return k;
  }
  const FunctionDecl* def(const FunctionDecl* f) {
    const FunctionDecl* d = nullptr;
    if (f->isDefined(d)) return d;
    if (auto* pat = f->getTemplateInstantiationPattern()) (void)pat;
    return f->getCanonicalDecl();
  }
  // reference a function: returns index, schedules definition
  int fn(const FunctionDecl* f) {
    const FunctionDecl* d = def(f);
    const FunctionDecl* canon = d->getCanonicalDecl();
    auto it = fnIdx.find(canon);
    if (it != fnIdx.end()) return it->second;
    int i = fns.size(); fnIdx[canon] = i; fns.push_back(d);
    return i;
  }

  // ---- expression emission
  static const Expr* strip(const Expr* e) {
    while (true) {
      const Expr* b = e;
      if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
      else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e = p->getSourceExpr(); }
      else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<PseudoObjectExpr>(e)) e = p->getResultExpr() ? p->getResultExpr() : p->getSyntacticForm();
      else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToIntegral:
          case CK_IntegralToFloating: case CK_FloatingCast: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          case CK_NullToPointer: case CK_FloatingToBoolean:
            return e;
          default: e = p->getSubExpr();
        }
      }
      if (e == b) return e;
    }
  }

  void exprList(llvm::ArrayRef<const Expr*> a) {
    o.raw("[");
    for (size_t i = 0; i < a.size(); i++) { if (i) o.raw(","); expr(a[i]); }
    o.raw("]");
  }
  template <typename R> void exprRange(R&& r) {
    o.raw("["); bool first = true;
    for (auto* e : r) { if (!first) o.raw(","); first = false; expr(dyn_cast_or_null<Expr>(e)); }
    o.raw("]");
  }
  void intNode(const llvm::APSInt& v, llvm::StringRef name = "") {
    llvm::SmallString<32> s; v.toString(s, 10);
    o.raw("[\"int\","); o.raw(s);
    if (!name.empty()) { o.raw(","); o.str(name); }
    o.raw("]");
  }
  void expr(const Expr* e0) {
    if (!e0) { o.raw("null"); return; }
    const Expr* e = strip(e0);
    // constant folding of integral rvalues
    if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() &&
        !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e)) {
      bool enumRef = false;
      if (auto* dr = dyn_cast<DeclRefExpr>(e)) enumRef = isa<EnumConstantDecl>(dr->getDecl());
      if (!enumRef && (e->isPRValue() || isa<DeclRefExpr>(e))) {
        bool ok = true;
        if (auto* dr = dyn_cast<DeclRefExpr>(e)) {
          auto* vd = dyn_cast<VarDecl>(dr->getDecl());
          ok = vd && vd->getType().isConstQualified() && (vd->isConstexpr() || vd->hasGlobalStorage());
          if (dr->refersToEnclosingVariableOrCapture()) ok = ok && vd->isConstexpr();
        }
        if (isa<CallExpr>(e) || isa<CXXConstructExpr>(e)) {
          // fold constexpr calls only when no arguments refer to non-constants: EvaluateAsInt decides
        }
        Expr::EvalResult r;
        if (ok && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) ) {
          if (e->getType()->isBooleanType()) { o.raw("[\"bool\","); o.num(r.Val.getInt().getBoolValue()); o.raw("]"); }
          else intNode(r.Val.getInt());
          return;
        }
      }
    }
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: intNode(llvm::APSInt(cast<IntegerLiteral>(e)->getValue(), !e->getType()->isSignedIntegerType())); return;
      case Stmt::CharacterLiteralClass: o.raw("[\"int\","); o.num(cast<CharacterLiteral>(e)->getValue()); o.raw("]"); return;
      case Stmt::CXXBoolLiteralExprClass: o.raw("[\"bool\","); o.num(cast<CXXBoolLiteralExpr>(e)->getValue()); o.raw("]"); return;
      case Stmt::FloatingLiteralClass: o.raw("[\"float\","); { llvm::SmallString<32> s; cast<FloatingLiteral>(e)->getValue().toString(s); o.str(s);} o.raw("]"); return;
      case Stmt::StringLiteralClass: {
        auto* sl = cast<StringLiteral>(e);
        o.raw("[\"str\","); o.str(sl->getCharByteWidth() == 1 ? sl->getString().substr(0, 200) : llvm::StringRef("?")); o.raw("]"); return; }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o.raw("[\"null\"]"); return;
      case Stmt::CXXThisExprClass: o.raw("[\"this\"]"); return;
      case Stmt::PredefinedExprClass: o.raw("[\"str\",\"\"]"); return;
      case Stmt::DeclRefExprClass: declRef(cast<DeclRefExpr>(e)->getDecl(), e->getBeginLoc()); return;
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
          o.raw("[\"fld\","); expr(m->getBase()); o.raw(","); o.num(field(f)); o.raw(m->isArrow() ? ",1" : ",0");
          o.raw(","); o.num(line(m->getMemberLoc())); o.raw("]");
        } else if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
          o.raw("[\"mfn\","); o.num(fn(f)); o.raw(","); expr(m->getBase()); o.raw("]");
        } else declRef(m->getMemberDecl(), e->getBeginLoc());
        return;
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        o.raw("[\"un\","); o.str(UnaryOperator::getOpcodeStr(u->getOpcode())); o.raw(",");
        expr(u->getSubExpr()); o.raw(u->isPostfix() ? ",1" : ",0"); o.raw(","); o.num(line(u->getOperatorLoc()));
        o.raw(","); o.num(type(u->getType())); o.raw("]"); return;
      }
      case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        if (b->isAssignmentOp()) o.raw("[\"asg\","); else o.raw("[\"bin\",");
        o.str(b->getOpcodeStr()); o.raw(","); expr(b->getLHS()); o.raw(","); expr(b->getRHS());
        o.raw(","); o.num(line(b->getOperatorLoc())); o.raw(","); o.num(type(b->getType())); o.raw("]"); return;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        o.raw("[\"cond\","); expr(c->getCond()); o.raw(","); expr(c->getTrueExpr()); o.raw(","); expr(c->getFalseExpr()); o.raw("]"); return;
      }
      case Stmt::BinaryConditionalOperatorClass: {
        auto* c = cast<BinaryConditionalOperator>(e);
        o.raw("[\"cond\","); expr(c->getCommon()); o.raw(","); expr(c->getCommon()); o.raw(","); expr(c->getFalseExpr()); o.raw("]"); return;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* a = cast<ArraySubscriptExpr>(e);
        o.raw("[\"idx\","); expr(a->getBase()); o.raw(","); expr(a->getIdx()); o.raw(","); o.num(line(e->getExprLoc())); o.raw("]"); return;
      }
      case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
        call(cast<CallExpr>(e)); return;
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        o.raw("[\"ctor\","); o.num(fn(c->getConstructor())); o.raw(",");
        exprRange(c->arguments());
        o.raw(","); o.num(type(c->getType())); o.raw(","); o.num(line(e->getBeginLoc()));
        o.raw(","); o.num(c->isElidable()); o.raw("]"); rec(c->getConstructor()->getParent()); return;
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto* c = cast<CXXInheritedCtorInitExpr>(e);
        o.raw("[\"ctor\","); o.num(fn(c->getConstructor())); o.raw(",[],"); o.num(type(c->getType())); o.raw(","); o.num(line(e->getBeginLoc())); o.raw(",0]"); return;
      }
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        o.raw("[\"new\","); o.num(type(n->getAllocatedType())); o.raw(","); expr(n->getInitializer()); o.raw(",");
        exprRange(n->placement_arguments()); o.raw(",");
        if (auto s = n->getArraySize()) expr(*s); else o.raw("null");
        o.raw(","); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::CXXDeleteExprClass: {
        auto* d = cast<CXXDeleteExpr>(e);
        o.raw("[\"del\","); expr(d->getArgument()); o.raw(","); o.num(d->isArrayForm()); o.raw(","); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto* c = cast<CastExpr>(e);
        switch (c->getCastKind()) {
          case CK_NoOp: case CK_LValueToRValue: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
            expr(c->getSubExpr()); return;
          case CK_NullToPointer: o.raw("[\"null\"]"); return;
          default: break;
        }
        o.raw("[\"cast\","); o.str(c->getCastKindName()); o.raw(","); o.num(type(c->getType())); o.raw(",");
        expr(c->getSubExpr()); o.raw(","); o.num(type(c->getSubExpr()->getType()));
        o.raw(","); o.num(line(e->getExprLoc())); o.raw(isa<ImplicitCastExpr>(c) ? ",1]" : ",0]"); return;
      }
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        const CXXMethodDecl* op = l->getCallOperator();
        rec(l->getLambdaClass());
        o.raw("[\"lam\",");
        if (l->isGenericLambda()) {
          // specialisations are referenced by their callers; list those instantiated
          o.raw("["); bool first = true;
          if (auto* t = op->getDescribedFunctionTemplate())
            for (auto* s : t->specializations()) { if (!first) o.raw(","); first = false; o.num(fn(s)); }
          o.raw("]");
        } else { o.raw("["); o.num(fn(op)); o.raw("]"); }
        o.raw(",[");
        bool first = true;
        auto it = l->capture_init_begin();
        auto fit = l->getLambdaClass()->field_begin();
        for (auto& cap : l->captures()) {
          if (!first) o.raw(","); first = false;
          o.raw("[");
          if (cap.capturesThis()) o.raw("\"this\",0");
          else if (cap.capturesVariable()) { o.num(var(cap.getCapturedVar())); o.raw(cap.getCaptureKind() == LCK_ByRef ? ",1" : ",0"); }
          else o.raw("-1,0");
          o.raw(","); expr(*it); ++it;
          if (fit != l->getLambdaClass()->field_end()) ++fit;
          o.raw("]");
        }
        o.raw("],"); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::InitListExprClass: {
        auto* i = cast<InitListExpr>(e);
        if (i->isTransparent()) { expr(i->getInit(0)); return; }
        o.raw("[\"init\","); o.num(type(i->getType())); o.raw(","); exprRange(i->inits()); o.raw(",");
        // field ids
        o.raw("[");
        if (auto* r = i->getType()->getAsCXXRecordDecl()) {
          bool first = true;
          if (r->hasDefinition() && r->getNumBases() == 0) for (auto* f : r->fields()) { if (f->isUnnamedBitfield()) continue; if (!first) o.raw(","); first = false; o.num(field(f)); }
        }
        o.raw("],"); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::CXXParenListInitExprClass: {
        auto* i = cast<CXXParenListInitExpr>(e);
        o.raw("[\"init\","); o.num(type(i->getType())); o.raw(","); exprRange(i->getInitExprs()); o.raw(",[");
        if (auto* r = i->getType()->getAsCXXRecordDecl()) { bool first = true; if (r->hasDefinition() && r->getNumBases() == 0) for (auto* f : r->fields()) { if (!first) o.raw(","); first = false; o.num(field(f)); } }
        o.raw("],"); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass:
        if (e->getType()->isPointerType()) o.raw("[\"null\"]"); else { o.raw("[\"zero\","); o.num(type(e->getType())); o.raw("]"); } return;
      case Stmt::CoawaitExprClass: {
        auto* a = cast<CoawaitExpr>(e);
        o.raw("[\"await\","); expr(a->getOperand()); o.raw(","); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::DependentCoawaitExprClass: o.raw("[\"unk\"]"); return;
      case Stmt::CoyieldExprClass: o.raw("[\"await\",null,0]"); return;
      case Stmt::CXXThrowExprClass: o.raw("[\"throw\","); expr(cast<CXXThrowExpr>(e)->getSubExpr()); o.raw(","); o.num(line(e->getBeginLoc())); o.raw("]"); return;
      case Stmt::StmtExprClass: o.raw("[\"sexpr\","); stmt(cast<StmtExpr>(e)->getSubStmt()); o.raw("]"); return;
      case Stmt::UnaryExprOrTypeTraitExprClass: o.raw("[\"unk\"]"); return;
      case Stmt::ArrayInitLoopExprClass: o.raw("[\"unk\"]"); return;
      case Stmt::CXXTypeidExprClass: o.raw("[\"typeid\"]"); return;
      case Stmt::CXXPseudoDestructorExprClass: o.raw("[\"unk\"]"); return;
      case Stmt::AtomicExprClass: {
        auto* a = cast<AtomicExpr>(e);
        std::string nm;
        switch (a->getOp()) {
#define BUILTIN(ID, TYPE, ATTRS)
#define ATOMIC_BUILTIN(ID, TYPE, ATTRS) case AtomicExpr::AO##ID: nm = #ID; break;
#include "clang/Basic/Builtins.def"
          default: nm = "atomic";
        }
        o.raw("[\"atomic\","); o.str(nm); o.raw(",");
        o.raw("["); for (unsigned i = 0; i < a->getNumSubExprs(); i++) { if (i) o.raw(","); expr(a->getSubExprs()[i]); } o.raw("],");
        o.num(line(e->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::CompoundLiteralExprClass: expr(cast<CompoundLiteralExpr>(e)->getInitializer()); return;
      case Stmt::ChooseExprClass: expr(cast<ChooseExpr>(e)->getChosenSubExpr()); return;
      default: break;
    }
    o.raw("[\"unk\","); o.str(e->getStmtClassName()); o.raw("]");
  }

  std::map<std::string, std::vector<std::string>> garr;
  void noteGlobal(const VarDecl* v) {
    std::string q = qname(v);
    if (garr.count(q)) return;
    garr[q] = {};
    QualType t = v->getType();
    if (!t.isConstQualified() && !v->isConstexpr() && !(t->isArrayType() && C.getBaseElementType(t).isConstQualified())) return;
    const VarDecl* d = v->getInitializingDeclaration();
    if (!d || !d->getInit() || d->getInit()->isValueDependent()) return;
    const APValue* av = d->evaluateValue();
    if (!av) return;
    if (av->isArray() && av->getArraySize() <= 256) {
      for (unsigned i = 0; i < av->getArraySize(); i++) {
        const APValue& e = i < av->getArrayInitializedElts() ? av->getArrayInitializedElt(i) : av->getArrayFiller();
        if (!e.isInt()) { garr[q].clear(); return; }
        llvm::SmallString<32> ss; e.getInt().toString(ss, 10); garr[q].push_back(std::string(ss));
      }
    }
  }

  void declRef(const ValueDecl* d, SourceLocation) {
    if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { intNode(ec->getInitVal(), ec->getNameAsString()); return; }
    if (auto* f = dyn_cast<FunctionDecl>(d)) { o.raw("[\"fn\","); o.num(fn(f)); o.raw("]"); return; }
    if (auto* b = dyn_cast<BindingDecl>(d)) {
      if (auto* hv = b->getHoldingVar()) { o.raw("[\"var\","); o.num(var(hv)); o.raw("]"); return; }
      expr(b->getBinding()); return;
    }
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() && !v->isStaticLocal() && !v->hasGlobalStorage()) { o.raw("[\"var\","); o.num(var(v)); o.raw("]"); return; }
      if (v->isInitCapture()) { o.raw("[\"var\","); o.num(var(v)); o.raw("]"); return; }
      noteGlobal(v);
      o.raw("[\"gvar\","); o.str(qname(v)); o.raw("]"); return;
    }
    if (auto* f = dyn_cast<FieldDecl>(d)) { o.raw("[\"fldref\","); o.num(field(f)); o.raw("]"); return; }
    if (auto* t = dyn_cast<TemplateParamObjectDecl>(d)) { (void)t; o.raw("[\"unk\"]"); return; }
    o.raw("[\"var\","); o.num(var(d)); o.raw("]");
  }

  void call(const CallExpr* c) {
    const FunctionDecl* f = c->getDirectCallee();
    if (auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
      auto* callee = strip(mc->getCallee());
      const Expr* obj = mc->getImplicitObjectArgument();
      if (f && obj) {
        bool virt = false, arrow = false;
        if (auto* me = dyn_cast<MemberExpr>(callee)) {
          arrow = me->isArrow();
          auto* md = dyn_cast<CXXMethodDecl>(f);
          virt = md && md->isVirtual() && !me->hasQualifier();
        }
        o.raw("[\"mcall\","); o.num(fn(f)); o.raw(","); expr(obj); o.raw(","); exprRange(mc->arguments());
        o.raw(","); o.num(virt ? 1 : 0); o.raw(","); o.num(arrow); o.raw(","); o.num(line(c->getExprLoc())); o.raw(","); o.num(type(c->getType()));
        o.raw(","); o.num(type(obj->getType())); o.raw("]"); return;
      }
    }
    if (auto* oc = dyn_cast<CXXOperatorCallExpr>(c)) {
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic() && oc->getNumArgs() >= 1) {
        o.raw("[\"mcall\","); o.num(fn(f)); o.raw(","); expr(oc->getArg(0)); o.raw(",[");
        for (unsigned i = 1; i < oc->getNumArgs(); i++) { if (i > 1) o.raw(","); expr(oc->getArg(i)); }
        o.raw("],"); o.num(cast<CXXMethodDecl>(f)->isVirtual() ? 1 : 0); o.raw(",0,"); o.num(line(c->getExprLoc())); o.raw(","); o.num(type(c->getType()));
        o.raw(","); o.num(type(oc->getArg(0)->getType())); o.raw("]"); return;
      }
    }
    if (f && f->getBuiltinID() == Builtin::BI__builtin_expect) { expr(c->getArg(0)); return; }
    if (f) { o.raw("[\"call\","); o.num(fn(f)); o.raw(","); exprRange(c->arguments()); o.raw(","); o.num(line(c->getExprLoc())); o.raw(","); o.num(type(c->getType())); o.raw("]"); return; }
    o.raw("[\"icall\","); expr(c->getCallee()); o.raw(","); exprRange(c->arguments()); o.raw(","); o.num(line(c->getExprLoc())); o.raw(","); o.num(type(c->getType())); o.raw("]");
  }

  // ---- statements
  void varDecl(const VarDecl* v) {
    o.raw("["); o.num(var(v)); o.raw(","); o.str(v->getNameAsString()); o.raw(","); o.num(type(v->getType())); o.raw(",");
    expr(v->getInit()); o.raw(","); o.num(line(v->getLocation())); o.raw(",");
    // destructor
    int d = -1;
    QualType t = v->getType();
    if (!t->isReferenceType()) if (auto* r = t->getBaseElementTypeUnsafe()->getAsCXXRecordDecl())
      if (r->hasDefinition() && !r->hasTrivialDestructor()) if (auto* dd = r->getDestructor()) d = fn(dd);
    o.num(d); o.raw(","); o.num(v->isStaticLocal()); o.raw("]");
  }
  void stmt(const Stmt* s) {
    if (!s) { o.raw("null"); return; }
    if (auto* e = dyn_cast<Expr>(s)) { o.raw("[\"e\","); expr(e); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return; }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o.raw("[\"{\",["); bool first = true;
        for (auto* x : cast<CompoundStmt>(s)->body()) { if (!first) o.raw(","); first = false; stmt(x); }
        o.raw("]]"); return;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        if (i->isConstexpr()) {
          if (auto taken = i->getNondiscardedCase(C)) { if (*taken) stmt(*taken); else o.raw("[\"nop\"]"); return; }
        }
        o.raw("[\"if\","); stmt(i->getInit()); o.raw(",");
        if (auto* v = i->getConditionVariable()) varDecl(v); else o.raw("null");
        o.raw(","); if (i->isConsteval()) o.raw("[\"bool\",0]"); else expr(i->getCond());
        o.raw(","); stmt(i->getThen()); o.raw(","); stmt(i->getElse()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::WhileStmtClass: {
        auto* w = cast<WhileStmt>(s);
        o.raw("[\"while\","); if (auto* v = w->getConditionVariable()) varDecl(v); else o.raw("null");
        o.raw(","); expr(w->getCond()); o.raw(","); stmt(w->getBody()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::DoStmtClass: {
        auto* w = cast<DoStmt>(s);
        o.raw("[\"do\","); stmt(w->getBody()); o.raw(","); expr(w->getCond()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        o.raw("[\"for\","); stmt(f->getInit()); o.raw(","); if (auto* v = f->getConditionVariable()) varDecl(v); else o.raw("null");
        o.raw(","); expr(f->getCond()); o.raw(",");
        expr(f->getInc()); o.raw(","); stmt(f->getBody()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        o.raw("[\"rfor\","); stmt(f->getInit()); o.raw(","); stmt(f->getRangeStmt()); o.raw(","); stmt(f->getBeginStmt()); o.raw(",");
        stmt(f->getEndStmt()); o.raw(","); expr(f->getCond()); o.raw(","); expr(f->getInc()); o.raw(",");
        stmt(f->getLoopVarStmt()); o.raw(","); stmt(f->getBody()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::SwitchStmtClass: {
        auto* w = cast<SwitchStmt>(s);
        o.raw("[\"switch\","); stmt(w->getInit()); o.raw(","); if (auto* v = w->getConditionVariable()) varDecl(v); else o.raw("null");
        o.raw(","); expr(w->getCond()); o.raw(","); stmt(w->getBody()); o.raw(","); o.num(w->isAllEnumCasesCovered());
        o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::CaseStmtClass: {
        auto* c = cast<CaseStmt>(s);
        o.raw("[\"case\","); expr(c->getLHS()); o.raw(","); expr(c->getRHS()); o.raw(","); stmt(c->getSubStmt()); o.raw("]"); return;
      }
      case Stmt::DefaultStmtClass: o.raw("[\"default\","); stmt(cast<DefaultStmt>(s)->getSubStmt()); o.raw("]"); return;
      case Stmt::ReturnStmtClass: o.raw("[\"ret\","); expr(cast<ReturnStmt>(s)->getRetValue()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      case Stmt::CoreturnStmtClass: o.raw("[\"ret\","); expr(cast<CoreturnStmt>(s)->getOperand()); o.raw(","); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      case Stmt::BreakStmtClass: o.raw("[\"brk\"]"); return;
      case Stmt::ContinueStmtClass: o.raw("[\"cont\"]"); return;
      case Stmt::GotoStmtClass: o.raw("[\"goto\","); o.str(cast<GotoStmt>(s)->getLabel()->getNameAsString()); o.raw("]"); return;
      case Stmt::LabelStmtClass: o.raw("[\"label\","); o.str(cast<LabelStmt>(s)->getDecl()->getNameAsString()); o.raw(","); stmt(cast<LabelStmt>(s)->getSubStmt()); o.raw("]"); return;
      case Stmt::DeclStmtClass: {
        o.raw("[\"decl\",["); bool first = true;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
            if (!first) o.raw(","); first = false; varDecl(dd);
            for (auto* b : dd->bindings()) if (auto* hv = b->getHoldingVar()) { o.raw(","); varDecl(hv); }
            continue;
          }
          if (auto* v = dyn_cast<VarDecl>(d)) { if (!first) o.raw(","); first = false; varDecl(v); }
        }
        o.raw("]]"); return;
      }
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        o.raw("[\"try\","); stmt(t->getTryBlock()); o.raw(",[");
        for (unsigned i = 0; i < t->getNumHandlers(); i++) {
          if (i) o.raw(",");
          auto* h = t->getHandler(i);
          o.raw("["); if (auto* v = h->getExceptionDecl()) varDecl(v); else o.raw("null"); o.raw(","); stmt(h->getHandlerBlock()); o.raw("]");
        }
        o.raw("],"); o.num(line(s->getBeginLoc())); o.raw("]"); return;
      }
      case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(s)->getSubStmt()); return;
      case Stmt::NullStmtClass: o.raw("[\"nop\"]"); return;
      case Stmt::CoroutineBodyStmtClass: stmt(cast<CoroutineBodyStmt>(s)->getBody()); return;
      default: o.raw("[\"nop\","); o.str(s->getStmtClassName()); o.raw("]"); return;
    }
  }

  int enclosingFn(const FunctionDecl* f) {
    const DeclContext* dc = f->getDeclContext();
    while (dc) { if (auto* g = dyn_cast<FunctionDecl>(dc)) return fn(g); dc = dc->getParent(); }
    return -1;
  }

  // function header (+ body when available & in repo)
  void emitFn(const FunctionDecl* d) {
    const FunctionDecl* f = d;
    o.raw("{\"k\":"); o.str(key(f)); o.raw(",\"q\":"); o.str(qname(f));
    o.raw(",\"f\":"); o.num(file(f->getLocation())); o.raw(",\"l\":"); o.num(line(f->getLocation()));
    o.raw(",\"ret\":"); o.num(type(f->getReturnType()));
    std::string fl;
    if (f->isNoReturn() || f->hasAttr<NoReturnAttr>() || f->hasAttr<CXX11NoReturnAttr>()) fl += "N";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) fl += "V";
      if (m->isConst()) fl += "C";
      if (m->isStatic()) fl += "S"; else fl += "M";
      if (m->hasAttr<FinalAttr>() || m->getParent()->hasAttr<FinalAttr>()) fl += "F";
      if (m->getParent()->isLambda()) fl += "L";
      if (m->isPureVirtual()) fl += "P";
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) fl += "=";
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) { fl += "K"; if (c->isCopyOrMoveConstructor()) fl += "c"; if (c->isDefaultConstructor()) fl += "d"; }
    if (isa<CXXDestructorDecl>(f)) fl += "D";
    if (f->isConstexpr()) fl += "X";
    if (f->isDefaulted() ) fl += "U";
    if (f->isDeleted()) fl += "X!";
    auto acc = f->getAccess(); if (acc == AS_public) fl += "p"; else if (acc == AS_private) fl += "r"; else if (acc == AS_protected) fl += "t";
    if (f->getBuiltinID()) fl += "B";
    if (f->isTrivial()) fl += "T";
    if (f->hasAttr<WarnUnusedResultAttr>()) fl += "W";
    if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
      auto est = fpt->getExceptionSpecType();
      if (est != EST_Unevaluated && est != EST_Uninstantiated && fpt->isNothrow()) fl += "E";
    }
    o.raw(",\"fl\":"); o.str(fl);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o.raw(",\"c\":"); o.num(rec(m->getParent()));
      if (m->size_overridden_methods()) {
        o.raw(",\"ov\":["); bool first = true;
        for (auto* ov : m->overridden_methods()) { if (!first) o.raw(","); first = false; o.num(fn(ov)); }
        o.raw("]");
      }
    }
    int enc = enclosingFn(f);
    if (enc >= 0) { o.raw(",\"enc\":"); o.num(enc); }
    // template args
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      o.raw(",\"ta\":["); bool first = true;
      for (auto& a : ta->asArray()) {
        if (!first) o.raw(","); first = false;
        std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); o.str(os.str());
      }
      o.raw("]");
    }
    o.raw(",\"p\":["); bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o.raw(","); first = false;
      o.raw("["); o.num(var(p)); o.raw(","); o.str(p->getNameAsString()); o.raw(","); o.num(type(p->getType())); o.raw("]");
    }
    o.raw("]");
    bool emitBody = f->doesThisDeclarationHaveABody() && inRepo(f) && !f->isDependentContext();
    if (f->isDefaulted() && !f->getBody()) emitBody = false;
    if (emitBody) {
      const Stmt* b = f->getBody();
      if (isa<CoroutineBodyStmt>(b)) o.raw(",\"co\":1");
      if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
        o.raw(",\"in\":["); bool fst = true;
        for (auto* i : c->inits()) {
          if (!fst) o.raw(","); fst = false;
          o.raw("[");
          if (i->isAnyMemberInitializer()) {
            auto* fd = i->getMember(); if (!fd) fd = i->getAnyMember();
            o.num(field(fd)); o.raw(",");
          } else if (i->isBaseInitializer()) { o.raw("\"base\","); }
          else o.raw("\"self\",");
          expr(i->getInit());
          o.raw(","); o.num(line(i->getSourceLocation())); o.raw(","); o.num(i->isWritten()); o.raw("]");
        }
        o.raw("]");
      }
      o.raw(",\"b\":"); stmt(b);
    }
    o.raw("}");
  }

  // enumerate everything defined in the main file (and instantiations)
  class Visitor : public RecursiveASTVisitor<Visitor> {
   public:
    Extractor& X; explicit Visitor(Extractor& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
      if (f->isDependentContext()) return true;
      if (!f->doesThisDeclarationHaveABody()) return true;
      auto l = X.expLoc(f->getLocation());
      bool main = X.SM.isInMainFile(l);
      if (!main && gAllHeaders) main = X.inRepo(f);
      if (!main) return true;
      X.fn(f);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
      if (r->isDependentContext() || !r->isThisDeclarationADefinition()) return true;
      auto l = X.expLoc(r->getLocation());
      if (X.SM.isInMainFile(l) || X.inRepo(r)) { X.rec(r); }
      return true;
    }
  };

  std::string run() {
    Visitor v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
    o.raw("{\"fns\":[\n");
    for (size_t i = 0; i < fns.size(); i++) {
      if (i) o.raw(",\n");
      emitFn(fns[i]);
    }
    o.raw("],\n\"types0\":0,\"recs\":[\n");
    size_t tdone = 0; std::string tsave;
    // types reference records and vice versa: alternate until both are exhausted
    Out typesOut;
    for (size_t i = 0;; i++) {
      while (i >= recs.size() && tdone < types.size()) {
        std::swap(o, typesOut); if (tdone) o.raw(",\n"); emitType(tdone++); std::swap(o, typesOut);
      }
      if (i >= recs.size()) break;
      if (i) o.raw(",\n");
      auto* r = recs[i];
      o.raw("{\"q\":"); o.str(qname(r)); o.raw(",\"t\":"); o.num(type(C.getRecordType(r)));
      o.raw(",\"f\":"); o.num(file(r->getLocation())); o.raw(",\"l\":"); o.num(line(r->getLocation()));
      if (r->hasDefinition()) {
        o.raw(",\"bases\":["); bool first = true;
        for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) { if (!first) o.raw(","); first = false; o.num(rec(br)); }
        o.raw("],\"fields\":["); first = true;
        for (auto* fd : r->fields()) { if (!first) o.raw(","); first = false; o.num(field(fd)); }
        o.raw("]");
        if (r->hasAttr<FinalAttr>()) o.raw(",\"final\":1");
        if (!r->hasTrivialDestructor()) { if (auto* dd = r->getDestructor()) { o.raw(",\"dtor\":"); auto it = fnIdx.find(def(dd)->getCanonicalDecl()); o.num(it == fnIdx.end() ? -1 : it->second); } }
      }
      o.raw("}");
    }
    o.raw("],\n\"fields\":[");
    for (size_t i = 0; i < fields.size(); i++) {
      if (i) o.raw(",\n");
      auto* f = fields[i];
      o.raw("["); o.str(qname(f)); o.raw(","); o.num(type(f->getType())); o.raw(",");
      auto* pr = dyn_cast<CXXRecordDecl>(f->getParent());
      o.num(pr ? (recIdx.count(pr) ? recIdx[pr] : -1) : -1); o.raw(","); o.num(f->isMutable()); o.raw(","); 
      o.num(f->getAccess() == AS_public); o.raw(","); o.num(f->getFieldIndex()); o.raw("]");
    }
    o.raw("],\n\"types\":[");
    while (tdone < types.size()) { std::swap(o, typesOut); if (tdone) o.raw(",\n"); emitType(tdone++); std::swap(o, typesOut); }
    o.raw(typesOut.s);
    o.raw("],\n\"files\":[");
    for (size_t i = 0; i < files.size(); i++) { if (i) o.raw(","); o.str(files[i]); }
    o.raw("],\n\"garr\":{"); { bool first = true;
    for (auto& kv : garr) { if (kv.second.empty()) continue; if (!first) o.raw(","); first = false; o.str(kv.first); o.raw(":[");
      for (size_t i = 0; i < kv.second.size(); i++) { if (i) o.raw(","); o.raw(kv.second[i]); } o.raw("]"); } }
    o.raw("}}\n");
    return std::move(o.s);
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance& CI; explicit Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor x(C, nullptr);
    std::string s = x.run();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
    os << s;
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

int main(int argc, const char** argv) {
  // extract ROOT EXTRA OUT SRC -- flags
  if (argc < 6) { llvm::errs() << "usage\n"; return 2; }
  gRoot = argv[1]; gExtra = argv[2]; gOut = argv[3];
  std::string src = argv[4];
  std::vector<std::string> args;
  bool after = false;
  for (int i = 5; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") { after = true; continue; }
    if (!after) { if (a == "-all") gAllHeaders = true; continue; }
    args.push_back(a);
  }
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
