// avfacts: dumps a resolved, typed, per-function CFG + expression graph of one
// translation unit as JSON.  It makes no judgement; the rules live in lib/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using namespace clang::tooling;

static llvm::cl::OptionCategory Cat("avfacts");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::Required, llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));

static void js(llvm::raw_ostream& o, llvm::StringRef s)
{
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
}

struct Ctx {
  ASTContext& A;
  std::unique_ptr<MangleContext> MC;
  std::map<std::string, unsigned> types;
  std::vector<std::string> typeList;
  std::map<std::string, std::string> decls;  // key -> json
  std::string tu;
  PrintingPolicy PP;

  Ctx(ASTContext& A, std::string tu) : A(A), MC(A.createMangleContext()), tu(tu), PP(A.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.AnonymousTagLocations = false;
  }

  unsigned type(QualType t)
  {
    std::string s;
    if (t.isNull()) s = "<null>";
    else s = t.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    unsigned n = typeList.size();
    types[s] = n;
    typeList.push_back(s);
    return n;
  }

  bool internal(const FunctionDecl* f) { return !f->isExternallyVisible(); }

  std::string key(const FunctionDecl* f)
  {
    std::string s;
    llvm::raw_string_ostream o(s);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), o);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), o);
    else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), o);
    else o << f->getNameAsString();
    o.flush();
    if (internal(f)) s += "@" + tu;
    return s;
  }

  std::string qual(const NamedDecl* d)
  {
    std::string s;
    llvm::raw_string_ostream o(s);
    d->printQualifiedName(o, PP);
    o.flush();
    return s;
  }

  unsigned line(SourceLocation l) { return A.getSourceManager().getExpansionLineNumber(l); }

  std::string file(SourceLocation l)
  {
    auto& SM = A.getSourceManager();
    auto e = SM.getExpansionLoc(l);
    return SM.getFilename(e).str();
  }

  void needDecl(const FunctionDecl* f, const std::string& k)
  {
    if (decls.count(k)) return;
    std::string s;
    llvm::raw_string_ostream o(s);
    decls[k] = "";
    o << "{\"n\":";
    js(o, qual(f));
    o << ",\"nr\":" << (f->isNoReturn() ? 1 : 0);
    o << ",\"ret\":" << type(f->getReturnType()) << ",\"p\":[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o << ",";
      first = false;
      o << type(p->getType());
    }
    o << "]";
    if (f->isVariadic()) o << ",\"va\":1";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o << ",\"cls\":";
      js(o, qual(m->getParent()));
      if (m->isVirtual()) o << ",\"virt\":1";
      if (m->isStatic()) o << ",\"st\":1";
    }
    o << "}";
    o.flush();
    decls[k] = s;
  }
};

struct FnDump {
  Ctx& C;
  std::map<const Stmt*, int> ids;
  std::vector<std::string> nodes;
  std::map<const VarDecl*, int> vars;
  std::vector<std::string> varList;

  FnDump(Ctx& C) : C(C) {}

  int var(const VarDecl* v)
  {
    v = v->getCanonicalDecl();
    auto it = vars.find(v);
    if (it != vars.end()) return it->second;
    int n = varList.size();
    vars[v] = n;
    std::string s;
    llvm::raw_string_ostream o(s);
    o << "[";
    js(o, v->getNameAsString());
    o << "," << C.type(v->getType()) << ",\""
      << (isa<ParmVarDecl>(v) ? "p" : v->isStaticLocal() ? "s" : "l") << "\"," << C.line(v->getLocation())
      << "]";
    o.flush();
    varList.push_back(s);
    return n;
  }

  static const Stmt* strip(const Stmt* s)
  {
    while (true) {
      if (auto* p = dyn_cast<ParenExpr>(s)) s = p->getSubExpr();
      else if (auto* p = dyn_cast<ExprWithCleanups>(s)) s = p->getSubExpr();
      else if (auto* p = dyn_cast<ConstantExpr>(s)) s = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = p->getReplacement();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(s)) s = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(s)) s = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(s)) s = p->getExpr();
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(s)) s = p->getExpr();
      else if (auto* p = dyn_cast<AttributedStmt>(s)) s = p->getSubStmt();
      else return s;
    }
  }

  int id(const Stmt* s)
  {
    if (!s) return -1;
    s = strip(s);
    auto it = ids.find(s);
    if (it != ids.end()) return it->second;
    int n = nodes.size();
    ids[s] = n;
    nodes.push_back("");
    std::string r = dump(s);
    nodes[n] = r;
    return n;
  }

  void kids(llvm::raw_ostream& o, std::vector<const Stmt*> v)
  {
    o << ",\"c\":[";
    bool f = true;
    for (auto* s : v) {
      if (!f) o << ",";
      f = false;
      o << id(s);
    }
    o << "]";
  }

  void callee(llvm::raw_ostream& o, const FunctionDecl* f)
  {
    std::string k = C.key(f);
    C.needDecl(f, k);
    o << ",\"f\":";
    js(o, k);
    o << ",\"fn\":";
    js(o, C.qual(f));
    if (f->isNoReturn()) o << ",\"nr\":1";
  }

  std::string dump(const Stmt* s)
  {
    std::string out;
    llvm::raw_string_ostream o(out);
    o << "{\"k\":";
    auto* e = dyn_cast<Expr>(s);
    std::string extra;
    llvm::raw_string_ostream x(extra);
    const char* kind = nullptr;
    std::vector<const Stmt*> ch;
    bool defaultKids = true;

    if (auto* d = dyn_cast<DeclRefExpr>(s)) {
      kind = "Ref";
      auto* vd = d->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(vd)) {
        x << ",\"dk\":\"f\"";
        callee(x, f);
      } else if (auto* v = dyn_cast<VarDecl>(vd)) {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) x << ",\"dk\":\"v\",\"v\":" << var(v);
        else {
          x << ",\"dk\":\"g\",\"d\":";
          js(x, C.qual(v));
          if (!v->getType()->isDependentType() && v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified()
              && !v->getType().isVolatileQualified() && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent()) {
            if (auto* val = v->evaluateValue())
              if (val->isInt()) x << ",\"cv\":" << llvm::toString(val->getInt(), 10);
          }
        }
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(vd)) {
        x << ",\"dk\":\"e\",\"d\":";
        js(x, C.qual(ec));
        x << ",\"cv\":" << llvm::toString(ec->getInitVal(), 10);
      } else {
        x << ",\"dk\":\"o\",\"d\":";
        js(x, C.qual(vd));
      }
    } else if (auto* m = dyn_cast<MemberExpr>(s)) {
      kind = "Mem";
      x << ",\"d\":";
      js(x, C.qual(m->getMemberDecl()));
      if (m->isArrow()) x << ",\"arrow\":1";
      if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) callee(x, f);
    } else if (auto* c = dyn_cast<CXXMemberCallExpr>(s)) {
      kind = "Call";
      defaultKids = false;
      if (auto* f = c->getMethodDecl()) {
        callee(x, f);
        auto* me = dyn_cast<MemberExpr>(strip(c->getCallee()));
        if (f->isVirtual() && !(me && me->hasQualifier())) x << ",\"virt\":1";
        if (c->getImplicitObjectArgument()) {
          ch.push_back(c->getImplicitObjectArgument());
          x << ",\"obj\":1";
        }
      } else {
        x << ",\"fe\":" << id(c->getCallee());
      }
      for (auto* a : c->arguments()) ch.push_back(a);
    } else if (auto* c = dyn_cast<CallExpr>(s)) {
      kind = "Call";
      defaultKids = false;
      if (auto* f = c->getDirectCallee()) {
        callee(x, f);
        if (isa<CXXOperatorCallExpr>(c)) {
          x << ",\"opc\":1";
          auto* m = dyn_cast<CXXMethodDecl>(f);
          if (m && !m->isStatic()) x << ",\"obj\":1";
        }
      } else {
        x << ",\"fe\":" << id(c->getCallee());
      }
      for (auto* a : c->arguments()) ch.push_back(a);
    } else if (auto* c = dyn_cast<CXXConstructExpr>(s)) {
      kind = "Ctor";
      callee(x, c->getConstructor());
      x << ",\"cls\":";
      js(x, C.qual(c->getConstructor()->getParent()));
    } else if (auto* n = dyn_cast<CXXNewExpr>(s)) {
      kind = "New";
      defaultKids = false;
      if (n->getOperatorNew()) callee(x, n->getOperatorNew());
      x << ",\"np\":" << n->getNumPlacementArgs();
      for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) ch.push_back(n->getPlacementArg(i));
      if (n->isArray() && n->getArraySize()) ch.push_back(*n->getArraySize());
      if (n->getInitializer()) ch.push_back(n->getInitializer());
    } else if (auto* d = dyn_cast<CXXDeleteExpr>(s)) {
      kind = "Delete";
      (void)d;
    } else if (auto* i = dyn_cast<IntegerLiteral>(s)) {
      kind = "Int";
      x << ",\"cv\":" << llvm::toString(i->getValue(), 10, i->getType()->isSignedIntegerType());
    } else if (auto* c = dyn_cast<CharacterLiteral>(s)) {
      kind = "Int";
      x << ",\"chr\":1,\"cv\":" << c->getValue();
    } else if (auto* b = dyn_cast<CXXBoolLiteralExpr>(s)) {
      kind = "Int";
      x << ",\"cv\":" << (b->getValue() ? 1 : 0);
    } else if (isa<GNUNullExpr>(s) || isa<CXXNullPtrLiteralExpr>(s)) {
      kind = "Int";
      x << ",\"cv\":0";
    } else if (auto* f = dyn_cast<FloatingLiteral>(s)) {
      kind = "Float";
      x << ",\"fv\":" << f->getValueAsApproximateDouble();
    } else if (auto* st = dyn_cast<StringLiteral>(s)) {
      kind = "Str";
      if (st->getCharByteWidth() == 1) {
        x << ",\"s\":";
        js(x, st->getString());
      }
    } else if (auto* u = dyn_cast<UnaryOperator>(s)) {
      kind = "Un";
      x << ",\"op\":";
      js(x, UnaryOperator::getOpcodeStr(u->getOpcode()));
      if (u->isPostfix()) x << ",\"post\":1";
    } else if (auto* b = dyn_cast<BinaryOperator>(s)) {
      kind = isa<CompoundAssignOperator>(b) ? "CAsg" : b->getOpcode() == BO_Assign ? "Asg" : "Bin";
      x << ",\"op\":";
      js(x, b->getOpcodeStr());
    } else if (isa<AbstractConditionalOperator>(s)) {
      kind = "Cond";
    } else if (auto* c = dyn_cast<CastExpr>(s)) {
      kind = "Cast";
      x << ",\"ck\":\"" << c->getCastKindName() << "\"";
      if (isa<ImplicitCastExpr>(c)) x << ",\"imp\":1";
      if (isa<CXXReinterpretCastExpr>(c)) x << ",\"re\":1";
    } else if (isa<ArraySubscriptExpr>(s)) {
      kind = "Idx";
    } else if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      kind = "SizeOf";
      defaultKids = false;
      if (u->isArgumentType()) x << ",\"at\":" << C.type(u->getArgumentType());
      else {
        x << ",\"at\":" << C.type(u->getArgumentExpr()->getType());
        x << ",\"ae\":" << id(u->getArgumentExpr());
      }
      if (u->getKind() != UETT_SizeOf) x << ",\"other\":1";
    } else if (isa<CXXThisExpr>(s)) {
      kind = "This";
    } else if (isa<InitListExpr>(s)) {
      kind = "InitList";
    } else if (auto* d = dyn_cast<DeclStmt>(s)) {
      kind = "Decl";
      defaultKids = false;
      x << ",\"vars\":[";
      bool f = true;
      for (auto* dd : d->decls())
        if (auto* v = dyn_cast<VarDecl>(dd)) {
          if (!f) x << ",";
          f = false;
          x << "[" << var(v) << "," << (v->hasInit() ? id(v->getInit()) : -1) << "]";
        }
      x << "]";
      for (auto* dd : d->decls())
        if (auto* v = dyn_cast<VarDecl>(dd))
          if (auto* at = v->getASTContext().getAsVariableArrayType(v->getType()))
            if (at->getSizeExpr()) x << ",\"vla\":[" << var(v) << "," << id(at->getSizeExpr()) << "]";
    } else if (isa<ReturnStmt>(s)) {
      kind = "Return";
    } else if (auto* g = dyn_cast<GotoStmt>(s)) {
      kind = "Goto";
      x << ",\"label\":";
      js(x, g->getLabel()->getName());
    } else if (isa<VAArgExpr>(s)) {
      kind = "VAArg";
    } else if (auto* o2 = dyn_cast<OffsetOfExpr>(s)) {
      kind = "OffsetOf";
      (void)o2;
    } else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) {
      kind = "Zero";
    }
    std::string kn = kind ? kind : s->getStmtClassName();
    js(o, kn);
    if (e) o << ",\"t\":" << C.type(e->getType());
    if (e && e->isGLValue()) o << ",\"lv\":1";
    o << ",\"l\":" << C.line(s->getBeginLoc());
    if (s->getBeginLoc().isMacroID()) {
      auto& SM = C.A.getSourceManager();
      SourceLocation l = s->getBeginLoc();
      // outermost macro
      std::string mac;
      while (l.isMacroID()) {
        if (SM.isMacroBodyExpansion(l)) mac = Lexer::getImmediateMacroName(l, SM, C.A.getLangOpts()).str();
        l = SM.getImmediateMacroCallerLoc(l);
      }
      if (!mac.empty()) {
        o << ",\"mac\":";
        js(o, mac);
      }
    }
    x.flush();
    o << extra;
    if (e && extra.find("\"cv\"") == std::string::npos && !e->isValueDependent() && !e->isGLValue()
        && (e->getType()->isIntegralOrEnumerationType()) && !isa<CallExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C.A, Expr::SE_NoSideEffects) && r.Val.isInt())
        o << ",\"cv\":" << llvm::toString(r.Val.getInt(), 10);
    }
    if (defaultKids) {
      if (e || isa<ReturnStmt>(s) || isa<DeclStmt>(s)) {
        if (auto* il = dyn_cast<InitListExpr>(s)) {
          auto* sem = il->isSemanticForm() ? il : il->getSemanticForm();
          if (sem) il = sem;
          for (auto* k : il->inits()) ch.push_back(k);
        } else
          for (auto* k : s->children()) if (k) ch.push_back(k);
      }
    }
    if (!ch.empty()) kids(o, ch);
    o << "}";
    o.flush();
    return out;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx& C;
  llvm::raw_ostream& O;
  std::set<std::string> done;
  std::set<const RecordDecl*> recs;
  bool first = true;
  std::vector<const CXXRecordDecl*> records;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> globals;

  V(Ctx& C, llvm::raw_ostream& O) : C(C), O(O) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoots(SourceLocation l)
  {
    if (l.isInvalid()) return false;
    std::string f = C.file(l);
    if (f.empty()) return false;
    for (auto& r : Roots)
      if (llvm::StringRef(f).startswith(r)) return true;
    return false;
  }

  bool VisitEnumDecl(EnumDecl* d)
  {
    if (d->isCompleteDefinition() && inRoots(d->getLocation())) enums.push_back(d);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* d)
  {
    if (d->isCompleteDefinition() && !d->isDependentType() && inRoots(d->getLocation())) records.push_back(d);
    return true;
  }

  bool VisitVarDecl(VarDecl* d)
  {
    if (d->isFileVarDecl() && d->hasInit() && !d->isTemplated() && inRoots(d->getLocation())) globals.push_back(d);
    return true;
  }

  bool VisitFunctionDecl(FunctionDecl* f)
  {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    if (f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!inRoots(f->getLocation())) return true;
    emit(f);
    return true;
  }

  void emit(FunctionDecl* f)
  {
    std::string k = C.key(f);
    if (!done.insert(k).second) return;
    CFG::BuildOptions bo;
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = true;
    bo.AddInitializers = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.setAllAlwaysAdd();
    auto cfg = CFG::buildCFG(f, f->getBody(), &C.A, bo);
    if (!cfg) {
      llvm::errs() << "avfacts: no CFG for " << k << "\n";
    }
    FnDump D(C);
    std::string params;
    {
      llvm::raw_string_ostream o(params);
      for (auto* p : f->parameters()) {
        if (!params.empty()) {}
        o << (p == f->parameters()[0] ? "" : ",") << D.var(p);
      }
    }
    std::string body;
    llvm::raw_string_ostream o(body);
    if (cfg) {
      o << ",\"entry\":" << cfg->getEntry().getBlockID() << ",\"exit\":" << cfg->getExit().getBlockID() << ",\"b\":{";
      bool fb = true;
      for (auto* b : *cfg) {
        if (!fb) o << ",";
        fb = false;
        o << "\"" << b->getBlockID() << "\":{\"e\":[";
        bool fe = true;
        for (auto& el : *b) {
          std::string s;
          llvm::raw_string_ostream so(s);
          switch (el.getKind()) {
          case CFGElement::Statement:
          case CFGElement::Constructor:
          case CFGElement::CXXRecordTypedCall: {
            const Stmt* st = el.castAs<CFGStmt>().getStmt();
            const Stmt* ss = FnDump::strip(st);
            if (ss != st) {
              // a wrapper of an expression that already was an element
              if (D.ids.count(ss)) continue;
            }
            so << D.id(st);
            break;
          }
          case CFGElement::Initializer: {
            auto* in = el.castAs<CFGInitializer>().getInitializer();
            so << "{\"i\":";
            if (in->isAnyMemberInitializer()) js(so, C.qual(in->getAnyMember()));
            else if (in->isBaseInitializer()) js(so, "<base>");
            else js(so, "<delegate>");
            so << ",\"x\":" << D.id(in->getInit()) << "}";
            break;
          }
          case CFGElement::AutomaticObjectDtor: {
            auto d = el.castAs<CFGAutomaticObjDtor>();
            auto* dd = d.getDestructorDecl(C.A);
            so << "{\"dtor\":" << D.var(d.getVarDecl());
            if (dd) D.callee(so, dd);
            so << ",\"l\":" << C.line(d.getTriggerStmt()->getEndLoc()) << "}";
            break;
          }
          case CFGElement::TemporaryDtor: {
            auto d = el.castAs<CFGTemporaryDtor>();
            auto* dd = d.getDestructorDecl(C.A);
            so << "{\"tdtor\":" << D.id(d.getBindTemporaryExpr());
            if (dd) D.callee(so, dd);
            so << "}";
            break;
          }
          case CFGElement::BaseDtor:
          case CFGElement::MemberDtor: {
            auto d = el.castAs<CFGImplicitDtor>();
            auto* dd = d.getDestructorDecl(C.A);
            so << "{\"mdtor\":1";
            if (dd) D.callee(so, dd);
            so << "}";
            break;
          }
          case CFGElement::DeleteDtor: {
            auto d = el.castAs<CFGImplicitDtor>();
            auto* dd = d.getDestructorDecl(C.A);
            so << "{\"ddtor\":1";
            if (dd) D.callee(so, dd);
            so << "}";
            break;
          }
          default: continue;
          }
          so.flush();
          if (!fe) o << ",";
          fe = false;
          o << s;
        }
        o << "],\"s\":[";
        bool fs = true;
        for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
          if (!fs) o << ",";
          fs = false;
          if (auto* r = it->getReachableBlock()) o << r->getBlockID();
          else o << -1;
        }
        o << "]";
        if (auto* t = b->getTerminatorStmt()) {
          o << ",\"t\":";
          std::string kn = t->getStmtClassName();
          if (auto* bo2 = dyn_cast<BinaryOperator>(t)) kn = bo2->getOpcodeStr().str();
          js(o, kn);
          if (auto* tc = b->getTerminatorCondition()) {
            const Stmt* q = FnDump::strip(tc);
            // for && / || trees the effective condition is the last operand
            o << ",\"tc\":" << D.id(q);
            if (auto* lc = b->getLastCondition()) o << ",\"lc\":" << D.id(lc);
          }
          if (auto* g = dyn_cast<GotoStmt>(t)) {
            o << ",\"goto\":";
            js(o, g->getLabel()->getName());
          }
          o << ",\"tl\":" << C.line(t->getBeginLoc());
        }
        if (b->hasNoReturnElement()) o << ",\"nr\":1";
        if (auto* lb = b->getLabel()) {
          if (auto* cs = dyn_cast<CaseStmt>(lb)) {
            Expr::EvalResult r;
            if (cs->getLHS()->EvaluateAsInt(r, C.A)) o << ",\"case\":[" << llvm::toString(r.Val.getInt(), 10);
            else o << ",\"case\":[null";
            if (cs->getRHS() && cs->getRHS()->EvaluateAsInt(r, C.A)) o << "," << llvm::toString(r.Val.getInt(), 10);
            o << "]";
            // name of the constant
            if (auto* de = dyn_cast<DeclRefExpr>(cs->getLHS()->IgnoreParenImpCasts())) {
              o << ",\"cn\":";
              js(o, C.qual(de->getDecl()));
            } else if (auto* ce = dyn_cast<ConstantExpr>(cs->getLHS())) {
              if (auto* de2 = dyn_cast<DeclRefExpr>(ce->getSubExpr()->IgnoreParenImpCasts())) {
                o << ",\"cn\":";
                js(o, C.qual(de2->getDecl()));
              }
            }
          } else if (isa<DefaultStmt>(lb)) o << ",\"default\":1";
          else if (auto* ls = dyn_cast<LabelStmt>(lb)) {
            o << ",\"label\":";
            js(o, ls->getDecl()->getName());
          }
        }
        if (auto* lt = b->getLoopTarget()) { (void)lt; o << ",\"loop\":1"; }
        o << "}";
      }
      o << "}";
    }
    o.flush();
    if (!first) O << ",\n";
    first = false;
    O << "{\"m\":";
    js(O, k);
    O << ",\"n\":";
    js(O, C.qual(f));
    O << ",\"file\":";
    js(O, C.file(f->getLocation()));
    O << ",\"l\":" << C.line(f->getLocation()) << ",\"le\":" << C.line(f->getEndLoc());
    O << ",\"ret\":" << C.type(f->getReturnType());
    O << ",\"params\":[" << params << "]";
    if (f->isNoReturn()) O << ",\"nr\":1";
    if (C.internal(f)) O << ",\"int\":1";
    if (f->isVariadic()) O << ",\"va\":1";
    if (f->isExternC()) O << ",\"xc\":1";
    if (f->getTemplateInstantiationPattern()) O << ",\"tmpl\":1";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      O << ",\"cls\":";
      js(O, C.qual(m->getParent()));
      if (m->isVirtual()) O << ",\"virt\":1";
      if (m->isStatic()) O << ",\"st\":1";
      if (isa<CXXConstructorDecl>(m)) O << ",\"ctor\":1";
      if (isa<CXXDestructorDecl>(m)) O << ",\"dtor\":1";
      O << ",\"ovr\":[";
      bool fo = true;
      for (auto* q : m->overridden_methods()) {
        if (!fo) O << ",";
        fo = false;
        js(O, C.key(q));
      }
      O << "]";
    }
    O << ",\"vars\":[";
    for (size_t i = 0; i < D.varList.size(); ++i) O << (i ? "," : "") << D.varList[i];
    O << "],\"x\":[";
    for (size_t i = 0; i < D.nodes.size(); ++i) O << (i ? ",\n" : "") << D.nodes[i];
    O << "]" << body << "}";
  }

  void finish()
  {
    O << "],\n\"records\":{";
    bool fr = true;
    std::set<std::string> seen;
    for (auto* d : records) {
      std::string n = C.qual(d);
      if (d->isInvalidDecl() || !seen.insert(n).second) continue;
      if (!fr) O << ",\n";
      fr = false;
      js(O, n);
      O << ":{\"bases\":[";
      bool fb = true;
      for (auto& b : d->bases())
        if (auto* r = b.getType()->getAsCXXRecordDecl()) {
          if (!fb) O << ",";
          fb = false;
          js(O, C.qual(r));
        }
      O << "],\"file\":";
      js(O, C.file(d->getLocation()));
      O << ",\"l\":" << C.line(d->getLocation());
      auto& L = C.A.getASTRecordLayout(d);
      O << ",\"size\":" << L.getSize().getQuantity() << ",\"fields\":[";
      bool ff = true;
      for (auto* fd : d->fields()) {
        if (!ff) O << ",";
        ff = false;
        O << "[";
        js(O, fd->getNameAsString());
        O << "," << C.type(fd->getType()) << ","
          << (C.A.getFieldOffset(fd) / 8) << "]";
      }
      O << "],\"methods\":[";
      ff = true;
      for (auto* m : d->methods()) {
        if (m->isImplicit()) continue;
        if (!ff) O << ",";
        ff = false;
        O << "[";
        js(O, m->getNameAsString());
        O << ",";
        js(O, C.key(m));
        O << "," << (m->isVirtual() ? 1 : 0) << "," << (m->isPureVirtual() ? 1 : 0) << ",[";
        bool fo = true;
        for (auto* q : m->overridden_methods()) {
          if (!fo) O << ",";
          fo = false;
          js(O, C.key(q));
        }
        O << "]]";
      }
      O << "]}";
    }
    O << "},\n\"enums\":{";
    bool fe = true;
    std::set<std::string> es;
    for (auto* d : enums) {
      std::string n = C.qual(d);
      if (d->getNameAsString().empty()) n += "#" + std::to_string(C.line(d->getLocation()));
      if (!es.insert(n).second) continue;
      if (!fe) O << ",\n";
      fe = false;
      js(O, n);
      O << ":{";
      bool f2 = true;
      for (auto* c : d->enumerators()) {
        if (!f2) O << ",";
        f2 = false;
        js(O, c->getNameAsString());
        O << ":" << llvm::toString(c->getInitVal(), 10);
      }
      O << "}";
    }
    O << "},\n\"globals\":[";
    bool fg = true;
    std::set<const VarDecl*> gs;
    for (auto* v : globals) {
      if (!gs.insert(v->getCanonicalDecl()).second) continue;
      FnDump D(C);
      int i = D.id(v->getInit());
      if (!fg) O << ",\n";
      fg = false;
      O << "{\"n\":";
      js(O, C.qual(v));
      O << ",\"t\":" << C.type(v->getType()) << ",\"file\":";
      js(O, C.file(v->getLocation()));
      O << ",\"l\":" << C.line(v->getLocation()) << ",\"init\":" << i;
      if (!v->getType()->isDependentType() && v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified()) {
        if (auto* val = v->evaluateValue())
          if (val->isInt()) O << ",\"cv\":" << llvm::toString(val->getInt(), 10);
      }
      O << ",\"x\":[";
      for (size_t j = 0; j < D.nodes.size(); ++j) O << (j ? "," : "") << D.nodes[j];
      O << "]}";
    }
    O << "],\n\"decls\":{";
    bool fd = true;
    for (auto& p : C.decls) {
      if (!fd) O << ",\n";
      fd = false;
      js(O, p.first);
      O << ":" << p.second;
    }
    O << "},\n\"types\":[";
    for (size_t i = 0; i < C.typeList.size(); ++i) {
      if (i) O << ",";
      js(O, C.typeList[i]);
    }
    O << "]}\n";
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  std::string in;
  Consumer(CompilerInstance& CI, std::string in) : CI(CI), in(in) {}
  void HandleTranslationUnit(ASTContext& A) override
  {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec;
    llvm::raw_fd_ostream O(OutFile, ec);
    if (ec) {
      llvm::errs() << "cannot write " << OutFile << "\n";
      exit(3);
    }
    std::string tu = in;
    Ctx C(A, tu);
    O << "{\"file\":";
    js(O, in);
    O << ",\"funcs\":[\n";
    V v(C, O);
    v.TraverseDecl(A.getTranslationUnitDecl());
    v.finish();
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef in) override
  {
    return std::make_unique<Consumer>(CI, in.str());
  }
};

int main(int argc, const char** argv)
{
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) {
    llvm::errs() << P.takeError();
    return 2;
  }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
