// ktx: exports the type-checked program (functions, their syntax trees and control-flow graphs,
// records, enums, variables) of one translation unit as JSON. Only declarations located under the
// given root are exported; the library headers are only referred to by resolved name.
//
// usage: ktx ROOT FILE.cpp OUT.json -- compiler args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

namespace {

std::string root, outPath;

// --- minimal JSON output -------------------------------------------------------------------
void jstr(llvm::raw_ostream& o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o << "\\\""; break;
    case '\\': o << "\\\\"; break;
    case '\n': o << "\\n"; break;
    case '\t': o << "\\t"; break;
    case '\r': o << "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) {
        // bytes are kept one to one (latin-1 view of the UTF-8 source)
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        o << b;
      } else
        o << c;
    }
  }
  o << '"';
}

struct Exporter {
  ASTContext& ctx;
  const SourceManager& sm;
  llvm::raw_ostream& o;
  PrintingPolicy pp;
  std::map<const void*, int> typeIds;
  std::vector<std::string> types;

  Exporter(ASTContext& c, llvm::raw_ostream& out)
      : ctx(c), sm(c.getSourceManager()), o(out), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.PrintCanonicalTypes = true;
    pp.TerseOutput = true;
  }

  // --- locations -----------------------------------------------------------------------------
  bool inRoot(SourceLocation l) const {
    if (l.isInvalid()) return false;
    auto f = sm.getFilename(sm.getExpansionLoc(l));
    return f.starts_with(root) || sm.isInMainFile(sm.getExpansionLoc(l));
  }
  std::string relFile(SourceLocation l) const {
    auto f = sm.getFilename(sm.getExpansionLoc(l));
    if (f.starts_with(root)) return f.drop_front(root.size()).ltrim('/').str();
    return f.str();
  }
  unsigned line(SourceLocation l) const { return l.isInvalid() ? 0 : sm.getExpansionLineNumber(l); }
  unsigned col(SourceLocation l) const { return l.isInvalid() ? 0 : sm.getExpansionColumnNumber(l); }

  // --- types ---------------------------------------------------------------------------------
  static std::string esc(llvm::StringRef s) {
    std::string r;
    llvm::raw_string_ostream ss(r);
    jstr(ss, s);
    return ss.str();
  }
  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    auto key = q.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[key] = id;
    types.emplace_back();
    std::string r;
    llvm::raw_string_ostream s(r);
    s << "{\"s\":" << esc(q.getAsString(pp));
    if (q.isConstQualified()) s << ",\"const\":1";
    auto u = q.getUnqualifiedType();
    if (auto* ref = u->getAs<ReferenceType>()) {
      s << ",\"k\":\"ref\",\"rv\":" << (u->isRValueReferenceType() ? 1 : 0)
        << ",\"to\":" << type(ref->getPointeeType());
    } else if (auto* p = u->getAs<PointerType>()) {
      s << ",\"k\":\"ptr\",\"to\":" << type(p->getPointeeType());
    } else if (auto* e = u->getAs<EnumType>()) {
      s << ",\"k\":\"enum\",\"n\":" << esc(e->getDecl()->getQualifiedNameAsString());
      if (!u->isDependentType()) {
        auto it2 = e->getDecl()->getIntegerType();
        if (!it2.isNull())
          s << ",\"w\":" << ctx.getTypeSize(it2)
            << ",\"sg\":" << (it2->isSignedIntegerType() ? 1 : 0);
      }
      s << ",\"scoped\":" << (e->getDecl()->isScoped() ? 1 : 0);
    } else if (u->isBooleanType()) {
      s << ",\"k\":\"bool\",\"w\":1,\"sg\":0";
    } else if (u->isBuiltinType() && u->isIntegerType()) {
      s << ",\"k\":\"int\",\"w\":" << ctx.getTypeSize(u)
        << ",\"sg\":" << (u->isSignedIntegerType() ? 1 : 0);
    } else if (u->isFloatingType()) {
      s << ",\"k\":\"float\"";
    } else if (auto* rt = u->getAs<RecordType>()) {
      s << ",\"k\":\"rec\",\"n\":" << esc(rt->getDecl()->getQualifiedNameAsString());
      if (auto* cr = dyn_cast<CXXRecordDecl>(rt->getDecl()))
        if (cr->isLambda()) s << ",\"lambda\":" << esc(lambdaId(cr));
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl())) {
        s << ",\"a\":[";
        bool first = true;
        for (auto& a : sp->getTemplateArgs().asArray()) targ(s, a, first);
        s << "]";
      }
    } else if (auto* a = ctx.getAsConstantArrayType(u)) {
      s << ",\"k\":\"arr\",\"len\":" << a->getSize().getZExtValue()
        << ",\"to\":" << type(a->getElementType());
    } else if (u->isVoidType()) {
      s << ",\"k\":\"void\"";
    } else if (auto* fp = u->getAs<FunctionProtoType>()) {
      s << ",\"k\":\"fn\",\"ret\":" << type(fp->getReturnType());
    } else if (auto* mp = u->getAs<MemberPointerType>()) {
      s << ",\"k\":\"mptr\",\"to\":" << type(mp->getPointeeType());
    } else {
      s << ",\"k\":\"other\"";
    }
    s << "}";
    types[id] = s.str();
    return id;
  }
  void targ(llvm::raw_ostream& s, const TemplateArgument& a, bool& first) {
    if (a.getKind() == TemplateArgument::Pack) {
      for (auto& p : a.pack_elements()) targ(s, p, first);
      return;
    }
    if (!first) s << ",";
    first = false;
    if (a.getKind() == TemplateArgument::Type)
      s << type(a.getAsType());
    else if (a.getKind() == TemplateArgument::Integral) {
      llvm::SmallString<32> t;
      a.getAsIntegral().toString(t);
      s << "{\"v\":" << t << ",\"t\":" << type(a.getIntegralType()) << "}";
    } else {
      std::string t;
      llvm::raw_string_ostream ts(t);
      a.print(pp, ts, true);
      s << "{\"x\":" << esc(ts.str()) << "}";
    }
  }

  // --- ids -----------------------------------------------------------------------------------
  std::map<const CXXRecordDecl*, std::string> lamIds;
  std::string lambdaId(const CXXRecordDecl* r) {
    auto it = lamIds.find(r);
    if (it != lamIds.end()) return it->second;
    // the place, and the enclosing function: instantiations of one lambda are different lambdas
    auto id = "lambda@" + relFile(r->getBeginLoc()) + ":" + std::to_string(line(r->getBeginLoc())) +
              ":" + std::to_string(col(r->getBeginLoc()));
    lamIds[r] = id; // for a cycle through the enclosing signature
    const DeclContext* dc = r->getDeclContext();
    while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
    if (dc) {
      size_t h = 1469598103934665603ull;
      for (unsigned char c : fnId(cast<FunctionDecl>(dc))) h = (h ^ c) * 1099511628211ull;
      char b[24];
      snprintf(b, sizeof b, "#%016zx", h);
      id += b;
    }
    return lamIds[r] = id;
  }
  std::string usr(const Decl* d) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  std::string qname(const NamedDecl* d) {
    std::string r;
    llvm::raw_string_ostream s(r);
    d->printQualifiedName(s, pp);
    return s.str();
  }
  // unique id of a function: printable name, parameter types, template arguments, place
  std::map<const FunctionDecl*, std::string> fnIds;
  std::string fnId(const FunctionDecl* f) {
    if (!f) return "";
    // the id is that of the canonical (first) declaration, so that declaration and definition agree
    f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    std::string r;
    llvm::raw_string_ostream s(r);
    if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) {
      s << lambdaId(m->getParent()) << "::" << f->getNameAsString();
      if (auto* a = f->getTemplateSpecializationArgs()) {
        s << "<";
        for (auto& x : a->asArray()) {
          x.print(pp, s, true);
          s << ",";
        }
        s << ">";
      }
    } else
      f->getNameForDiagnostic(s, pp, true);
    s << "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) s << ",";
      s << f->getParamDecl(i)->getType().getCanonicalType().getAsString(pp);
    }
    s << ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) s << "const";
      if (m->getRefQualifier() == RQ_RValue) s << "&&";
    }
    if (inRoot(f->getLocation())) {
      bool lam = false;
      if (auto* m = dyn_cast<CXXMethodDecl>(f)) lam = m->getParent()->isLambda();
      if (lam || f->isInAnonymousNamespace() || !f->isExternallyVisible())
        s << "@" << relFile(f->getLocation()) << ":" << line(f->getLocation()) << ":"
          << col(f->getLocation());
    }
    return fnIds[f] = s.str();
  }
  std::map<const VarDecl*, std::string> varIds;
  std::map<std::string, int> varSeen;
  std::string varId(const VarDecl* v) {
    v = v->getCanonicalDecl();
    auto it = varIds.find(v);
    if (it != varIds.end()) return it->second;
    std::string r;
    llvm::raw_string_ostream s(r);
    v->getNameForDiagnostic(s, pp, true);
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !v->isExternallyVisible())
      s << "@" << relFile(v->getLocation()) << ":" << line(v->getLocation()) << ":"
        << col(v->getLocation());
    if (v->isLocalVarDeclOrParm()) {
      const DeclContext* dc = v->getDeclContext();
      while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
      if (dc) {
        size_t h = 1469598103934665603ull;
        for (unsigned char c : fnId(cast<FunctionDecl>(dc))) h = (h ^ c) * 1099511628211ull;
        char b[24];
        snprintf(b, sizeof b, "~%08zx", h & 0xffffffff);
        s << b;
      }
    }
    auto id = s.str();
    // distinct declarations at one place (template instantiations, implicit variables)
    int n = varSeen[id]++;
    if (n && !(v->hasGlobalStorage() && !v->isStaticLocal())) id += "#" + std::to_string(n);
    return varIds[v] = id;
  }

  // --- APValue --------------------------------------------------------------------------------
  void apvalue(llvm::raw_ostream& s, const APValue& v, QualType t, int depth = 0) {
    if (depth > 12) {
      s << "null";
      return;
    }
    switch (v.getKind()) {
    case APValue::Int: {
      llvm::SmallString<32> b;
      v.getInt().toString(b);
      s << b;
      return;
    }
    case APValue::Array: {
      s << "[";
      unsigned n = v.getArraySize(), k = v.getArrayInitializedElts();
      auto* at = ctx.getAsArrayType(t);
      QualType et = at ? at->getElementType() : QualType();
      for (unsigned i = 0; i < n; ++i) {
        if (i) s << ",";
        if (i < k)
          apvalue(s, v.getArrayInitializedElt(i), et, depth + 1);
        else if (v.hasArrayFiller())
          apvalue(s, v.getArrayFiller(), et, depth + 1);
        else
          s << "null";
      }
      s << "]";
      return;
    }
    case APValue::Struct: {
      auto* rd = t.isNull() ? nullptr : t->getAsCXXRecordDecl();
      s << "{";
      bool first = true;
      for (unsigned i = 0; i < v.getStructNumBases(); ++i) {
        if (!first) s << ",";
        first = false;
        s << "\"~" << i << "\":";
        QualType bt;
        if (rd) {
          unsigned k = 0;
          for (auto& b : rd->bases())
            if (k++ == i) bt = b.getType();
        }
        apvalue(s, v.getStructBase(i), bt, depth + 1);
      }
      unsigned i = 0;
      if (rd)
        for (auto* f : rd->fields()) {
          if (i >= v.getStructNumFields()) break;
          if (!first) s << ",";
          first = false;
          jstr(s, f->getNameAsString());
          s << ":";
          apvalue(s, v.getStructField(i++), f->getType(), depth + 1);
        }
      s << "}";
      return;
    }
    case APValue::LValue: {
      auto base = v.getLValueBase();
      if (base.isNull()) {
        s << "{\"null\":1}";
        return;
      }
      if (auto* e = base.dyn_cast<const Expr*>()) {
        if (auto* sl = dyn_cast<StringLiteral>(e)) {
          s << "{\"str\":";
          strlit(s, sl);
          s << "}";
          return;
        }
      } else if (auto* d = base.dyn_cast<const ValueDecl*>()) {
        s << "{\"addr\":";
        if (auto* vd = dyn_cast<VarDecl>(d))
          jstr(s, varId(vd));
        else if (auto* fd = dyn_cast<FunctionDecl>(d))
          jstr(s, fnId(fd));
        else
          jstr(s, qname(d));
        s << "}";
        return;
      }
      s << "{\"lv\":1}";
      return;
    }
    case APValue::MemberPointer: {
      s << "{\"mptr\":";
      auto* d = v.getMemberPointerDecl();
      if (auto* fd = dyn_cast_or_null<FunctionDecl>(d))
        jstr(s, fnId(fd));
      else
        jstr(s, d ? qname(d) : "");
      s << "}";
      return;
    }
    case APValue::Float:
      s << "{\"float\":" << v.getFloat().convertToDouble() << "}";
      return;
    default: s << "null"; return;
    }
  }
  void strlit(llvm::raw_ostream& s, const StringLiteral* sl) {
    if (sl->getCharByteWidth() == 1)
      jstr(s, sl->getBytes());
    else {
      s << "[";
      for (unsigned i = 0; i < sl->getLength(); ++i) {
        if (i) s << ",";
        s << sl->getCodeUnit(i);
      }
      s << "]";
    }
  }

  // --- statements ------------------------------------------------------------------------------
  struct Fn {
    std::map<const Stmt*, int> ids;
    int next = 0;
  };
  Fn* cur = nullptr;

  static const Stmt* strip(const Stmt* s) {
    while (s) {
      if (auto* e = dyn_cast<ParenExpr>(s))
        s = e->getSubExpr();
      else if (auto* e = dyn_cast<FullExpr>(s))
        s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
        s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
        s = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
        s = e->getReplacement();
      else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
        s = e->getExpr();
      else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s))
        s = e->getExpr();
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s))
        s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s))
        s = e->getSemanticForm();
      else if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
        switch (e->getCastKind()) {
        case CK_NoOp:
        case CK_LValueToRValue:
        case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr: s = e->getSubExpr(); continue;
        default: return s;
        }
      } else if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s)) {
        if (e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_NoOp)
          s = e->getSubExpr();
        else
          return s;
      } else if (auto* e = dyn_cast<CXXStaticCastExpr>(s)) {
        if (e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_NoOp)
          s = e->getSubExpr();
        else
          return s;
      } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
        // elided or trivial copies of temporaries
        if (e->isElidable() && e->getNumArgs() == 1)
          s = e->getArg(0);
        else
          return s;
      } else
        return s;
    }
    return s;
  }

  void kids(llvm::raw_ostream& s, llvm::ArrayRef<const Stmt*> c) {
    s << ",\"c\":[";
    bool first = true;
    for (auto* x : c) {
      if (!first) s << ",";
      first = false;
      stmt(s, x);
    }
    s << "]";
  }
  void callee(llvm::raw_ostream& s, const FunctionDecl* f) {
    s << ",\"f\":" << esc(fnId(f)) << ",\"fq\":" << esc(f->getQualifiedNameAsString());
    if (inRoot(f->getLocation())) s << ",\"own\":1";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) s << ",\"virt\":1";
      if (m->isConst()) s << ",\"cm\":1";
      if (m->isStatic()) s << ",\"sm\":1";
    }
    // parameter types are needed for effects of calls out of the root
    if (!inRoot(f->getLocation())) {
      s << ",\"pt\":[";
      for (unsigned i = 0; i < f->getNumParams(); ++i)
        s << (i ? "," : "") << type(f->getParamDecl(i)->getType());
      s << "]";
      if (auto* fp = f->getType()->getAs<FunctionProtoType>())
        if (fp->canThrow() == CT_Cannot) s << ",\"nx\":1";
    }
  }
  void constant(llvm::raw_ostream& s, const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    auto t = e->getType();
    if (!(t->isIntegralOrEnumerationType() || t->isBooleanType())) return;
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, ctx) && r.Val.isInt() && !r.HasSideEffects) {
      llvm::SmallString<32> b;
      r.Val.getInt().toString(b);
      s << ",\"v\":" << b;
    }
  }

  void stmt(llvm::raw_ostream& s, const Stmt* st) {
    const Stmt* orig = st;
    st = strip(st);
    if (!st) {
      s << "null";
      return;
    }
    int id;
    auto it = cur->ids.find(st);
    if (it != cur->ids.end()) {
      // shared subtree (e.g. default argument used twice): refer to it again in full
      id = it->second;
    } else {
      id = cur->next++;
      cur->ids[st] = id;
    }
    // every wrapper maps to the same node
    for (const Stmt* w = orig; w && w != st;) {
      cur->ids[w] = id;
      const Stmt* n = nullptr;
      for (auto* c : w->children())
        if (c) {
          n = c;
          break;
        }
      if (auto* d = dyn_cast<CXXDefaultArgExpr>(w)) n = d->getExpr();
      if (auto* d = dyn_cast<CXXDefaultInitExpr>(w)) n = d->getExpr();
      if (auto* d = dyn_cast<CXXRewrittenBinaryOperator>(w)) n = d->getSemanticForm();
      if (auto* d = dyn_cast<CXXConstructExpr>(w)) n = d->getArg(0);
      w = n;
    }
    s << "{\"k\":\"" << st->getStmtClassName() << "\",\"i\":" << id;
    for (const Stmt* w = orig; w && w != st;) {
      if (isa<CXXDefaultArgExpr>(w)) { s << ",\"da\":1"; break; }
      const Stmt* n = nullptr;
      for (auto* c : w->children())
        if (c) { n = c; break; }
      if (auto* d = dyn_cast<CXXDefaultInitExpr>(w)) n = d->getExpr();
      if (auto* d = dyn_cast<CXXRewrittenBinaryOperator>(w)) n = d->getSemanticForm();
      w = n;
    }
    if (auto l = st->getBeginLoc(); l.isValid()) {
      auto* e0 = dyn_cast<Expr>(st);
      auto ll = e0 ? e0->getExprLoc() : l;
      s << ",\"l\":" << line(ll);
      if (sm.isMacroBodyExpansion(l)) {
        s << ",\"mac\":"
          << esc(Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts()));
      }
    }
    if (auto* e = dyn_cast<Expr>(st)) {
      s << ",\"t\":" << type(e->getType());
      if (e->isLValue()) s << ",\"lv\":1";
      if (!isa<InitListExpr>(e)) constant(s, e);
    }
    node(s, st);
    s << "}";
  }

  void var(llvm::raw_ostream& s, const VarDecl* v, bool withInit = true) {
    s << "{\"var\":" << esc(varId(v)) << ",\"n\":" << esc(v->getNameAsString())
      << ",\"t\":" << type(v->getType());
    if (v->isStaticLocal()) s << ",\"static\":1";
    if (v->isConstexpr()) s << ",\"constexpr\":1";
    if (v->isImplicit()) s << ",\"impl\":1";
    if (withInit && v->hasInit() && !v->isStaticLocal()) {
      s << ",\"init\":";
      stmt(s, v->getInit());
    } else if (withInit && v->hasInit()) {
      s << ",\"sinit\":";
      stmt(s, v->getInit());
    }
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      s << ",\"bind\":[";
      bool first = true;
      for (auto* b : d->bindings()) {
        if (!first) s << ",";
        first = false;
        s << "{\"n\":" << esc(b->getNameAsString()) << ",\"id\":" << esc(bindId(b))
          << ",\"t\":" << type(b->getType()) << ",\"e\":";
        if (b->getHoldingVar()) {
          s << "{\"k\":\"Hold\",\"i\":" << cur->next++ << ",\"var\":" << esc(varId(b->getHoldingVar()))
            << ",\"c\":[";
          if (b->getHoldingVar()->hasInit()) stmt(s, b->getHoldingVar()->getInit());
          s << "]}";
        } else
          stmt(s, b->getBinding());
        s << "}";
      }
      s << "]";
    }
    s << "}";
  }
  std::string bindId(const BindingDecl* b) {
    return b->getNameAsString() + "@" + relFile(b->getLocation()) + ":" +
           std::to_string(line(b->getLocation())) + ":" + std::to_string(col(b->getLocation()));
  }

  void node(llvm::raw_ostream& s, const Stmt* st) {
    if (auto* e = dyn_cast<DeclRefExpr>(st)) {
      auto* d = e->getDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        s << ",\"var\":" << esc(varId(v)) << ",\"n\":" << esc(v->getNameAsString());
        if (v->hasGlobalStorage()) s << ",\"g\":1";
        if (isa<ParmVarDecl>(v)) s << ",\"p\":1";
        if (e->refersToEnclosingVariableOrCapture()) s << ",\"cap\":1";
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        s << ",\"fn\":1";
        callee(s, f);
      } else if (auto* c = dyn_cast<EnumConstantDecl>(d)) {
        s << ",\"ec\":" << esc(c->getQualifiedNameAsString());
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        s << ",\"bind\":" << esc(bindId(b)) << ",\"n\":" << esc(b->getNameAsString());
      } else
        s << ",\"n\":" << esc(d->getNameAsString());
      return;
    }
    if (auto* e = dyn_cast<MemberExpr>(st)) {
      auto* d = e->getMemberDecl();
      s << ",\"m\":" << esc(d->getNameAsString());
      if (e->isArrow()) s << ",\"arrow\":1";
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        s << ",\"field\":" << esc(f->getParent()->getQualifiedNameAsString() + "::" +
                                  f->getNameAsString());
        if (f->isMutable()) s << ",\"mut\":1";
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        s << ",\"var\":" << esc(varId(v)) << ",\"g\":1";
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        s << ",\"fn\":1";
        callee(s, f);
      } else if (auto* c = dyn_cast<EnumConstantDecl>(d))
        s << ",\"ec\":" << esc(c->getQualifiedNameAsString());
      kids(s, {e->getBase()});
      return;
    }
    if (auto* e = dyn_cast<IntegerLiteral>(st)) return;
    if (auto* e = dyn_cast<StringLiteral>(st)) {
      s << ",\"s\":";
      strlit(s, e);
      return;
    }
    if (auto* e = dyn_cast<UnaryOperator>(st)) {
      s << ",\"op\":\"" << UnaryOperator::getOpcodeStr(e->getOpcode()) << "\"";
      if (e->isPostfix()) s << ",\"post\":1";
      kids(s, {e->getSubExpr()});
      return;
    }
    if (auto* e = dyn_cast<BinaryOperator>(st)) {
      s << ",\"op\":\"" << e->getOpcodeStr() << "\"";
      if (auto* ca = dyn_cast<CompoundAssignOperator>(st))
        s << ",\"ct\":" << type(ca->getComputationResultType());
      kids(s, {e->getLHS(), e->getRHS()});
      return;
    }
    if (auto* e = dyn_cast<CastExpr>(st)) {
      s << ",\"ck\":\"" << e->getCastKindName() << "\"";
      if (isa<ExplicitCastExpr>(e)) s << ",\"ex\":1";
      kids(s, {e->getSubExpr()});
      return;
    }
    if (auto* e = dyn_cast<CallExpr>(st)) {
      // children: [callee-object or callee expr or null, args...]
      std::vector<const Stmt*> c;
      const FunctionDecl* f = e->getDirectCallee();
      if (auto* m = dyn_cast<CXXMemberCallExpr>(st)) {
        if (f) {
          callee(s, f);
          if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
            if (me->hasQualifier()) s << ",\"qual\":1";
          c.push_back(m->getImplicitObjectArgument());
        } else {
          s << ",\"mptrcall\":1";
          c.push_back(e->getCallee());
        }
        if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
          if (me->isArrow()) s << ",\"arrow\":1";
        for (auto* a : e->arguments()) c.push_back(a);
      } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(st)) {
        s << ",\"oper\":" << esc(getOperatorSpelling(oc->getOperator()));
        if (f) callee(s, f);
        bool mem = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
        if (mem) s << ",\"memop\":1";
        if (!mem) c.push_back(nullptr);
        for (auto* a : e->arguments()) c.push_back(a);
      } else {
        if (f) {
          callee(s, f);
          c.push_back(nullptr);
        } else {
          s << ",\"indirect\":1";
          c.push_back(e->getCallee());
        }
        for (auto* a : e->arguments()) c.push_back(a);
      }
      kids(s, c);
      return;
    }
    if (auto* e = dyn_cast<CXXConstructExpr>(st)) {
      callee(s, e->getConstructor());
      s << ",\"ctor\":1";
      if (e->isListInitialization()) s << ",\"list\":1";
      if (e->getConstructor()->isCopyOrMoveConstructor()) s << ",\"copy\":1";
      std::vector<const Stmt*> c{nullptr};
      for (auto* a : e->arguments()) c.push_back(a);
      kids(s, c);
      return;
    }
    if (auto* e = dyn_cast<InitListExpr>(st)) {
      if (!e->isSemanticForm() && e->getSemanticForm()) e = e->getSemanticForm();
      std::vector<const Stmt*> c;
      for (auto* i : e->inits()) c.push_back(i);
      // aggregate: name the fields
      if (auto* rd = e->getType()->getAsCXXRecordDecl()) {
        s << ",\"fields\":[";
        bool first = true;
        for (auto& b : rd->bases()) {
          (void)b;
          if (!first) s << ",";
          first = false;
          s << "\"~base\"";
        }
        for (auto* f : rd->fields()) {
          if (!first) s << ",";
          first = false;
          jstr(s, f->getNameAsString());
        }
        s << "]";
      }
      kids(s, c);
      return;
    }
    if (auto* e = dyn_cast<LambdaExpr>(st)) {
      s << ",\"lam\":" << esc(lambdaId(e->getLambdaClass()));
      s << ",\"op\":" << esc(fnId(e->getCallOperator()));
      s << ",\"caps\":[";
      bool first = true;
      auto in = e->capture_init_begin();
      for (auto& c : e->captures()) {
        if (!first) s << ",";
        first = false;
        s << "{";
        if (c.capturesThis())
          s << "\"this\":1,\"ref\":" << (c.getCaptureKind() == LCK_This ? 1 : 0);
        else if (c.capturesVariable()) {
          auto* vd = c.getCapturedVar();
          if (auto* v = dyn_cast<VarDecl>(vd)) {
            s << "\"var\":" << esc(varId(v));
            if (v->isInitCapture()) s << ",\"ic\":1";
          } else if (auto* b = dyn_cast<BindingDecl>(vd))
            s << "\"bind\":" << esc(bindId(b));
          s << ",\"n\":" << esc(vd->getNameAsString())
            << ",\"ref\":" << (c.getCaptureKind() == LCK_ByRef ? 1 : 0)
            << ",\"t\":" << type(vd->getType());
        }
        if (*in) {
          s << ",\"init\":";
          stmt(s, *in);
        }
        ++in;
        s << "}";
      }
      s << "]";
      return;
    }
    if (auto* e = dyn_cast<CXXThrowExpr>(st)) {
      if (e->getSubExpr()) {
        s << ",\"tt\":" << type(e->getSubExpr()->getType());
        kids(s, {e->getSubExpr()});
      } else
        s << ",\"rethrow\":1";
      return;
    }
    if (auto* d = dyn_cast<DeclStmt>(st)) {
      s << ",\"d\":[";
      bool first = true;
      for (auto* x : d->decls()) {
        if (auto* v = dyn_cast<VarDecl>(x)) {
          if (!first) s << ",";
          first = false;
          var(s, v);
        }
      }
      s << "]";
      return;
    }
    if (auto* e = dyn_cast<CXXTryStmt>(st)) {
      s << ",\"body\":";
      stmt(s, e->getTryBlock());
      s << ",\"h\":[";
      for (unsigned i = 0; i < e->getNumHandlers(); ++i) {
        if (i) s << ",";
        auto* h = e->getHandler(i);
        cur->ids[h] = cur->next++;
        s << "{\"i\":" << cur->ids[h] << ",\"l\":" << line(h->getBeginLoc()) << ",\"t\":";
        if (h->getCaughtType().isNull())
          s << "null";
        else
          s << type(h->getCaughtType());
        if (h->getExceptionDecl())
          s << ",\"var\":" << esc(varId(h->getExceptionDecl()));
        s << ",\"body\":";
        stmt(s, h->getHandlerBlock());
        s << "}";
      }
      s << "]";
      return;
    }
    if (auto* e = dyn_cast<CXXForRangeStmt>(st)) {
      s << ",\"init\":";
      stmt(s, e->getInit());
      s << ",\"range\":";
      stmt(s, e->getRangeStmt());
      s << ",\"begin\":";
      stmt(s, e->getBeginStmt());
      s << ",\"end\":";
      stmt(s, e->getEndStmt());
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"inc\":";
      stmt(s, e->getInc());
      s << ",\"lvar\":";
      stmt(s, e->getLoopVarStmt());
      s << ",\"body\":";
      stmt(s, e->getBody());
      return;
    }
    if (auto* e = dyn_cast<IfStmt>(st)) {
      s << ",\"init\":";
      stmt(s, e->getInit());
      s << ",\"cvar\":";
      stmt(s, e->getConditionVariableDeclStmt());
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"then\":";
      stmt(s, e->getThen());
      s << ",\"else\":";
      stmt(s, e->getElse());
      if (e->isConstexpr()) s << ",\"cx\":1";
      return;
    }
    if (auto* e = dyn_cast<ForStmt>(st)) {
      s << ",\"init\":";
      stmt(s, e->getInit());
      s << ",\"cvar\":";
      stmt(s, e->getConditionVariableDeclStmt());
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"inc\":";
      stmt(s, e->getInc());
      s << ",\"body\":";
      stmt(s, e->getBody());
      return;
    }
    if (auto* e = dyn_cast<WhileStmt>(st)) {
      s << ",\"cvar\":";
      stmt(s, e->getConditionVariableDeclStmt());
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"body\":";
      stmt(s, e->getBody());
      return;
    }
    if (auto* e = dyn_cast<DoStmt>(st)) {
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"body\":";
      stmt(s, e->getBody());
      return;
    }
    if (auto* e = dyn_cast<SwitchStmt>(st)) {
      s << ",\"init\":";
      stmt(s, e->getInit());
      s << ",\"cvar\":";
      stmt(s, e->getConditionVariableDeclStmt());
      s << ",\"cond\":";
      stmt(s, e->getCond());
      s << ",\"body\":";
      stmt(s, e->getBody());
      return;
    }
    if (auto* e = dyn_cast<CaseStmt>(st)) {
      Expr::EvalResult r;
      if (e->getLHS()->EvaluateAsRValue(r, ctx) && r.Val.isInt()) {
        llvm::SmallString<32> b;
        r.Val.getInt().toString(b);
        s << ",\"val\":" << b;
      }
      kids(s, {e->getSubStmt()});
      return;
    }
    if (auto* e = dyn_cast<DefaultStmt>(st)) {
      kids(s, {e->getSubStmt()});
      return;
    }
    if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(st)) return;
    if (auto* e = dyn_cast<CXXNewExpr>(st)) {
      std::vector<const Stmt*> c;
      if (e->getArraySize()) c.push_back(*e->getArraySize());
      if (e->getInitializer()) c.push_back(e->getInitializer());
      kids(s, c);
      return;
    }
    if (auto* e = dyn_cast<CXXTypeidExpr>(st)) return;
    if (auto* e = dyn_cast<OpaqueValueExpr>(st)) {
      if (e->getSourceExpr()) kids(s, {e->getSourceExpr()});
      return;
    }
    std::vector<const Stmt*> c;
    for (auto* x : st->children()) c.push_back(x);
    if (!c.empty()) kids(s, c);
  }

  // --- CFG ---------------------------------------------------------------------------------------
  void cfg(llvm::raw_ostream& s, const FunctionDecl* f) {
    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = false;
    bo.AddInitializers = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddEHEdges = false;
    bo.PruneTriviallyFalseEdges = true;
    auto g = CFG::buildCFG(f, f->getBody(), &ctx, bo);
    if (!g) {
      s << "null";
      return;
    }
    // nodes that are only in the CFG (synthesised declaration statements)
    std::string extra;
    llvm::raw_string_ostream xs(extra);
    bool firstX = true;
    auto idOf = [&](const Stmt* st) -> int {
      auto it = cur->ids.find(st);
      if (it != cur->ids.end()) return it->second;
      auto* t = strip(st);
      it = cur->ids.find(t);
      if (it != cur->ids.end()) {
        cur->ids[st] = it->second;
        return it->second;
      }
      if (!firstX) xs << ",";
      firstX = false;
      stmt(xs, st);
      return cur->ids[strip(st)];
    };
    std::string body;
    llvm::raw_string_ostream b(body);
    b << "[";
    bool fb = true;
    for (auto* blk : *g) {
      if (!fb) b << ",";
      fb = false;
      b << "{\"b\":" << blk->getBlockID() << ",\"e\":[";
      bool fe = true;
      int last = -1;
      for (auto& el : *blk) {
        if (auto cs = el.getAs<CFGStmt>()) {
          int i = idOf(cs->getStmt());
          if (i == last) continue;
          last = i;
          if (!fe) b << ",";
          fe = false;
          b << i;
        } else if (auto d = el.getAs<CFGAutomaticObjDtor>()) {
          last = -1;
          if (!fe) b << ",";
          fe = false;
          b << "{\"dtor\":" << esc(varId(d->getVarDecl()));
          if (auto* dd = d->getDestructorDecl(ctx)) b << ",\"f\":" << esc(fnId(dd));
          b << "}";
        } else if (auto in = el.getAs<CFGInitializer>()) {
          last = -1;
          auto* ini = in->getInitializer();
          if (!fe) b << ",";
          fe = false;
          b << "{\"init\":";
          if (ini->isAnyMemberInitializer())
            jstr(b, ini->getAnyMember()->getNameAsString());
          else
            jstr(b, "~base");
          b << ",\"e\":" << (ini->getInit() ? idOf(ini->getInit()) : -1) << "}";
        }
      }
      b << "]";
      if (auto* t = blk->getTerminatorStmt()) {
        b << ",\"t\":" << idOf(t);
        if (auto* c = blk->getTerminatorCondition())
          b << ",\"c\":" << idOf(c);
      }
      if (auto* l = blk->getLabel()) {
        if (auto* c = dyn_cast<CaseStmt>(l)) {
          Expr::EvalResult r;
          if (c->getLHS()->EvaluateAsRValue(r, ctx) && r.Val.isInt()) {
            llvm::SmallString<32> t;
            r.Val.getInt().toString(t);
            b << ",\"case\":" << t;
          }
        } else if (isa<DefaultStmt>(l))
          b << ",\"default\":1";
        else if (auto* h = dyn_cast<CXXCatchStmt>(l))
          b << ",\"catch\":" << idOf(h);
      }
      if (blk->hasNoReturnElement()) b << ",\"noret\":1";
      b << ",\"s\":[";
      bool fs = true;
      for (auto& suc : blk->succs()) {
        if (!fs) b << ",";
        fs = false;
        if (suc.isReachable())
          b << suc.getReachableBlock()->getBlockID();
        else
          b << "null";
      }
      b << "]}";
    }
    b << "]";
    s << "{\"entry\":" << g->getEntry().getBlockID() << ",\"exit\":" << g->getExit().getBlockID()
      << ",\"x\":[" << xs.str() << "],\"bl\":" << b.str() << "}";
  }

  // --- functions -----------------------------------------------------------------------------------
  std::set<std::string> done;
  std::vector<std::string> outFns, outDecls;

  static const char* acc(AccessSpecifier a) {
    switch (a) {
    case AS_public: return "public";
    case AS_protected: return "protected";
    case AS_private: return "private";
    default: return "";
    }
  }

  void head(llvm::raw_ostream& s, const FunctionDecl* f) {
    auto loc = f->getLocation();
    s << "\"id\":" << esc(fnId(f)) << ",\"q\":" << esc(f->getQualifiedNameAsString())
      << ",\"n\":" << esc(f->getNameAsString()) << ",\"file\":" << esc(relFile(loc))
      << ",\"l\":" << line(loc) << ",\"ret\":" << type(f->getReturnType());
    if (auto* fp = f->getType()->getAs<FunctionProtoType>()) {
      auto est = fp->getExceptionSpecType();
      if (est != EST_Unevaluated && est != EST_Uninstantiated && fp->canThrow() == CT_Cannot)
        s << ",\"nx\":1";
    }
    if (f->isDefaulted()) s << ",\"defaulted\":1";
    if (f->isDeleted()) s << ",\"deleted\":1";
    if (auto sm = dyn_cast<CXXMethodDecl>(f); sm ? sm->isStatic() : f->isStatic()) s << ",\"static\":1";
    if (f->isInAnonymousNamespace()) s << ",\"anon\":1";
    if (f->isImplicit()) s << ",\"implicit\":1";
    if (f->isConstexpr()) s << ",\"constexpr\":1";
    if (f->isConsteval()) s << ",\"consteval\":1";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      s << ",\"cls\":" << esc(m->getParent()->getQualifiedNameAsString())
        << ",\"clst\":" << type(ctx.getRecordType(m->getParent()));
      s << ",\"acc\":\"" << acc(m->getAccess()) << "\"";
      if (m->isConst()) s << ",\"const\":1";
      if (m->isVirtual()) s << ",\"virt\":1";
      if (m->isPureVirtual()) s << ",\"pure\":1";
      if (m->isInstance()) s << ",\"inst\":1";
      if (m->getParent()->isLambda()) {
        s << ",\"lambda\":" << esc(lambdaId(m->getParent()));
        const DeclContext* dc = m->getParent()->getDeclContext();
        while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
        if (dc) s << ",\"in\":" << esc(fnId(cast<FunctionDecl>(dc)));
      }
      if (m->size_overridden_methods()) {
        s << ",\"over\":[";
        bool first = true;
        for (auto* b : m->overridden_methods()) {
          if (!first) s << ",";
          first = false;
          s << esc(fnId(b));
        }
        s << "]";
      }
      if (isa<CXXConstructorDecl>(m)) {
        s << ",\"kind\":\"ctor\"";
        auto* c = cast<CXXConstructorDecl>(m);
        if (c->isCopyOrMoveConstructor()) s << ",\"copy\":1";
      } else if (isa<CXXDestructorDecl>(m))
        s << ",\"kind\":\"dtor\"";
      else if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())
        s << ",\"kind\":\"assign\"";
      else
        s << ",\"kind\":\"method\"";
    } else
      s << ",\"kind\":\"function\"";
    if (f->isOverloadedOperator())
      s << ",\"oper\":" << esc(getOperatorSpelling(f->getOverloadedOperator()));
    if (auto* a = f->getTemplateSpecializationArgs()) {
      s << ",\"ta\":[";
      bool first = true;
      for (auto& x : a->asArray()) targ(s, x, first);
      s << "]";
    }
    s << ",\"params\":[";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) s << ",";
      auto* p = f->getParamDecl(i);
      s << "{\"var\":" << esc(varId(p)) << ",\"n\":" << esc(p->getNameAsString())
        << ",\"t\":" << type(p->getType());
      if (p->hasDefaultArg()) s << ",\"def\":1";
      s << "}";
    }
    s << "]";
  }

  void function(const FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted() && f->isThisDeclarationADefinition())) {
      // declaration only (pure virtual, deleted, implicit...)
      return;
    }
    if (f->isDependentContext()) return;
    if (!inRoot(f->getLocation())) return;
    auto id = fnId(f);
    if (!done.insert(id).second) return;
    // parameter ids must be those of the definition
    std::string r;
    llvm::raw_string_ostream s(r);
    Fn fn;
    auto* save = cur;
    cur = &fn;
    s << "{";
    head(s, f);
    s << ",\"el\":" << line(f->getEndLoc());
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      s << ",\"inits\":[";
      bool first = true;
      for (auto* i : c->inits()) {
        if (!first) s << ",";
        first = false;
        s << "{";
        if (i->isAnyMemberInitializer())
          s << "\"m\":" << esc(i->getAnyMember()->getNameAsString())
            << ",\"mt\":" << type(i->getAnyMember()->getType());
        else if (i->isBaseInitializer())
          s << "\"b\":" << type(QualType(i->getBaseClass(), 0));
        else
          s << "\"del\":1";
        if (i->isWritten()) s << ",\"w\":1";
        s << ",\"e\":";
        stmt(s, i->getInit());
        s << "}";
      }
      s << "]";
    }
    s << ",\"body\":";
    if (f->getBody())
      stmt(s, f->getBody());
    else
      s << "null";
    if (f->getBody()) {
      s << ",\"cfg\":";
      cfg(s, f);
    }
    s << "}";
    cur = save;
    outFns.push_back(s.str());
  }

  void record(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    if (!inRoot(r->getLocation())) return;
    std::string out;
    llvm::raw_string_ostream s(out);
    s << "{\"rec\":" << esc(r->getQualifiedNameAsString())
      << ",\"t\":" << type(ctx.getRecordType(r)) << ",\"file\":" << esc(relFile(r->getLocation()))
      << ",\"l\":" << line(r->getLocation());
    if (r->isAbstract()) s << ",\"abstract\":1";
    if (r->isPolymorphic()) s << ",\"poly\":1";
    if (r->getAccess() != AS_none) s << ",\"acc\":\"" << acc(r->getAccess()) << "\"";
    s << ",\"bases\":[";
    bool first = true;
    for (auto& b : r->bases()) {
      if (!first) s << ",";
      first = false;
      s << type(b.getType());
    }
    s << "],\"fields\":[";
    first = true;
    for (auto* f : r->fields()) {
      if (!first) s << ",";
      first = false;
      s << "{\"n\":" << esc(f->getNameAsString()) << ",\"t\":" << type(f->getType())
        << ",\"acc\":\"" << acc(f->getAccess()) << "\",\"l\":" << line(f->getLocation());
      if (f->isMutable()) s << ",\"mut\":1";
      s << "}";
    }
    s << "],\"methods\":[";
    first = true;
    for (auto* d : r->decls()) {
      const FunctionDecl* m = dyn_cast<CXXMethodDecl>(d);
      if (!m) continue;
      if (!first) s << ",";
      first = false;
      s << "{";
      head(s, m);
      s << "}";
    }
    s << "],\"friends\":" << (r->hasFriends() ? 1 : 0) << "}";
    outDecls.push_back(s.str());
  }
  void enumeration(const EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation())) return;
    if (e->isDependentContext()) return;
    std::string out;
    llvm::raw_string_ostream s(out);
    s << "{\"enum\":" << esc(e->getQualifiedNameAsString()) << ",\"t\":" << type(ctx.getEnumType(e))
      << ",\"file\":" << esc(relFile(e->getLocation())) << ",\"l\":" << line(e->getLocation())
      << ",\"vals\":[";
    bool first = true;
    for (auto* c : e->enumerators()) {
      if (!first) s << ",";
      first = false;
      llvm::SmallString<32> b;
      c->getInitVal().toString(b);
      s << "[" << esc(c->getNameAsString()) << "," << b << "]";
    }
    s << "]}";
    outDecls.push_back(s.str());
  }
  void globalVar(const VarDecl* v) {
    if (!v->hasGlobalStorage() || !inRoot(v->getLocation())) return;
    if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return;
    if (isa<ParmVarDecl>(v)) return;
    if (v->getDescribedVarTemplate() && !isa<VarTemplateSpecializationDecl>(v)) return;
    if (isa<VarTemplatePartialSpecializationDecl>(v)) return;
    const Expr* init = v->getAnyInitializer();
    if (init && (init->isValueDependent() || init->isTypeDependent())) return;
    bool isDef = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!isDef) return;
    std::string out;
    llvm::raw_string_ostream s(out);
    Fn fn;
    auto* save = cur;
    cur = &fn;
    s << "{\"gvar\":" << esc(varId(v)) << ",\"q\":" << esc(v->getQualifiedNameAsString())
      << ",\"t\":" << type(v->getType()) << ",\"file\":" << esc(relFile(v->getLocation()))
      << ",\"l\":" << line(v->getLocation());
    if (v->isStaticLocal()) {
      s << ",\"slocal\":1";
      const DeclContext* dc = v->getDeclContext();
      while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
      if (dc) s << ",\"in\":" << esc(fnId(cast<FunctionDecl>(dc)));
    }
    if (v->isStaticDataMember()) s << ",\"smember\":1,\"acc\":\"" << acc(v->getAccess()) << "\"";
    if (v->isConstexpr()) s << ",\"constexpr\":1";
    if (v->isInline()) s << ",\"inline\":1";
    if (auto k = v->getTemplateSpecializationKind(); k != TSK_Undeclared && k != TSK_ExplicitSpecialization)
      s << ",\"tmpl\":1";
    if (v->getTSCSpec() != TSCS_unspecified) s << ",\"tls\":1";
    if (v->isInAnonymousNamespace()) s << ",\"anon\":1";
    if (init) {
      bool ci = const_cast<VarDecl*>(v)->hasConstantInitialization();
      s << ",\"cinit\":" << (ci ? 1 : 0);
      if (const APValue* av = v->evaluateValue(); av && (ci || v->isConstexpr())) {
        s << ",\"val\":";
        apvalue(s, *av, v->getType());
      }
      s << ",\"init\":";
      stmt(s, init);
    }
    s << "}";
    cur = save;
    outDecls.push_back(s.str());
  }

  void write() {
    o << "{\"types\":[";
    // outFns/outDecls are complete, so no type is added any more
    for (size_t i = 0; i < types.size(); ++i) o << (i ? ",\n" : "") << types[i];
    o << "],\n\"fns\":[";
    for (size_t i = 0; i < outFns.size(); ++i) o << (i ? ",\n" : "") << outFns[i];
    o << "],\n\"decls\":[";
    for (size_t i = 0; i < outDecls.size(); ++i) o << (i ? ",\n" : "") << outDecls[i];
    o << "]}\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter& x;
  explicit Visitor(Exporter& e) : x(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    x.function(f);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* e) {
    if (auto* op = e->getCallOperator()) {
      x.function(op);
      if (auto* t = op->getDescribedFunctionTemplate())
        for (auto* sp : t->specializations()) x.function(sp);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    x.record(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    x.enumeration(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    x.globalVar(v);
    return true;
  }
  // do not descend into library declarations
  bool TraverseDecl(Decl* d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) &&
        !isa<LinkageSpecDecl>(d) && d->getLocation().isValid() && !x.inRoot(d->getLocation()))
      return true;
    return RecursiveASTVisitor::TraverseDecl(d);
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec;
    llvm::raw_fd_ostream out(outPath, ec);
    if (ec) {
      llvm::errs() << "cannot write " << outPath << "\n";
      exit(3);
    }
    Exporter x(c, out);
    Visitor v(x);
    v.TraverseDecl(c.getTranslationUnitDecl());
    x.write();
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  root = argv[1];
  outPath = argv[3];
  std::vector<std::string> args(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(root, args);
  tooling::ClangTool tool(db, {argv[2]});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
