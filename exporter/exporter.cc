// Exports the type-checked program of a translation unit as JSON: one resolved,
// instantiated syntax tree per function defined under the given roots.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

std::string hexd(const llvm::APFloat& f) {
  llvm::APFloat d = f;
  bool li;
  d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
  double v = d.convertToDouble();
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[64];
  snprintf(b, sizeof b, "%a", v);
  return b;
}
std::string istr(const llvm::APSInt& i) {
  llvm::SmallString<32> s;
  i.toString(s, 10);
  return std::string(s);
}

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()), mc(c.createMangleContext()) {
    pp.SuppressTagKeyword = true;
    pp.PrintCanonicalTypes = true;
    pp.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  std::unique_ptr<MangleContext> mc;
  json::Array types, fns, funcs, records, globals, files;
  std::map<const void*, int> typeIx, declIx;
  std::map<const FunctionDecl*, int> fnIx;
  std::map<std::string, int> fileIx;
  std::set<const FunctionDecl*> done;
  std::set<const RecordDecl*> recDone;
  std::set<const VarDecl*> globDone;

  bool inRepo(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    for (auto& r : g_roots)
      if (f.starts_with(r)) return true;
    return false;
  }
  // file*100000+line
  int64_t loc(SourceLocation l) {
    if (l.isInvalid()) return 0;
    l = sm.getExpansionLoc(l);
    std::string f = sm.getFilename(l).str();
    auto it = fileIx.find(f);
    int ix;
    if (it == fileIx.end()) {
      ix = fileIx.size();
      fileIx[f] = ix;
      files.push_back(f);
    } else
      ix = it->second;
    return int64_t(ix) * 100000 + sm.getExpansionLineNumber(l);
  }
  int did(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIx.find(d);
    if (it != declIx.end()) return it->second;
    int i = declIx.size() + 1;
    declIx[d] = i;
    return i;
  }
  std::string qn(const NamedDecl* d) {
    // qualified name without template arguments and inline namespaces
    std::string s;
    llvm::raw_string_ostream os(s);
    std::vector<std::string> parts;
    const DeclContext* dc = d->getDeclContext();
    std::string n;
    if (auto* fd = dyn_cast<FunctionDecl>(d)) {
      if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
        n = cd->getParent()->getNameAsString();
      else if (auto* dd = dyn_cast<CXXDestructorDecl>(fd))
        n = "~" + dd->getParent()->getNameAsString();
      else if (isa<CXXConversionDecl>(fd))
        n = "operator_conv";
      else
        n = fd->getDeclName().getAsString();
    } else
      n = d->getNameAsString();
    parts.push_back(n);
    while (dc) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) {
          if (ns->isAnonymousNamespace())
            parts.push_back("(anon)");
          else
            parts.push_back(ns->getNameAsString());
        }
      } else if (auto* rd = dyn_cast<RecordDecl>(dc)) {
        if (rd->isLambda())
          parts.push_back("(lambda)");
        else if (rd->getNameAsString().empty())
          parts.push_back("(anonrec)");
        else
          parts.push_back(rd->getNameAsString());
      } else if (auto* fd = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(fd->getNameAsString());
      } else if (auto* ed = dyn_cast<EnumDecl>(dc)) {
        parts.push_back(ed->getNameAsString());
      }
      dc = dc->getParent();
    }
    for (size_t i = parts.size(); i-- > 0;) {
      os << parts[i];
      if (i) os << "::";
    }
    return os.str();
  }
  int ty(QualType q) {
    if (q.isNull()) return -1;
    QualType c = q.getCanonicalType();
    auto it = typeIx.find(c.getAsOpaquePtr());
    if (it != typeIx.end()) return it->second;
    int ix = types.size();
    typeIx[c.getAsOpaquePtr()] = ix;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = c.getAsString(pp);
    if (c.isConstQualified()) o["const"] = true;
    const Type* t = c.getTypePtr();
    if (t->isBooleanType()) {
      o["k"] = "bool";
      o["w"] = 1;
      o["sg"] = false;
    } else if (auto* et = t->getAs<EnumType>()) {
      o["k"] = "enum";
      o["rec"] = qn(et->getDecl());
      if (!et->getDecl()->getIntegerType().isNull()) {
        o["w"] = (int)ctx.getTypeSize(t);
        o["sg"] = et->getDecl()->getIntegerType()->isSignedIntegerType();
      }
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int)ctx.getTypeSize(t);
      o["sg"] = t->isSignedIntegerType();
      if (t->isAnyCharacterType()) o["ch"] = true;
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int)ctx.getTypeSize(t);
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = ty(t->getPointeeType());
    } else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["to"] = ty(t->getPointeeType());
      o["rv"] = t->isRValueReferenceType();
    } else if (auto* at = ctx.getAsArrayType(c)) {
      o["k"] = "arr";
      o["to"] = ty(at->getElementType());
      if (auto* ca = dyn_cast<ConstantArrayType>(at)) o["n"] = (int64_t)ca->getSize().getZExtValue();
    } else if (t->isNullPtrType()) {
      o["k"] = "null";
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (auto* rt = t->getAs<RecordType>()) {
      o["k"] = "rec";
      auto* rd = rt->getDecl();
      o["rec"] = qn(rd);
      if (rd->isUnion()) o["union"] = true;
      if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
        if (cr->isLambda()) o["lambda"] = true;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(cr)) {
          json::Array ta;
          for (auto& a : sp->getTemplateArgs().asArray()) targ(ta, a);
          o["ta"] = std::move(ta);
        }
        if (cr->hasDefinition() && cr->isCompleteDefinition()) {
          if (inRepo(rd->getLocation())) {
            o["repo"] = true;
          }
          if (!rd->isInvalidDecl() && !rd->isDependentType()) o["size"] = (int64_t)ctx.getTypeSizeInChars(t).getQuantity();
        }
      }
      if (rd->getIdentifier() == nullptr || o.get("repo")) o["rid"] = did(rd);
    } else if (t->isFunctionType()) {
      o["k"] = "func";
    } else
      o["k"] = "other";
    types[ix] = std::move(o);
    // make sure record is exported
    if (auto* rt = t->getAs<RecordType>())
      if (auto* cr = dyn_cast<CXXRecordDecl>(rt->getDecl()))
        if (cr->hasDefinition() && inRepo(cr->getLocation())) exportRecord(cr->getDefinition());
    return ix;
  }
  void targ(json::Array& ta, const TemplateArgument& a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: {
        json::Object x;
        x["t"] = ty(a.getAsType());
        ta.push_back(std::move(x));
        break;
      }
      case TemplateArgument::Integral: {
        json::Object x;
        x["i"] = istr(a.getAsIntegral());
        ta.push_back(std::move(x));
        break;
      }
      case TemplateArgument::Pack:
        for (auto& b : a.pack_elements()) targ(ta, b);
        break;
      default:
        ta.push_back(nullptr);
    }
  }
  std::string fkey(const FunctionDecl* fd) {
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl gd;
    if (auto* c = dyn_cast<CXXConstructorDecl>(fd))
      gd = GlobalDecl(c, Ctor_Complete);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(fd))
      gd = GlobalDecl(d, Dtor_Complete);
    else
      gd = GlobalDecl(fd);
    if (fd->isDependentContext() || fd->getDescribedFunctionTemplate()) {
      os << "dep:" << fd->getQualifiedNameAsString() << "#" << did(fd);
    } else if (mc->shouldMangleDeclName(fd) || !fd->isExternC()) {
      mc->mangleName(gd, os);
    } else
      os << fd->getNameAsString();
    bool internal = fd->getFormalLinkage() == Linkage::Internal || fd->getFormalLinkage() == Linkage::UniqueExternal ||
                    fd->getFormalLinkage() == Linkage::None;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda()) internal = true;
    if (internal && fd->getFormalLinkage() != Linkage::External) {
      os << "@" << sm.getFilename(sm.getExpansionLoc(fd->getLocation())).str();
    }
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda()) {
        os << "@L" << sm.getExpansionLineNumber(fd->getLocation()) << ":"
           << sm.getExpansionColumnNumber(fd->getLocation());
      }
    return os.str();
  }
  const FunctionDecl* defOf(const FunctionDecl* fd) {
    const FunctionDecl* def = nullptr;
    if (fd->hasBody(def)) return def;
    return fd;
  }
  int fn(const FunctionDecl* fd) {
    fd = fd->getCanonicalDecl();
    auto it = fnIx.find(fd);
    if (it != fnIx.end()) return it->second;
    int ix = fns.size();
    fnIx[fd] = ix;
    fns.push_back(nullptr);
    json::Object o;
    o["key"] = fkey(fd);
    o["qn"] = qn(fd);
    json::Array ps;
    for (auto* p : fd->parameters()) ps.push_back(ty(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = ty(fd->getReturnType());
    if (fd->isVariadic()) o["va"] = true;
    if (auto* fpt = fd->getType()->getAs<FunctionProtoType>()) {
      if (isUnresolvedExceptionSpec(fpt->getExceptionSpecType()))
        o["nx"] = nullptr;
      else if (fpt->isNothrow())
        o["nx"] = true;
    }
    if (fd->isNoReturn()) o["nr"] = true;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["m"] = true;
      if (md->isConst()) o["c"] = true;
      if (md->isStatic()) o["st"] = true;
      if (md->isVirtual()) o["v"] = true;
      o["rect"] = ty(ctx.getRecordType(md->getParent()));
      o["acc"] = md->getAccess() == AS_public ? "pub" : md->getAccess() == AS_private ? "priv" : "prot";
      if (auto* c = dyn_cast<CXXConstructorDecl>(md)) {
        o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "def" : "other";
      } else if (isa<CXXDestructorDecl>(md))
        o["dtor"] = true;
      else if (isa<CXXConversionDecl>(md))
        o["conv"] = true;
      if (md->isCopyAssignmentOperator()) o["asg"] = "copy";
      if (md->isMoveAssignmentOperator()) o["asg"] = "move";
      if (md->isDefaulted()) o["dflt"] = true;
      if (md->getParent()->isLambda()) o["lam"] = true;
    }
    if (fd->isTemplateInstantiation() || fd->getTemplateSpecializationArgs()) {
      if (auto* ta = fd->getTemplateSpecializationArgs()) {
        json::Array a;
        for (auto& x : ta->asArray()) targ(a, x);
        o["ta"] = std::move(a);
      }
    }
    auto* d = defOf(fd);
    if (d->doesThisDeclarationHaveABody() && inRepo(d->getLocation())) o["body"] = true;
    o["repo"] = inRepo(fd->getLocation());
    o["l"] = loc(d->getLocation());
    fns[ix] = std::move(o);
    return ix;
  }

  // ---------------------------------------------------------------- expr
  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      json::Value v = E(x->getExpr());
      if (auto* o = v.getAsObject()) (*o)["da"] = true;
      return v;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      json::Object o;
      o["k"] = "StdIL";
      o["t"] = ty(e->getType());
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e))
      if (x->getSourceExpr()) return E(x->getSourceExpr());

    json::Object o;
    o["t"] = ty(e->getType());
    o["l"] = loc(e->getExprLoc());
    o["vc"] = e->isPRValue() ? "r" : e->isXValue() ? "x" : "l";
    // constant value
    if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
        (e->getType()->isIntegralOrEnumerationType() || e->getType()->isRealFloatingType())) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx) && !r.HasSideEffects && r.Val.isInt()) {
        o["cv"] = istr(r.Val.getInt());
      } else if (r.Val.isFloat() && !r.HasSideEffects) {
        o["cf"] = hexd(r.Val.getFloat());
      }
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      o["v"] = istr(llvm::APSInt(x->getValue(), !x->getType()->isSignedIntegerType()));
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "Int";
      o["v"] = std::to_string((int64_t)(x->getType()->isCharType() ? (int64_t)(signed char)x->getValue() : (int64_t)x->getValue()));
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Int";
      o["v"] = x->getValue() ? "1" : "0";
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Flt";
      o["v"] = hexd(x->getValue());
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      if (x->getCharByteWidth() == 1) {
        // latin-1 decode to keep bytes
        std::string u;
        for (unsigned char c : x->getBytes()) {
          if (c < 0x80)
            u.push_back(c);
          else {
            u.push_back(0xC0 | (c >> 6));
            u.push_back(0x80 | (c & 0x3F));
          }
        }
        o["v"] = u;
      } else
        o["v"] = "?";
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
    } else if (isa<PredefinedExpr>(e)) {
      o["k"] = "Str";
      o["v"] = "__func__";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      declref(o, x->getDecl());
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* md = x->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(md)) {
        declref(o, vd);
      } else if (auto* fd = dyn_cast<FunctionDecl>(md)) {
        o["k"] = "MFn";
        o["b"] = E(x->getBase());
        o["ar"] = x->isArrow();
        o["fn"] = fn(fd);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(md)) {
        declref(o, ec);
      } else {
        o["k"] = "Mem";
        o["b"] = E(x->getBase());
        o["ar"] = x->isArrow();
        o["f"] = md->getNameAsString();
        if (auto* f = dyn_cast<FieldDecl>(md)) {
          o["ft"] = ty(f->getType());
          if (f->getParent()->isUnion()) o["un"] = true;
          if (f->getNameAsString().empty()) o["f"] = "(anon)" ;
          o["rec"] = qn(f->getParent());
        }
      }
    } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "CAsg";
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      o["ct"] = ty(x->getComputationLHSType());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "Bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = E(x->getSubExpr());
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
    } else if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Idx";
      o["a"] = E(x->getBase());
      o["b"] = E(x->getIdx());
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto* md = x->getMethodDecl();
      if (md) {
        o["k"] = "MCall";
        o["fn"] = fn(md);
        auto* callee = x->getCallee()->IgnoreParenImpCasts();
        if (auto* me = dyn_cast<MemberExpr>(callee)) {
          o["o"] = E(me->getBase());
          o["ar"] = me->isArrow();
          if (md->isVirtual() && !me->hasQualifier()) o["virt"] = true;
        } else {
          o["o"] = E(x->getImplicitObjectArgument());
          o["ar"] = false;
        }
      } else {
        o["k"] = "PCall";
        o["f"] = E(x->getCallee());
      }
      args(o, x->arguments());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* fd = x->getDirectCallee();
      if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
        o["k"] = "MCall";
        o["fn"] = fn(fd);
        o["o"] = E(x->getArg(0));
        o["ar"] = false;
        o["opc"] = true;
        json::Array a;
        for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
        o["a"] = std::move(a);
      } else if (fd) {
        o["k"] = "Call";
        o["fn"] = fn(fd);
        o["opc"] = true;
        args(o, x->arguments());
      } else {
        o["k"] = "PCall";
        o["f"] = E(x->getCallee());
        args(o, x->arguments());
      }
    } else if (auto* x = dyn_cast<UserDefinedLiteral>(e)) {
      o["k"] = "Call";
      o["fn"] = fn(x->getDirectCallee());
      args(o, x->arguments());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      if (auto* fd = x->getDirectCallee()) {
        o["k"] = "Call";
        o["fn"] = fn(fd);
        args(o, x->arguments());
      } else {
        o["k"] = "PCall";
        o["f"] = E(x->getCallee());
        args(o, x->arguments());
      }
    } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "Ctor";
      o["fn"] = fn(x->getConstructor());
      o["a"] = json::Array{};
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor";
      o["fn"] = fn(x->getConstructor());
      if (x->isListInitialization()) o["list"] = true;
      if (x->isElidable()) o["el"] = true;
      if (x->isStdInitListInitialization()) o["il"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      args(o, x->arguments());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      o["at"] = ty(x->getAllocatedType());
      if (x->hasInitializer()) o["i"] = E(x->getInitializer());
      if (x->isArray() && x->getArraySize()) o["n"] = E(*x->getArraySize());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Del";
      o["e"] = E(x->getArgument());
    } else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Mat";
      o["e"] = E(x->getSubExpr());
      if (x->getExtendingDecl()) o["ext"] = true;
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      auto* sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      if (sem->isTransparent()) return E(sem->getInit(0));
      o["k"] = "IL";
      json::Array a;
      for (auto* i : sem->inits()) a.push_back(E(i));
      o["a"] = std::move(a);
      if (auto* rt = e->getType()->getAs<RecordType>()) {
        json::Array f;
        if (rt->getDecl()->isUnion()) {
          if (auto* uf = sem->getInitializedFieldInUnion()) f.push_back(uf->getNameAsString());
        } else {
          if (auto* cr = dyn_cast<CXXRecordDecl>(rt->getDecl()))
            for (auto& b : cr->bases()) f.push_back("(base)" + qn(b.getType()->getAsCXXRecordDecl()));
          for (auto* fd : rt->getDecl()->fields()) f.push_back(fd->getNameAsString().empty() ? std::string("(anon)") : fd->getNameAsString());
        }
        o["f"] = std::move(f);
      }
      if (sem->hasArrayFiller()) o["fill"] = E(sem->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "Zero";
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lam";
      o["fn"] = fn(x->getCallOperator());
      exportFunc(x->getCallOperator());
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          if (c.getCaptureKind() == LCK_StarThis) co["star"] = true;
        } else if (c.capturesVariable()) {
          co["d"] = did(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
        }
        if (ii != x->capture_init_end() && *ii) co["i"] = E(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_NoOp:
          if (x->getSubExpr()->isPRValue() == e->isPRValue()) return E(x->getSubExpr());
          [[fallthrough]];
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_FunctionToPointerDecay:
        case CK_BuiltinFnToFnPtr:
          return E(x->getSubExpr());
        case CK_NullToPointer:
          o["k"] = "Null";
          return o;
        default:
          break;
      }
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      o["e"] = E(x->getSubExpr());
      if (isa<ExplicitCastExpr>(x)) o["ex"] = true;
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      o["e"] = E(x->getSubExpr());
    } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "SizeOf";
      o["ot"] = ty(x->getTypeOfArgument());
    } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      o["k"] = "Typeid";
      if (x->isTypeOperand())
        o["ot"] = ty(x->getTypeOperand(ctx));
      else
        o["e"] = E(x->getExprOperand());
    } else if (auto* x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "StmtE";
      o["s"] = S(x->getSubStmt());
    } else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "ArrLoop";
      o["e"] = E(x->getCommonExpr());
    } else {
      o["k"] = "Unk";
      o["cls"] = e->getStmtClassName();
    }
    return o;
  }
  template <class R>
  void args(json::Object& o, R&& r) {
    json::Array a;
    for (auto* x : r) a.push_back(E(x));
    o["a"] = std::move(a);
  }
  void declref(json::Object& o, const ValueDecl* d) {
    if (auto* fd = dyn_cast<FunctionDecl>(d)) {
      o["k"] = "FnRef";
      o["fn"] = fn(fd);
    } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
      o["k"] = "Int";
      o["v"] = istr(ec->getInitVal());
      o["en"] = qn(ec);
    } else {
      o["k"] = "Ref";
      o["d"] = did(d);
      o["n"] = d->getNameAsString();
      if (auto* vd = dyn_cast<VarDecl>(d)) {
        if (vd->hasGlobalStorage()) {
          o["g"] = qn(vd);
          if (vd->isStaticLocal()) o["sl"] = true;
          if (inRepo(vd->getLocation())) exportGlobal(vd);
        }
        if (vd->getType()->isReferenceType()) o["rf"] = true;
      } else if (isa<BindingDecl>(d)) {
        o["bd"] = true;
      }
    }
  }
  // ---------------------------------------------------------------- stmt
  json::Value var(const VarDecl* vd) {
    json::Object o;
    o["d"] = did(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = ty(vd->getType());
    o["l"] = loc(vd->getLocation());
    if (vd->isStaticLocal()) {
      o["st"] = true;
      o["g"] = qn(vd);
    }
    if (vd->isConstexpr()) o["ce"] = true;
    if (vd->getInit()) o["i"] = E(vd->getInit());
    if (vd->hasGlobalStorage()) constval(o, vd);
    if (auto* dd = dyn_cast<DecompositionDecl>(vd)) {
      json::Array b;
      for (auto* bd : dd->bindings()) {
        json::Object bo;
        bo["d"] = did(bd);
        bo["n"] = bd->getNameAsString();
        if (bd->getBinding() && !bd->getHoldingVar()) bo["e"] = E(bd->getBinding());
        if (bd->getHoldingVar()) bo["hv"] = did(bd->getHoldingVar());
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }
  void constval(json::Object& o, const VarDecl* vd) {
    if (!vd->isConstexpr() && !vd->getType().isConstQualified()) return;
    if (!vd->getInit() || vd->getInit()->isValueDependent() || vd->getType()->isDependentType()) return;
    if (!vd->isConstexpr() && !vd->getType()->isIntegralOrEnumerationType() && !vd->getType()->isRealFloatingType()) return;
    if (auto* v = vd->evaluateValue()) o["apv"] = apv(*v);
  }
  json::Value apv(const APValue& v) {
    if (v.isInt()) {
      json::Object o;
      o["i"] = istr(v.getInt());
      return o;
    }
    if (v.isFloat()) {
      json::Object o;
      o["f"] = hexd(v.getFloat());
      return o;
    }
    if (v.isArray()) {
      json::Array a;
      unsigned n = v.getArraySize();
      if (n > 100000) return nullptr;
      for (unsigned i = 0; i < n; ++i)
        a.push_back(i < v.getArrayInitializedElts() ? apv(v.getArrayInitializedElt(i)) : (v.hasArrayFiller() ? apv(v.getArrayFiller()) : json::Value(nullptr)));
      json::Object o;
      o["a"] = std::move(a);
      return o;
    }
    if (v.isStruct()) {
      json::Array a;
      for (unsigned i = 0; i < v.getStructNumBases(); ++i) a.push_back(apv(v.getStructBase(i)));
      for (unsigned i = 0; i < v.getStructNumFields(); ++i) a.push_back(apv(v.getStructField(i)));
      json::Object o;
      o["s"] = std::move(a);
      return o;
    }
    return nullptr;
  }
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      json::Object o;
      o["k"] = "Expr";
      o["e"] = E(e);
      o["l"] = loc(e->getExprLoc());
      return o;
    }
    json::Object o;
    o["l"] = loc(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      json::Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      o["s"] = std::move(a);
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      json::Array a;
      for (auto* d : x->decls()) {
        if (auto* vd = dyn_cast<VarDecl>(d)) {
          a.push_back(var(vd));
          if (vd->hasGlobalStorage()) exportGlobal(vd);
        }
      }
      o["v"] = std::move(a);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      if (x->isConstexpr()) {
        auto c = x->getNondiscardedCase(ctx);
        if (c) {
          if (*c) return S(*c);
          o["k"] = "Null";
          return o;
        }
      }
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      o["b"] = S(x->getElse());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["inc"] = E(x->getInc());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RFor";
      if (x->getInit()) o["init"] = S(x->getInit());
      o["r"] = E(x->getRangeInit());
      o["v"] = var(x->getLoopVariable());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, ctx)) o["v"] = istr(r.Val.getInt());
      if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, ctx)) o["v2"] = istr(r.Val.getInt());
      o["s"] = S(x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["s"] = S(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "Break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "Continue";
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Ret";
      o["e"] = E(x->getRetValue());
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["body"] = S(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
        ho["body"] = S(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (isa<NullStmt>(s)) {
      o["k"] = "Null";
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      return S(x->getSubStmt());
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "Label";
      o["n"] = x->getName();
      o["s"] = S(x->getSubStmt());
    } else if (auto* x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "Goto";
      o["n"] = x->getLabel()->getNameAsString();
    } else {
      o["k"] = "UnkS";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }
  // ---------------------------------------------------------------- decls
  void exportGlobal(const VarDecl* vd) {
    const VarDecl* def = vd->getDefinition();
    if (!def) def = vd;
    vd = def;
    if (vd->getType()->isDependentType() || vd->getDeclContext()->isDependentContext()) return;
    if (!globDone.insert(vd->getCanonicalDecl()).second) return;
    size_t ix = globals.size();
    globals.push_back(nullptr);
    json::Object o = std::move(*var(vd).getAsObject());
    o["g"] = qn(vd);
    o["thr"] = vd->getTLSKind() != VarDecl::TLS_None;
    globals[ix] = std::move(o);
  }
  void exportRecord(const CXXRecordDecl* rd) {
    if (!rd || rd->isDependentType() || rd->isLambda()) return;
    if (!recDone.insert(rd).second) return;
    json::Object o;
    o["qn"] = qn(rd);
    o["t"] = ty(ctx.getRecordType(rd));
    o["rid"] = did(rd);
    o["l"] = loc(rd->getLocation());
    if (rd->isUnion()) o["union"] = true;
    json::Array bs;
    for (auto& b : rd->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* f : rd->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString().empty() ? std::string("(anon)") : f->getNameAsString();
      fo["t"] = ty(f->getType());
      if (f->isMutable()) fo["mut"] = true;
      fo["acc"] = f->getAccess() == AS_public ? "pub" : "priv";
      for (auto* a : f->specific_attrs<GuardedByAttr>()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        a->getArg()->printPretty(os, nullptr, pp);
        os.flush();
        if (s.rfind("this->", 0) == 0) s = s.substr(6);
        fo["gb"] = s;
      }
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto* m : rd->methods()) ms.push_back(fn(m));
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
  void exportFunc(const FunctionDecl* fd) {
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def)) return;
    if (def->isDependentContext() || def->getDescribedFunctionTemplate()) return;
    if (!inRepo(def->getLocation())) return;
    if (!done.insert(def->getCanonicalDecl()).second) return;
    json::Object o;
    o["fn"] = fn(def);
    json::Array ps;
    for (auto* p : def->parameters()) {
      json::Object po;
      po["d"] = did(p);
      po["n"] = p->getNameAsString();
      po["t"] = ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = E(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (auto* cd = dyn_cast<CXXConstructorDecl>(def)) {
      json::Array is;
      for (auto* i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          auto* f = i->getAnyMember();
          io["f"] = f->getNameAsString().empty() ? std::string("(anon)") : f->getNameAsString();
          io["ft"] = ty(f->getType());
        } else if (i->isBaseInitializer()) {
          io["base"] = ty(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        io["e"] = E(i->getInit());
        io["wr"] = i->isWritten();
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["l"] = loc(def->getLocation());
    o["body"] = S(def->getBody());
    funcs.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl* fd) {
    exportFunc(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (rd->isCompleteDefinition() && inRepo(rd->getLocation())) exportRecord(rd);
    return true;
  }
  bool VisitVarDecl(VarDecl* vd) {
    if (vd->hasGlobalStorage() && inRepo(vd->getLocation()) && !isa<ParmVarDecl>(vd)) exportGlobal(vd);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    Exporter x(ctx);
    x.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    o["types"] = std::move(x.types);
    o["fns"] = std::move(x.fns);
    o["funcs"] = std::move(x.funcs);
    o["records"] = std::move(x.records);
    o["globals"] = std::move(x.globals);
    o["files"] = std::move(x.files);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// exporter OUT ROOT[:ROOT...] SRC -- flags
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> rs;
  llvm::StringRef(argv[2]).split(rs, ':');
  for (auto r : rs) g_roots.push_back(r.str());
  std::string src = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
