// Source extractor for the AOCL-DA static checks.
//
// Parses one translation unit with clang (all types and callees resolved, templates
// instantiated) and prints one JSON record per line for every function definition, record,
// enum, variable with static storage and C declaration that lives under --root. No code is
// executed; nothing is decided here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OnlyNs;
static std::unique_ptr<llvm::raw_fd_ostream> Out;

namespace {

std::string fix(llvm::StringRef s) { return llvm::json::fixUTF8(s); }

class Ex {
  public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::set<std::string> seen;
    std::map<const VarDecl *, std::string> vids;
    std::vector<const CXXRecordDecl *> lambdas; // to emit after the current function
    std::string curFn;
    std::set<const VarDecl *> gvars;

    Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = false;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        MC.reset(C.createMangleContext());
    }

    // ---- names -------------------------------------------------------------------------
    std::string clean(std::string s) {
        static const std::string ns = "da_dynamic_dispatch_generic::";
        size_t p;
        while ((p = s.find(ns)) != std::string::npos) s.erase(p, ns.size());
        while ((p = s.find("kernel_templates::")) != std::string::npos) s.erase(p, 18);
        return s;
    }
    std::string ty(QualType q) {
        if (q.isNull()) return "";
        std::string s = q.getCanonicalType().getAsString(PP);
        // lambdas and anonymous types: drop absolute paths
        size_t p;
        while ((p = s.find(Root + "/")) != std::string::npos) s.erase(p, Root.size() + 1);
        return fix(clean(s));
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->getNameForDiagnostic(os, PP, true);
        os.flush();
        size_t p;
        while ((p = s.find(Root + "/")) != std::string::npos) s.erase(p, Root.size() + 1);
        return fix(clean(s));
    }
    std::string base(const NamedDecl *D) { return fix(clean(D->getQualifiedNameAsString())); }
    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L).str();
        llvm::SmallString<256> rp;
        if (!f.empty() && !llvm::sys::fs::real_path(f, rp)) f = rp.str().str();
        if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
        return "";
    }
    std::map<FileID, std::string> fcache;
    std::string fileC(SourceLocation L) {
        FileID id = SM.getFileID(SM.getExpansionLoc(L));
        auto it = fcache.find(id);
        if (it != fcache.end()) return it->second;
        return fcache[id] = file(L);
    }
    int64_t line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool mine(const Decl *D) {
        if (fileC(D->getLocation()).empty()) return false;
        return inNs(D);
    }
    bool inNs(const Decl *D) {
        for (const DeclContext *c = D->getDeclContext(); c; c = c->getParent())
            if (auto *n = dyn_cast<NamespaceDecl>(c)) {
                auto s = n->getName();
                if (s.starts_with("da_dynamic_dispatch_") && s != "da_dynamic_dispatch_generic")
                    return false;
            }
        return true;
    }
    std::string mangled(const FunctionDecl *F) {
        if (F->getType()->isDependentType() || F->isDependentContext()) return base(F) + "#dep";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) {
                std::string id = lamId(M->getParent());
                if (F->isTemplateInstantiation()) {
                    std::string s;
                    for (auto *p : F->parameters()) s += "," + ty(p->getType());
                    id += "<" + s + ">";
                }
                return id;
            }
        std::string s;
        llvm::raw_string_ostream os(s);
        GlobalDecl G;
        if (auto *c = dyn_cast<CXXConstructorDecl>(F)) G = GlobalDecl(c, Ctor_Complete);
        else if (auto *d = dyn_cast<CXXDestructorDecl>(F)) G = GlobalDecl(d, Dtor_Complete);
        else G = GlobalDecl(F);
        if (!MC->shouldMangleDeclName(F)) {
            os << F->getNameAsString();
            if (!F->isExternallyVisible()) os << "@" << fileC(F->getLocation());
        } else {
            MC->mangleName(G, os);
            if (!F->isExternallyVisible()) os << "@" << fileC(F->getLocation());
        }
        return fix(os.str());
    }
    std::map<const CXXRecordDecl *, std::string> lids;
    std::string lamId(const CXXRecordDecl *R) {
        auto it = lids.find(R);
        if (it != lids.end()) return it->second;
        std::string f = fileC(R->getLocation());
        std::string s = "lambda@" + f + ":" + std::to_string(line(R->getLocation())) + ":" +
                        std::to_string(SM.getExpansionColumnNumber(R->getLocation())) + "@" + curFn;
        return lids[R] = s;
    }
    std::string vid(const VarDecl *V) {
        V = V->getCanonicalDecl();
        auto it = vids.find(V);
        if (it != vids.end()) return it->second;
        std::string s = V->getNameAsString();
        if (s.empty()) s = "_anon";
        if (V->hasGlobalStorage() && !V->isStaticLocal()) s = base(V);
        s += "#" + std::to_string(line(V->getLocation())) + "." +
             std::to_string(SM.getExpansionColumnNumber(V->getLocation()));
        if (auto *p = dyn_cast<ParmVarDecl>(V)) s += "p" + std::to_string(p->getFunctionScopeIndex());
        return vids[V] = fix(s);
    }
    const char *storage(const VarDecl *V) {
        if (isa<ParmVarDecl>(V)) return "p";
        if (V->isStaticLocal()) return "s";
        if (V->hasGlobalStorage()) return "g";
        return "l";
    }

    static Value apv(const llvm::APSInt &v) {
        if (v.isRepresentableByInt64()) return v.getExtValue();
        llvm::SmallString<32> s;
        v.toString(s, 10);
        return s.str().str();
    }
    // ---- expressions -------------------------------------------------------------------
    Value exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        Array a;
        for (auto *e : r) a.push_back(ex(e));
        return a;
    }
    bool dropsConst(QualType from, QualType to) {
        auto pf = from->getPointeeType(), pt = to->getPointeeType();
        while (!pf.isNull() && !pt.isNull()) {
            if (pf.isConstQualified() && !pt.isConstQualified()) return true;
            pf = pf->getPointeeType();
            pt = pt->getPointeeType();
        }
        return false;
    }
    Value ex(const Expr *E) {
        if (!E) return nullptr;
        // transparent nodes
        if (auto *x = dyn_cast<ExprWithCleanups>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<ConstantExpr>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<ParenExpr>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(x->getReplacement());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return ex(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return ex(x->getExpr());
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<OpaqueValueExpr>(E)) return ex(x->getSourceExpr());
        int64_t ln = line(E->getBeginLoc());
        if (auto *x = dyn_cast<ExplicitCastExpr>(E)) {
            const Expr *s = x->getSubExprAsWritten();
            // chain of implicit casts below it: keep them out
            std::string style = isa<CStyleCastExpr>(x) ? "c" : isa<CXXFunctionalCastExpr>(x) ? "f"
                : isa<CXXStaticCastExpr>(x) ? "static" : isa<CXXReinterpretCastExpr>(x) ? "reinterpret"
                : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXDynamicCastExpr>(x) ? "dynamic" : "o";
            const Expr *inner = x->getSubExpr();
            if (isa<CXXConstructExpr>(inner->IgnoreImplicit()) ||
                x->getCastKind() == CK_ConstructorConversion ||
                x->getCastKind() == CK_UserDefinedConversion)
                s = inner;
            return Array{"cast", x->getCastKindName(), ty(x->getTypeAsWritten()), ex(s), ln,
                         ty(s->getType()), style, dropsConst(s->getType(), x->getType())};
        }
        if (auto *x = dyn_cast<ImplicitCastExpr>(E)) {
            switch (x->getCastKind()) {
            case CK_IntegralCast:
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_FloatingCast:
            case CK_FloatingToBoolean:
            case CK_IntegralToBoolean:
            case CK_PointerToBoolean:
            case CK_BitCast:
                return Array{"cast", x->getCastKindName(), ty(x->getType()), ex(x->getSubExpr()), ln,
                             ty(x->getSubExpr()->getType()), "i", false};
            case CK_NullToPointer:
                return Array{"null"};
            default:
                return ex(x->getSubExpr());
            }
        }
        if (auto *x = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            int64_t v;
            if (!llvm::StringRef(s).getAsInteger(10, v)) return Array{"int", v};
            return Array{"int", s.str().str()};
        }
        if (auto *x = dyn_cast<FloatingLiteral>(E)) return Array{"flt", x->getValueAsApproximateDouble()};
        if (auto *x = dyn_cast<CharacterLiteral>(E)) return Array{"int", (int64_t)x->getValue()};
        if (auto *x = dyn_cast<clang::StringLiteral>(E))
            return Array{"str", x->getCharByteWidth() == 1 ? fix(x->getString()) : std::string("?")};
        if (auto *x = dyn_cast<PredefinedExpr>(E)) return Array{"str", "__func__"};
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) return Array{"bool", x->getValue()};
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Array{"null"};
        if (isa<CXXThisExpr>(E)) return Array{"this"};
        if (auto *x = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = x->getDecl();
            if (auto *e = dyn_cast<EnumConstantDecl>(D))
                return Array{"enum", base(e), apv(e->getInitVal())};
            if (auto *f = dyn_cast<FunctionDecl>(D)) {
                return Array{"fn", mangled(f), base(f), ty(f->getType())};
            }
            if (auto *v = dyn_cast<VarDecl>(D)) {
                if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                    if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())) {
                        const VarDecl *def = nullptr;
                        if (v->getAnyInitializer(def) && !def->getInit()->isValueDependent()) {
                            if (auto *val = def->evaluateValue())
                                if (val->isInt()) return Array{"int", apv(val->getInt()), fix(base(v))};
                        }
                    }
                }
                return Array{"var", vid(v), fix(v->getNameAsString()), ty(v->getType()), storage(v)};
            }
            if (auto *b = dyn_cast<BindingDecl>(D)) {
                return Array{"var", fix(b->getNameAsString() + "#bind" + std::to_string(line(b->getLocation()))),
                             fix(b->getNameAsString()), ty(b->getType()), "l"};
            }
            return Array{"op", "DeclRef", base(D)};
        }
        if (auto *x = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = x->getMemberDecl();
            if (auto *f = dyn_cast<FieldDecl>(D))
                return Array{"mem", ex(x->getBase()), fix(f->getNameAsString()), qname(f->getParent()),
                             ty(f->getType())};
            if (auto *v = dyn_cast<VarDecl>(D))
                return Array{"var", vid(v), fix(v->getNameAsString()), ty(v->getType()), "g"};
            if (auto *m = dyn_cast<FunctionDecl>(D))
                return Array{"fn", mangled(m), base(m), ty(m->getType())};
            if (auto *e = dyn_cast<EnumConstantDecl>(D))
                return Array{"enum", base(e), apv(e->getInitVal())};
            return Array{"op", "Member", base(D)};
        }
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(x->getSemanticForm());
        if (auto *x = dyn_cast<CallExpr>(E)) {
            const FunctionDecl *F = x->getDirectCallee();
            Value obj = nullptr;
            bool virt = false;
            Array args;
            unsigned first = 0;
            if (auto *mc = dyn_cast<CXXMemberCallExpr>(x)) {
                obj = ex(mc->getImplicitObjectArgument());
                if (auto *m = mc->getMethodDecl()) {
                    virt = m->isVirtual();
                    if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
                        if (me->hasQualifier()) virt = false;
                }
            } else if (isa<CXXOperatorCallExpr>(x) && F && isa<CXXMethodDecl>(F) &&
                       !cast<CXXMethodDecl>(F)->isStatic()) {
                obj = ex(x->getArg(0));
                first = 1;
                virt = cast<CXXMethodDecl>(F)->isVirtual();
            }
            for (unsigned i = first; i < x->getNumArgs(); i++) {
                if (isa<CXXDefaultArgExpr>(x->getArg(i)) && F && !F->isDependentContext()) {
                    args.push_back(ex(x->getArg(i)));
                    continue;
                }
                args.push_back(ex(x->getArg(i)));
            }
            if (!F) {
                return Array{"icall", ex(x->getCallee()), std::move(obj), std::move(args), ln, ty(x->getType())};
            }
            std::string flags;
            if (virt) flags += "v";
            if (isa<CXXOperatorCallExpr>(x)) flags += "o";
            if (auto *fpt = F->getType()->getAs<FunctionProtoType>())
                if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) flags += "n";
            if (F->isExternC()) flags += "c";
            if (F->hasAttr<NoThrowAttr>()) flags += "n";
            // static type of the object for virtual dispatch
            std::string otype;
            if (auto *m = dyn_cast<CXXMethodDecl>(F)) otype = qname(m->getParent());
            return Array{"call", mangled(F), base(F), std::move(obj), std::move(args), ln,
                         ty(x->getType()), flags, otype};
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
            if (x->isElidable() && x->getNumArgs() == 1) return ex(x->getArg(0));
            Array args;
            for (auto *a : x->arguments()) args.push_back(ex(a));
            auto *F = x->getConstructor();
            std::string flags;
            if (auto *fpt = F->getType()->getAs<FunctionProtoType>())
                if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) flags += "n";
            if (F->isCopyConstructor()) flags += "C";
            if (F->isMoveConstructor()) flags += "M";
            if (F->isDefaultConstructor()) flags += "D";
            if (F->isTrivial()) flags += "t";
            if (isa<CXXTemporaryObjectExpr>(x)) flags += "T";
            return Array{"ctor", mangled(F), qname(F->getParent()), std::move(args), ln, flags, ty(x->getType())};
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E))
            return Array{"ctor", mangled(x->getConstructor()), qname(x->getConstructor()->getParent()), Array{}, ln, "", ty(x->getType())};
        if (auto *x = dyn_cast<CXXNewExpr>(E)) {
            Value sz = nullptr;
            if (x->isArray() && x->getArraySize()) sz = ex(*x->getArraySize());
            bool nothrow = false;
            Array pl;
            for (unsigned i = 0; i < x->getNumPlacementArgs(); i++) {
                auto t = ty(x->getPlacementArg(i)->getType());
                if (t.find("nothrow_t") != std::string::npos) nothrow = true;
                pl.push_back(ex(x->getPlacementArg(i)));
            }
            return Array{"new", ty(x->getAllocatedType()), x->isArray(), std::move(sz),
                         x->getInitializer() ? ex(x->getInitializer()) : Value(nullptr), nothrow, ln};
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(E)) return Array{"del", ex(x->getArgument()), x->isArrayForm(), ln};
        if (auto *x = dyn_cast<CXXThrowExpr>(E)) return Array{"thr", x->getSubExpr() ? ex(x->getSubExpr()) : Value(nullptr), ln, x->getSubExpr() ? ty(x->getSubExpr()->getType()) : std::string()};
        if (auto *x = dyn_cast<BinaryOperator>(E)) {
            std::string op = x->getOpcodeStr().str();
            if (x->isAssignmentOp()) return Array{"asg", op, ex(x->getLHS()), ex(x->getRHS()), ln, ty(x->getLHS()->getType())};
            return Array{"bin", op, ex(x->getLHS()), ex(x->getRHS()), ln, ty(x->getType())};
        }
        if (auto *x = dyn_cast<UnaryOperator>(E)) {
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            return Array{"un", op, ex(x->getSubExpr()), ln, ty(x->getType())};
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(E))
            return Array{"idx", ex(x->getBase()), ex(x->getIdx()), ln, ty(x->getType())};
        if (auto *x = dyn_cast<AbstractConditionalOperator>(E))
            return Array{"cond", ex(x->getCond()), ex(x->getTrueExpr()), ex(x->getFalseExpr()), ln, ty(x->getType())};
        if (auto *x = dyn_cast<InitListExpr>(E)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            Array a;
            for (auto *e : x->inits()) a.push_back(ex(e));
            return Array{"init", std::move(a), ty(x->getType())};
        }
        if (auto *x = dyn_cast<LambdaExpr>(E)) {
            lambdas.push_back(x->getLambdaClass());
            Array caps;
            for (auto it = x->capture_begin(); it != x->capture_end(); ++it) {
                if (it->capturesThis()) caps.push_back(Array{"this", it->getCaptureKind() == LCK_StarThis ? "copy" : "ref"});
                else if (it->capturesVariable())
                    caps.push_back(Array{vid(cast<VarDecl>(it->getCapturedVar())),
                                         it->getCaptureKind() == LCK_ByRef ? "ref" : "copy"});
            }
            return Array{"lam", lamId(x->getLambdaClass()), std::move(caps), ln};
        }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult r;
            if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) return Array{"int", apv(r.Val.getInt()), "sizeof " + ty(x->getTypeOfArgument())};
            return Array{"op", "sizeof", ty(x->getTypeOfArgument())};
        }
        if (auto *x = dyn_cast<CXXScalarValueInitExpr>(E)) return Array{"init", Array{}, ty(x->getType())};
        if (auto *x = dyn_cast<ImplicitValueInitExpr>(E)) return Array{"init", Array{}, ty(x->getType())};
        if (auto *x = dyn_cast<TypeTraitExpr>(E)) return Array{"bool", x->isValueDependent() ? false : x->getValue()};
        if (auto *x = dyn_cast<StmtExpr>(E)) return Array{"stmtexpr", st(x->getSubStmt())};
        if (auto *x = dyn_cast<SizeOfPackExpr>(E)) return Array{"int", x->isValueDependent() ? 0 : (int64_t)x->getPackLength()};
        Array a{"op", E->getStmtClassName()};
        for (auto *c : E->children())
            if (auto *e = dyn_cast_or_null<Expr>(c)) a.push_back(ex(e));
        return a;
    }

    // ---- statements --------------------------------------------------------------------
    Value vardecl(const VarDecl *v) {
        if (v->isStaticLocal()) gvars.insert(v);
        Value init = nullptr;
        if (v->hasInit()) init = ex(v->getInit());
        Array dims;
        QualType t = v->getType();
        if (auto *vt = C.getAsVariableArrayType(t)) dims.push_back(ex(vt->getSizeExpr()));
        return Array{"decl", vid(v), fix(v->getNameAsString()), ty(t), std::move(init), line(v->getLocation()),
                     storage(v), v->getType()->isReferenceType(), std::move(dims)};
    }
    Value st(const Stmt *S) {
        if (!S) return nullptr;
        int64_t ln = line(S->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(S)) return Array{"e", ex(e), ln};
        if (auto *x = dyn_cast<CompoundStmt>(S)) {
            Array a;
            for (auto *c : x->body()) a.push_back(st(c));
            return Array{"seq", std::move(a), ln, line(x->getEndLoc())};
        }
        if (auto *x = dyn_cast<DeclStmt>(S)) {
            Array a;
            for (auto *d : x->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    a.push_back(vardecl(v));
                    if (auto *dd = dyn_cast<DecompositionDecl>(v))
                        for (auto *b : dd->bindings()) a.push_back(Array{"decl", fix(b->getNameAsString() + "#bind" + std::to_string(line(b->getLocation()))), fix(b->getNameAsString()), ty(b->getType()), b->getBinding() ? ex(b->getBinding()) : Value(nullptr), line(b->getLocation()), "l", true, Array{}});
                }
            }
            if (a.size() == 1) return std::move(a[0]);
            return Array{"seq", std::move(a), ln, ln};
        }
        if (auto *x = dyn_cast<IfStmt>(S)) {
            Value r = nullptr;
            if (x->isConstexpr()) {
                auto nd = x->getNondiscardedCase(C);
                if (nd) {
                    if (!*nd) return Array{"seq", Array{}, ln, ln};
                    return st(*nd);
                }
            }
            r = Array{"if", ex(x->getCond()), st(x->getThen()), st(x->getElse()), ln};
            if (x->getInit() || x->getConditionVariable()) {
                Array a;
                if (x->getInit()) a.push_back(st(x->getInit()));
                if (x->getConditionVariable()) a.push_back(vardecl(x->getConditionVariable()));
                a.push_back(std::move(r));
                return Array{"seq", std::move(a), ln, ln};
            }
            return r;
        }
        if (auto *x = dyn_cast<ForStmt>(S)) {
            return Array{"for", st(x->getInit()), x->getCond() ? ex(x->getCond()) : Value(nullptr),
                         x->getInc() ? ex(x->getInc()) : Value(nullptr), st(x->getBody()), ln};
        }
        if (auto *x = dyn_cast<CXXForRangeStmt>(S))
            return Array{"rfor", vardecl(x->getLoopVariable()), ex(x->getRangeInit()), st(x->getBody()), ln};
        if (auto *x = dyn_cast<WhileStmt>(S)) {
            Value r = Array{"while", ex(x->getCond()), st(x->getBody()), ln};
            return r;
        }
        if (auto *x = dyn_cast<DoStmt>(S)) return Array{"do", st(x->getBody()), ex(x->getCond()), ln};
        if (auto *x = dyn_cast<SwitchStmt>(S)) {
            return Array{"switch", ex(x->getCond()), st(x->getBody()), ln, ty(x->getCond()->IgnoreImpCasts()->getType())};
        }
        if (auto *x = dyn_cast<CaseStmt>(S)) return Array{"case", ex(x->getLHS()), st(x->getSubStmt()), ln};
        if (auto *x = dyn_cast<DefaultStmt>(S)) return Array{"default", st(x->getSubStmt()), ln};
        if (isa<BreakStmt>(S)) return Array{"break", ln};
        if (isa<ContinueStmt>(S)) return Array{"continue", ln};
        if (auto *x = dyn_cast<ReturnStmt>(S)) return Array{"ret", x->getRetValue() ? ex(x->getRetValue()) : Value(nullptr), ln};
        if (auto *x = dyn_cast<GotoStmt>(S)) return Array{"goto", fix(x->getLabel()->getName()), ln};
        if (auto *x = dyn_cast<LabelStmt>(S)) return Array{"label", fix(x->getName()), st(x->getSubStmt()), ln};
        if (auto *x = dyn_cast<AttributedStmt>(S)) return st(x->getSubStmt());
        if (auto *x = dyn_cast<CXXTryStmt>(S)) {
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                auto *h = x->getHandler(i);
                hs.push_back(Array{h->getCaughtType().isNull() ? std::string("...") : ty(h->getCaughtType()),
                                   h->getExceptionDecl() ? vid(h->getExceptionDecl()) : std::string(),
                                   st(h->getHandlerBlock()), line(h->getBeginLoc())});
            }
            return Array{"try", st(x->getTryBlock()), std::move(hs), ln};
        }
        if (auto *x = dyn_cast<CapturedStmt>(S)) return st(x->getCapturedStmt());
        if (auto *x = dyn_cast<OMPExecutableDirective>(S)) {
            Object cl;
            for (auto *c : x->clauses()) {
                std::string k = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                Array vs;
                if (c->isImplicit()) continue;
                for (auto *ch : c->children())
                    if (auto *e = dyn_cast_or_null<Expr>(ch)) {
                        // children of list clauses hold the variable references
                        vs.push_back(ex(e));
                    }
                if (auto *dc = dyn_cast<OMPDefaultClause>(c))
                    vs.push_back(Array{"int", (int64_t)dc->getDefaultKind()});
                if (auto *rc = dyn_cast<OMPReductionClause>(c)) {
                    vs.clear();
                    for (auto *e : rc->varlists()) vs.push_back(ex(e));
                } else if (auto *pc = dyn_cast<OMPPrivateClause>(c)) {
                    vs.clear();
                    for (auto *e : pc->varlists()) vs.push_back(ex(e));
                } else if (auto *pc = dyn_cast<OMPFirstprivateClause>(c)) {
                    vs.clear();
                    for (auto *e : pc->varlists()) vs.push_back(ex(e));
                } else if (auto *pc = dyn_cast<OMPLastprivateClause>(c)) {
                    vs.clear();
                    for (auto *e : pc->varlists()) vs.push_back(ex(e));
                } else if (auto *pc = dyn_cast<OMPSharedClause>(c)) {
                    vs.clear();
                    for (auto *e : pc->varlists()) vs.push_back(ex(e));
                } else if (auto *ic = dyn_cast<OMPIfClause>(c)) {
                    vs.clear();
                    vs.push_back(ex(ic->getCondition()));
                }
                if (auto *arr = cl.getArray(k)) {
                    for (auto &v : vs) arr->push_back(std::move(v));
                } else
                    cl[k] = std::move(vs);
            }
            std::string kind = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
            Value body = nullptr;
            if (x->hasAssociatedStmt() && x->getAssociatedStmt()) body = st(x->getRawStmt());
            return Array{"omp", kind, std::move(cl), std::move(body), ln};
        }
        if (isa<NullStmt>(S)) return Array{"seq", Array{}, ln, ln};
        Array a{"ostmt", S->getStmtClassName(), ln};
        for (auto *c : S->children()) a.push_back(st(c));
        return a;
    }

    // ---- top level records ---------------------------------------------------------------
    void put(Object o) { *Out << Value(std::move(o)) << "\n"; }

    void fn(const FunctionDecl *F, const std::string &lamParent = "") {
        if (!F->doesThisDeclarationHaveABody()) return;
        if (F->isDependentContext()) {
            if (mine(F) && seen.insert("T:" + fileC(F->getLocation()) + std::to_string(line(F->getLocation()))).second) {
                Object o;
                o["k"] = "tpl";
                o["b"] = base(F);
                o["file"] = fileC(F->getLocation());
                o["line"] = line(F->getLocation());
                put(std::move(o));
            }
            return;
        }
        if (F->isDefaulted() && !F->isUserProvided()) return;
        if (!mine(F)) return;
        std::string id = mangled(F);
        if (!seen.insert(id).second) return;
        auto saveFn = curFn;
        if (lamParent.empty()) curFn = id;
        auto saveL = std::move(lambdas);
        lambdas.clear();
        Object o;
        o["k"] = "fn";
        o["id"] = id;
        o["q"] = qname(F);
        o["b"] = base(F);
        o["n"] = fix(F->getNameAsString());
        o["file"] = fileC(F->getLocation());
        o["line"] = line(F->getLocation());
        o["end"] = line(F->getEndLoc());
        o["ret"] = ty(F->getReturnType());
        Array ps;
        for (auto *p : F->parameters()) ps.push_back(Array{vid(p), fix(p->getNameAsString()), ty(p->getType())});
        o["params"] = std::move(ps);
        std::string fl;
        if (F->isExternC()) fl += "C";
        if (F->isTemplateInstantiation()) fl += "T";
        if (!F->isExternallyVisible()) fl += "i";
        if (F->isInlined()) fl += "I";
        if (auto *fpt = F->getType()->getAs<FunctionProtoType>())
            if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) fl += "n";
        if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(m->getParent());
            o["clsb"] = base(m->getParent());
            if (m->isVirtual()) fl += "v";
            if (m->isStatic()) fl += "s";
            if (m->isConst()) fl += "c";
            if (m->getAccess() == AS_public) fl += "p";
            Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(mangled(b));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
                fl += "K";
                if (c->isCopyConstructor()) fl += "Y";
                Array in;
                for (auto *i : c->inits()) {
                    if (i->isAnyMemberInitializer())
                        in.push_back(Array{"m", fix(i->getAnyMember()->getNameAsString()), ex(i->getInit()), i->isWritten()});
                    else if (i->isBaseInitializer())
                        in.push_back(Array{"b", ty(QualType(i->getBaseClass(), 0)), ex(i->getInit()), i->isWritten()});
                    else
                        in.push_back(Array{"d", "", ex(i->getInit()), true});
                }
                o["inits"] = std::move(in);
            }
            if (isa<CXXDestructorDecl>(F)) fl += "D";
        }
        if (!lamParent.empty()) o["lam"] = lamParent;
        if (auto *ta = F->getTemplateSpecializationArgs()) {
            Array t;
            for (auto &a : ta->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(PP, os, true);
                t.push_back(fix(clean(os.str())));
            }
            o["targs"] = std::move(t);
        }
        o["fl"] = fl;
        o["body"] = st(F->getBody());
        auto ls = lambdas;
        put(std::move(o));
        for (auto *L : ls)
            if (auto *cm = L->getLambdaCallOperator()) {
                if (cm->isDependentContext() || L->isGenericLambda()) {
                    if (auto *ft = cm->getDescribedFunctionTemplate())
                        for (auto *s : ft->specializations()) glam(s, L, id);
                } else
                    fn(cm, id);
            }
        lambdas = std::move(saveL);
        curFn = saveFn;
    }
    void glam(const FunctionDecl *F, const CXXRecordDecl *L, const std::string &parent) {
        // generic lambda: every specialisation is a body of its own, all under the lambda's id
        const FunctionDecl *def = nullptr;
        if (!F->hasBody(def)) return;
        std::string id = lamId(L);
        std::string s;
        for (auto *p : def->parameters()) s += "," + ty(p->getType());
        if (!seen.insert(id + "<" + s + ">").second) return;
        auto saveL = std::move(lambdas);
        lambdas.clear();
        Object o;
        o["k"] = "fn";
        o["id"] = id + "<" + s + ">";
        o["glam"] = id;
        o["q"] = qname(def);
        o["b"] = base(def);
        o["n"] = "operator()";
        o["file"] = fileC(def->getLocation());
        o["line"] = line(def->getLocation());
        o["end"] = line(def->getEndLoc());
        o["ret"] = ty(def->getReturnType());
        Array ps;
        for (auto *p : def->parameters()) ps.push_back(Array{vid(p), fix(p->getNameAsString()), ty(p->getType())});
        o["params"] = std::move(ps);
        o["lam"] = parent;
        o["fl"] = "";
        o["body"] = st(def->getBody());
        auto ls = lambdas;
        put(std::move(o));
        for (auto *L2 : ls)
            if (auto *cm = L2->getLambdaCallOperator())
                if (!cm->isDependentContext()) fn(cm, parent);
        lambdas = std::move(saveL);
    }

    void rec(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!mine(R)) return;
        std::string q = qname(R);
        if (!seen.insert("R:" + q).second) return;
        Object o;
        o["k"] = "rec";
        o["q"] = q;
        o["b"] = base(R);
        o["file"] = fileC(R->getLocation());
        o["line"] = line(R->getLocation());
        Array bs;
        for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto *f : R->fields()) {
            Value init = nullptr;
            if (f->hasInClassInitializer()) init = f->getInClassInitializer() ? ex(f->getInClassInitializer()) : Value(Array{"op", "uninstantiated"});
            fs.push_back(Array{fix(f->getNameAsString()), ty(f->getType()), f->hasInClassInitializer(),
                               line(f->getLocation()), std::move(init)});
        }
        o["fields"] = std::move(fs);
        Array ms;
        bool userCopy = false, copyDel = false;
        for (auto *m : R->methods()) {
            Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(mangled(b));
            std::string fl;
            if (m->isVirtual()) fl += "v";
            if (m->isPureVirtual()) fl += "0";
            if (m->isDeleted()) fl += "x";
            if (m->isDefaulted()) fl += "d";
            if (m->isStatic()) fl += "s";
            if (m->isImplicit()) fl += "i";
            if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
                fl += "K";
                if (c->isCopyConstructor()) { fl += "Y"; if (c->isDeleted()) copyDel = true; else if (c->isUserProvided()) userCopy = true; }
            }
            if (isa<CXXDestructorDecl>(m)) fl += "D";
            ms.push_back(Array{mangled(m), fix(m->getNameAsString()), fl, std::move(ov), line(m->getLocation())});
        }
        o["methods"] = std::move(ms);
        o["copyDeleted"] = copyDel;
        o["userCopy"] = userCopy;
        put(std::move(o));
    }
    void enu(const EnumDecl *D) {
        if (!D->isThisDeclarationADefinition() || !mine(D)) return;
        std::string q = base(D);
        if (D->getName().empty() && D->getTypedefNameForAnonDecl()) q = base(D->getTypedefNameForAnonDecl());
        if (!seen.insert("E:" + q + ":" + std::to_string(line(D->getLocation()))).second) return;
        Object o;
        o["k"] = "enum";
        o["q"] = q;
        o["t"] = ty(C.getTypeDeclType(D));
        o["file"] = fileC(D->getLocation());
        o["line"] = line(D->getLocation());
        Array a;
        for (auto *e : D->enumerators()) a.push_back(Array{base(e), apv(e->getInitVal())});
        o["vals"] = std::move(a);
        put(std::move(o));
    }
    void gvar(const VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
        if (V->getDeclContext()->isDependentContext() || !mine(V)) return;
        std::string q = V->isStaticLocal() ? fix(V->getNameAsString()) : qname(V);
        std::string key = "V:" + q + ":" + fileC(V->getLocation()) + ":" + std::to_string(line(V->getLocation()));
        if (!seen.insert(key).second) return;
        Object o;
        o["k"] = "gvar";
        o["q"] = q;
        o["file"] = fileC(V->getLocation());
        o["line"] = line(V->getLocation());
        o["t"] = ty(V->getType());
        bool cst = V->isConstexpr() || V->getType().isConstant(C) ||
                   C.getBaseElementType(V->getType()).isConstQualified();
        o["const"] = cst;
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        o["slocal"] = V->isStaticLocal();
        if (auto *f = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) o["fn"] = base(f);
        o["id"] = vid(V);
        if (V->hasInit() && !V->getInit()->isValueDependent()) o["init"] = ex(V->getInit());
        put(std::move(o));
    }
    void fdecl(const FunctionDecl *F) {
        // declarations of the public API (headers under source/include)
        std::string f = fileC(F->getLocation());
        if (f.rfind("source/include/", 0) != 0 || F->isDependentContext()) return;
        if (isa<CXXMethodDecl>(F)) return;
        std::string id = mangled(F);
        if (!seen.insert("D:" + id + f).second) return;
        Object o;
        o["k"] = "fdecl";
        o["id"] = id;
        o["b"] = base(F);
        o["externC"] = F->isExternC();
        o["file"] = f;
        o["line"] = line(F->getLocation());
        o["ret"] = ty(F->getReturnType());
        Array ps;
        for (auto *p : F->parameters()) ps.push_back(Array{fix(p->getNameAsString()), ty(p->getType())});
        o["params"] = std::move(ps);
        put(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    Ex &E;
    V(Ex &E) : E(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (auto *m = dyn_cast<CXXMethodDecl>(F))
            if (m->getParent()->isLambda()) return true; // emitted with its parent
        E.fn(F);
        E.fdecl(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        E.rec(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *D) {
        E.enu(D);
        return true;
    }
    bool VisitVarDecl(VarDecl *D) {
        if (D->hasGlobalStorage() && !isa<ParmVarDecl>(D)) E.gvar(D);
        return true;
    }
    bool TraverseNamespaceDecl(NamespaceDecl *N) {
        auto s = N->getName();
        if (s.starts_with("da_dynamic_dispatch_") && s != "da_dynamic_dispatch_generic") return true;
        if (s == "std" || s == "boost" || s == "__gnu_cxx" || s == "__gnu_parallel") return true;
        return RecursiveASTVisitor<V>::TraverseNamespaceDecl(N);
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        Ex e(C);
        V v(e);
        v.TraverseDecl(C.getTranslationUnitDecl());
        // C records are RecordDecls (not CXX): emitted as plain ones
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>();
    }
    void EndSourceFileAction() override {
        // every repository file that was read: the cache key and the coverage report
        Array fs;
        auto &SM = getCompilerInstance().getSourceManager();
        std::set<std::string> names;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            llvm::SmallString<256> rp;
            if (!llvm::sys::fs::real_path(it->first.getName(), rp)) {
                std::string f = rp.str().str();
                if (f.rfind(Root + "/", 0) == 0) names.insert(f.substr(Root.size() + 1));
            }
        }
        for (auto &n : names) fs.push_back(n);
        Object o;
        o["k"] = "deps";
        o["files"] = std::move(fs);
        o["errors"] = (int64_t)getCompilerInstance().getDiagnostics().hasErrorOccurred();
        *Out << Value(std::move(o)) << "\n";
    }
};
} // namespace

int main(int argc, char **argv) {
    // extract ROOT OUT FILE -- flags...
    if (argc < 5) return 2;
    Root = argv[1];
    std::error_code ec;
    Out = std::make_unique<llvm::raw_fd_ostream>(argv[2], ec);
    if (ec) return 2;
    std::vector<std::string> args(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(Root, args);
    tooling::ClangTool tool(db, {argv[3]});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    Out->flush();
    return rc;
}
