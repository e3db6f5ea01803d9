// knpfacts: dumps the resolved (type-checked, template-instantiated) program of a translation unit as JSON.
//
// For every function whose body lies under the given root directory -- including template instantiations, lambda call
// operators and implicit/defaulted members that the compiler generated -- the tool writes a simplified, typed syntax
// tree with resolved callees, resolved members and resolved template arguments.  Records and enums are written as
// field/constant tables.  The rules themselves live in the Python side; this program takes no decision.
//
// usage: knpfacts <root> <out.json> <file.cpp> -- <compiler arguments>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutPath;
static bool HadErrors = false;

namespace
{
class Dumper
{
public:
    explicit Dumper(ASTContext &ctx) : Ctx(ctx), PP(ctx.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = false;
        PP.AnonymousTagLocations = true;
    }

    ASTContext &Ctx;
    PrintingPolicy PP;
    std::map<std::string, int> TypeIx;
    Array Types;
    std::unordered_map<const Decl *, int> VarIx;
    std::map<std::string, int> FnIx;
    Array FnTable;
    Array Functions;
    Array Records;
    Array Enums;
    Array Globals;
    Array Aliases;
    std::set<std::string> Seen;

    // ---------------------------------------------------------------- helpers
    static std::string norm(std::string p)
    {
        if (p.rfind(Root, 0) == 0) return p.substr(Root.size());
        return p;
    }

    std::string fileOf(SourceLocation l) const
    {
        l = Ctx.getSourceManager().getExpansionLoc(l);
        auto f = Ctx.getSourceManager().getPresumedLoc(l);
        if (f.isInvalid()) return "";
        return f.getFilename();
    }

    unsigned lineOf(SourceLocation l) const
    {
        return Ctx.getSourceManager().getExpansionLineNumber(l);
    }

    bool inRoot(SourceLocation l) const
    {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        if (f.rfind(Root, 0) != 0) return false;
        std::string r = f.substr(Root.size());
        return r.find("_build/") == std::string::npos && r.find("/tests/") == std::string::npos;
    }

    int type(QualType t)
    {
        if (t.isNull()) return -1;
        std::string s = t.getCanonicalType().getAsString(PP);
        auto it = TypeIx.find(s);
        if (it != TypeIx.end()) return it->second;
        int n = static_cast<int>(Types.size());
        TypeIx[s] = n;
        Types.push_back(s);
        return n;
    }

    int var(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto it = VarIx.find(d);
        if (it != VarIx.end()) return it->second;
        int n = static_cast<int>(VarIx.size()) + 1;
        VarIx[d] = n;
        return n;
    }

    static void qnWalk(const DeclContext *dc, std::string &out)
    {
        if (!dc || dc->isTranslationUnit()) return;
        if (auto *ls = dyn_cast<LinkageSpecDecl>(dc)) return qnWalk(ls->getParent(), out);
        if (auto *ns = dyn_cast<NamespaceDecl>(dc))
        {
            qnWalk(dc->getParent(), out);
            if (ns->isInline()) return;
            out += ns->isAnonymousNamespace() ? "(anonymous)" : ns->getNameAsString();
            out += "::";
            return;
        }
        if (auto *r = dyn_cast<RecordDecl>(dc))
        {
            qnWalk(dc->getParent(), out);
            auto *cr = dyn_cast<CXXRecordDecl>(r);
            if (cr && cr->isLambda())
                out += "(lambda)";
            else
                out += r->getNameAsString();
            out += "::";
            return;
        }
        if (auto *f = dyn_cast<FunctionDecl>(dc))
        {
            qnWalk(dc->getParent(), out);
            out += f->getNameAsString();
            out += "::";
            return;
        }
        if (auto *e = dyn_cast<EnumDecl>(dc))
        {
            qnWalk(dc->getParent(), out);
            if (e->isScoped() || true) out += e->getNameAsString() + "::";
            return;
        }
        qnWalk(dc->getParent(), out);
    }

    static std::string qn(const NamedDecl *d)
    {
        if (!d) return "";
        std::string out;
        qnWalk(d->getDeclContext(), out);
        if (auto *r = dyn_cast<CXXRecordDecl>(d); r && r->isLambda())
            out += "(lambda)";
        else if (auto *c = dyn_cast<CXXConstructorDecl>(d))
            out += c->getParent()->getNameAsString();
        else if (auto *ds = dyn_cast<CXXDestructorDecl>(d))
            out += "~" + ds->getParent()->getNameAsString();
        else if (isa<CXXConversionDecl>(d))
            out += "operator " + std::string("conv");
        else
            out += d->getNameAsString();
        return out;
    }

    std::string usr(const Decl *d) const
    {
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf)) return "";
        std::string s(buf.str());
        return s;
    }

    std::string templArgs(const FunctionDecl *f)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *ta = f->getTemplateSpecializationArgs()) printTemplateArgumentList(os, ta->asArray(), PP);
        return os.str();
    }

    std::string className(const CXXRecordDecl *r)
    {
        return Ctx.getRecordType(r).getCanonicalType().getAsString(PP);
    }

    std::string fnId(const FunctionDecl *f)
    {
        f = f->getCanonicalDecl();
        std::string s = usr(f);
        bool lam = false;
        std::string ctxkey;
        for (const DeclContext *dc = f; dc; dc = dc->getParent())
        {
            if (auto *r = dyn_cast<CXXRecordDecl>(dc); r && r->isLambda()) lam = true;
            if (auto *r = dyn_cast<CXXRecordDecl>(dc))
                if (auto *s2 = dyn_cast<ClassTemplateSpecializationDecl>(r)) ctxkey += "|" + className(s2);
            if (auto *pf = dyn_cast<FunctionDecl>(dc))
            {
                std::string ta = templArgs(pf);
                if (!ta.empty()) ctxkey += "|" + ta;
                if (lam && pf != f)
                    for (auto *p : pf->parameters()) ctxkey += "," + p->getType().getCanonicalType().getAsString(PP);
            }
        }
        if (lam || s.empty())
        {
            auto &sm = Ctx.getSourceManager();
            auto l = sm.getExpansionLoc(f->getLocation());
            s += "@" + norm(fileOf(l)) + ":" + std::to_string(sm.getExpansionLineNumber(l)) + ":" +
                 std::to_string(sm.getExpansionColumnNumber(l));
            for (auto *p : f->parameters()) s += "," + p->getType().getCanonicalType().getAsString(PP);
        }
        return s + ctxkey;
    }

    int fn(const FunctionDecl *f)
    {
        std::string id = fnId(f);
        auto it = FnIx.find(id);
        if (it != FnIx.end()) return it->second;
        int n = static_cast<int>(FnTable.size());
        FnIx[id] = n;
        Object o;
        o["id"] = id;
        o["qn"] = qn(f);
        std::string ta = templArgs(f);
        if (!ta.empty()) o["ta"] = ta;
        Array pn, pt;
        for (auto *p : f->parameters())
        {
            pn.push_back(p->getNameAsString());
            pt.push_back(type(p->getType()));
        }
        o["pn"] = std::move(pn);
        o["pt"] = std::move(pt);
        o["rt"] = type(f->getReturnType());
        o["noret"] = f->isNoReturn();
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = qn(m->getParent());
            if (isa<ClassTemplateSpecializationDecl>(m->getParent())) o["clst"] = className(m->getParent());
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["virt"] = m->isVirtual();
            o["pure"] = m->isPureVirtual();
            if (isa<CXXConstructorDecl>(m)) o["fk"] = "ctor";
            if (isa<CXXDestructorDecl>(m)) o["fk"] = "dtor";
            if (isa<CXXConversionDecl>(m)) o["fk"] = "conv";
            if (auto *c = dyn_cast<CXXConstructorDecl>(m))
            {
                if (c->isCopyConstructor()) o["cm"] = "copy";
                if (c->isMoveConstructor()) o["cm"] = "move";
            }
            else
            {
                if (m->isCopyAssignmentOperator()) o["cm"] = "copy=";
                if (m->isMoveAssignmentOperator()) o["cm"] = "move=";
            }
            if (m->getParent()->isLambda()) o["lam"] = true;
            Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(fn(b));
            if (!ov.empty()) o["over"] = std::move(ov);
            o["acc"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_protected ? "protected" : "private");
        }
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isDefaulted()) o["dflt"] = true;
        o["inroot"] = inRoot(f->getLocation());
        o["file"] = norm(fileOf(f->getLocation()));
        o["line"] = static_cast<int64_t>(lineOf(f->getLocation()));
        if (FnTable.size() == static_cast<size_t>(n))
            FnTable.push_back(std::move(o));
        else
        {
            // Overridden methods were interned first: keep indexes consistent.
            int m = static_cast<int>(FnTable.size());
            FnTable.push_back(std::move(o));
            FnIx[id] = m;
            return m;
        }
        return n;
    }

    // ---------------------------------------------------------------- expressions
    Object node(const char *k, const Stmt *s)
    {
        Object o;
        o["k"] = k;
        if (s) o["l"] = static_cast<int64_t>(lineOf(s->getBeginLoc()));
        return o;
    }

    static bool namesStep(QualType t)
    {
        if (t.isNull()) return false;
        if (t->isReferenceType()) t = t->getPointeeType();
        while (const auto *td = t->getAs<TypedefType>())
        {
            if (td->getDecl()->getName() == "Step") return true;
            t = td->desugar();
        }
        return false;
    }

    bool wide(QualType t) const
    {
        if (t.isNull() || t->isDependentType()) return false;
        t = t.getNonReferenceType();
        return t->isIntegralOrEnumerationType() && Ctx.getTypeSize(t) >= 64;
    }

    static bool stepName(const ValueDecl *d)
    {
        if (!d || !d->getDeclName().isIdentifier()) return false;
        std::string n = "_" + d->getName().lower() + "_";
        for (const char *w : {"_step_", "_stepn_", "_isi_spike_", "_send_time_", "_last_spike_"})
            if (n.find(w) != std::string::npos) return true;
        return false;
    }

    // 1: the value is a step number (or one moved by a distance), 2: the distance between two, 0: neither.
    int isStep(const Expr *e) const
    {
        if (!e) return 0;
        e = e->IgnoreParenCasts();
        if (auto *b = dyn_cast<BinaryOperator>(e))
        {
            const int l = isStep(b->getLHS()), r = isStep(b->getRHS());
            switch (b->getOpcode())
            {
                case BO_Add:
                    return l == 1 || r == 1 ? 1 : l == 2 || r == 2 ? 2 : 0;
                case BO_Sub:
                    return l == 1 && r == 1 ? 2 : l ? l : r;
                case BO_Comma:
                case BO_Assign:
                    return r;
                default:
                    return 0;
            }
        }
        if (auto *c = dyn_cast<ConditionalOperator>(e)) return std::max(isStep(c->getTrueExpr()), isStep(c->getFalseExpr()));
        if (auto *m = dyn_cast<MaterializeTemporaryExpr>(e)) return isStep(m->getSubExpr());
        if (auto *u = dyn_cast<UnaryOperator>(e); u && u->isIncrementDecrementOp()) return isStep(u->getSubExpr());
        if (!wide(e->getType())) return 0;
        if (namesStep(e->getType())) return 1;
        if (auto *d = dyn_cast<DeclRefExpr>(e)) return stepName(d->getDecl()) ? 1 : 0;
        if (auto *m = dyn_cast<MemberExpr>(e)) return stepName(m->getMemberDecl()) ? 1 : 0;
        return 0;
    }

    // The difference of two 64-bit numbers that were rounded before it was taken.
    bool lateDifference(const BinaryOperator *b) const
    {
        if (b->getOpcode() != BO_Sub || !b->getType()->isFloatingType()) return false;
        for (const Expr *e : {b->getLHS(), b->getRHS()})
        {
            Expr::EvalResult r;
            const Expr *s = e->IgnoreParenCasts();
            if (s->isValueDependent() || !wide(s->getType()) || s->EvaluateAsRValue(r, Ctx)) return false;
        }
        return true;
    }

    // A conversion between numbers that cannot represent every value of its operand.
    bool loses(const ImplicitCastExpr *x)
    {
        const Expr *sub = x->getSubExpr();
        if (sub->isTypeDependent() || sub->isValueDependent() || x->isTypeDependent()) return false;
        QualType from = sub->getType(), to = x->getType();
        switch (x->getCastKind())
        {
            case CK_IntegralCast:
                if (!from->isIntegralOrEnumerationType() || !to->isIntegralOrEnumerationType()) return false;
                if (Ctx.getTypeSize(to) >= Ctx.getTypeSize(from)) return false;
                break;
            case CK_FloatingToIntegral:
                break;
            case CK_IntegralToFloating:
            {
                const unsigned digits = llvm::APFloat::semanticsPrecision(Ctx.getFloatTypeSemantics(to));
                if (Ctx.getTypeSize(from) <= digits) return false;
                break;
            }
            default:
                return false;
        }
        Expr::EvalResult r;
        return !sub->EvaluateAsRValue(r, Ctx);
    }

    const Expr *strip(const Expr *e)
    {
        while (e)
        {
            if (auto *x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<ImplicitCastExpr>(e); x && !loses(x))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<ConstantExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e))
                e = x->getExpr();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e))
                e = x->getExpr();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<FullExpr>(e))
                e = x->getSubExpr();
            else
                break;
        }
        return e;
    }

    Array exprs(llvm::ArrayRef<const Expr *> es)
    {
        Array a;
        for (auto *e : es) a.push_back(expr(e));
        return a;
    }

    template <class R>
    Array exprRange(R range)
    {
        Array a;
        for (auto *e : range)
        {
            if (auto *x = dyn_cast<Expr>(e)) a.push_back(expr(x));
        }
        return a;
    }

    static bool isLogCall(const CallExpr *c)
    {
        if (auto *f = c->getDirectCallee())
        {
            std::string q = qn(f);
            return q.rfind("spdlog::", 0) == 0;
        }
        return false;
    }

    Value lambda(const LambdaExpr *le)
    {
        Object o = node("lambda", le);
        const CXXRecordDecl *rc = le->getLambdaClass();
        Array ops;
        auto emit = [&](const FunctionDecl *f)
        {
            if (!f) return;
            function(f);
            ops.push_back(fn(f));
        };
        if (auto *ft = rc->getDependentLambdaCallOperator())
        {
            for (auto *s : ft->specializations()) emit(s);
        }
        else
            emit(rc->getLambdaCallOperator());
        o["ops"] = std::move(ops);
        Array caps;
        auto it = le->capture_init_begin();
        for (const auto &c : le->captures())
        {
            Object co;
            if (c.capturesThis())
                co["this"] = true;
            else if (c.capturesVariable())
            {
                const auto *v = c.getCapturedVar();
                co["id"] = var(v);
                co["n"] = v->getNameAsString();
                if (auto *vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture() && vd->getInit())
                    co["e"] = expr(vd->getInit());
            }
            co["ref"] = c.getCaptureKind() == LCK_ByRef;
            caps.push_back(std::move(co));
            ++it;
        }
        o["caps"] = std::move(caps);
        if (auto *m = rc->getDependentLambdaCallOperator() ? nullptr : rc->getLambdaCallOperator())
            o["mut"] = !m->isConst();
        return o;
    }

    Value expr(const Expr *e0)
    {
        const Expr *e = strip(e0);
        if (!e) return nullptr;
        if (auto *x = dyn_cast<DeclRefExpr>(e))
        {
            Object o = node("ref", e);
            const ValueDecl *d = x->getDecl();
            o["n"] = d->getNameAsString();
            if (auto *f = dyn_cast<FunctionDecl>(d))
            {
                o["dk"] = "func";
                o["f"] = fn(f);
            }
            else if (isa<EnumConstantDecl>(d))
            {
                o["dk"] = "enum";
                o["qn"] = qn(d);
                llvm::SmallString<32> s;
                cast<EnumConstantDecl>(d)->getInitVal().toString(s, 10);
                o["v"] = std::string(s.str());
            }
            else if (auto *b = dyn_cast<BindingDecl>(d))
            {
                o["dk"] = "bind";
                o["id"] = var(b);
                o["t"] = type(b->getType());
                if (auto *dd = dyn_cast_or_null<DecompositionDecl>(b->getDecomposedDecl())) o["of"] = var(dd);
            }
            else if (auto *v = dyn_cast<VarDecl>(d))
            {
                o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (v->isLocalVarDecl() ? "var" : "global");
                o["id"] = var(v);
                o["t"] = type(v->getType());
                if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) o["qn"] = qn(v);
                if (v->isStaticLocal()) o["dk"] = "global";
                if (!v->isLocalVarDeclOrParm() && v->getType().isConstQualified())
                {
                    // Compile-time constants are folded, so that naming a constant changes nothing.
                    Expr::EvalResult r;
                    if (v->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() &&
                        e->EvaluateAsInt(r, Ctx))
                    {
                        llvm::SmallString<32> s;
                        r.Val.getInt().toString(s, 10);
                        o["cv"] = std::string(s.str());
                    }
                }
                else if (v->isLocalVarDecl() && v->getType().isConstQualified() && v->isConstexpr())
                {
                    Expr::EvalResult r;
                    if (v->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() &&
                        e->EvaluateAsInt(r, Ctx))
                    {
                        llvm::SmallString<32> s;
                        r.Val.getInt().toString(s, 10);
                        o["cv"] = std::string(s.str());
                    }
                }
            }
            else
            {
                o["dk"] = "other";
            }
            return o;
        }
        if (auto *x = dyn_cast<MemberExpr>(e))
        {
            const ValueDecl *d = x->getMemberDecl();
            if (auto *v = dyn_cast<VarDecl>(d))
            {
                Object o = node("ref", e);
                o["n"] = d->getNameAsString();
                o["dk"] = "global";
                o["id"] = var(v);
                o["qn"] = qn(v);
                o["t"] = type(v->getType());
                return o;
            }
            if (auto *en = dyn_cast<EnumConstantDecl>(d))
            {
                Object o = node("ref", e);
                o["dk"] = "enum";
                o["qn"] = qn(en);
                return o;
            }
            Object o = node("mem", e);
            o["n"] = d->getNameAsString();
            if (auto *fd = dyn_cast<FieldDecl>(d)) o["cls"] = qn(fd->getParent());
            if (auto *f = dyn_cast<FunctionDecl>(d)) o["f"] = fn(f);
            o["t"] = type(d->getType());
            o["b"] = expr(x->getBase());
            if (x->isArrow()) o["arrow"] = true;
            return o;
        }
        if (isa<CXXThisExpr>(e)) return node("this", e);
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            Object o = node("call", e);
            if (auto *f = x->getDirectCallee())
            {
                o["f"] = fn(f);
                o["op"] = getOperatorSpelling(x->getOperator());
                Array a;
                unsigned i = 0;
                bool mem = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                for (auto *arg : x->arguments())
                {
                    if (mem && i == 0)
                        o["o"] = expr(arg);
                    else
                        a.push_back(expr(arg));
                    ++i;
                }
                o["a"] = std::move(a);
            }
            else
            {
                o["fe"] = expr(x->getCallee());
                o["a"] = exprRange(x->arguments());
            }
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(e))
        {
            Object o = node(isLogCall(x) ? "log" : "call", e);
            if (auto *f = x->getMethodDecl())
            {
                o["f"] = fn(f);
                if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                {
                    if (f->isVirtual() && !me->hasQualifier()) o["virt"] = true;
                    if (me->isArrow()) o["arrow"] = true;
                }
            }
            else
                o["fe"] = expr(x->getCallee());
            o["o"] = expr(x->getImplicitObjectArgument());
            if (auto *ob = x->getImplicitObjectArgument()) o["ot"] = type(ob->getType());
            o["a"] = exprRange(x->arguments());
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<CallExpr>(e))
        {
            Object o = node(isLogCall(x) ? "log" : "call", e);
            if (auto *f = x->getDirectCallee())
                o["f"] = fn(f);
            else
                o["fe"] = expr(x->getCallee());
            o["a"] = exprRange(x->arguments());
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            Object o = node("ctor", e);
            o["f"] = fn(x->getConstructor());
            o["a"] = Array();
            o["inherited"] = true;
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e))
        {
            Object o = node("ctor", e);
            o["f"] = fn(x->getConstructor());
            o["a"] = exprRange(x->arguments());
            o["t"] = type(e->getType());
            if (x->getConstructor()->isCopyConstructor()) o["cm"] = "copy";
            if (x->getConstructor()->isMoveConstructor()) o["cm"] = "move";
            return o;
        }
        if (auto *x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto *x = dyn_cast<BinaryOperator>(e))
        {
            Object o = node("bin", e);
            if (lateDifference(x)) o["late"] = true;
            o["op"] = std::string(x->getOpcodeStr());
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["t"] = type(e->getType());
            o["lt"] = type(x->getLHS()->getType());
            o["rt"] = type(x->getRHS()->getType());
            return o;
        }
        if (auto *x = dyn_cast<UnaryOperator>(e))
        {
            Object o = node("un", e);
            std::string op = std::string(UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = expr(x->getSubExpr());
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<AbstractConditionalOperator>(e))
        {
            Object o = node("cond", e);
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto *x = dyn_cast<ImplicitCastExpr>(e))
        {
            Object o = node("cast", e);
            o["ck"] = "Narrow";
            if (const int st = isStep(x->getSubExpr())) o["step"] = st == 1 ? "from" : "distance";
            if (namesStep(x->getType())) o["step"] = "to";
            o["t"] = type(x->getType());
            o["st"] = type(x->getSubExpr()->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<ExplicitCastExpr>(e))
        {
            Object o = node("cast", e);
            o["ck"] = x->getCastKindName();
            o["t"] = type(x->getTypeAsWritten());
            o["st"] = type(x->getSubExpr()->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<IntegerLiteral>(e))
        {
            Object o = node("lit", e);
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, true);
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto *x = dyn_cast<FloatingLiteral>(e))
        {
            Object o = node("lit", e);
            llvm::SmallString<32> s;
            x->getValue().toString(s);
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            Object o = node("lit", e);
            o["v"] = x->getValue() ? "true" : "false";
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
        {
            Object o = node("lit", e);
            o["v"] = "nullptr";
            return o;
        }
        if (auto *x = dyn_cast<CharacterLiteral>(e))
        {
            Object o = node("lit", e);
            o["v"] = "'" + std::to_string(x->getValue()) + "'";
            return o;
        }
        if (auto *x = dyn_cast<StringLiteral>(e))
        {
            Object o = node("str", e);
            std::string s = x->isOrdinary() || x->isUTF8() ? x->getString().str() : std::string("<wide>");
            if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
            o["v"] = s;
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr>(e))
        {
            const InitListExpr *sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            Object o = node("init", e);
            o["t"] = type(e->getType());
            Array a;
            for (unsigned i = 0; i < sem->getNumInits(); ++i) a.push_back(expr(sem->getInit(i)));
            o["a"] = std::move(a);
            if (auto *rt = e->getType()->getAsCXXRecordDecl())
            {
                Array fnames;
                if (rt->isAggregate())
                {
                    for (auto &b : rt->bases()) fnames.push_back("<base>" + b.getType().getCanonicalType().getAsString(PP));
                    for (auto *f : rt->fields()) fnames.push_back(f->getNameAsString());
                }
                o["fn"] = std::move(fnames);
                o["cls"] = qn(rt);
            }
            return o;
        }
        if (auto *x = dyn_cast<CXXThrowExpr>(e))
        {
            Object o = node("throw", e);
            if (x->getSubExpr())
            {
                o["e"] = expr(x->getSubExpr());
                o["t"] = type(x->getSubExpr()->getType());
            }
            return o;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
        {
            Object o = node("sub", e);
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            return o;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e))
        {
            Object o = node("new", e);
            o["t"] = type(x->getAllocatedType());
            if (x->getInitializer()) o["e"] = expr(x->getInitializer());
            if (x->getNumPlacementArgs()) o["pl"] = exprRange(x->placement_arguments());
            return o;
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e))
        {
            Object o = node("del", e);
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto *x = dyn_cast<CXXTypeidExpr>(e))
        {
            Object o = node("typeid", e);
            (void)x;
            return o;
        }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
        {
            Object o = node("zero", e);
            o["t"] = type(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return expr(x->getCommonExpr());
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Object o = node("lit", e);
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, Ctx))
            {
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str());
            }
            else
                o["v"] = "sizeof";
            (void)x;
            return o;
        }
        if (auto *x = dyn_cast<CXXNoexceptExpr>(e))
        {
            Object o = node("lit", e);
            o["v"] = x->getValue() ? "true" : "false";
            return o;
        }
        if (auto *x = dyn_cast<TypeTraitExpr>(e))
        {
            Object o = node("lit", e);
            o["v"] = (!x->isValueDependent() && x->getValue()) ? "true" : "false";
            return o;
        }
        if (auto *x = dyn_cast<PredefinedExpr>(e))
        {
            Object o = node("str", e);
            o["v"] = "__func__";
            (void)x;
            return o;
        }
        if (auto *x = dyn_cast<CXXFoldExpr>(e))
        {
            Object o = node("otherx", e);
            o["c"] = "CXXFoldExpr";
            (void)x;
            return o;
        }
        Object o = node("otherx", e);
        o["c"] = e->getStmtClassName();
        o["t"] = type(e->getType());
        Array ch;
        for (const Stmt *c : e->children())
            if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
        o["a"] = std::move(ch);
        return o;
    }

    // ---------------------------------------------------------------- statements
    Value vardecl(const VarDecl *v)
    {
        Object o;
        o["id"] = var(v);
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        o["l"] = static_cast<int64_t>(lineOf(v->getLocation()));
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v))
        {
            Array b;
            for (auto *bd : dd->bindings())
            {
                Object bo;
                bo["id"] = var(bd);
                bo["n"] = bd->getNameAsString();
                if (auto *hv = bd->getHoldingVar())
                {
                    bo["hid"] = var(hv);
                    if (hv->getInit()) bo["e"] = expr(hv->getInit());
                }
                else if (bd->getBinding())
                    bo["e"] = expr(bd->getBinding());
                b.push_back(std::move(bo));
            }
            o["binds"] = std::move(b);
        }
        return o;
    }

    Value stmt(const Stmt *s)
    {
        if (!s) return nullptr;
        if (auto *x = dyn_cast<Expr>(s)) return expr(x);
        if (auto *x = dyn_cast<CompoundStmt>(s))
        {
            Object o = node("block", s);
            Array a;
            for (auto *c : x->body()) a.push_back(stmt(c));
            o["s"] = std::move(a);
            o["el"] = static_cast<int64_t>(lineOf(x->getRBracLoc()));
            return o;
        }
        if (auto *x = dyn_cast<DeclStmt>(s))
        {
            Object o = node("decl", s);
            Array a;
            for (auto *d : x->decls())
                if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            o["v"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<IfStmt>(s))
        {
            Object o = node("if", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["var"] = vardecl(x->getConditionVariable());
            if (x->isConstexpr())
            {
                Expr::EvalResult r;
                if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, Ctx))
                    o["cx"] = r.Val.getInt().getBoolValue();
            }
            o["c"] = expr(x->getCond());
            o["t"] = stmt(x->getThen());
            if (x->getElse()) o["e"] = stmt(x->getElse());
            return o;
        }
        if (auto *x = dyn_cast<ForStmt>(s))
        {
            Object o = node("for", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s))
        {
            Object o = node("rfor", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["v"] = vardecl(x->getLoopVariable());
            o["r"] = expr(x->getRangeInit());
            o["rtt"] = type(x->getRangeInit()->getType());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<WhileStmt>(s))
        {
            Object o = node("while", s);
            if (x->getConditionVariable()) o["var"] = vardecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<DoStmt>(s))
        {
            Object o = node("do", s);
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<SwitchStmt>(s))
        {
            Object o = node("switch", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["var"] = vardecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["ct"] = type(x->getCond()->IgnoreParenImpCasts()->getType());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<CaseStmt>(s))
        {
            Object o = node("case", s);
            o["v"] = expr(x->getLHS());
            Expr::EvalResult r;
            if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, Ctx))
            {
                llvm::SmallString<32> ss;
                r.Val.getInt().toString(ss, 10);
                o["cv"] = std::string(ss.str());
            }
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto *x = dyn_cast<DefaultStmt>(s))
        {
            Object o = node("default", s);
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto *x = dyn_cast<ReturnStmt>(s))
        {
            Object o = node("ret", s);
            if (x->getRetValue()) o["e"] = expr(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) return node("break", s);
        if (isa<ContinueStmt>(s)) return node("continue", s);
        if (isa<NullStmt>(s)) return node("nop", s);
        if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto *x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
        if (auto *x = dyn_cast<CXXTryStmt>(s))
        {
            Object o = node("try", s);
            o["b"] = stmt(x->getTryBlock());
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                const auto *c = x->getHandler(i);
                Object co = node("catch", c);
                if (c->getExceptionDecl()) co["v"] = vardecl(c->getExceptionDecl());
                if (!c->getCaughtType().isNull()) co["t"] = type(c->getCaughtType());
                co["b"] = stmt(c->getHandlerBlock());
                h.push_back(std::move(co));
            }
            o["h"] = std::move(h);
            return o;
        }
        Object o = node("others", s);
        o["c"] = s->getStmtClassName();
        return o;
    }

    // ---------------------------------------------------------------- declarations
    void function(const FunctionDecl *f)
    {
        if (!f) return;
        const FunctionDecl *def = nullptr;
        if (!f->hasBody(def)) return;
        f = def;
        if (f->isDependentContext()) return;
        if (!inRoot(f->getLocation())) return;
        std::string id = fnId(f);
        if (!Seen.insert(id).second) return;
        Object o;
        o["f"] = fn(f);
        o["file"] = norm(fileOf(f->getLocation()));
        o["line"] = static_cast<int64_t>(lineOf(f->getLocation()));
        o["eline"] = static_cast<int64_t>(lineOf(f->getEndLoc()));
        Array ps;
        for (auto *p : f->parameters())
        {
            Object po;
            po["id"] = var(p);
            po["n"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["p"] = std::move(ps);
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isDefaulted()) o["dflt"] = true;
        if (auto *c = dyn_cast<CXXConstructorDecl>(f))
        {
            Array in;
            for (auto *i : c->inits())
            {
                Object io;
                if (i->isAnyMemberInitializer())
                    io["m"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer())
                    io["base"] = QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(PP);
                else
                    io["deleg"] = true;
                io["w"] = i->isWritten();
                io["e"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["ci"] = std::move(in);
        }
        o["b"] = stmt(f->getBody());
        Functions.push_back(std::move(o));
    }

    void record(const CXXRecordDecl *r)
    {
        r = r->getDefinition();
        if (!r || r->isDependentContext() || r->isLambda()) return;
        if (!inRoot(r->getLocation())) return;
        std::string key = "R:" + className(r);
        if (!Seen.insert(key).second) return;
        Object o;
        o["qn"] = qn(r);
        o["t"] = className(r);
        o["file"] = norm(fileOf(r->getLocation()));
        o["line"] = static_cast<int64_t>(lineOf(r->getLocation()));
        Array fs;
        for (auto *f : r->fields())
        {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["l"] = static_cast<int64_t>(lineOf(f->getLocation()));
            fo["acc"] = f->getAccess() == AS_public ? "public" : (f->getAccess() == AS_protected ? "protected" : "private");
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fo["mut"] = f->isMutable();
            fs.push_back(std::move(fo));
        }
        o["f"] = std::move(fs);
        Array bs;
        for (auto &b : r->bases()) bs.push_back(b.getType().getCanonicalType().getAsString(PP));
        o["bases"] = std::move(bs);
        Array ms;
        for (auto *m : r->methods()) ms.push_back(fn(m));
        o["m"] = std::move(ms);
        Array td;
        for (auto *d : r->decls())
            if (auto *t = dyn_cast<TypedefNameDecl>(d))
            {
                Object to;
                to["n"] = t->getNameAsString();
                to["t"] = type(t->getUnderlyingType());
                td.push_back(std::move(to));
            }
        o["td"] = std::move(td);
        o["agg"] = r->isAggregate();
        Records.push_back(std::move(o));
    }

    void enumd(const EnumDecl *e)
    {
        bool gen = fileOf(e->getLocation()).find("_generated.h") != std::string::npos;
        if (!inRoot(e->getLocation()) && !gen) return;
        if (!e->isComplete() || e->isDependentContext()) return;
        if (!Seen.insert("E:" + qn(e)).second) return;
        Object o;
        o["qn"] = qn(e);
        o["file"] = norm(fileOf(e->getLocation()));
        Array cs;
        for (auto *c : e->enumerators())
        {
            Object co;
            co["n"] = c->getNameAsString();
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            co["v"] = std::string(s.str());
            cs.push_back(std::move(co));
        }
        o["c"] = std::move(cs);
        Enums.push_back(std::move(o));
    }

    void global(const VarDecl *v)
    {
        if (v->isLocalVarDeclOrParm() || !inRoot(v->getLocation())) return;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return;
        if (isa<VarTemplatePartialSpecializationDecl>(v) || v->getDescribedVarTemplate()) return;
        std::string key = "V:" + usr(v);
        if (!Seen.insert(key).second) return;
        Object o;
        o["qn"] = qn(v);
        o["n"] = v->getNameAsString();
        o["id"] = var(v);
        o["t"] = type(v->getType());
        o["file"] = norm(fileOf(v->getLocation()));
        o["line"] = static_cast<int64_t>(lineOf(v->getLocation()));
        if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = expr(v->getInit());
        Globals.push_back(std::move(o));
    }

    void alias(const TypedefNameDecl *t)
    {
        if (!inRoot(t->getLocation()) || t->getDeclContext()->isDependentContext()) return;
        if (t->getUnderlyingType()->isDependentType() || t->getDeclContext()->isFunctionOrMethod()) return;
        if (auto *ta = dyn_cast<TypeAliasDecl>(t); ta && ta->getDescribedAliasTemplate()) return;
        std::string key = "A:" + qn(t);
        if (!Seen.insert(key).second) return;
        Object o;
        o["qn"] = qn(t);
        o["t"] = type(t->getUnderlyingType());
        Aliases.push_back(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    explicit Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseDecl(Decl *d)
    {
        // Skip foreign top-level declarations quickly, but keep namespaces (they may be reopened here).
        if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d))
        {
            SourceLocation l = d->getLocation();
            if (l.isValid() && !D.inRoot(l))
            {
                if (auto *e = dyn_cast<EnumDecl>(d)) D.enumd(e);
                return true;
            }
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        D.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (r->isThisDeclarationADefinition()) D.record(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e)
    {
        D.enumd(e);
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        D.global(v);
        return true;
    }
    bool VisitTypedefNameDecl(TypedefNameDecl *t)
    {
        D.alias(t);
        return true;
    }
    Dumper &D;
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        Object o;
        o["types"] = std::move(d.Types);
        o["fns"] = std::move(d.FnTable);
        o["functions"] = std::move(d.Functions);
        o["records"] = std::move(d.Records);
        o["enums"] = std::move(d.Enums);
        o["globals"] = std::move(d.Globals);
        o["aliases"] = std::move(d.Aliases);
        o["errors"] = ctx.getDiagnostics().hasErrorOccurred();
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        os << Value(std::move(o));
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
}  // namespace

int main(int argc, const char **argv)
{
    if (argc < 5) return 64;
    Root = argv[1];
    OutPath = argv[2];
    std::string src = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {src});
    auto f = tooling::newFrontendActionFactory<Action>();
    int rc = tool.run(f.get());
    return rc;
}
