// Fact extractor: parses one translation unit of the repository with clang and writes the resolved
// program (records, enums, functions with their fully resolved syntax trees, globals) as JSON.
// It takes no decision; the rules are in /verif/engine.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Sema/Sema.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;   // source prefixes whose declarations are extracted

namespace {

class Extractor : public RecursiveASTVisitor<Extractor>
{
public:

    Extractor(ASTContext& c)
        : ctx(c)
        , sm(c.getSourceManager())
        , pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.SuppressUnwrittenScope = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    json::Object records, enums, functions, globals;
    std::set<const FunctionDecl*> seen;
    std::map<const Decl*, std::string> usrs;
    std::map<std::string, int> files;
    std::vector<std::string> filelist;
    std::map<const VarDecl*, std::string> varids;
    int nvars = 0;

    std::string file_of(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        return f.str();
    }

    bool in_roots(const Decl* d)
    {
        std::string f = file_of(d->getLocation());
        for (auto& r : g_roots)
        {
            if (f.compare(0, r.size(), r) == 0)
            {
                return true;
            }
        }
        return false;
    }

    int fidx(const std::string& f)
    {
        auto it = files.find(f);
        if (it != files.end())
        {
            return it->second;
        }
        int n = filelist.size();
        filelist.push_back(f);
        files[f] = n;
        return n;
    }

    json::Array loc(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        return json::Array{fidx(sm.getFilename(l).str()), (int64_t)sm.getExpansionLineNumber(l)};
    }

    std::string usr(const Decl* d)
    {
        auto it = usrs.find(d);
        if (it != usrs.end())
        {
            return it->second;
        }
        llvm::SmallString<256> s;
        std::string r;
        if (index::generateUSRForDecl(d, s))
        {
            r = "?" + std::to_string((uintptr_t)d);
        }
        else
        {
            r = s.str().str();
        }
        usrs[d] = r;
        return r;
    }

    std::string ty(QualType q)
    {
        if (q.isNull())
        {
            return "";
        }
        return q.getCanonicalType().getAsString(pp);
    }

    const CXXRecordDecl* rec_of(QualType q)
    {
        if (q.isNull())
        {
            return nullptr;
        }
        q = q.getCanonicalType().getNonReferenceType();
        while (q->isPointerType())
        {
            q = q->getPointeeType().getCanonicalType();
        }
        return q->getAsCXXRecordDecl();
    }

    std::string qn(const NamedDecl* d)
    {
        return d->getQualifiedNameAsString();
    }

    std::string varid(const VarDecl* v)
    {
        v = v->getCanonicalDecl();
        if (v->hasGlobalStorage() && !v->isStaticLocal())
        {
            return "g:" + usr(v);
        }
        auto it = varids.find(v);
        if (it != varids.end())
        {
            return it->second;
        }
        std::string id = (v->isStaticLocal() ? "sl:" : "v:") + v->getNameAsString() + "#" + std::to_string(nvars++);
        varids[v] = id;
        return id;
    }

    json::Object callee(const FunctionDecl* f)
    {
        json::Object o;
        const FunctionDecl* d = f;
        o["u"] = usr(d->getCanonicalDecl());
        o["q"] = qn(d);
        if (auto* m = dyn_cast<CXXMethodDecl>(d))
        {
            o["cls"] = usr(m->getParent());
            o["cq"] = qn(m->getParent());
            if (m->isVirtual())
            {
                o["virt"] = true;
            }
            if (m->isConst())
            {
                o["const"] = true;
            }
            if (m->isStatic())
            {
                o["static"] = true;
            }
            if (auto* c = dyn_cast<CXXConstructorDecl>(m))
            {
                o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" :
                        c->isDefaultConstructor() ? "default" : "other";
            }
            if (m->isMoveAssignmentOperator())
            {
                o["ck"] = "moveassign";
            }
            if (m->isCopyAssignmentOperator())
            {
                o["ck"] = "copyassign";
            }
            if (m->isDefaulted())
            {
                o["defaulted"] = true;
            }
        }
        json::Array pt;
        for (auto* p : d->parameters())
        {
            pt.push_back(ty(p->getType()));
        }
        o["pt"] = std::move(pt);
        if (d->isNoReturn())
        {
            o["noret"] = true;
        }
        if (auto* args = d->getTemplateSpecializationArgs())
        {
            json::Array ta;
            for (auto& a : args->asArray())
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(pp, os, true);
                ta.push_back(s);
            }
            o["ta"] = std::move(ta);
        }
        return o;
    }

    void note_record(const CXXRecordDecl* r)
    {
        if (!r)
        {
            return;
        }
        r = r->getDefinition() ? r->getDefinition() : r;
        std::string id = usr(r);
        if (records.get(id))
        {
            return;
        }
        records[id] = json::Object{};
        json::Object o;
        o["name"] = r->getNameAsString();
        o["q"] = qn(r);
        o["t"] = ty(ctx.getRecordType(r));
        o["loc"] = loc(r->getLocation());
        o["file"] = file_of(r->getLocation());
        if (r->isLambda())
        {
            o["lambda"] = true;
        }
        json::Array ta;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
        {
            for (auto& a : sp->getTemplateArgs().asArray())
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(pp, os, true);
                ta.push_back(s);
            }
        }
        o["ta"] = std::move(ta);
        if (r->hasDefinition() && in_roots(r))
        {
            o["repo"] = true;
            json::Array bases, fields, methods, usings;
            for (auto& b : r->bases())
            {
                const CXXRecordDecl* br = b.getType()->getAsCXXRecordDecl();
                if (br)
                {
                    note_record(br);
                    bases.push_back(json::Object{{"u", usr(br->getDefinition() ? br->getDefinition() : br)},
                                                 {"q", qn(br)},
                                                 {"access", (int)b.getAccessSpecifier()},
                                                 {"virt", b.isVirtual()}});
                }
            }
            for (auto* d : r->decls())
            {
                if (auto* f = dyn_cast<FieldDecl>(d))
                {
                    json::Object fo;
                    fo["name"] = f->getNameAsString();
                    fo["u"] = usr(f);
                    fo["t"] = ty(f->getType());
                    fo["access"] = (int)f->getAccess();
                    fo["mutable"] = f->isMutable();
                    fo["loc"] = loc(f->getLocation());
                    const CXXRecordDecl* fr = f->getType()->getAsCXXRecordDecl();
                    if (fr)
                    {
                        note_record(fr);
                        fo["rec"] = usr(fr->getDefinition() ? fr->getDefinition() : fr);
                        fo["rq"] = qn(fr);
                    }
                    if (const CXXRecordDecl* pr = rec_of(f->getType()))
                    {
                        note_record(pr);
                        fo["prec"] = usr(pr->getDefinition() ? pr->getDefinition() : pr);
                    }
                    if (f->hasInClassInitializer() && f->getInClassInitializer())
                    {
                        fo["init"] = expr(f->getInClassInitializer());
                    }
                    fields.push_back(std::move(fo));
                }
                else if (auto* v = dyn_cast<VarDecl>(d))
                {
                    json::Object fo;
                    fo["name"] = v->getNameAsString();
                    fo["t"] = ty(v->getType());
                    fo["static"] = true;
                    fo["id"] = varid(v);
                    fo["access"] = (int)v->getAccess();
                    if (const CXXRecordDecl* fr = v->getType()->getAsCXXRecordDecl())
                    {
                        note_record(fr);
                        fo["rec"] = usr(fr->getDefinition() ? fr->getDefinition() : fr);
                        fo["rq"] = qn(fr);
                    }
                    fields.push_back(std::move(fo));
                }
                else if (auto* m = dyn_cast<CXXMethodDecl>(d))
                {
                    methods.push_back(method_info(m));
                }
                else if (auto* ud = dyn_cast<UsingShadowDecl>(d))
                {
                    if (ud->getAccess() == AS_public)
                    {
                        if (auto* um = dyn_cast<CXXMethodDecl>(ud->getTargetDecl()))
                        {
                            usings.push_back(usr(um->getCanonicalDecl()));
                        }
                    }
                }
                else if (auto* td = dyn_cast<FunctionTemplateDecl>(d))
                {
                    for (auto* sp : td->specializations())
                    {
                        if (auto* m = dyn_cast<CXXMethodDecl>(sp))
                        {
                            auto i = method_info(m);
                            i["spec"] = true;
                            methods.push_back(std::move(i));
                        }
                    }
                }
            }
            o["bases"] = std::move(bases);
            o["fields"] = std::move(fields);
            o["methods"] = std::move(methods);
            o["usings"] = std::move(usings);
            o["abstract"] = r->isAbstract();
            o["poly"] = r->isPolymorphic();
            o["copyctor"] = r->hasSimpleCopyConstructor() ? "simple" : r->hasUserDeclaredCopyConstructor() ? "user" : "implicit";
            o["ncopyctor"] = copy_state(r, 0);
            o["nmovector"] = copy_state(r, 1);
            o["ncopyassign"] = copy_state(r, 2);
            o["nmoveassign"] = copy_state(r, 3);
            if (auto* dd = r->getDestructor())
            {
                o["dtor"] = usr(dd->getCanonicalDecl());
                o["dtorvirt"] = dd->isVirtual();
                o["dtoruser"] = dd->isUserProvided();
            }
        }
        records[id] = std::move(o);
    }

    // "none" (not available / implicitly deleted or not declared), "deleted", "defaulted", "user", "implicit"
    std::string copy_state(const CXXRecordDecl* r, int which)
    {
        auto cls = [&](const CXXMethodDecl* m) -> std::string
                {
                    if (m->isDeleted())
                    {
                        return "deleted";
                    }
                    if (m->isUserProvided())
                    {
                        return "user";
                    }
                    if (m->isImplicit())
                    {
                        return "implicit";
                    }
                    return "defaulted";
                };
        if (which < 2)
        {
            for (auto* c : r->ctors())
            {
                if (which == 0 ? c->isCopyConstructor() : c->isMoveConstructor())
                {
                    return cls(c);
                }
            }
            if (which == 0)
            {
                return r->needsImplicitCopyConstructor() ? (r->defaultedCopyConstructorIsDeleted() ? "deleted" : "implicit") : "none";
            }
            return r->needsImplicitMoveConstructor() ? (r->defaultedMoveConstructorIsDeleted() ? "none" : "implicit") : "none";
        }
        for (auto* m : r->methods())
        {
            if (which == 2 ? m->isCopyAssignmentOperator() : m->isMoveAssignmentOperator())
            {
                return cls(m);
            }
        }
        if (which == 2)
        {
            return r->needsImplicitCopyAssignment() ? "implicit" : "none";
        }
        return r->needsImplicitMoveAssignment() ? "implicit" : "none";
    }

    json::Object method_info(const CXXMethodDecl* m)
    {
        json::Object o;
        o["u"] = usr(m->getCanonicalDecl());
        o["name"] = m->getNameAsString();
        o["access"] = (int)m->getAccess();
        o["virt"] = m->isVirtual();
        o["pure"] = m->isPureVirtual();
        o["static"] = m->isStatic();
        o["const"] = m->isConst();
        o["deleted"] = m->isDeleted();
        o["defaulted"] = m->isDefaulted();
        o["implicit"] = m->isImplicit();
        o["kind"] = isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" :
                isa<CXXConversionDecl>(m) ? "conv" : "method";
        json::Array pt;
        for (auto* p : m->parameters())
        {
            pt.push_back(ty(p->getType()));
        }
        o["pt"] = std::move(pt);
        json::Array ov;
        for (auto* b : m->overridden_methods())
        {
            ov.push_back(usr(b->getCanonicalDecl()));
        }
        o["ov"] = std::move(ov);
        return o;
    }

    // ---------------------------------------------------------------- expressions / statements

    json::Array list(llvm::iterator_range<ConstStmtIterator> r)
    {
        json::Array a;
        for (auto* s : r)
        {
            a.push_back(expr(s));
        }
        return a;
    }

    json::Value expr(const Stmt* s)
    {
        if (!s)
        {
            return nullptr;
        }
        // transparent wrappers
        for (;;)
        {
            if (auto* e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<ConstantExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
            if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) { s = e->getSemanticForm(); continue; }
            if (auto* e = dyn_cast<AttributedStmt>(s)) { s = e->getSubStmt(); continue; }
            if (auto* e = dyn_cast<LabelStmt>(s)) { s = e->getSubStmt(); continue; }
            if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s))
            {
                if (e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_NoOp ||
                        e->getCastKind() == CK_UserDefinedConversion) { s = e->getSubExpr(); continue; }
            }
            if (auto* e = dyn_cast<CastExpr>(s))
            {
                auto k = e->getCastKind();
                if (k == CK_LValueToRValue || k == CK_NoOp || k == CK_FunctionToPointerDecay ||
                        k == CK_ArrayToPointerDecay || k == CK_ConstructorConversion || k == CK_UserDefinedConversion ||
                        k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase || k == CK_NullToPointer ||
                        k == CK_BuiltinFnToFnPtr || k == CK_LValueBitCast || k == CK_BaseToDerived)
                {
                    s = e->getSubExpr();
                    continue;
                }
            }
            break;
        }
        json::Object o;
        o["k"] = s->getStmtClassName();
        o["l"] = loc(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s))
        {
            o["t"] = ty(e->getType());
            if (e->isLValue())
            {
                o["lv"] = true;
            }
            if (e->isXValue())
            {
                o["xv"] = true;
            }
            if (e->isPRValue() && !e->isTypeDependent() && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType())
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
                {
                    llvm::SmallString<32> str;
                    r.Val.getInt().toString(str);
                    int64_t v;
                    if (!llvm::StringRef(str).getAsInteger(10, v))
                    {
                        o["cv"] = v;
                    }
                    else
                    {
                        o["cvs"] = str.str().str();
                    }
                }
            }
        }
        if (auto* e = dyn_cast<DeclRefExpr>(s))
        {
            const ValueDecl* d = e->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["dk"] = isa<ParmVarDecl>(v) ? "param" : v->isStaticLocal() ? "staticlocal" :
                        v->hasGlobalStorage() ? "global" : "var";
                o["id"] = varid(v);
                o["n"] = v->hasGlobalStorage() ? qn(v) : v->getNameAsString();
                if (v->hasGlobalStorage() && v->getType().isConstQualified() && !v->getType().isVolatileQualified() &&
                        qn(v).rfind("eprosima::", 0) == 0 && !isa<VarTemplateSpecializationDecl>(v) &&
                        v->getType()->isIntegralOrEnumerationType() && !e->isValueDependent())
                {
                    const VarDecl* def = nullptr;
                    const Expr* init = v->getAnyInitializer(def);
                    if (init && def && !init->isValueDependent())
                    {
                        const APValue* val = def->evaluateValue();
                        if (val && val->isInt() && val->getInt().getSignificantBits() <= 64)
                        {
                            o["gcv"] = val->getInt().getExtValue();
                        }
                    }
                }
                if (e->refersToEnclosingVariableOrCapture())
                {
                    o["cap"] = true;
                }
            }
            else if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                o["dk"] = "func";
                o["f"] = callee(f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["dk"] = "enum";
                o["n"] = qn(ec);
                o["en"] = ec->getNameAsString();
                if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext()))
                {
                    o["enum"] = qn(ed);
                    note_enum(ed);
                }
            }
            else if (auto* b = dyn_cast<BindingDecl>(d))
            {
                o["dk"] = "binding";
                o["n"] = b->getNameAsString();
                if (auto* dd = dyn_cast_or_null<DecompositionDecl>(b->getDecomposedDecl()))
                {
                    o["id"] = varid(dd);
                    int i = 0;
                    for (auto* x : dd->bindings())
                    {
                        if (x == b)
                        {
                            o["idx"] = i;
                        }
                        ++i;
                    }
                    if (auto* m = dyn_cast_or_null<MemberExpr>(b->getBinding()))
                    {
                        o["fn"] = m->getMemberDecl()->getNameAsString();
                    }
                }
            }
            else
            {
                o["dk"] = "other";
                o["n"] = d->getNameAsString();
            }
            return o;
        }
        if (auto* e = dyn_cast<MemberExpr>(s))
        {
            o["b"] = expr(e->getBase());
            o["arrow"] = e->isArrow();
            const ValueDecl* d = e->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(d))
            {
                o["fn"] = f->getNameAsString();
                o["fu"] = usr(f);
                o["fcls"] = usr(cast<CXXRecordDecl>(f->getParent()));
            }
            else if (auto* m = dyn_cast<CXXMethodDecl>(d))
            {
                o["m"] = callee(m);
                if (e->hasQualifier())
                {
                    o["qual"] = true;
                }
            }
            else if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["k"] = "DeclRefExpr";
                o["dk"] = "global";
                o["id"] = varid(v);
                o["n"] = qn(v);
            }
            return o;
        }
        if (auto* e = dyn_cast<LambdaExpr>(s))
        {
            json::Array caps;
            auto ii = e->capture_init_begin();
            for (auto& c : e->captures())
            {
                json::Object co;
                if (c.capturesThis())
                {
                    co["this"] = true;
                    co["byref"] = c.getCaptureKind() == LCK_This;
                }
                else if (c.capturesVariable())
                {
                    auto* v = dyn_cast<VarDecl>(c.getCapturedVar());
                    co["id"] = v ? varid(v) : std::string("?");
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (v && v->isInitCapture())
                    {
                        co["initcap"] = true;
                    }
                }
                co["init"] = *ii ? expr(*ii) : json::Value(nullptr);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            const CXXMethodDecl* op = e->getCallOperator();
            if (op && e->isGenericLambda())
            {
                // generic lambda: use the first instantiation, if any
                for (auto* sp : op->getDescribedFunctionTemplate()->specializations())
                {
                    op = cast<CXXMethodDecl>(sp);
                    break;
                }
            }
            o["fn"] = op ? function(op) : json::Value(nullptr);
            o["cls"] = usr(e->getLambdaClass());
            return o;
        }
        if (auto* e = dyn_cast<CXXOperatorCallExpr>(s))
        {
            if (auto* f = e->getDirectCallee())
            {
                o["f"] = callee(f);
            }
            o["op"] = getOperatorSpelling(e->getOperator());
            json::Array a;
            for (auto* x : e->arguments())
            {
                a.push_back(expr(x));
            }
            o["a"] = std::move(a);
            return o;
        }
        if (auto* e = dyn_cast<CallExpr>(s))
        {
            if (auto* f = e->getDirectCallee())
            {
                o["f"] = callee(f);
            }
            o["c"] = expr(e->getCallee());
            json::Array a;
            for (auto* x : e->arguments())
            {
                a.push_back(expr(x));
            }
            o["a"] = std::move(a);
            return o;
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s))
        {
            o["f"] = callee(e->getConstructor());
            o["elide"] = e->isElidable();
            if (auto* t = dyn_cast<CXXTemporaryObjectExpr>(s))
            {
                (void)t;
                o["temp"] = true;
            }
            json::Array a;
            for (auto* x : e->arguments())
            {
                a.push_back(expr(x));
            }
            o["a"] = std::move(a);
            const CXXRecordDecl* r = rec_of(e->getType());
            note_record(r);
            if (r)
            {
                o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
            }
            return o;
        }
        if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s))
        {
            o["f"] = callee(e->getConstructor());
            return o;
        }
        if (auto* e = dyn_cast<CXXNewExpr>(s))
        {
            o["ini"] = e->getInitializer() ? expr(e->getInitializer()) : json::Value(nullptr);
            o["at"] = ty(e->getAllocatedType());
            o["arr"] = e->isArray();
            return o;
        }
        if (auto* e = dyn_cast<CXXDeleteExpr>(s))
        {
            o["a"] = json::Array{expr(e->getArgument())};
            const CXXRecordDecl* r = rec_of(e->getDestroyedType());
            if (r)
            {
                note_record(r);
                o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
            }
            return o;
        }
        if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
        {
            o["a"] = json::Array{expr(e->getSubExpr())};
            if (auto* ed = e->getExtendingDecl())
            {
                if (auto* v = dyn_cast<VarDecl>(ed))
                {
                    o["ext"] = varid(v);
                }
            }
            const CXXRecordDecl* r = e->getType()->getAsCXXRecordDecl();
            if (r)
            {
                note_record(r);
                o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
            }
            return o;
        }
        if (auto* e = dyn_cast<ExprWithCleanups>(s))
        {
            o["a"] = json::Array{expr(e->getSubExpr())};
            return o;
        }
        if (auto* e = dyn_cast<CastExpr>(s))
        {
            o["k"] = "Cast";
            o["ck"] = e->getCastKindName();
            o["expl"] = isa<ExplicitCastExpr>(e);
            o["a"] = json::Array{expr(e->getSubExpr())};
            return o;
        }
        if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
        {
            o["a"] = json::Array{expr(e->getExpr())};
            return o;
        }
        if (auto* e = dyn_cast<CXXDefaultInitExpr>(s))
        {
            o["a"] = json::Array{expr(e->getExpr())};
            return o;
        }
        if (auto* e = dyn_cast<UnaryOperator>(s))
        {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            o["post"] = e->isPostfix();
            o["a"] = json::Array{expr(e->getSubExpr())};
            return o;
        }
        if (auto* e = dyn_cast<BinaryOperator>(s))
        {
            o["op"] = e->getOpcodeStr().str();
            o["a"] = json::Array{expr(e->getLHS()), expr(e->getRHS())};
            return o;
        }
        if (auto* e = dyn_cast<IntegerLiteral>(s))
        {
            llvm::SmallString<32> str;
            e->getValue().toString(str, 10, e->getType()->isSignedIntegerType());
            o["v"] = str.str().str();
            return o;
        }
        if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s))
        {
            o["v"] = e->getValue();
            return o;
        }
        if (auto* e = dyn_cast<StringLiteral>(s))
        {
            std::string v = e->getCharByteWidth() == 1 ? e->getString().str() : "";
            if (!json::isUTF8(v))
            {
                v = json::fixUTF8(v);
            }
            o["v"] = v;
            return o;
        }
        if (auto* e = dyn_cast<CharacterLiteral>(s))
        {
            o["v"] = (int64_t)e->getValue();
            return o;
        }
        if (auto* e = dyn_cast<FloatingLiteral>(s))
        {
            o["v"] = e->getValueAsApproximateDouble();
            return o;
        }
        if (auto* e = dyn_cast<CXXThrowExpr>(s))
        {
            json::Array a;
            if (e->getSubExpr())
            {
                a.push_back(expr(e->getSubExpr()));
            }
            o["a"] = std::move(a);
            if (e->getSubExpr())
            {
                if (auto* r = rec_of(e->getSubExpr()->getType()))
                {
                    note_record(r);
                    o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
                    o["cq"] = qn(r);
                }
            }
            return o;
        }
        if (auto* d = dyn_cast<DeclStmt>(s))
        {
            json::Array a;
            for (auto* x : d->decls())
            {
                if (auto* v = dyn_cast<VarDecl>(x))
                {
                    a.push_back(var(v));
                }
            }
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* i = dyn_cast<IfStmt>(s))
        {
            if (i->isConstexpr())
            {
                o["constexpr"] = true;
            }
            o["init"] = i->getInit() ? expr(i->getInit()) : json::Value(nullptr);
            o["var"] = i->getConditionVariableDeclStmt() ? expr(i->getConditionVariableDeclStmt()) : json::Value(nullptr);
            o["cond"] = expr(i->getCond());
            o["then"] = expr(i->getThen());
            o["else"] = i->getElse() ? expr(i->getElse()) : json::Value(nullptr);
            return o;
        }
        if (auto* w = dyn_cast<WhileStmt>(s))
        {
            o["var"] = w->getConditionVariableDeclStmt() ? expr(w->getConditionVariableDeclStmt()) : json::Value(nullptr);
            o["cond"] = expr(w->getCond());
            o["body"] = expr(w->getBody());
            return o;
        }
        if (auto* w = dyn_cast<DoStmt>(s))
        {
            o["cond"] = expr(w->getCond());
            o["body"] = expr(w->getBody());
            return o;
        }
        if (auto* w = dyn_cast<ForStmt>(s))
        {
            o["init"] = w->getInit() ? expr(w->getInit()) : json::Value(nullptr);
            o["cond"] = w->getCond() ? expr(w->getCond()) : json::Value(nullptr);
            o["inc"] = w->getInc() ? expr(w->getInc()) : json::Value(nullptr);
            o["body"] = expr(w->getBody());
            return o;
        }
        if (auto* w = dyn_cast<CXXForRangeStmt>(s))
        {
            o["range"] = w->getRangeInit() ? expr(w->getRangeInit()) : json::Value(nullptr);
            o["var"] = var(w->getLoopVariable());
            o["body"] = expr(w->getBody());
            return o;
        }
        if (auto* w = dyn_cast<SwitchStmt>(s))
        {
            o["init"] = w->getInit() ? expr(w->getInit()) : json::Value(nullptr);
            o["cond"] = expr(w->getCond());
            o["body"] = expr(w->getBody());
            if (auto* et = w->getCond()->IgnoreParenImpCasts()->getType()->getAs<EnumType>())
            {
                o["enum"] = qn(et->getDecl());
                note_enum(et->getDecl());
            }
            return o;
        }
        if (auto* c = dyn_cast<CaseStmt>(s))
        {
            o["val"] = expr(c->getLHS());
            if (c->getRHS())
            {
                o["val2"] = expr(c->getRHS());
            }
            Expr::EvalResult r;
            if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, ctx))
            {
                o["cv"] = r.Val.getInt().getExtValue();
            }
            o["body"] = expr(c->getSubStmt());
            return o;
        }
        if (auto* c = dyn_cast<DefaultStmt>(s))
        {
            o["body"] = expr(c->getSubStmt());
            return o;
        }
        if (auto* r = dyn_cast<ReturnStmt>(s))
        {
            o["a"] = r->getRetValue() ? json::Array{expr(r->getRetValue())} : json::Array{};
            return o;
        }
        if (auto* t = dyn_cast<CXXTryStmt>(s))
        {
            o["body"] = expr(t->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                const CXXCatchStmt* c = t->getHandler(i);
                json::Object co;
                co["l"] = loc(c->getBeginLoc());
                if (c->getExceptionDecl())
                {
                    co["var"] = varid(c->getExceptionDecl());
                    co["t"] = ty(c->getCaughtType());
                    if (auto* r2 = rec_of(c->getCaughtType()))
                    {
                        note_record(r2);
                        co["cls"] = usr(r2->getDefinition() ? r2->getDefinition() : r2);
                        co["cq"] = qn(r2);
                    }
                }
                else
                {
                    co["all"] = true;
                }
                co["body"] = expr(c->getHandlerBlock());
                h.push_back(std::move(co));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            o["uk"] = (int)u->getKind();
            o["at"] = ty(u->getTypeOfArgument());
            return o;
        }
        if (auto* u = dyn_cast<CXXTypeidExpr>(s))
        {
            (void)u;
            return o;
        }
        if (auto* il = dyn_cast<InitListExpr>(s))
        {
            json::Array a;
            for (auto* x : il->inits())
            {
                a.push_back(expr(x));
            }
            o["a"] = std::move(a);
            return o;
        }
        if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s))
        {
            return o;
        }
        o["a"] = list(s->children());
        return o;
    }

    json::Object var(const VarDecl* v)
    {
        json::Object o;
        o["id"] = varid(v);
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["l"] = loc(v->getLocation());
        o["ref"] = v->getType()->isReferenceType();
        o["static"] = v->isStaticLocal();
        if (v->getTLSKind() != VarDecl::TLS_None)
        {
            o["tls"] = true;
        }
        if (const CXXRecordDecl* r = v->getType()->getAsCXXRecordDecl())
        {
            note_record(r);
            o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
        }
        o["init"] = v->getInit() ? expr(v->getInit()) : json::Value(nullptr);
        return o;
    }

    void note_enum(const EnumDecl* e)
    {
        std::string q = qn(e);
        if (enums.get(q))
        {
            return;
        }
        json::Array a;
        for (auto* c : e->enumerators())
        {
            a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}});
        }
        enums[q] = json::Object{{"file", file_of(e->getLocation())}, {"e", std::move(a)}, {"scoped", e->isScoped()}};
    }

    json::Object function(const FunctionDecl* f)
    {
        json::Object o;
        o["u"] = usr(f->getCanonicalDecl());
        o["name"] = f->getNameAsString();
        o["q"] = qn(f);
        o["loc"] = loc(f->getLocation());
        o["file"] = file_of(f->getLocation());
        o["ret"] = ty(f->getReturnType());
        if (auto* rr = f->getReturnType()->getAsCXXRecordDecl())
        {
            note_record(rr);
        }
        json::Array ps;
        for (auto* p : f->parameters())
        {
            json::Object po;
            po["id"] = varid(p);
            po["n"] = p->getNameAsString();
            po["t"] = ty(p->getType());
            po["ref"] = p->getType()->isReferenceType();
            if (const CXXRecordDecl* r = p->getType()->getAsCXXRecordDecl())
            {
                note_record(r);
                po["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
            }
            if (const CXXRecordDecl* r = rec_of(p->getType()))
            {
                note_record(r);
                po["prec"] = usr(r->getDefinition() ? r->getDefinition() : r);
            }
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        auto* fpt = f->getType()->getAs<FunctionProtoType>();
        o["noexcept"] = fpt && !isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) &&
                fpt->canThrow() == CT_Cannot;
        o["static"] = f->getStorageClass() == SC_Static;
        o["internal"] = f->getFormalLinkage() == Linkage::Internal;
        o["defaulted"] = f->isDefaulted();
        o["deleted"] = f->isDeleted();
        o["inst"] = f->isTemplateInstantiation();
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            const CXXRecordDecl* r = m->getParent();
            note_record(r);
            o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
            o["cq"] = qn(r);
            o["access"] = (int)m->getAccess();
            o["virt"] = m->isVirtual();
            o["mstatic"] = m->isStatic();
            o["const"] = m->isConst();
        }
        o["kind"] = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" :
                isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "method" : "func";
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            json::Array in;
            for (auto* i : c->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["field"] = i->getAnyMember()->getNameAsString();
                }
                else if (i->isBaseInitializer())
                {
                    const CXXRecordDecl* br = i->getBaseClass()->getAsCXXRecordDecl();
                    if (br)
                    {
                        io["base"] = usr(br->getDefinition() ? br->getDefinition() : br);
                    }
                }
                else
                {
                    io["deleg"] = true;
                }
                io["written"] = i->isWritten();
                io["l"] = loc(i->getSourceLocation());
                io["e"] = i->getInit() ? expr(i->getInit()) : json::Value(nullptr);
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = f->getBody() ? expr(f->getBody()) : json::Value(nullptr);
        if (auto* args = f->getTemplateSpecializationArgs())
        {
            json::Array ta;
            for (auto& a : args->asArray())
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(pp, os, true);
                ta.push_back(s);
            }
            o["ta"] = std::move(ta);
        }
        return o;
    }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isDependentContext() || f->getDescribedFunctionTemplate())
        {
            return true;
        }
        if (!in_roots(f))
        {
            return true;
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->getParent()->isLambda())
            {
                return true;
            }
        }
        if (!f->isThisDeclarationADefinition() || !f->getBody())
        {
            if (!(f->isThisDeclarationADefinition() && f->isDefaulted()))
            {
                return true;
            }
        }
        if (!seen.insert(f->getCanonicalDecl()).second)
        {
            return true;
        }
        std::string u = usr(f->getCanonicalDecl());
        if (!functions.get(u))
        {
            functions[u] = function(f);
        }
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !in_roots(r))
        {
            return true;
        }
        note_record(r);
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e)
    {
        if (in_roots(e) && e->isThisDeclarationADefinition() && !e->isDependentContext())
        {
            note_enum(e);
        }
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (!v->hasGlobalStorage() || v->isStaticLocal() || !in_roots(v) || isa<ParmVarDecl>(v))
        {
            return true;
        }
        if (v->getDeclContext()->isDependentContext() || v->getDescribedVarTemplate())
        {
            return true;
        }
        const VarDecl* def = v->getDefinition();
        const VarDecl* d = def ? def : v;
        std::string id = varid(v);
        if (globals.get(id))
        {
            auto* ob = globals.get(id)->getAsObject();
            if (!(def && ob->get("init") && ob->get("init")->kind() == json::Value::Null && d->getInit()))
            {
                return true;
            }
        }
        json::Object o;
        o["q"] = qn(v);
        o["t"] = ty(v->getType());
        o["file"] = file_of(v->getLocation());
        o["loc"] = loc(d->getLocation());
        o["internal"] = v->getFormalLinkage() == Linkage::Internal;
        if (v->getTLSKind() != VarDecl::TLS_None)
        {
            o["tls"] = true;
        }
        if (const CXXRecordDecl* r = v->getType()->getAsCXXRecordDecl())
        {
            note_record(r);
            o["cls"] = usr(r->getDefinition() ? r->getDefinition() : r);
        }
        o["init"] = d->getInit() && !d->getInit()->isValueDependent() ? expr(d->getInit()) : json::Value(nullptr);
        globals[id] = std::move(o);
        return true;
    }
};

std::string g_out;

class Consumer : public ASTConsumer
{
public:

    CompilerInstance& ci;
    Consumer(CompilerInstance& c) : ci(c) {}

    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred())
        {
            return;
        }
        // make sure the implicit and defaulted special members that clang only declares are defined
        Extractor x(c);
        x.TraverseDecl(c.getTranslationUnitDecl());
        json::Array fl;
        for (auto& f : x.filelist)
        {
            fl.push_back(f);
        }
        json::Object o;
        o["records"] = std::move(x.records);
        o["enums"] = std::move(x.enums);
        o["functions"] = std::move(x.functions);
        o["globals"] = std::move(x.globals);
        o["files"] = std::move(fl);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o));
    }
};

class Action : public ASTFrontendAction
{
public:

    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

} // namespace

// usage: extract OUT ROOTS(colon separated) SOURCE -- compiler args
int main(int argc, char** argv)
{
    if (argc < 4)
    {
        return 2;
    }
    g_out = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p <= roots.size())
    {
        size_t q = roots.find(':', p);
        if (q == std::string::npos)
        {
            q = roots.size();
        }
        if (q > p)
        {
            g_roots.push_back(roots.substr(p, q - p));
        }
        p = q + 1;
    }
    std::vector<std::string> args{"clang++"};
    for (int i = 4; i < argc; ++i)
    {
        args.push_back(argv[i]);
    }
    args.push_back("-fsyntax-only");
    args.push_back(argv[3]);
    IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    return inv.run() ? 0 : 1;
}
