// facts: dumps resolved semantic facts (functions, control flow graphs with
// expression trees, records, globals) of one translation unit as text lines.
//
//   facts --root DIR --out FILE -- <clang cc1-driver style args> source
//
// Output lines (TAB separated header, then JSON):
//   F <usr> <qualname> <file> <line> <callees,> <json>
//   R <name> <file> <json>         record
//   G <usr> <qualname> <file> <json>     global/static variable with init
//   D <file>                       dependency (repo file)
//   E <message>                    parse error that was tolerated
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/CompilerInvocation.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <fstream>
#include <sstream>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::map<std::string, std::string> g_overlay; // path -> patched text
static std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> g_fixits;
static std::vector<std::string> g_errors;
static std::ostream* g_out = nullptr;

static std::string usr_of(const Decl* d)
{
    llvm::SmallString<128> buf;
    if (isa<FunctionDecl>(d))
        d = d->getCanonicalDecl(); // a definition may add const to its parameters
    if (index::generateUSRForDecl(d, buf))
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        os << "?" << (const void*)d;
        return os.str();
    }
    return std::string(buf.str());
}

static std::string qual_name(const NamedDecl* d)
{
    if (auto* m = dyn_cast<CXXMethodDecl>(d))
    {
        if (m->getParent()->isLambda())
        {
            // name lambdas after the enclosing function
            const DeclContext* dc = m->getParent()->getDeclContext();
            while (dc && !isa<FunctionDecl>(dc) && !isa<TranslationUnitDecl>(dc) )
                dc = dc->getParent();
            std::string base = "";
            if (auto* f = dyn_cast_or_null<FunctionDecl>(dc))
                base = qual_name(f);
            return base + "::$lambda";
        }
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy pp(d->getASTContext().getLangOpts());
    pp.SuppressUnwrittenScope = true;
    d->printQualifiedName(os, pp);
    return os.str();
}

static bool in_root(const SourceManager& sm, SourceLocation loc, std::string* file = nullptr, unsigned* line = nullptr)
{
    if (loc.isInvalid())
        return false;
    loc = sm.getExpansionLoc(loc);
    PresumedLoc p = sm.getPresumedLoc(loc);
    if (p.isInvalid())
        return false;
    llvm::SmallString<256> path(p.getFilename());
    llvm::sys::fs::make_absolute(path);
    llvm::sys::path::remove_dots(path, true);
    std::string s = std::string(path.str());
    if (s.compare(0, g_root.size(), g_root) != 0)
        return false;
    if (file)
        *file = s.substr(g_root.size() + (g_root.back() == '/' ? 0 : 1));
    if (line)
        *line = p.getLine();
    return true;
}

struct Emitter
{
    ASTContext& C;
    const SourceManager& SM;
    json::Array nodes;
    json::Array types;
    std::map<std::string, int> type_ids;
    std::map<const Stmt*, int> stmt_ids;
    json::Array vars;
    std::map<const VarDecl*, int> var_ids;
    std::set<std::string> callees;
    const FunctionDecl* cur = nullptr;

    Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

    int type_id(QualType t)
    {
        if (t.isNull())
            return -1;
        PrintingPolicy pp(C.getLangOpts());
        pp.SuppressTagKeyword = true;
        std::string key = t.getAsString(pp);
        QualType c = t.getCanonicalType();
        std::string ckey = c.getAsString(pp);
        std::string full = key + "|" + ckey;
        auto it = type_ids.find(full);
        if (it != type_ids.end())
            return it->second;
        int id = int(types.size());
        type_ids[full] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = key;
        if (ckey != key)
            o["c"] = ckey;
        const char* k = "other";
        QualType e = c;
        if (c->isReferenceType()) { k = "ref"; e = c->getPointeeType(); }
        else if (c->isMemberPointerType()) k = "memptr";
        else if (c->isFunctionPointerType()) k = "fnptr";
        else if (c->isPointerType()) { k = "ptr"; e = c->getPointeeType(); }
        else if (c->isNullPtrType()) k = "nullptr";
        else if (c->isArrayType()) { k = "arr"; e = C.getAsArrayType(c)->getElementType();
            if (auto* ca = C.getAsConstantArrayType(c)) o["n"] = int64_t(ca->getSize().getZExtValue()); }
        else if (c->isBooleanType()) k = "bool";
        else if (c->isEnumeralType()) k = "enum";
        else if (c->isIntegerType()) { k = "int"; o["u"] = c->isUnsignedIntegerType() ? 1 : 0; }
        else if (c->isRealFloatingType()) k = "float";
        else if (c->isRecordType()) k = "rec";
        else if (c->isVoidType()) k = "void";
        else if (c->isFunctionType()) k = "fn";
        o["k"] = k;
        if (!c->isDependentType() && !c->isPlaceholderType() && !c->isIncompleteType() && !c->isFunctionType() && !c->isVoidType() && !c->isReferenceType())
        {
            if (!c->isUndeducedType() && !(c->isRecordType() && c->getAsRecordDecl()->isInvalidDecl()))
                o["z"] = int64_t(C.getTypeSizeInChars(c).getQuantity());
        }
        if (c.isConstQualified())
            o["q"] = 1;
        if (const auto* rd = c->getAsRecordDecl())
        {
            o["r"] = qual_name(rd);
            if (auto* cx = dyn_cast<CXXRecordDecl>(rd))
                if (cx->isLambda() && cx->getLambdaCallOperator())
                    o["lam"] = usr_of(cx->getLambdaCallOperator());
        }
        if (e != c)
        {
            o["e"] = type_id(e);
        }
        types[id] = std::move(o);
        return id;
    }

    unsigned line_of(SourceLocation l)
    {
        if (l.isInvalid())
            return 0;
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isInvalid() ? 0 : p.getLine();
    }

    int var_id(const VarDecl* v)
    {
        auto it = var_ids.find(v);
        if (it != var_ids.end())
            return it->second;
        int id = int(vars.size());
        var_ids[v] = id;
        json::Object o;
        o["n"] = v->getNameAsString();
        o["t"] = type_id(v->getType());
        if (isa<ParmVarDecl>(v))
            o["p"] = int(cast<ParmVarDecl>(v)->getFunctionScopeIndex());
        if (v->isStaticLocal())
            o["st"] = 1;
        else if (v->hasGlobalStorage())
            o["ext"] = 1;
        if (cur && v->getParentFunctionOrMethod() && v->getParentFunctionOrMethod() != cast<DeclContext>(cur))
        {
            o["cap"] = 1; // captured from an enclosing function
        }
        o["l"] = line_of(v->getLocation());
        vars.push_back(std::move(o));
        return id;
    }

    static const Expr* strip(const Expr* e)
    {
        while (e)
        {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e = p->getSourceExpr(); }
            else break;
        }
        return e;
    }

    void add_fn(json::Object& o, const FunctionDecl* f)
    {
        std::string q = qual_name(f);
        callees.insert(q);
        o["n"] = q;
        o["f"] = usr_of(f);
        if (f->isNoReturn())
            o["nr"] = 1;
        if (f->isVariadic())
        {
            o["va"] = 1;
            o["np"] = int(f->getNumParams());
        }
    }

    int node(const Stmt* s0)
    {
        if (!s0)
            return -1;
        const Stmt* s = s0;
        if (auto* e0 = dyn_cast<Expr>(s0))
            s = strip(e0);
        auto it = stmt_ids.find(s);
        if (it != stmt_ids.end())
            return it->second;
        int id = int(nodes.size());
        stmt_ids[s] = id;
        nodes.push_back(nullptr);
        json::Object o;
        json::Array c;
        o["l"] = line_of(s->getBeginLoc());
        if (!tried.empty())
        {
            auto tr = tried.find(s);
            if (tr != tried.end())
                o["try"] = tr->second;
        }
        bool kids = true;

        if (auto* e = dyn_cast<Expr>(s))
        {
            o["t"] = type_id(e->getType());
            // type after the implicit conversion, when it differs
            if (s0 != s)
            {
                auto* e0 = cast<Expr>(s0);
                int t0 = type_id(e0->getType());
                if (t0 != o["t"].getAsInteger().value_or(-1))
                    o["ct"] = t0;
            }
            if (!e->isValueDependent() && !e->isTypeDependent() && !e->containsErrors() && !e->getType()->isVoidType()
                && (e->getType()->isIntegralOrEnumerationType()))
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
                {
                    llvm::APSInt v = r.Val.getInt();
                    if (v.isRepresentableByInt64())
                        o["v"] = int64_t(v.getExtValue());
                    else
                        o["v"] = int64_t(v.getZExtValue());
                }
            }
        }

        auto kid = [&](const Stmt* k) { c.push_back(node(k)); };
        json::Array rb; // arguments bound to references that allow writing
        auto arg = [&](const Expr* a) {
            if (a->isLValue() && !a->getType().isConstQualified() && !isa<CXXDefaultArgExpr>(a))
                rb.push_back(int(c.size()));
            kid(a);
        };

        if (auto* e = dyn_cast<DeclRefExpr>(s))
        {
            o["k"] = "Ref";
            kids = false;
            const ValueDecl* d = e->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                if (v->isLocalVarDeclOrParm() )
                {
                    o["dk"] = "v";
                    o["d"] = var_id(v);
                    o["n"] = v->getNameAsString();
                }
                else
                {
                    o["dk"] = "g";
                    o["n"] = qual_name(v);
                    o["f"] = usr_of(v);
                }
            }
            else if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                o["dk"] = "fn";
                add_fn(o, f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["dk"] = "ec";
                o["n"] = qual_name(ec);
            }
            else
            {
                o["dk"] = "o";
                o["n"] = d->getNameAsString();
            }
        }
        else if (auto* e = dyn_cast<MemberExpr>(s))
        {
            const ValueDecl* d = e->getMemberDecl();
            o["k"] = "Member";
            o["m"] = d->getNameAsString();
            if (auto* bf = dyn_cast<FieldDecl>(d); bf && bf->isBitField() && !bf->getBitWidth()->isValueDependent())
                o["bw"] = int(bf->getBitWidthValue(C));
            if (auto* fd = dyn_cast<FieldDecl>(d))
                o["cls"] = qual_name(fd->getParent());
            else if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                add_fn(o, f);
                o["dk"] = "fn";
            }
            else if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["dk"] = "g";
                o["n"] = qual_name(v);
                o["f"] = usr_of(v);
            }
            if (e->isArrow())
                o["arrow"] = 1;
            kid(e->getBase());
            kids = false;
        }
        else if (auto* e = dyn_cast<CXXMemberCallExpr>(s))
        {
            o["k"] = "Call";
            if (auto* md = e->getMethodDecl())
            {
                add_fn(o, md);
                o["cls"] = qual_name(md->getParent());
                bool virt = md->isVirtual();
                if (md->isConst())
                    o["cm"] = 1;
                if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
                    if (me->hasQualifier())
                        virt = false;
                if (virt)
                    o["virt"] = 1;
                if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
                    if (me->isArrow())
                        o["arrow"] = 1;
            }
            else
            {
                o["fn"] = node(e->getCallee());
            }
            if (e->getImplicitObjectArgument())
                o["o"] = node(e->getImplicitObjectArgument());
            for (auto* a : e->arguments())
                arg(a);
            kids = false;
        }
        else if (auto* e = dyn_cast<CallExpr>(s))
        {
            o["k"] = "Call";
            const FunctionDecl* fd = e->getDirectCallee();
            if (fd)
            {
                add_fn(o, fd);
                unsigned skip = 0;
                if (auto* md = dyn_cast<CXXMethodDecl>(fd))
                {
                    o["cls"] = qual_name(md->getParent());
                    if (isa<CXXOperatorCallExpr>(e) && !md->isStatic())
                    {
                        skip = 1;
                        if (md->isConst())
                            o["cm"] = 1;
                        o["o"] = node(e->getArg(0));
                        if (md->isVirtual())
                            o["virt"] = 1;
                    }
                }
                if (isa<CXXOperatorCallExpr>(e))
                    o["opc"] = 1;
                for (unsigned i = skip; i < e->getNumArgs(); ++i)
                    arg(e->getArg(i));
            }
            else
            {
                o["fn"] = node(e->getCallee());
                for (auto* a : e->arguments())
                    arg(a);
            }
            kids = false;
        }
        else if (auto* e = dyn_cast<CXXConstructExpr>(s))
        {
            o["k"] = "Construct";
            add_fn(o, e->getConstructor());
            o["cls"] = qual_name(e->getConstructor()->getParent());
            if (e->isElidable())
                o["elide"] = 1;
            for (auto* a : e->arguments())
                arg(a);
            kids = false;
        }
        else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s))
        {
            o["k"] = "Construct";
            add_fn(o, e->getConstructor());
            o["cls"] = qual_name(e->getConstructor()->getParent());
            kids = false;
        }
        else if (auto* e = dyn_cast<CXXNewExpr>(s))
        {
            o["k"] = "New";
            if (e->isArray())
                o["arr"] = 1;
            if (e->getNumPlacementArgs())
                o["placement"] = 1;
            o["at"] = type_id(e->getAllocatedType());
            if (e->isArray() && e->getArraySize())
                kid(*e->getArraySize());
            else
                c.push_back(-1);
            if (e->getInitializer())
                kid(e->getInitializer());
            else if (e->getConstructExpr())
                kid(e->getConstructExpr());
            for (auto* a : e->placement_arguments())
                kid(a);
            kids = false;
        }
        else if (auto* e = dyn_cast<CXXDeleteExpr>(s))
        {
            o["k"] = "Delete";
            if (e->isArrayForm())
                o["arr"] = 1;
            QualType dt = e->getDestroyedType();
            if (!dt.isNull())
                if (auto* rd = dt->getAsCXXRecordDecl())
                    if (rd->hasDefinition())
                        if (auto* dd = rd->getDestructor())
                        {
                            o["n"] = qual_name(dd);
                            o["f"] = usr_of(dd);
                            if (dd->isVirtual())
                                o["virt"] = 1;
                            callees.insert(qual_name(dd));
                        }
            kid(e->getArgument());
            kids = false;
        }
        else if (auto* e = dyn_cast<UnaryOperator>(s))
        {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix())
                o["post"] = 1;
        }
        else if (auto* e = dyn_cast<BinaryOperator>(s))
        {
            o["k"] = e->isAssignmentOp() ? "Asg" : "Bin";
            o["op"] = e->getOpcodeStr().str();
        }
        else if (isa<ConditionalOperator>(s))
            o["k"] = "Cond";
        else if (auto* e = dyn_cast<BinaryConditionalOperator>(s))
        {
            o["k"] = "Cond";
            kid(e->getCommon()); kid(e->getCommon()); kid(e->getFalseExpr());
            kids = false;
        }
        else if (isa<ArraySubscriptExpr>(s))
            o["k"] = "Index";
        else if (auto* e = dyn_cast<ExplicitCastExpr>(s))
        {
            o["k"] = "Cast";
            o["ck"] = e->getCastKindName();
        }
        else if (isa<CXXThisExpr>(s))
            o["k"] = "This";
        else if (isa<IntegerLiteral>(s) || isa<CharacterLiteral>(s) || isa<CXXBoolLiteralExpr>(s))
            o["k"] = "Lit";
        else if (isa<FloatingLiteral>(s))
        {
            o["k"] = "Float";
            o["fv"] = cast<FloatingLiteral>(s)->getValueAsApproximateDouble();
        }
        else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
            o["k"] = "Null";
        else if (auto* e = dyn_cast<StringLiteral>(s))
        {
            o["k"] = "Str";
            o["cw"] = int(e->getCharByteWidth());
            o["len"] = int64_t(e->getLength());
            std::string txt;
            if (e->getCharByteWidth() == 1)
                txt = e->getString().str();
            else
                for (unsigned i = 0; i < e->getLength(); ++i)
                {
                    unsigned u = e->getCodeUnit(i);
                    txt += (u < 0x80 && u) ? char(u) : '?';
                }
            // keep valid JSON
            for (auto& ch : txt)
                if ((unsigned char)ch >= 0x80)
                    ch = '?';
            o["s"] = txt;
        }
        else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            o["k"] = "SizeOf";
            o["at"] = type_id(e->getTypeOfArgument());
            // keep the operand for inspection only
            if (!e->isArgumentType())
                kid(e->getArgumentExpr());
            kids = false;
        }
        else if (auto* e = dyn_cast<InitListExpr>(s))
        {
            o["k"] = "InitList";
            const InitListExpr* sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
            for (unsigned i = 0; i < sem->getNumInits(); ++i)
                kid(sem->getInit(i));
            kids = false;
        }
        else if (auto* e = dyn_cast<LambdaExpr>(s))
        {
            o["k"] = "Lambda";
            if (auto* op = e->getCallOperator())
            {
                o["f"] = usr_of(op);
                o["n"] = qual_name(op);
                callees.insert(qual_name(op));
            }
            json::Array caps;
            for (auto& cap : e->captures())
            {
                json::Object co;
                if (cap.capturesThis())
                    co["this"] = 1;
                else if (cap.capturesVariable())
                {
                    if (auto* vd = dyn_cast<VarDecl>(cap.getCapturedVar()))
                    {
                        co["v"] = var_id(vd);
                        co["n"] = vd->getNameAsString();
                    }
                    co["ref"] = cap.getCaptureKind() == LCK_ByRef ? 1 : 0;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            for (auto* ci : e->capture_inits())
                if (ci)
                    kid(ci);
            kids = false;
        }
        else if (auto* d = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "DeclStmt";
            json::Array ds;
            for (auto* dd : d->decls())
                if (auto* v = dyn_cast<VarDecl>(dd))
                {
                    json::Object vo;
                    vo["v"] = var_id(v);
                    vo["i"] = v->hasInit() ? node(v->getInit()) : -1;
                    ds.push_back(std::move(vo));
                }
            o["ds"] = std::move(ds);
            kids = false;
        }
        else if (auto* r = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "Return";
            kid(r->getRetValue());
            kids = false;
        }
        else if (auto* e = dyn_cast<AtomicExpr>(s))
        {
            o["k"] = "Call";
            o["n"] = "__atomic";
            o["f"] = "__atomic";
            (void)e;
        }
        else if (isa<PredefinedExpr>(s))
        {
            o["k"] = "Str";
            o["s"] = "";
            o["len"] = 0;
            o["cw"] = 1;
            kids = false;
        }
        else
        {
            o["k"] = s->getStmtClassName();
        }
        if (kids)
            for (auto* k : s->children())
                if (k)
                    kid(k);
        if (!c.empty())
            o["c"] = std::move(c);
        if (!rb.empty())
            o["rb"] = std::move(rb);
        nodes[id] = std::move(o);
        return id;
    }

    // Marks every statement in the guarded part of a try statement with the types its handlers catch.
    std::unordered_map<const Stmt*, std::string> tried;
    void mark_tries(const Stmt* s, const std::string& in)
    {
        if (!s)
            return;
        if (!in.empty())
            tried[s] = in;
        if (auto* t = dyn_cast<CXXTryStmt>(s))
        {
            std::string h = in;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                QualType q = t->getHandler(i)->getCaughtType();
                h += q.isNull() ? std::string("...") : q.getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString();
                h += ";";
            }
            mark_tries(t->getTryBlock(), h);
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
                mark_tries(t->getHandler(i)->getHandlerBlock(), in);
            return;
        }
        for (auto* k : s->children())
            mark_tries(k, in);
    }

    json::Object emit_function(const FunctionDecl* f)
    {
        cur = f;
        mark_tries(f->getBody(), "");
        json::Object fo;
        json::Array params;
        for (auto* p : f->parameters())
            params.push_back(var_id(p));
        fo["params"] = std::move(params);
        fo["ret"] = type_id(f->getReturnType());
        fo["variadic"] = f->isVariadic() ? 1 : 0;
        fo["end"] = line_of(f->getEndLoc());
        if (f->getStorageClass() == SC_Static || f->isInAnonymousNamespace())
            fo["static"] = 1;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            fo["cls"] = qual_name(m->getParent());
            if (m->isStatic())
                fo["smethod"] = 1;
            if (m->isVirtual())
                fo["virt"] = 1;
            if (m->isConst())
                fo["constm"] = 1;
            if (isa<CXXConstructorDecl>(m))
                fo["ctor"] = 1;
            if (isa<CXXDestructorDecl>(m))
                fo["dtor"] = 1;
            if (m->getParent()->isLambda())
                fo["lambda"] = 1;
            json::Array ov;
            for (auto* o : m->overridden_methods())
                ov.push_back(usr_of(o));
            fo["overrides"] = std::move(ov);
            fo["access"] = int(m->getAccess());
        }
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddTemporaryDtors = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &C, bo);
        if (!cfg)
        {
            fo["nocfg"] = 1;
        }
        else
        {
            json::Array blocks;
            for (const CFGBlock* b : *cfg)
            {
                json::Object bobj;
                bobj["i"] = int(b->getBlockID());
                json::Array succ;
                for (auto it = b->succ_begin(); it != b->succ_end(); ++it)
                {
                    const CFGBlock* r = it->getReachableBlock();
                    succ.push_back(r ? int(r->getBlockID()) : -1);
                }
                bobj["s"] = std::move(succ);
                json::Array elems;
                int last = -1;
                for (const CFGElement& el : *b)
                {
                    if (auto st = el.getAs<CFGStmt>())
                    {
                        int n = node(st->getStmt());
                        if (n != last)
                            elems.push_back(n);
                        last = n;
                    }
                    else if (auto in = el.getAs<CFGInitializer>())
                    {
                        const CXXCtorInitializer* ci = in->getInitializer();
                        json::Object io;
                        if (ci->isAnyMemberInitializer())
                            io["init"] = ci->getAnyMember()->getNameAsString();
                        else
                            io["initbase"] = 1;
                        io["e"] = node(ci->getInit());
                        io["l"] = line_of(ci->getSourceLocation());
                        elems.push_back(std::move(io));
                    }
                    else if (auto ad = el.getAs<CFGAutomaticObjDtor>())
                    {
                        json::Object io;
                        io["dtorvar"] = var_id(ad->getVarDecl());
                        const CXXDestructorDecl* dd = ad->getDestructorDecl(C);
                        if (dd)
                        {
                            io["n"] = qual_name(dd);
                            io["f"] = usr_of(dd);
                            callees.insert(qual_name(dd));
                        }
                        io["l"] = line_of(ad->getTriggerStmt() ? ad->getTriggerStmt()->getEndLoc() : f->getEndLoc());
                        elems.push_back(std::move(io));
                    }
                    else if (auto md = el.getAs<CFGMemberDtor>())
                    {
                        json::Object io;
                        io["dtorfield"] = md->getFieldDecl()->getNameAsString();
                        if (const CXXDestructorDecl* dd = md->getDestructorDecl(C))
                        {
                            io["n"] = qual_name(dd);
                            io["f"] = usr_of(dd);
                            callees.insert(qual_name(dd));
                        }
                        elems.push_back(std::move(io));
                    }
                    else if (auto bd = el.getAs<CFGBaseDtor>())
                    {
                        json::Object io;
                        io["dtorbase"] = 1;
                        if (const CXXDestructorDecl* dd = bd->getDestructorDecl(C))
                        {
                            io["n"] = qual_name(dd);
                            io["f"] = usr_of(dd);
                            callees.insert(qual_name(dd));
                        }
                        elems.push_back(std::move(io));
                    }
                    else if (auto td = el.getAs<CFGTemporaryDtor>())
                    {
                        json::Object io;
                        io["dtortemp"] = node(td->getBindTemporaryExpr()->getSubExpr());
                        if (const CXXDestructorDecl* dd = td->getDestructorDecl(C))
                        {
                            io["n"] = qual_name(dd);
                            io["f"] = usr_of(dd);
                            callees.insert(qual_name(dd));
                        }
                        elems.push_back(std::move(io));
                    }
                }
                if (!elems.empty())
                    bobj["e"] = std::move(elems);
                const Stmt* term = b->getTerminatorStmt();
                if (term)
                {
                    bobj["tk"] = term->getStmtClassName();
                    if (auto* bop = dyn_cast<BinaryOperator>(term))
                        bobj["top"] = bop->getOpcodeStr().str();
                    if (const Stmt* cond = b->getTerminatorCondition(false))
                        bobj["tc"] = node(cond);
                    bobj["tl"] = line_of(term->getBeginLoc());
                    if (b->getTerminator().isTemporaryDtorsBranch())
                        bobj["tdb"] = 1;
                }
                if (b->hasNoReturnElement())
                    bobj["noret"] = 1;
                if (const Stmt* lab = b->getLabel())
                {
                    if (auto* cs = dyn_cast<CaseStmt>(lab))
                    {
                        json::Array lo;
                        lo.push_back(node(cs->getLHS()));
                        // stacked labels share the block of the outermost one only when nested
                        bobj["case"] = std::move(lo);
                        if (cs->getRHS())
                            bobj["caserhs"] = node(cs->getRHS());
                    }
                    else if (isa<DefaultStmt>(lab))
                        bobj["default"] = 1;
                    else if (auto* ls = dyn_cast<LabelStmt>(lab))
                        bobj["label"] = ls->getName();
                }
                blocks.push_back(std::move(bobj));
            }
            fo["entry"] = int(cfg->getEntry().getBlockID());
            fo["exit"] = int(cfg->getExit().getBlockID());
            fo["blocks"] = std::move(blocks);
        }
        if (f->getReturnType()->isVoidType())
            fo["void"] = 1;
        return fo;
    }

    void finish(json::Object& fo)
    {
        fo["nodes"] = std::move(nodes);
        fo["types"] = std::move(types);
        fo["vars"] = std::move(vars);
    }
};

static std::string clean(std::string s)
{
    for (auto& c : s)
        if (c == '\t' || c == '\n' || c == '\r')
            c = ' ';
    return s;
}

struct Visitor : RecursiveASTVisitor<Visitor>
{
    ASTContext& C;
    std::set<std::string> done;
    Visitor(ASTContext& c) : C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isInvalidDecl())
            return true;
        if (f->isDefaulted() && !f->getBody())
            return true;
        if (!f->getBody())
            return true;
        std::string file;
        unsigned line = 0;
        if (!in_root(C.getSourceManager(), f->getLocation(), &file, &line))
            return true;
        std::string usr = usr_of(f);
        if (!done.insert("F" + usr).second)
            return true;
        Emitter em(C);
        json::Object fo = em.emit_function(f);
        em.finish(fo);
        std::string callees;
        for (auto& c : em.callees)
            callees += c + "\x01";
        std::string js;
        llvm::raw_string_ostream os(js);
        os << json::Value(std::move(fo));
        os.flush();
        *g_out << "F\t" << clean(usr) << "\t" << clean(qual_name(f)) << "\t" << file << "\t" << line << "\t" << clean(callees) << "\t" << js << "\n";
        return true;
    }

    bool VisitRecordDecl(RecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isInvalidDecl())
            return true;
        std::string file;
        unsigned line = 0;
        if (!in_root(C.getSourceManager(), r->getLocation(), &file, &line))
            return true;
        if (!done.insert("R" + usr_of(r)).second)
            return true;
        Emitter em(C);
        json::Object ro;
        json::Array fields;
        for (auto* fd : r->fields())
        {
            json::Object fo;
            fo["n"] = fd->getNameAsString();
            fo["t"] = em.type_id(fd->getType());
            fo["l"] = em.line_of(fd->getLocation());
            if (fd->hasInClassInitializer() && fd->getInClassInitializer())
                fo["i"] = em.node(fd->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        ro["fields"] = std::move(fields);
        ro["line"] = line;
        if (auto* cx = dyn_cast<CXXRecordDecl>(r))
        {
            json::Array bases;
            for (auto& b : cx->bases())
                if (auto* bd = b.getType()->getAsCXXRecordDecl())
                    bases.push_back(qual_name(bd));
            ro["bases"] = std::move(bases);
            if (auto* d = cx->getDestructor())
            {
                ro["dtor"] = usr_of(d);
                ro["dtoruser"] = d->isUserProvided() ? 1 : 0;
                ro["dtorvirt"] = d->isVirtual() ? 1 : 0;
            }
            json::Array ms;
            for (auto* m : cx->methods())
            {
                json::Object mo;
                mo["n"] = m->getNameAsString();
                mo["f"] = usr_of(m);
                mo["virt"] = m->isVirtual() ? 1 : 0;
                mo["pure"] = m->isPureVirtual() ? 1 : 0;
                mo["del"] = m->isDeleted() ? 1 : 0;
                mo["user"] = m->isUserProvided() ? 1 : 0;
                mo["acc"] = int(m->getAccess());
                ms.push_back(std::move(mo));
            }
            ro["methods"] = std::move(ms);
            ro["copyctor"] = (cx->hasSimpleCopyConstructor() || cx->hasUserDeclaredCopyConstructor()) ? 1 : 0;
        }
        em.finish(ro);
        std::string js;
        llvm::raw_string_ostream os(js);
        os << json::Value(std::move(ro));
        os.flush();
        *g_out << "R\t" << clean(qual_name(r)) << "\t" << file << "\t" << js << "\n";
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext())
            return true;
        std::string file;
        if (!in_root(C.getSourceManager(), e->getLocation(), &file))
            return true;
        json::Object eo;
        for (auto* c : e->enumerators())
        {
            llvm::APSInt v = c->getInitVal();
            eo[qual_name(c)] = v.isRepresentableByInt64() ? int64_t(v.getExtValue()) : int64_t(v.getZExtValue());
        }
        std::string js;
        llvm::raw_string_ostream os(js);
        os << json::Value(std::move(eo));
        os.flush();
        *g_out << "N\t" << clean(qual_name(e)) << "\t" << file << "\t" << js << "\n";
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (v->isLocalVarDeclOrParm() || isa<ParmVarDecl>(v) || v->getDeclContext()->isDependentContext() || v->isInvalidDecl())
            return true;
        std::string file;
        unsigned line = 0;
        if (!in_root(C.getSourceManager(), v->getLocation(), &file, &line))
            return true;
        if (!v->isThisDeclarationADefinition() && !v->hasInit())
            return true;
        if (!done.insert("G" + usr_of(v)).second)
            return true;
        Emitter em(C);
        json::Object go;
        go["t"] = em.type_id(v->getType());
        go["line"] = line;
        go["tls"] = v->getTLSKind() != VarDecl::TLS_None ? 1 : 0;
        if (v->hasInit() && !v->getInit()->isValueDependent())
            go["i"] = em.node(v->getInit());
        em.finish(go);
        std::string js;
        llvm::raw_string_ostream os(js);
        os << json::Value(std::move(go));
        os.flush();
        *g_out << "G\t" << clean(usr_of(v)) << "\t" << clean(qual_name(v)) << "\t" << file << "\t" << js << "\n";
        return true;
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (!g_out)
            return;
        Visitor v(C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        auto& sm = C.getSourceManager();
        std::set<std::string> deps;
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
        {
            llvm::SmallString<256> path(it->first.getName());
            llvm::sys::fs::make_absolute(path);
            llvm::sys::path::remove_dots(path, true);
            std::string s = std::string(path.str());
            if (s.compare(0, g_root.size(), g_root) == 0)
                deps.insert(s.substr(g_root.size() + 1));
        }
        for (auto& d : deps)
            *g_out << "D\t" << d << "\n";
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

struct Diags : DiagnosticConsumer
{
    bool collect = false;
    void HandleDiagnostic(DiagnosticsEngine::Level level, const Diagnostic& d) override
    {
        DiagnosticConsumer::HandleDiagnostic(level, d);
        if (level < DiagnosticsEngine::Error)
            return;
        llvm::SmallString<256> msg;
        d.FormatDiagnostic(msg);
        std::string where;
        if (d.hasSourceManager() && d.getLocation().isValid())
        {
            PresumedLoc p = d.getSourceManager().getPresumedLoc(d.getLocation());
            if (p.isValid())
                where = std::string(p.getFilename()) + ":" + std::to_string(p.getLine()) + ": ";
        }
        if (collect && msg.str().contains("must explicitly qualify name of member function"))
        {
            for (auto& fx : d.getFixItHints())
            {
                if (fx.CodeToInsert.empty())
                    continue;
                auto& sm = d.getSourceManager();
                SourceLocation l = sm.getFileLoc(fx.RemoveRange.getBegin());
                auto dl = sm.getDecomposedLoc(l);
                if (auto fe = sm.getFileEntryRefForID(dl.first))
                {
                    // insertion before '&' means qualify after it
                    g_fixits.push_back({ std::string(fe->getName()), { dl.second, fx.CodeToInsert } });
                }
            }
            if (!d.getFixItHints().empty())
                return;
        }
        g_errors.push_back(where + std::string(msg.str()));
    }
};

static bool run(const std::vector<std::string>& args, bool collect)
{
    Diags diags;
    diags.collect = collect;
    // map overlay
    llvm::IntrusiveRefCntPtr<llvm::vfs::OverlayFileSystem> ofs(new llvm::vfs::OverlayFileSystem(llvm::vfs::getRealFileSystem()));
    llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> mem(new llvm::vfs::InMemoryFileSystem);
    ofs->pushOverlay(mem);
    for (auto& kv : g_overlay)
        mem->addFile(kv.first, 0, llvm::MemoryBuffer::getMemBufferCopy(kv.second));
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions(), ofs));
    tooling::ToolInvocation inv2(args, std::make_unique<Action>(), fm.get());
    inv2.setDiagnosticConsumer(&diags);
    return inv2.run();
}

int main(int argc, char** argv)
{
    std::string out;
    std::vector<std::string> args;
    int i = 1;
    for (; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--root") g_root = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--") { ++i; break; }
    }
    for (; i < argc; ++i)
        args.push_back(argv[i]);
    std::ostringstream buf;
    g_out = &buf;
    run(args, true);
    if (!g_fixits.empty())
    {
        std::map<std::string, std::map<unsigned, std::string>> by;
        for (auto& f : g_fixits)
        {
            llvm::SmallString<256> p(f.first);
            llvm::sys::fs::make_absolute(p);
            by[std::string(p.str())][f.second.first] = f.second.second;
        }
        for (auto& kv : by)
        {
            std::ifstream in(kv.first, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            std::string text = ss.str();
            for (auto it = kv.second.rbegin(); it != kv.second.rend(); ++it)
            {
                unsigned off = it->first;
                if (off < text.size() && text[off] == '&')
                    ++off;
                text.insert(off, it->second);
            }
            g_overlay[kv.first] = text;
        }
        g_errors.clear();
        buf.str("");
        run(args, false);
    }
    std::ofstream f(out, std::ios::binary);
    f << buf.str();
    for (auto& e : g_errors)
        f << "E\t" << clean(e) << "\n";
    f.close();
    return f ? 0 : 2;
}
