// yx: resolved-program extractor for the yrmcds static checks.
//
// Parses one translation unit with the real clang front end and writes, for
// every function defined below the given root (template instantiations and
// lambdas included), its control flow graph with fully resolved expressions,
// plus records (fields, bases, methods) and enums, as one JSON document.
//
// It contains no property-specific knowledge at all.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;   // absolute path prefix of the analysed tree
static std::string g_out;

namespace {

struct Exporter {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    Array functions, records, enums, globals;
    std::set<const FunctionDecl*> done;
    std::set<const Decl*> rec_done;
    std::map<const Decl*, int> var_ids;

    explicit Exporter(ASTContext& c): C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
    }

    std::string file_of(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        if( p.isInvalid() ) return "";
        return p.getFilename();
    }
    unsigned line_of(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return SM.getExpansionLineNumber(l);
    }
    std::string rel(std::string f) {
        if( f.rfind("./", 0) == 0 ) f = f.substr(2);
        if( f.rfind(g_root + "/", 0) == 0 ) return f.substr(g_root.size() + 1);
        return f;
    }
    bool in_root(SourceLocation l) {
        std::string f = file_of(l);
        if( f.empty() ) return false;
        if( f[0] != '/' ) return true;
        return f.rfind(g_root + "/", 0) == 0;
    }
    int vid(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = var_ids.find(d);
        if( it != var_ids.end() ) return it->second;
        int n = (int)var_ids.size() + 1;
        var_ids[d] = n;
        return n;
    }
    std::string type_str(QualType t) {
        if( t.isNull() ) return "?";
        return t.getCanonicalType().getAsString(PP);
    }
    static const FunctionDecl* def_of(const FunctionDecl* f) {
        const FunctionDecl* d = nullptr;
        if( f->hasBody(d) ) return d;
        return f;
    }
    std::string fid(const FunctionDecl* f) {
        f = f->getCanonicalDecl();
        llvm::SmallString<128> buf;
        if( ! index::generateUSRForDecl(f, buf) ) {
            std::string s(buf.begin(), buf.end());
            // lambdas: USR already contains a location; static/anonymous: file
            if( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
                if( m->getParent()->isLambda() ) {
                    s += "@" + rel(file_of(m->getParent()->getBeginLoc())) + ":" +
                         std::to_string(line_of(m->getParent()->getBeginLoc())) + ":" +
                         std::to_string(SM.getExpansionColumnNumber(m->getParent()->getBeginLoc()));
                    // instantiation context
                    if( auto* dc = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParent()) )
                        s += "<" + fid(dc) + ">";
                    else if( auto* rd = dyn_cast_or_null<CXXRecordDecl>(m->getParent()->getParent()) )
                        s += "<" + rd->getQualifiedNameAsString() + ">";
                }
            }
            return s;
        }
        return f->getQualifiedNameAsString();
    }
    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p2(PP);
        p2.SuppressUnwrittenScope = true;
        d->printQualifiedName(os, p2);
        os.flush();
        return s;
    }
    std::string recname(const CXXRecordDecl* r) {
        if( r->isLambda() ) return "(lambda)";
        return type_str(C.getTypeDeclType(r));
    }

    // ---- expressions -------------------------------------------------
    std::map<const Stmt*, int> elem;   // statement -> element number (per function)

    const Expr* strip(const Expr* e) {
        while( true ) {
            if( ! e ) return e;
            if( auto* p = dyn_cast<ParenExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<ExprWithCleanups>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<MaterializeTemporaryExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<CXXBindTemporaryExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e) ) { e = p->getReplacement(); continue; }
            if( auto* p = dyn_cast<CXXStdInitializerListExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<ConstantExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<FullExpr>(e) ) { e = p->getSubExpr(); continue; }
            if( auto* p = dyn_cast<CastExpr>(e) ) {
                switch( p->getCastKind() ) {
                case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
                case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
                case CK_FunctionToPointerDecay:
                case CK_BuiltinFnToFnPtr: case CK_LValueBitCast: case CK_BitCast:
                    e = p->getSubExpr(); continue;
                default: break;
                }
            }
            return e;
        }
    }

    Value ref(const Expr* e) {
        if( ! e ) return nullptr;
        // find the outermost wrapper that is itself an element
        const Expr* x = strip(e);
        if( ! x ) return nullptr;
        auto it = elem.find(x);
        if( it != elem.end() ) return Object{{"r", it->second}};
        return node(x);
    }

    void common(Object& o, const Expr* e) {
        o["ln"] = (int64_t)line_of(e->getExprLoc());
        o["t"] = type_str(e->getType());
        if( e->isGLValue() ) o["gl"] = true;
        else if( e->getType()->isRecordType() ) o["rec"] = true;
        if( ! e->isValueDependent() && ! e->isTypeDependent() && e->isPRValue() &&
            e->getType()->isIntegralOrEnumerationType() ) {
            Expr::EvalResult r;
            if( ! isa<CXXDefaultArgExpr>(e) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) ) {
                llvm::APSInt v = r.Val.getInt();
                llvm::SmallString<40> s; v.toString(s, 10);
                o["cv"] = std::string(s.begin(), s.end());
            }
        }
    }

    Value callee_info(Object& o, const FunctionDecl* f) {
        if( ! f ) return nullptr;
        o["f"] = fid(f);
        o["n"] = qname(f);
        o["sn"] = f->getNameInfo().getAsString();
        if( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            o["cls"] = recname(m->getParent());
            if( m->getParent()->isLambda() ) o["lamcall"] = true;
            if( m->isConst() ) o["const"] = true;
            if( m->isStatic() ) o["static"] = true;
        }
        if( f->isNoReturn() ) o["noret"] = true;
        if( auto* ta = f->getTemplateSpecializationArgs() )
            for( unsigned i = 0; i < ta->size(); ++i )
                if( ta->get(i).getKind() == TemplateArgument::Integral ) {
                    llvm::SmallString<40> s; ta->get(i).getAsIntegral().toString(s, 10);
                    o["ti"] = std::string(s.begin(), s.end());
                    break;
                }
        Array pt;
        for( auto* p : f->parameters() ) pt.push_back(type_str(p->getType()));
        o["pt"] = std::move(pt);
        return nullptr;
    }

    Value node(const Expr* e) {
        Object o;
        common(o, e);
        if( auto* d = dyn_cast<DeclRefExpr>(e) ) {
            const ValueDecl* v = d->getDecl();
            if( auto* ec = dyn_cast<EnumConstantDecl>(v) ) {
                o["k"] = "ec"; o["n"] = qname(ec);
                return std::move(o);
            }
            if( auto* f = dyn_cast<FunctionDecl>(v) ) {
                o["k"] = "fn"; callee_info(o, f);
                return std::move(o);
            }
            o["k"] = "v"; o["id"] = vid(v); o["n"] = v->getNameAsString();
            o["vt"] = type_str(v->getType());
            if( auto* b = dyn_cast<BindingDecl>(v) ) {
                o["sc"] = "binding";
                if( b->getBinding() ) { o["bind"] = ref(b->getBinding()); }
                return std::move(o);
            }
            if( auto* vd = dyn_cast<VarDecl>(v) ) {
                if( isa<ParmVarDecl>(vd) ) o["sc"] = "param";
                else if( vd->hasGlobalStorage() ) {
                    o["sc"] = vd->isLocalVarDecl() ? "static" : "global";
                    o["qn"] = qname(vd);
                    if( vd->getTLSKind() != VarDecl::TLS_None ) o["tls"] = true;
                    if( vd->getType().isConstQualified() || vd->isConstexpr() ) o["cst"] = true;
                } else o["sc"] = "local";
                if( vd->getType()->isReferenceType() ) o["isref"] = true;
            }
            if( d->refersToEnclosingVariableOrCapture() ) o["cap"] = true;
            return std::move(o);
        }
        if( auto* l = dyn_cast<IntegerLiteral>(e) ) { (void)l; o["k"] = "c"; return std::move(o); }
        if( auto* l = dyn_cast<CharacterLiteral>(e) ) { (void)l; o["k"] = "c"; o["chr"] = true; return std::move(o); }
        if( isa<CXXBoolLiteralExpr>(e) ) { o["k"] = "c"; return std::move(o); }
        if( isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e) ) { o["k"] = "null"; return std::move(o); }
        if( auto* l = dyn_cast<FloatingLiteral>(e) ) {
            o["k"] = "flt"; o["v"] = l->getValueAsApproximateDouble(); return std::move(o); }
        if( auto* l = dyn_cast<clang::StringLiteral>(e) ) {
            o["k"] = "str";
            std::string s;
            if( l->getCharByteWidth() == 1 ) for( unsigned char ch : l->getString() ) {
                if( ch < 0x80 ) s.push_back((char)ch); else { char b[8]; snprintf(b, 8, "\\x%02x", ch); s += b; }
            }
            o["v"] = s; o["len"] = (int64_t)l->getLength(); return std::move(o);
        }
        if( isa<CXXThisExpr>(e) ) { o["k"] = "this"; return std::move(o); }
        if( auto* m = dyn_cast<MemberExpr>(e) ) {
            const ValueDecl* v = m->getMemberDecl();
            if( auto* f = dyn_cast<FunctionDecl>(v) ) {
                o["k"] = "mfn"; callee_info(o, f); o["b"] = ref(m->getBase()); return std::move(o);
            }
            if( auto* vd = dyn_cast<VarDecl>(v) ) { // static member
                o["k"] = "v"; o["id"] = vid(vd); o["n"] = vd->getNameAsString(); o["sc"] = "global"; o["qn"] = qname(vd);
                return std::move(o);
            }
            if( auto* ec = dyn_cast<EnumConstantDecl>(v) ) { o["k"]="ec"; o["n"]=qname(ec); return std::move(o); }
            o["k"] = "m"; o["fn"] = v->getNameAsString();
            if( auto* fd = dyn_cast<FieldDecl>(v) ) {
                if( auto* r = dyn_cast<CXXRecordDecl>(fd->getParent()) ) o["cls"] = recname(r);
                if( fd->getType()->isReferenceType() ) o["isref"] = true;
                o["vt"] = type_str(fd->getType());
                if( fd->isMutable() ) o["mut"] = true;
            }
            if( m->isArrow() ) o["arrow"] = true;
            o["b"] = ref(m->getBase());
            return std::move(o);
        }
        if( auto* c = dyn_cast<CXXOperatorCallExpr>(e) ) {
            o["k"] = "call"; o["op"] = getOperatorSpelling(c->getOperator());
            const FunctionDecl* f = c->getDirectCallee();
            callee_info(o, f);
            Array a;
            unsigned i = 0;
            if( f && isa<CXXMethodDecl>(f) && ! cast<CXXMethodDecl>(f)->isStatic() && c->getNumArgs() > 0 ) {
                o["obj"] = ref(c->getArg(0)); i = 1;
            }
            for( ; i < c->getNumArgs(); ++i ) a.push_back(ref(c->getArg(i)));
            o["a"] = std::move(a);
            if( ! f ) o["fe"] = ref(c->getCallee());
            return std::move(o);
        }
        if( auto* c = dyn_cast<CXXMemberCallExpr>(e) ) {
            o["k"] = "call";
            const CXXMethodDecl* m = c->getMethodDecl();
            callee_info(o, m);
            if( auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()) ) {
                o["obj"] = ref(me->getBase());
                if( me->isArrow() ) o["arrow"] = true;
                if( m && m->isVirtual() && ! me->hasQualifier() ) o["virt"] = true;
            } else if( c->getImplicitObjectArgument() ) {
                o["obj"] = ref(c->getImplicitObjectArgument());
            }
            if( ! m ) o["fe"] = ref(c->getCallee());
            Array a;
            for( auto* x : c->arguments() ) a.push_back(ref(x));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if( auto* c = dyn_cast<CallExpr>(e) ) {
            o["k"] = "call";
            const FunctionDecl* f = c->getDirectCallee();
            callee_info(o, f);
            if( ! f ) o["fe"] = ref(c->getCallee());
            Array a;
            for( auto* x : c->arguments() ) a.push_back(ref(x));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if( auto* c = dyn_cast<CXXConstructExpr>(e) ) {
            o["k"] = "ctor";
            o["cls"] = recname(c->getConstructor()->getParent());
            o["f"] = fid(c->getConstructor());
            o["n"] = qname(c->getConstructor());
            { Array pt; for( auto* p : c->getConstructor()->parameters() ) pt.push_back(type_str(p->getType())); o["pt"] = std::move(pt); }
            o["copy"] = c->getConstructor()->isCopyOrMoveConstructor();
            if( c->getConstructor()->isConvertingConstructor(true) ) o["conv"] = true;
            if( c->getConstructor()->isDefaulted() ) o["defaulted"] = true;
            if( c->isElidable() ) o["elide"] = true;
            Array a;
            for( auto* x : c->arguments() ) a.push_back(ref(x));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if( auto* c = dyn_cast<CXXInheritedCtorInitExpr>(e) ) { (void)c; o["k"] = "unk"; o["what"]="inhctor"; return std::move(o); }
        if( auto* n = dyn_cast<CXXNewExpr>(e) ) {
            o["k"] = "new"; o["nt"] = type_str(n->getAllocatedType());
            if( n->isArray() ) { o["arr"] = true; if( n->getArraySize() ) o["sz"] = ref(*n->getArraySize()); }
            if( n->getInitializer() ) o["init"] = ref(n->getInitializer());
            Array pl; for( unsigned i=0;i<n->getNumPlacementArgs();++i ) pl.push_back(ref(n->getPlacementArg(i)));
            if( ! pl.empty() ) o["pl"] = std::move(pl);
            return std::move(o);
        }
        if( auto* n = dyn_cast<CXXDeleteExpr>(e) ) {
            o["k"] = "delete"; o["e"] = ref(n->getArgument()); o["dt"] = type_str(n->getDestroyedType());
            if( auto* rd = n->getDestroyedType().isNull() ? nullptr : n->getDestroyedType()->getAsCXXRecordDecl() )
                if( rd->hasDefinition() && rd->getDestructor() ) { o["f"] = fid(rd->getDestructor()); if( rd->getDestructor()->isVirtual() ) o["virt"]=true; }
            return std::move(o);
        }
        if( auto* u = dyn_cast<UnaryOperator>(e) ) {
            o["k"] = "u"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if( u->isPostfix() ) o["post"] = true;
            o["e"] = ref(u->getSubExpr());
            return std::move(o);
        }
        if( auto* b = dyn_cast<BinaryOperator>(e) ) {
            o["op"] = b->getOpcodeStr().str();
            o["k"] = b->isAssignmentOp() ? "asg" : (b->isLogicalOp() ? "log" : (b->getOpcode()==BO_Comma ? "comma" : "b"));
            o["l"] = ref(b->getLHS()); o["rr"] = ref(b->getRHS());
            return std::move(o);
        }
        if( auto* c = dyn_cast<AbstractConditionalOperator>(e) ) {
            o["k"] = "cond";
            o["c"] = ref(c->getCond()); o["l"] = ref(c->getTrueExpr()); o["rr"] = ref(c->getFalseExpr());
            return std::move(o);
        }
        if( auto* c = dyn_cast<ArraySubscriptExpr>(e) ) {
            o["k"] = "ix"; o["b"] = ref(c->getBase()); o["i"] = ref(c->getIdx()); return std::move(o);
        }
        if( auto* c = dyn_cast<CastExpr>(e) ) {
            if( c->getCastKind() == CK_LValueToRValue ) { o["k"] = "ld"; o["e"] = ref(c->getSubExpr()); return std::move(o); }
            o["k"] = "cast"; o["ck"] = c->getCastKindName(); o["e"] = ref(c->getSubExpr());
            return std::move(o);
        }
        if( auto* l = dyn_cast<LambdaExpr>(e) ) {
            o["k"] = "lam"; 
            const CXXMethodDecl* op = l->getCallOperator();
            o["f"] = fid(op);
            Array caps;
            auto it = l->capture_init_begin();
            for( auto& cap : l->captures() ) {
                Object k;
                if( cap.capturesThis() ) k["this"] = true;
                else if( cap.capturesVariable() ) {
                    k["id"] = vid(cap.getCapturedVar()); k["n"] = cap.getCapturedVar()->getNameAsString();
                    k["byref"] = cap.getCaptureKind() == LCK_ByRef;
                    if( it != l->capture_init_end() && *it ) k["init"] = ref(*it);
                }
                caps.push_back(std::move(k));
                ++it;
            }
            o["caps"] = std::move(caps);
            add_function(op);
            return std::move(o);
        }
        if( auto* c = dyn_cast<CXXDefaultArgExpr>(e) ) { 
            const Expr* x = strip(c->getExpr());
            // default arguments are evaluated by the caller but have no CFG element
            return node(x);
        }
        if( auto* c = dyn_cast<CXXDefaultInitExpr>(e) ) { return node(strip(c->getExpr())); }
        if( auto* c = dyn_cast<InitListExpr>(e) ) {
            o["k"] = "il"; Array a; for( auto* x : c->inits() ) a.push_back(ref(x)); o["a"] = std::move(a); return std::move(o);
        }
        if( auto* c = dyn_cast<CXXThrowExpr>(e) ) {
            o["k"] = "throw"; if( c->getSubExpr() ) { o["e"] = ref(c->getSubExpr()); o["tt"] = type_str(c->getSubExpr()->getType()); }
            return std::move(o);
        }
        if( auto* c = dyn_cast<UnaryExprOrTypeTraitExpr>(e) ) { (void)c; o["k"] = "c"; o["sizeof"]=true; return std::move(o); }
        if( auto* c = dyn_cast<CXXScalarValueInitExpr>(e) ) { (void)c; o["k"] = "c"; if( ! o.get("cv") ) o["cv"]="0"; return std::move(o); }
        if( auto* c = dyn_cast<ImplicitValueInitExpr>(e) ) { (void)c; o["k"] = "c"; o["cv"]="0"; return std::move(o); }
        if( isa<CXXDynamicCastExpr>(e) ) { o["k"]="unk"; return std::move(o); }
        if( auto* c = dyn_cast<ArrayInitLoopExpr>(e) ) { (void)c; o["k"] = "unk"; o["what"]="ArrayInitLoop"; return std::move(o); }
        o["k"] = "unk"; o["what"] = e->getStmtClassName();
        return std::move(o);
    }

    // ---- functions ---------------------------------------------------
    void add_function(const FunctionDecl* f) {
        const FunctionDecl* d = nullptr;
        if( ! f->hasBody(d) ) {
            return;
        }
        f = d;
        if( f->isDependentContext() || f->isTemplated() ) return;
        if( ! in_root(f->getLocation()) && ! in_root(f->getBeginLoc()) ) return;
        if( ! done.insert(f->getCanonicalDecl()).second ) return;
        std::map<const Stmt*, int> saved;
        saved.swap(elem);
        export_function(f);
        elem.swap(saved);
    }

    void export_function(const FunctionDecl* f) {
        Object o;
        o["id"] = fid(f);
        o["n"] = qname(f);
        o["sn"] = f->getNameInfo().getAsString();
        o["file"] = rel(file_of(f->getLocation()));
        o["line"] = (int64_t)line_of(f->getLocation());
        o["eline"] = (int64_t)line_of(f->getEndLoc());
        o["ret"] = type_str(f->getReturnType());
        if( auto* ft = f->getType()->getAs<FunctionProtoType>() ) o["nothrow"] = ft->isNothrow();
        if( f->isDefaulted() ) o["defaulted"] = true;
        Array ps;
        for( auto* p : f->parameters() )
            ps.push_back(Object{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", type_str(p->getType())}});
        o["params"] = std::move(ps);
        if( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            o["cls"] = recname(m->getParent());
            o["static"] = m->isStatic();
            if( m->getParent()->isLambda() ) {
                o["lambda"] = true;
                const DeclContext* dc = m->getParent()->getParent();
                if( auto* pf = dyn_cast_or_null<FunctionDecl>(dc) ) o["in"] = fid(pf);
            }
            if( m->isVirtual() ) o["virtual"] = true;
            Array ov;
            for( auto* x : m->overridden_methods() ) ov.push_back(fid(x));
            if( ! ov.empty() ) o["over"] = std::move(ov);
            o["access"] = (int)m->getAccess();
            if( isa<CXXConstructorDecl>(m) ) o["ctor"] = true;
            if( isa<CXXDestructorDecl>(m) ) o["dtor"] = true;
        }
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddInitializers = true;
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = false;
        bo.AddEHEdges = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.AddCXXDefaultInitExprInAggregates = false;
        bo.PruneTriviallyFalseEdges = false;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &C, bo);
        if( ! cfg ) { o["nocfg"] = true; functions.push_back(std::move(o)); return; }
        // number the elements
        elem.clear();
        int n = 0;
        for( CFGBlock* b : *cfg )
            for( auto& el : *b )
                if( auto cs = el.getAs<CFGStmt>() ) {
                    const Stmt* s = cs->getStmt();
                    if( auto* e = dyn_cast<Expr>(s) ) {
                        if( strip(e) != e ) continue;
                        if( isa<CXXDefaultArgExpr>(e) || isa<CXXDefaultInitExpr>(e) ) continue;
                    }
                    if( ! elem.count(s) ) elem[s] = ++n;
                }
        Array blocks;
        for( CFGBlock* b : *cfg ) {
            Object bo2;
            bo2["id"] = (int64_t)b->getBlockID();
            Array ins;
            for( auto& el : *b ) add_element(ins, el);
            bo2["i"] = std::move(ins);
            Array succ;
            for( auto it = b->succ_begin(); it != b->succ_end(); ++it ) {
                CFGBlock* t = it->getReachableBlock();
                if( ! t ) t = it->getPossiblyUnreachableBlock();
                if( t ) succ.push_back((int64_t)t->getBlockID()); else succ.push_back(nullptr);
            }
            bo2["s"] = std::move(succ);
            if( b->hasNoReturnElement() ) bo2["noret"] = true;
            if( const Stmt* lab = b->getLabel() ) {
                if( auto* cs = dyn_cast<CaseStmt>(lab) ) {
                    Array vals;
                    // consecutive case labels appear as separate blocks in clang's CFG
                    Value v = ref(cs->getLHS());
                    vals.push_back(std::move(v));
                    Expr::EvalResult r;
                    if( cs->getLHS()->EvaluateAsInt(r, C) ) {
                        llvm::SmallString<40> s; r.Val.getInt().toString(s, 10);
                        bo2["case"] = std::string(s.begin(), s.end());
                    }
                    if( cs->getRHS() && cs->getRHS()->EvaluateAsInt(r, C) ) {
                        llvm::SmallString<40> s; r.Val.getInt().toString(s, 10);
                        bo2["case2"] = std::string(s.begin(), s.end());
                    }
                    bo2["casee"] = std::move(vals);
                } else if( isa<DefaultStmt>(lab) ) bo2["default"] = true;
                else if( auto* c = dyn_cast<CXXCatchStmt>(lab) ) {
                    bo2["catch"] = c->getExceptionDecl() ? type_str(c->getCaughtType()) : std::string("...");
                    if( c->getExceptionDecl() ) bo2["catchvar"] = vid(c->getExceptionDecl());
                }
            }
            if( const Stmt* t = b->getTerminatorStmt() ) {
                Object to;
                to["k"] = t->getStmtClassName();
                to["ln"] = (int64_t)line_of(t->getBeginLoc());
                if( auto* bop = dyn_cast<BinaryOperator>(t) ) to["op"] = bop->getOpcodeStr().str();
                if( isa<SwitchStmt>(t) ) to["c"] = ref(cast<SwitchStmt>(t)->getCond());
                else if( isa<CXXTryStmt>(t) ) {}
                else if( b->succ_size() == 2 ) {
                    if( const Expr* c = b->getLastCondition() ) to["c"] = ref(c);
                    else if( auto* ce = dyn_cast_or_null<Expr>(b->getTerminatorCondition()) ) to["c"] = ref(ce);
                }
                if( auto* sw = dyn_cast<SwitchStmt>(t) ) { to["allenum"] = sw->isAllEnumCasesCovered(); }
                bo2["t"] = std::move(to);
            }
            blocks.push_back(std::move(bo2));
        }
        o["entry"] = (int64_t)cfg->getEntry().getBlockID();
        o["exit"] = (int64_t)cfg->getExit().getBlockID();
        // try ranges: which blocks are covered by which try statement
        Array trys;
        for( const CFGBlock* tb : cfg->try_blocks() ) {
            Object to;
            to["b"] = (int64_t)tb->getBlockID();
            if( auto* ts = dyn_cast_or_null<CXXTryStmt>(tb->getTerminatorStmt()) ) {
                std::set<int> inside;
                collect_elems(ts->getTryBlock(), inside);
                Array a; for( int x : inside ) a.push_back(x);
                to["in"] = std::move(a);
            }
            trys.push_back(std::move(to));
        }
        if( ! trys.empty() ) o["try"] = std::move(trys);
        o["blocks"] = std::move(blocks);
        functions.push_back(std::move(o));
    }
    void collect_elems(const Stmt* s, std::set<int>& out) {
        if( ! s ) return;
        auto it = elem.find(s);
        if( it != elem.end() ) out.insert(it->second);
        if( isa<LambdaExpr>(s) ) return;
        for( const Stmt* c : s->children() ) collect_elems(c, out);
    }

    void add_element(Array& ins, const CFGElement& el) {
        if( auto cs = el.getAs<CFGStmt>() ) {
            const Stmt* s = cs->getStmt();
            auto it = elem.find(s);
            if( it == elem.end() ) return;
            int id = it->second;
            if( auto* e = dyn_cast<Expr>(s) ) {
                // node() of an element must not refer to itself
                elem.erase(s);
                Value v = node(e);
                elem[s] = id;
                if( auto* ob = v.getAsObject() ) (*ob)["e#"] = id;
                ins.push_back(std::move(v));
                return;
            }
            if( auto* ds = dyn_cast<DeclStmt>(s) ) {
                for( auto* d : ds->decls() ) {
                    auto* vd = dyn_cast<VarDecl>(d);
                    if( ! vd ) continue;
                    Object o;
                    o["k"] = "decl"; o["e#"] = id; o["id"] = vid(vd); o["n"] = vd->getNameAsString();
                    o["vt"] = type_str(vd->getType()); o["ln"] = (int64_t)line_of(vd->getLocation());
                    if( vd->getType()->isReferenceType() ) o["isref"] = true;
                    if( vd->hasGlobalStorage() ) { o["static"] = true; o["qn"] = qname(vd); }
                    if( vd->getInit() ) o["init"] = ref(vd->getInit());
                    ins.push_back(std::move(o));
                }
                return;
            }
            if( auto* rs = dyn_cast<ReturnStmt>(s) ) {
                Object o; o["k"] = "ret"; o["e#"] = id; o["ln"] = (int64_t)line_of(rs->getBeginLoc());
                if( rs->getRetValue() ) o["e"] = ref(rs->getRetValue());
                ins.push_back(std::move(o));
                return;
            }
            Object o; o["k"] = "stmt"; o["what"] = s->getStmtClassName(); o["e#"] = id;
            ins.push_back(std::move(o));
            return;
        }
        if( auto d = el.getAs<CFGAutomaticObjDtor>() ) {
            Object o; o["k"] = "dtor"; o["id"] = vid(d->getVarDecl()); o["n"] = d->getVarDecl()->getNameAsString();
            o["vt"] = type_str(d->getVarDecl()->getType());
            if( auto* dd = d->getDestructorDecl(C) ) { o["f"] = fid(dd); o["cls"] = recname(dd->getParent()); }
            o["ln"] = (int64_t)line_of(d->getTriggerStmt()->getEndLoc());
            ins.push_back(std::move(o));
            return;
        }
        if( auto d = el.getAs<CFGMemberDtor>() ) {
            Object o; o["k"] = "mdtor"; o["fn"] = d->getFieldDecl()->getNameAsString(); o["vt"] = type_str(d->getFieldDecl()->getType());
            if( auto* dd = d->getDestructorDecl(C) ) { o["f"] = fid(dd); o["cls"] = recname(dd->getParent()); }
            ins.push_back(std::move(o));
            return;
        }
        if( auto d = el.getAs<CFGBaseDtor>() ) {
            Object o; o["k"] = "bdtor"; 
            if( auto* dd = d->getDestructorDecl(C) ) { o["f"] = fid(dd); o["cls"] = recname(dd->getParent()); }
            ins.push_back(std::move(o));
            return;
        }
        if( auto in = el.getAs<CFGInitializer>() ) {
            auto* ci = in->getInitializer();
            Object o; o["k"] = "minit"; o["ln"] = (int64_t)line_of(ci->getSourceLocation());
            if( ci->isAnyMemberInitializer() ) {
                auto* fd = ci->getAnyMember();
                o["fn"] = fd->getNameAsString(); o["vt"] = type_str(fd->getType());
                if( fd->getType()->isReferenceType() ) o["isref"] = true;
                if( auto* r = dyn_cast<CXXRecordDecl>(fd->getParent()) ) o["cls"] = recname(r);
            } else if( ci->isBaseInitializer() ) {
                o["base"] = type_str(QualType(ci->getBaseClass(), 0));
            } else o["deleg"] = true;
            if( ci->getInit() ) o["e"] = ref(ci->getInit());
            ins.push_back(std::move(o));
            return;
        }
    }

    // ---- records / enums --------------------------------------------
    void add_record(const CXXRecordDecl* r) {
        if( ! r->hasDefinition() ) return;
        r = r->getDefinition();
        if( r->isDependentContext() || r->isLambda() ) return;
        if( ! in_root(r->getLocation()) ) return;
        if( ! rec_done.insert(r).second ) return;
        Object o;
        o["n"] = recname(r); o["qn"] = qname(r); o["file"] = rel(file_of(r->getLocation())); o["line"] = (int64_t)line_of(r->getLocation());
        Array fs;
        for( auto* f : r->fields() ) {
            Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type_str(f->getType());
            fo["access"] = (int)f->getAccess(); fo["line"] = (int64_t)line_of(f->getLocation());
            if( f->isMutable() ) fo["mut"] = true;
            if( f->hasInClassInitializer() && f->getInClassInitializer() ) {
                elem.clear();
                fo["init"] = ref(f->getInClassInitializer());
            }
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs; for( auto& b : r->bases() ) bs.push_back(type_str(b.getType()));
        o["bases"] = std::move(bs);
        Array ms;
        for( auto* m : r->methods() ) {
            Object mo; mo["id"] = fid(m); mo["n"] = m->getNameAsString(); mo["access"] = (int)m->getAccess();
            mo["deleted"] = m->isDeleted(); mo["implicit"] = m->isImplicit();
            if( m->isVirtual() ) mo["virtual"] = true; 
            if( m->isPureVirtual() ) mo["pure"] = true;
            if( isa<CXXConstructorDecl>(m) ) mo["ctor"] = true;
            if( isa<CXXDestructorDecl>(m) ) mo["dtor"] = true;
            if( auto* c = dyn_cast<CXXConstructorDecl>(m) ) { mo["copy"] = c->isCopyConstructor(); mo["move"] = c->isMoveConstructor(); }
            if( m->isCopyAssignmentOperator() ) mo["copyasg"] = true;
            if( m->isMoveAssignmentOperator() ) mo["moveasg"] = true;
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
    }
    void add_enum(const EnumDecl* e) {
        if( ! e->isComplete() || ! in_root(e->getLocation()) ) return;
        Object o; o["n"] = qname(e); o["file"] = rel(file_of(e->getLocation())); o["line"] = (int64_t)line_of(e->getLocation());
        Array a;
        for( auto* c : e->enumerators() ) {
            llvm::SmallString<40> s; c->getInitVal().toString(s, 10);
            a.push_back(Object{{"n", c->getNameAsString()}, {"qn", qname(c)}, {"v", std::string(s.begin(), s.end())}});
        }
        o["e"] = std::move(a);
        enums.push_back(std::move(o));
    }
    void add_global(const VarDecl* v) {
        if( ! v->hasGlobalStorage() || ! in_root(v->getLocation()) || v->isTemplated() ) return;
        if( isa<ParmVarDecl>(v) ) return;
        Object o; o["n"] = qname(v); o["t"] = type_str(v->getType()); o["file"] = rel(file_of(v->getLocation())); o["line"] = (int64_t)line_of(v->getLocation());
        if( v->getTLSKind() != VarDecl::TLS_None ) o["tls"] = true;
        if( v->isLocalVarDecl() ) o["local"] = true;
        if( const Expr* in = v->getAnyInitializer() ) {
            elem.clear();
            if( ! in->isValueDependent() ) {
                o["init"] = ref(in);
                if( v->getType()->isIntegralOrEnumerationType() ) {
                    Expr::EvalResult r;
                    if( in->EvaluateAsInt(r, C) ) { llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); o["cv"] = std::string(s.begin(), s.end()); }
                }
            }
        }
        globals.push_back(std::move(o));
    }
};

struct V: RecursiveASTVisitor<V> {
    Exporter& X;
    explicit V(Exporter& x): X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if( f->isThisDeclarationADefinition() && f->doesThisDeclarationHaveABody() ) X.add_function(f);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* l) {
        auto* op = l->getCallOperator();
        if( op && ! op->isDependentContext() ) X.add_function(op);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if( r->isThisDeclarationADefinition() ) X.add_record(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { X.add_enum(e); return true; }
    bool VisitVarDecl(VarDecl* v) { X.add_global(v); return true; }
};

struct Consumer: ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if( C.getDiagnostics().hasErrorOccurred() ) return;
        Exporter x(C);
        V v(x);
        // only top-level declarations of interest: skip system headers quickly
        for( Decl* d : C.getTranslationUnitDecl()->decls() ) {
            if( auto* nd = dyn_cast<NamespaceDecl>(d) ) {
                if( ! x.in_root(nd->getLocation()) ) continue;
            } else if( ! x.in_root(d->getLocation()) ) continue;
            v.TraverseDecl(d);
        }
        Object o;
        o["functions"] = std::move(x.functions);
        o["records"] = std::move(x.records);
        o["enums"] = std::move(x.enums);
        o["globals"] = std::move(x.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(o));
        os << "\n";
    }
};
struct Action: ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char** argv) {
    if( argc < 5 ) { llvm::errs() << "usage: yx ROOT OUT FILE -- flags...\n"; return 2; }
    g_root = argv[1]; g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> args;
    for( int i = 5; i < argc; ++i ) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(g_root, args);
    std::vector<std::string> files{file};
    tooling::ClangTool tool(db, files);
    if( argc > 4 ) {
        static std::string copying = g_root + "/COPYING.hpp";
        // generated by the build from COPYING; only a string literal
        if( ! llvm::sys::fs::exists(copying) )
            tool.mapVirtualFile(copying, "static char COPYING[] = \"\";\n");
    }
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
