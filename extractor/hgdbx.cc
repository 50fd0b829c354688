// hgdbx: dumps the resolved program (clang AST + CFG) of one translation unit as JSON.
// Every function whose body lies under one of the given roots is written out as a control-flow
// graph whose elements are nodes of a typed, callee-resolved expression graph.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
    Dumper(ASTContext &ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getLangOpts()) {
        pp_.SuppressTagKeyword = true;
        pp_.Bool = true;
        pp_.SuppressUnwrittenScope = true;
        pp_.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string file_of(SourceLocation loc) {
        auto p = sm_.getPresumedLoc(sm_.getExpansionLoc(loc));
        if (p.isInvalid()) return "";
        return p.getFilename();
    }
    unsigned line_of(SourceLocation loc) {
        auto p = sm_.getPresumedLoc(sm_.getExpansionLoc(loc));
        return p.isInvalid() ? 0 : p.getLine();
    }
    unsigned col_of(SourceLocation loc) {
        auto p = sm_.getPresumedLoc(sm_.getExpansionLoc(loc));
        return p.isInvalid() ? 0 : p.getColumn();
    }
    bool in_roots(SourceLocation loc) {
        if (loc.isInvalid()) return false;
        auto f = file_of(loc);
        for (auto const &r : g_roots)
            if (f.rfind(r, 0) == 0) return true;
        return false;
    }

    std::string type_str(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(pp_);
    }

    int decl_id(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = decl_ids_.find(d);
        if (it != decl_ids_.end()) return it->second;
        int id = static_cast<int>(decl_ids_.size());
        decl_ids_[d] = id;
        return id;
    }

    std::string func_key(const FunctionDecl *f) {
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                auto loc = m->getParent()->getBeginLoc();
                std::string suffix;
                if (m->getPrimaryTemplate() || m->isTemplateInstantiation()) {
                    suffix = "#" + type_str(m->getType());
                }
                // a lambda within a template has one closure per instantiation
                std::string ctx;
                const DeclContext *dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) {
                    auto *pf = cast<FunctionDecl>(dc);
                    if (pf->isTemplateInstantiation()) {
                        llvm::SmallString<128> buf;
                        if (!index::generateUSRForDecl(pf, buf)) ctx = "@" + std::string(buf.str());
                    }
                }
                return "lambda@" + file_of(loc) + ":" + std::to_string(line_of(loc)) + ":" +
                       std::to_string(col_of(loc)) + suffix + ctx;
            }
        }
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(f, buf)) {
            return f->getQualifiedNameAsString();
        }
        std::string r(buf.str());
        if (f->isTemplateInstantiation()) r += "#" + type_str(f->getType());
        return r;
    }

    // ---- expression graph ----
    struct FuncCtx {
        json::Array nodes;
        std::map<const Stmt *, int> ids;
        std::map<const Stmt *, int> try_of;  // innermost enclosing try (node id of the try)
        int cur_try = -1;
        std::string file;
    };

    int node(FuncCtx &fc, const Stmt *s) {
        if (!s) return -1;
        auto it = fc.ids.find(s);
        if (it != fc.ids.end()) return it->second;
        int id = static_cast<int>(fc.nodes.size());
        fc.ids[s] = id;
        fc.nodes.push_back(nullptr);
        json::Object o;
        o["k"] = s->getStmtClassName();
        o["l"] = line_of(s->getBeginLoc());
        auto f = file_of(s->getBeginLoc());
        if (f != fc.file) o["f"] = f;
        int save_try = fc.cur_try;
        if (fc.cur_try >= 0) o["try"] = fc.cur_try;
        if (auto *e = dyn_cast<Expr>(s)) {
            o["t"] = type_str(e->getType());
            if (e->isLValue()) o["lv"] = true;
        }
        json::Array children;
        bool default_children = true;
        if (auto *e = dyn_cast<DeclRefExpr>(s)) {
            auto *d = e->getDecl();
            o["n"] = d->getNameAsString();
            o["q"] = d->getQualifiedNameAsString();
            if (auto *fd = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn";
                o["fn"] = func_key(fd);
            } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["v"] = ec->getInitVal().getExtValue();
                o["et"] = type_str(ec->getType());
            } else if (auto *vd = dyn_cast<VarDecl>(d)) {
                o["dk"] = isa<ParmVarDecl>(vd) ? "param"
                          : vd->isLocalVarDecl() ? (vd->isStaticLocal() ? "static" : "var")
                                                 : "global";
                o["d"] = decl_id(vd);
                o["dt"] = type_str(vd->getType());
            } else if (auto *bd = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "binding";
                o["d"] = decl_id(bd);
                if (auto *dd = dyn_cast_or_null<VarDecl>(bd->getDecomposedDecl())) {
                    o["dd"] = decl_id(dd);
                    int idx = 0, i = 0;
                    if (auto *dc = dyn_cast<DecompositionDecl>(dd)) {
                        for (auto *b : dc->bindings()) {
                            if (b == bd) idx = i;
                            i++;
                        }
                    }
                    o["bi"] = idx;
                }
            } else {
                o["dk"] = "other";
            }
            default_children = false;
        } else if (auto *e = dyn_cast<MemberExpr>(s)) {
            auto *d = e->getMemberDecl();
            o["n"] = d->getNameAsString();
            o["q"] = d->getQualifiedNameAsString();
            o["arrow"] = e->isArrow();
            if (auto *fd = dyn_cast<FunctionDecl>(d)) o["fn"] = func_key(fd);
            if (isa<FieldDecl>(d)) o["field"] = true;
            if (auto *vd = dyn_cast<VarDecl>(d)) o["d"] = decl_id(vd);
        } else if (auto *e = dyn_cast<CallExpr>(s)) {
            if (auto *fd = e->getDirectCallee()) {
                o["q"] = fd->getQualifiedNameAsString();
                o["fn"] = func_key(fd);
                o["rt"] = type_str(fd->getReturnType());
                if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
                    if (m->isConst()) o["const"] = true;
                    if (m->isStatic()) o["static"] = true;
                    if (m->isVirtual()) {
                        o["virt"] = true;
                        // `Base::foo()` or a call on a known object is not dispatched
                        if (auto *mc = dyn_cast<CXXMemberCallExpr>(s))
                            if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
                                if (me->hasQualifier()) o["virt"] = false;
                    }
                    o["cls"] = m->getParent()->getQualifiedNameAsString();
                }
                json::Array pts;
                for (auto *p : fd->parameters()) pts.push_back(type_str(p->getType()));
                o["pt"] = std::move(pts);
                if (fd->isNoReturn() || fd->hasAttr<NoReturnAttr>()) o["noret"] = true;
                if (auto *pt = fd->getType()->getAs<FunctionProtoType>())
                    if (pt->isNothrow()) o["nothrow"] = true;
            }
            if (auto *oc = dyn_cast<CXXOperatorCallExpr>(s)) {
                o["op"] = getOperatorSpelling(oc->getOperator());
                bool is_m = false;
                if (auto *fd = e->getDirectCallee()) is_m = isa<CXXMethodDecl>(fd);
                o["mem"] = is_m;
            }
            json::Array args;
            for (auto *a : e->arguments()) {
                args.push_back(node(fc, a));
            }
            o["args"] = std::move(args);
            if (auto *mc = dyn_cast<CXXMemberCallExpr>(s)) {
                o["obj"] = node(fc, mc->getImplicitObjectArgument());
                if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
                    o["arrow"] = me->isArrow();
            }
            o["callee"] = node(fc, e->getCallee());
            default_children = false;
            for (auto *c : s->children())
                if (c) children.push_back(node(fc, c));
        } else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
            auto *cd = e->getConstructor();
            o["q"] = cd->getQualifiedNameAsString();
            o["fn"] = func_key(cd);
            o["cls"] = cd->getParent()->getQualifiedNameAsString();
            if (cd->isCopyConstructor()) o["copy"] = true;
            if (cd->isMoveConstructor()) o["move"] = true;
            if (cd->isDefaultConstructor()) o["def"] = true;
            json::Array args;
            for (auto *a : e->arguments()) args.push_back(node(fc, a));
            o["args"] = std::move(args);
        } else if (auto *e = dyn_cast<StringLiteral>(s)) {
            if (e->getCharByteWidth() == 1) o["v"] = json::fixUTF8(e->getBytes());
        } else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> str;
            e->getValue().toString(str, 10, e->getType()->isSignedIntegerType());
            o["v"] = std::string(str.str());
        } else if (auto *e = dyn_cast<CharacterLiteral>(s)) {
            o["v"] = e->getValue();
        } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["v"] = e->getValue();
        } else if (auto *e = dyn_cast<BinaryOperator>(s)) {
            o["op"] = e->getOpcodeStr().str();
        } else if (auto *e = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
            o["op"] = BinaryOperator::getOpcodeStr(e->getOperator()).str();
            o["sem"] = node(fc, e->getSemanticForm());
            o["lhs"] = node(fc, e->getLHS());
            o["rhs"] = node(fc, e->getRHS());
        } else if (auto *e = dyn_cast<UnaryOperator>(s)) {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            o["post"] = e->isPostfix();
        } else if (auto *e = dyn_cast<CastExpr>(s)) {
            o["ck"] = e->getCastKindName();
            if (auto *cf = e->getConversionFunction()) {
                o["q"] = cf->getQualifiedNameAsString();
                if (auto *fd = dyn_cast<FunctionDecl>(cf)) o["fn"] = func_key(fd);
            }
        } else if (auto *e = dyn_cast<LambdaExpr>(s)) {
            o["lam"] = func_key(e->getCallOperator());
            json::Array caps;
            auto init = e->capture_init_begin();
            for (auto const &c : e->captures()) {
                json::Object co;
                if (c.capturesThis()) {
                    co["this"] = true;
                } else if (c.capturesVariable()) {
                    auto *v = c.getCapturedVar();
                    co["n"] = v->getNameAsString();
                    co["d"] = decl_id(v);
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (*init) {
                        co["init"] = node(fc, *init);
                        children.push_back(node(fc, *init));
                    }
                }
                caps.push_back(std::move(co));
                ++init;
            }
            o["caps"] = std::move(caps);
            default_children = false;
        } else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
            o["at"] = type_str(e->getAllocatedType());
            o["arr"] = e->isArray();
        } else if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
            o["arr"] = e->isArrayForm();
        } else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["n"] = "sizeof";
        } else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) {
            children.push_back(node(fc, e->getExpr()));
            default_children = false;
        } else if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) {
            children.push_back(node(fc, e->getExpr()));
            default_children = false;
        } else if (auto *e = dyn_cast<InitListExpr>(s)) {
            if (e->isSemanticForm() || !e->getSemanticForm()) {
            } else {
                e = e->getSemanticForm();
            }
            for (auto *c : e->children())
                if (c) children.push_back(node(fc, c));
            if (auto *rd = e->getType()->getAsRecordDecl()) {
                json::Array names;
                for (auto *fd : rd->fields()) names.push_back(fd->getNameAsString());
                o["fields"] = std::move(names);
            }
            default_children = false;
        } else if (auto *ds = dyn_cast<DeclStmt>(s)) {
            json::Array vars;
            for (auto *d : ds->decls()) {
                if (auto *vd = dyn_cast<VarDecl>(d)) {
                    vars.push_back(var_json(fc, vd));
                    if (vd->getInit()) children.push_back(node(fc, vd->getInit()));
                }
            }
            o["vars"] = std::move(vars);
            default_children = false;
        } else if (auto *cs = dyn_cast<CaseStmt>(s)) {
            children.push_back(node(fc, cs->getLHS()));
            if (cs->getRHS()) children.push_back(node(fc, cs->getRHS()));
            default_children = false;
            o["sub"] = node(fc, cs->getSubStmt());
        } else if (auto *ts = dyn_cast<CXXTryStmt>(s)) {
            fc.cur_try = id;
            node(fc, ts->getTryBlock());
            fc.cur_try = save_try;
            json::Array hs;
            for (unsigned i = 0; i < ts->getNumHandlers(); i++) {
                json::Object h;
                auto *cs = ts->getHandler(i);
                h["t"] = cs->getExceptionDecl() ? type_str(cs->getCaughtType()) : "...";
                h["n"] = node(fc, cs);
                hs.push_back(std::move(h));
            }
            o["handlers"] = std::move(hs);
            if (save_try >= 0) o["try"] = save_try;
            default_children = false;
        } else if (auto *is = dyn_cast<IfStmt>(s)) {
            o["cond"] = node(fc, is->getCond());
            if (is->getInit()) node(fc, is->getInit());
            o["then"] = node(fc, is->getThen());
            o["else"] = node(fc, is->getElse());
            default_children = false;
        } else if (auto *ss = dyn_cast<SwitchStmt>(s)) {
            o["cond"] = node(fc, ss->getCond());
            node(fc, ss->getBody());
            default_children = false;
        } else if (auto *fr = dyn_cast<CXXForRangeStmt>(s)) {
            o["range"] = node(fc, fr->getRangeInit());
            json::Array cs;
            for (auto *c : fr->children())
                if (c) node(fc, c);
            o["body"] = node(fc, fr->getBody());
            if (auto *lv = fr->getLoopVariable()) o["lv_d"] = decl_id(lv);
            default_children = false;
        }
        if (default_children) {
            for (auto *c : s->children())
                if (c) children.push_back(node(fc, c));
        }
        if (!children.empty()) o["c"] = std::move(children);
        fc.nodes[id] = std::move(o);
        return id;
    }

    json::Object var_json(FuncCtx &fc, const VarDecl *vd) {
        json::Object v;
        v["n"] = vd->getNameAsString();
        v["d"] = decl_id(vd);
        v["t"] = type_str(vd->getType());
        v["ref"] = vd->getType()->isReferenceType();
        v["static"] = vd->isStaticLocal();
        v["init"] = node(fc, vd->getInit());
        if (auto *dc = dyn_cast<DecompositionDecl>(vd)) {
            json::Array bs;
            for (auto *b : dc->bindings()) {
                json::Object bo;
                bo["n"] = b->getNameAsString();
                bo["d"] = decl_id(b);
                bs.push_back(std::move(bo));
            }
            v["bind"] = std::move(bs);
        }
        return v;
    }

    bool TraverseLambdaExpr(LambdaExpr *e) {
        dump_function(e->getCallOperator());
        if (auto *tpl = e->getCallOperator()->getDescribedFunctionTemplate()) {
            for (auto *sp : tpl->specializations()) dump_function(sp);
        }
        return RecursiveASTVisitor::TraverseLambdaExpr(e);
    }

    bool VisitFunctionDecl(FunctionDecl *f) {
        dump_function(f);
        return true;
    }

    void dump_function(FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody()) {
            // definition may exist elsewhere in this TU; it is visited on its own
            return;
        }
        if (f->isDependentContext()) return;
        if (!in_roots(f->getLocation())) return;
        if (f->isInvalidDecl()) return;
        if (f->isDefaulted() && !f->isUserProvided()) return;
        auto key = func_key(f);
        if (!done_.insert(key).second) return;
        FuncCtx fc;
        fc.file = file_of(f->getLocation());
        json::Object o;
        o["key"] = key;
        o["q"] = f->getQualifiedNameAsString();
        o["n"] = f->getNameAsString();
        o["file"] = fc.file;
        o["line"] = line_of(f->getLocation());
        o["endline"] = line_of(f->getEndLoc());
        o["rt"] = type_str(f->getReturnType());
        o["tmpl"] = f->isTemplateInstantiation();
        if (f->isExternC()) o["extern_c"] = true;
        if (auto *pt = f->getType()->getAs<FunctionProtoType>())
            if (pt->isNothrow()) o["nothrow"] = true;
        json::Array ps;
        for (auto *p : f->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["d"] = decl_id(p);
            po["t"] = type_str(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = m->getParent()->getQualifiedNameAsString();
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
            o["virt"] = m->isVirtual();
            json::Array ov;
            add_overrides(m, ov);
            o["overrides"] = std::move(ov);
            if (m->getParent()->isLambda()) {
                o["lambda"] = true;
                const DeclContext *dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) o["parent"] = func_key(cast<FunctionDecl>(dc));
            }
            if (isa<CXXConstructorDecl>(f)) o["ctor"] = true;
            if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        }
        bool err = has_error(f->getBody());
        o["err"] = err;
        o["body"] = node(fc, f->getBody());
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.AddCXXNewAllocator = false;
        bo.AddTemporaryDtors = false;
        bo.AddCXXDefaultInitExprInCtors = true;
        std::unique_ptr<CFG> cfg;
        if (!err) cfg = CFG::buildCFG(f, f->getBody(), &ctx_, bo);
        if (cfg) {
            json::Object c;
            c["entry"] = cfg->getEntry().getBlockID();
            c["exit"] = cfg->getExit().getBlockID();
            json::Array blocks;
            for (auto *b : *cfg) {
                json::Object jb;
                jb["id"] = b->getBlockID();
                json::Array els;
                for (auto const &el : *b) {
                    if (auto st = el.getAs<CFGStmt>()) {
                        els.push_back(node(fc, st->getStmt()));
                    } else if (auto in = el.getAs<CFGInitializer>()) {
                        auto *ini = in->getInitializer();
                        json::Object io;
                        io["k"] = "init";
                        if (ini->isAnyMemberInitializer()) {
                            io["field"] = ini->getAnyMember()->getQualifiedNameAsString();
                            io["n"] = ini->getAnyMember()->getNameAsString();
                        } else if (ini->isBaseInitializer()) {
                            io["base"] = type_str(QualType(ini->getBaseClass(), 0));
                        } else {
                            io["delegate"] = true;
                        }
                        io["e"] = node(fc, ini->getInit());
                        io["written"] = ini->isWritten();
                        els.push_back(std::move(io));
                    } else if (auto d = el.getAs<CFGAutomaticObjDtor>()) {
                        json::Object io;
                        io["k"] = "dtor";
                        io["d"] = decl_id(d->getVarDecl());
                        io["n"] = d->getVarDecl()->getNameAsString();
                        io["t"] = type_str(d->getVarDecl()->getType());
                        io["l"] = line_of(d->getTriggerStmt()->getEndLoc());
                        els.push_back(std::move(io));
                    }
                }
                jb["e"] = std::move(els);
                json::Array succ;
                for (auto const &su : b->succs()) {
                    if (auto *r = su.getReachableBlock())
                        succ.push_back(r->getBlockID());
                    else if (auto *u = su.getPossiblyUnreachableBlock())
                        succ.push_back(-2 - static_cast<int>(u->getBlockID()));
                    else
                        succ.push_back(nullptr);
                }
                jb["s"] = std::move(succ);
                if (auto *t = b->getTerminatorStmt()) {
                    json::Object to;
                    to["k"] = t->getStmtClassName();
                    to["l"] = line_of(t->getBeginLoc());
                    to["n"] = node(fc, t);
                    if (auto *cnd = b->getTerminatorCondition(false)) to["cond"] = node(fc, const_cast<Stmt *>(cnd));
                    if (auto *bop = dyn_cast<BinaryOperator>(t)) to["op"] = bop->getOpcodeStr().str();
                    jb["t"] = std::move(to);
                }
                if (auto *lab = b->getLabel()) {
                    json::Object lo;
                    lo["k"] = lab->getStmtClassName();
                    lo["n"] = node(fc, const_cast<Stmt *>(lab));
                    jb["lab"] = std::move(lo);
                }
                if (b->hasNoReturnElement()) jb["noret"] = true;
                blocks.push_back(std::move(jb));
            }
            c["blocks"] = std::move(blocks);
            o["cfg"] = std::move(c);
        }
        o["nodes"] = std::move(fc.nodes);
        functions.push_back(std::move(o));
    }

    void add_overrides(const CXXMethodDecl *m, json::Array &ov) {
        for (auto *b : m->overridden_methods()) {
            ov.push_back(func_key(b));
            add_overrides(b, ov);
        }
    }

    bool has_error(const Stmt *s) {
        if (!s) return false;
        if (isa<RecoveryExpr>(s)) return true;
        if (auto *e = dyn_cast<Expr>(s))
            if (e->containsErrors()) return true;
        if (auto *ds = dyn_cast<DeclStmt>(s))
            for (auto *d : ds->decls())
                if (d->isInvalidDecl()) return true;
        for (auto *c : s->children())
            if (has_error(c)) return true;
        return false;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
        if (!in_roots(r->getLocation()) || r->isLambda()) return true;
        json::Object o;
        o["q"] = r->getQualifiedNameAsString();
        o["file"] = file_of(r->getLocation());
        o["line"] = line_of(r->getLocation());
        json::Array bases, base_types;
        for (auto const &b : r->bases()) {
            if (auto *br = b.getType()->getAsCXXRecordDecl()) {
                bases.push_back(br->getQualifiedNameAsString());
                base_types.push_back(b.getType().getCanonicalType().getAsString(
                    PrintingPolicy(r->getASTContext().getLangOpts())));
            }
        }
        o["bases"] = std::move(bases);
        o["baset"] = std::move(base_types);
        json::Array fields;
        FuncCtx fc;
        for (auto *f : r->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["q"] = f->getQualifiedNameAsString();
            fo["t"] = type_str(f->getType());
            fo["mut"] = f->isMutable();
            fo["line"] = line_of(f->getLocation());
            fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = node(fc, f->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        o["nodes"] = std::move(fc.nodes);
        json::Array ms;
        for (auto *m : r->methods()) {
            if (m->isImplicit()) continue;
            json::Object mo;
            mo["n"] = m->getNameAsString();
            mo["key"] = func_key(m);
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["t"] = type_str(m->getType());
            mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
            json::Array ov;
            add_overrides(m, ov);
            mo["overrides"] = std::move(ov);
            mo["line"] = line_of(m->getLocation());
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e) {
        if (!e->isThisDeclarationADefinition() || !in_roots(e->getLocation())) return true;
        json::Object o;
        o["q"] = e->getQualifiedNameAsString();
        o["file"] = file_of(e->getLocation());
        o["line"] = line_of(e->getLocation());
        json::Array cs;
        for (auto *c : e->enumerators()) {
            json::Object co;
            co["n"] = c->getNameAsString();
            co["v"] = c->getInitVal().getExtValue();
            cs.push_back(std::move(co));
        }
        o["c"] = std::move(cs);
        enums.push_back(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl *v) {
        if (isa<ParmVarDecl>(v)) return true;
        if (v->isLocalVarDecl() && !v->isStaticLocal() && !v->isConstexpr()) return true;
        if (!in_roots(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext()) return true;
        if (!v->isThisDeclarationADefinition()) return true;
        if (!v->getInit() || v->getInit()->isTypeDependent() || v->getInit()->isValueDependent())
            return true;
        FuncCtx fc;
        fc.file = file_of(v->getLocation());
        json::Object o;
        o["q"] = v->getQualifiedNameAsString();
        o["d"] = decl_id(v);
        o["n"] = v->getNameAsString();
        o["file"] = fc.file;
        o["line"] = line_of(v->getLocation());
        o["t"] = type_str(v->getType());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["init"] = node(fc, v->getInit());
        o["nodes"] = std::move(fc.nodes);
        globals.push_back(std::move(o));
        return true;
    }

    json::Array functions, records, enums, globals;

private:
    ASTContext &ctx_;
    SourceManager &sm_;
    PrintingPolicy pp_;
    std::map<const Decl *, int> decl_ids_;
    std::set<std::string> done_;
};

class Consumer : public ASTConsumer {
public:
    explicit Consumer(CompilerInstance &ci) : ci_(ci) {}
    void HandleTranslationUnit(ASTContext &ctx) override {
        Dumper d(ctx);
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["enums"] = std::move(d.enums);
        o["globals"] = std::move(d.globals);
        o["errors"] = ci_.getDiagnostics().getClient()->getNumErrors();
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        if (ec) {
            llvm::errs() << "cannot write " << g_out << "\n";
            exit(3);
        }
        os << json::Value(std::move(o));
    }

private:
    CompilerInstance &ci_;
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override {
        return std::make_unique<Consumer>(ci);
    }
};

// usage: hgdbx OUT ROOTS(colon separated) FILE -- compiler flags
int main(int argc, const char **argv) {
    if (argc < 5) return 2;
    g_out = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p != std::string::npos) {
        auto q = roots.find(':', p);
        g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.emplace_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    tool.run(tooling::newFrontendActionFactory<Action>().get());
    return 0;
}
