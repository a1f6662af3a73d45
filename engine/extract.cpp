// Repo-specific fact extractor (clang 18 libTooling).
// Dumps, for every function defined under the given root (including template instantiations), the
// type-checked syntax tree with resolved callees and declarations as JSON, and a summary of every class
// and enumeration.  Nothing is executed: the input is only parsed and type-checked.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <memory>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_Roots;
static std::string g_Out;

static std::string usr(const Decl* d) {
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return std::string(buf);
}

class Dumper {
    ASTContext& C;
    std::map<const ValueDecl*, std::string> ids;
    PrintingPolicy PP;
public:
    Dumper(ASTContext& c) : C(c), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; }

    std::string ty(QualType t) { if (t.isNull()) return ""; return t.getCanonicalType().getAsString(PP); }
    std::string fileOf(SourceLocation l) {
        SourceManager& sm = C.getSourceManager();
        l = sm.getExpansionLoc(l);
        return sm.getFilename(l).str();
    }
    unsigned lineOf(SourceLocation l) { SourceManager& sm = C.getSourceManager(); return sm.getExpansionLineNumber(l); }
    bool inRoots(SourceLocation l) {
        std::string f = fileOf(l);
        for (auto& r : g_Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string idOf(const ValueDecl* d) {
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        std::string id = d->getNameAsString() + "#" + std::to_string(ids.size());
        ids[d] = id;
        return id;
    }
    json::Value typeInfo(QualType t) {
        json::Object o;
        QualType c = t.getCanonicalType();
        o["t"] = ty(c);
        if (c->isReferenceType()) { o["ref"] = true; c = c->getPointeeType(); }
        if (c.isConstQualified()) o["const"] = true;
        if (c->isPointerType()) {
            o["ptr"] = true;
            QualType p = c->getPointeeType();
            o["pointee"] = ty(p.getUnqualifiedType());
            if (auto* r = p->getAsCXXRecordDecl()) o["prec"] = recName(r);
        }
        if (c->isBooleanType()) o["sc"] = "bool";
        else if (c->isEnumeralType()) o["sc"] = "enum";
        else if (c->isAnyCharacterType()) o["sc"] = "char";
        else if (c->isIntegerType()) o["sc"] = "int";
        else if (c->isFloatingType()) o["sc"] = "float";
        if (c->isIntegerType() && !c->isBooleanType()) { o["signed"] = c->isSignedIntegerOrEnumerationType(); o["bits"] = (int64_t)C.getIntWidth(c); }
        if (c->isArrayType()) o["arr"] = true;
        if (auto* r = c->getAsCXXRecordDecl()) o["rec"] = recName(r);
        return o;
    }
    std::string recName(const CXXRecordDecl* r) { return ty(C.getRecordType(r)); }

    std::string calleeName(const FunctionDecl* f) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p2 = PP; 
        f->printQualifiedName(os, p2);
        return os.str();
    }

    // ---- expressions
    json::Value ex(const Expr* e) {
        if (!e) return nullptr;
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                switch (p->getCastKind()) {
                    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
                        e = p->getSubExpr(); continue;
                    default: break;
                }
            }
            break;
        }
        json::Object o;
        o["l"] = (int64_t)lineOf(e->getExprLoc());
        auto T = [&]() { o["t"] = ty(e->getType()); };
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; o["v"] = x->getValue().getBitWidth() <= 64 ? (int64_t)x->getValue().getZExtValue() : 0; T(); }
        else if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue(); o["chr"] = true; T(); }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; }
        else if (auto* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str"; 
            std::string s;
            for (unsigned i = 0; i < x->getLength(); ++i) { unsigned c = x->getCodeUnit(i); if (c >= 32 && c < 127) s += (char)c; else { char b[16]; snprintf(b, 16, "\\u%04x", c); s += b; } }
            o["v"] = s; o["len"] = (int64_t)x->getLength(); }
        else if (isa<FloatingLiteral>(e)) { o["k"] = "float"; }
        else if (isa<CXXThisExpr>(e)) { o["k"] = "this"; T(); }
        else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enum"; o["n"] = ec->getNameAsString(); o["q"] = ec->getQualifiedNameAsString(); o["v"] = (int64_t)ec->getInitVal().getExtValue(); T(); }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fnref"; o["fn"] = usr(f); o["name"] = calleeName(f); }
            else if (auto* v = dyn_cast<VarDecl>(d)) {
                T();
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) { o["k"] = "var"; o["id"] = idOf(v); o["param"] = isa<ParmVarDecl>(v); }
                else {
                    o["k"] = "global"; o["n"] = v->getQualifiedNameAsString();
                    if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType()) {
                        const VarDecl* def = nullptr;
                        if (const Expr* ini = v->getAnyInitializer(def)) {
                            Expr::EvalResult r;
                            if (!ini->isValueDependent() && ini->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
                        }
                    }
                }
            }
            else { o["k"] = "declref"; o["n"] = d->getNameAsString(); T(); }
        }
        else if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            T();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enum"; o["n"] = ec->getNameAsString(); o["q"] = ec->getQualifiedNameAsString(); o["v"] = (int64_t)ec->getInitVal().getExtValue(); }
            else if (auto* v = dyn_cast<VarDecl>(d)) { o["k"] = "global"; o["n"] = v->getQualifiedNameAsString(); }
            else {
                o["k"] = "mem"; o["f"] = d->getNameAsString(); o["arrow"] = x->isArrow(); o["b"] = ex(x->getBase());
                if (auto* fd = dyn_cast<FieldDecl>(d)) if (auto* r = dyn_cast<CXXRecordDecl>(fd->getParent())) o["cls"] = recName(r);
            }
        }
        else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) { call(o, x, x->getDirectCallee(), nullptr, true); o["op"] = getOperatorSpelling(x->getOperator()); T(); }
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            call(o, x, x->getMethodDecl(), x->getImplicitObjectArgument(), false); T();
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); if (x->getMethodDecl() && x->getMethodDecl()->isVirtual() && !me->hasQualifier()) o["virt"] = true; }
            if (!x->getMethodDecl()) o["calleeE"] = ex(x->getCallee());
        }
        else if (auto* x = dyn_cast<CallExpr>(e)) { call(o, x, x->getDirectCallee(), nullptr, false); if (!x->getDirectCallee()) o["calleeE"] = ex(x->getCallee()); T(); }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            if (x->isElidable() && x->getNumArgs() == 1) return ex(x->getArg(0));
            o["k"] = "construct"; T();
            const CXXConstructorDecl* cd = x->getConstructor();
            o["fn"] = usr(fnCanon(cd));
            if (cd->isCopyConstructor()) o["cc"] = "copy"; else if (cd->isMoveConstructor()) o["cc"] = "move"; else if (cd->isDefaultConstructor()) o["cc"] = "default";
            if (x->requiresZeroInitialization()) o["zero"] = true;
            if (cd->isTrivial()) o["trivial"] = true;
            json::Array a; for (const Expr* ar : x->arguments()) a.push_back(ex(ar));
            o["args"] = std::move(a);
            json::Array pr; for (auto* p : cd->parameters()) { QualType pt = p->getType(); pr.push_back(pt->isReferenceType() ? (pt->getPointeeType().isConstQualified() ? "cref" : "ref") : "val"); }
            o["ps"] = std::move(pr);
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "construct"; o["inh"] = true; T(); o["fn"] = usr(x->getConstructor()); o["args"] = json::Array(); }
        else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new"; o["at"] = ty(x->getAllocatedType()); o["array"] = x->isArray();
            if (x->isArray() && x->getArraySize()) o["size"] = ex(*x->getArraySize());
            if (x->getNumPlacementArgs()) o["placement"] = true;
            if (x->hasInitializer()) o["init"] = ex(x->getInitializer());
            else if (x->getConstructExpr()) o["init"] = ex(x->getConstructExpr());
            T();
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["array"] = x->isArrayForm(); o["e"] = ex(x->getArgument()); }
        else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "assign"; o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS()); T(); }
        else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = x->isAssignmentOp() ? "assign" : "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS()); T(); }
        else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un"; 
            std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) s = "post" + s; else if (x->isIncrementDecrementOp()) s = "pre" + s;
            o["op"] = s; o["e"] = ex(x->getSubExpr()); T(); }
        else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = ex(x->getCond()); o["a"] = ex(x->getTrueExpr()); o["b"] = ex(x->getFalseExpr()); T(); }
        else if (auto* x = dyn_cast<CXXDynamicCastExpr>(e)) { o["k"] = "cast"; o["ck"] = "dynamic"; o["e"] = ex(x->getSubExpr()); o["st"] = ty(x->getSubExpr()->getType()); T(); }
        else if (auto* x = dyn_cast<CastExpr>(e)) {
            o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = ex(x->getSubExpr()); o["expl"] = isa<ExplicitCastExpr>(x); 
            o["ti"] = typeInfo(e->getType()); o["si"] = typeInfo(x->getSubExpr()->getType()); T(); }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "index"; o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); T(); }
        else if (auto* x = dyn_cast<InitListExpr>(e)) { o["k"] = "initlist"; json::Array a; for (const Expr* i : x->inits()) a.push_back(ex(i)); o["args"] = std::move(a); T(); }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; T(); }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { 
            o["k"] = "sizeof"; o["expr"] = !x->isArgumentType(); T(); 
            Expr::EvalResult r; if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue(); 
            o["of"] = ty(x->getTypeOfArgument()); }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = ex(x->getSubExpr()); }
        else if (auto* x = dyn_cast<LambdaExpr>(e)) { o["k"] = "lambda"; o["body"] = st(x->getBody()); 
            json::Array ps; for (auto* p : x->getCallOperator()->parameters()) { json::Object po; po["id"] = idOf(p); po["ti"] = typeInfo(p->getType()); ps.push_back(std::move(po)); } o["params"] = std::move(ps); }
        else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "typeid"; if (!x->isTypeOperand()) o["e"] = ex(x->getExprOperand()); else o["of"] = ty(x->getTypeOperand(C)); }
        else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { return ex(x->getSubExpr()); }
        else {
            o["k"] = "other"; o["cls"] = e->getStmtClassName(); T();
            json::Array a;
            for (const Stmt* s : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(s)) a.push_back(ex(ce));
            o["args"] = std::move(a);
        }
        return o;
    }
    const FunctionDecl* fnCanon(const FunctionDecl* f) { return f; }
    void call(json::Object& o, const CallExpr* x, const FunctionDecl* f, const Expr* obj, bool opcall) {
        o["k"] = "call";
        json::Array a;
        unsigned start = 0;
        if (f) {
            o["fn"] = usr(f); o["name"] = calleeName(f); o["mn"] = f->getNameAsString();
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                o["cls"] = recName(m->getParent());
                if (m->isConst()) o["cm"] = true;
                if (m->isStatic()) o["static"] = true;
                if (isa<CXXConversionDecl>(m)) o["conv"] = true;
                if (m->isCopyAssignmentOperator()) o["ca"] = "copy";
                else if (m->isMoveAssignmentOperator()) o["ca"] = "move";
                if (!m->isUserProvided() && (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())) o["implicit"] = true;
                if (opcall && !m->isStatic() && x->getNumArgs() > 0) { o["obj"] = ex(x->getArg(0)); start = 1; if (m->isVirtual()) o["virt"] = true; }
            }
            json::Array pr; for (auto* p : f->parameters()) { QualType pt = p->getType(); pr.push_back(pt->isReferenceType() ? (pt->getPointeeType().isConstQualified() ? "cref" : "ref") : "val"); }
            o["ps"] = std::move(pr);
            o["rt"] = f->getReturnType()->isReferenceType() ? (f->getReturnType()->getPointeeType().isConstQualified() ? "cref" : "ref") : "val";
        }
        if (obj) { o["obj"] = ex(obj); }
        for (unsigned i = start; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i)));
        o["args"] = std::move(a);
    }

    json::Value var(const VarDecl* v) {
        json::Object o;
        o["id"] = idOf(v); o["n"] = v->getNameAsString(); o["ti"] = typeInfo(v->getType()); o["l"] = (int64_t)lineOf(v->getLocation());
        if (v->isStaticLocal()) { o["static"] = true; o["q"] = v->getQualifiedNameAsString(); }
        if (v->hasInit()) o["init"] = ex(v->getInit());
        return o;
    }
    json::Value st(const Stmt* s) {
        if (!s) return nullptr;
        json::Object o;
        o["l"] = (int64_t)lineOf(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; json::Array a; for (auto* c : x->body()) a.push_back(st(c)); o["b"] = std::move(a); o["le"] = (int64_t)lineOf(x->getRBracLoc()); }
        else if (auto* x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; json::Array a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); }
        else if (auto* x = dyn_cast<IfStmt>(s)) { o["k"] = "if"; if (x->getInit()) o["init"] = st(x->getInit()); if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["a"] = st(x->getThen()); o["b"] = st(x->getElse()); }
        else if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); }
        else if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); }
        else if (auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["i"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["n"] = ex(x->getInc()); o["b"] = st(x->getBody()); }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rangefor"; o["v"] = var(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); }
        else if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); o["ct"] = ty(x->getCond()->IgnoreParenImpCasts()->getType()); }
        else if (auto* x = dyn_cast<CaseStmt>(s)) { 
            o["k"] = "case"; o["e"] = ex(x->getLHS()); 
            Expr::EvalResult r; if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
            if (x->getRHS()) { if (x->getRHS()->EvaluateAsInt(r, C)) o["v2"] = (int64_t)r.Val.getInt().getExtValue(); }
            o["b"] = st(x->getSubStmt()); }
        else if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = st(x->getSubStmt()); }
        else if (isa<BreakStmt>(s)) o["k"] = "break";
        else if (isa<ContinueStmt>(s)) o["k"] = "continue";
        else if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "return"; o["e"] = ex(x->getRetValue()); }
        else if (isa<NullStmt>(s)) o["k"] = "null";
        else if (auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["b"] = st(x->getTryBlock()); json::Array a; for (unsigned i = 0; i < x->getNumHandlers(); ++i) a.push_back(st(x->getHandler(i)->getHandlerBlock())); o["h"] = std::move(a); }
        else if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString(); }
        else if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["n"] = x->getDecl()->getNameAsString(); o["b"] = st(x->getSubStmt()); }
        else if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
        else if (auto* x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = ex(x); }
        else { o["k"] = "otherstmt"; o["cls"] = s->getStmtClassName(); }
        return o;
    }

    json::Value func(const FunctionDecl* f) {
        ids.clear();
        json::Object o;
        o["id"] = usr(f); o["name"] = calleeName(f); o["file"] = fileOf(f->getLocation()); o["line"] = (int64_t)lineOf(f->getLocation());
        o["sn"] = f->getNameAsString();
        o["rt"] = typeInfo(f->getReturnType());
        json::Array ps;
        for (auto* p : f->parameters()) { json::Object po; po["id"] = idOf(p); po["n"] = p->getNameAsString(); po["ti"] = typeInfo(p->getType()); ps.push_back(std::move(po)); }
        o["params"] = std::move(ps);
        if (f->getTemplateInstantiationPattern()) o["pattern"] = usr(f->getTemplateInstantiationPattern());
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (f->getLinkageInternal() == Linkage::Internal) o["static_linkage"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = recName(m->getParent());
            o["const"] = m->isConst(); o["static"] = m->isStatic(); o["virt"] = m->isVirtual();
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(usr(b)); o["ov"] = std::move(ov);
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                o["kind"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : c->isDefaultConstructor() ? "defctor" : "ctor";
                json::Array in;
                for (auto* i : c->inits()) {
                    json::Object io;
                    if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
                    else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                    else if (i->isDelegatingInitializer()) io["deleg"] = true;
                    else if (i->isIndirectMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                    io["written"] = i->isWritten();
                    io["e"] = ex(i->getInit());
                    if (i->isMemberInitializer()) if (isa<CXXDefaultInitExpr>(i->getInit())) io["dmi"] = true;
                    io["l"] = (int64_t)lineOf(i->getSourceLocation());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            }
            else if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
            else if (m->isCopyAssignmentOperator()) o["kind"] = "copyassign";
            else if (isa<CXXConversionDecl>(m)) o["kind"] = "conv";
            else o["kind"] = "method";
        } else o["kind"] = "function";
        o["body"] = st(f->getBody());
        if (f->getBody()) { o["le"] = (int64_t)lineOf(f->getBody()->getEndLoc()); }
        return o;
    }
    json::Value record(const CXXRecordDecl* r) {
        json::Object o;
        o["name"] = recName(r); o["file"] = fileOf(r->getLocation()); o["line"] = (int64_t)lineOf(r->getLocation());
        o["sn"] = r->getNameAsString();
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) { o["tmpl"] = sp->getSpecializedTemplate()->getQualifiedNameAsString(); }
        json::Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : r->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["ti"] = typeInfo(f->getType()); fo["l"] = (int64_t)lineOf(f->getLocation()); fo["init"] = f->hasInClassInitializer(); 
            if (f->isMutable()) fo["mutable"] = true; 
            fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            fs.push_back(std::move(fo)); }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* m : r->methods()) {
            json::Object mo; mo["id"] = usr(m); mo["n"] = m->getNameAsString(); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["user"] = m->isUserProvided(); mo["implicit"] = m->isImplicit(); mo["deleted"] = m->isDeleted();
            mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) mo["kind"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : c->isDefaultConstructor() ? "defctor" : "ctor";
            else if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
            else if (m->isCopyAssignmentOperator()) mo["kind"] = "copyassign";
            else if (m->isMoveAssignmentOperator()) mo["kind"] = "moveassign";
            else mo["kind"] = "method";
            if (m->isOverloadedOperator()) mo["op"] = getOperatorSpelling(m->getOverloadedOperator());
            mo["const"] = m->isConst(); mo["np"] = (int64_t)m->getNumParams();
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(usr(b)); mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        o["poly"] = r->isPolymorphic();
        o["abstract"] = r->isAbstract();
        o["needsImplCopy"] = r->needsImplicitCopyConstructor() || r->needsImplicitCopyAssignment();
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
    Dumper D; json::Array& fns; json::Array& recs; json::Array& enums; json::Array& globals; std::set<std::string> seen; std::set<const CXXRecordDecl*> seenRecs;
public:
    Visitor(ASTContext& c, json::Array& f, json::Array& r, json::Array& e, json::Array& g) : D(c), fns(f), recs(r), enums(e), globals(g) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->getBody()) return true;
        if (f->isDependentContext()) return true;
        if (f->isImplicit()) return true;
        if (!D.inRoots(f->getLocation())) return true;
        fns.push_back(D.func(f));
        // (records of explicitly instantiated partial specialisations are not visited by themselves)
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (isa<ClassTemplateSpecializationDecl>(m->getParent())) addRecord(m->getParent()->getDefinition());
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if (D.inRoots(r->getLocation())) addRecord(r);
        return true;
    }
    void addRecord(const CXXRecordDecl* r) { if (r && !r->isLambda() && seenRecs.insert(r).second) recs.push_back(D.record(r)); }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !D.inRoots(e->getLocation())) return true;
        json::Object o; o["name"] = e->getQualifiedNameAsString(); o["file"] = D.fileOf(e->getLocation());
        json::Array a; for (auto* c : e->enumerators()) { json::Object x; x["n"] = c->getNameAsString(); x["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(x)); }
        o["e"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }
    // the contents of a constant table: numbers, strings, {"g": name} for the address of a variable; null for anything else
    json::Value constants(const Expr* e, ASTContext& c, int64_t& left) {
        e = e->IgnoreParenImpCasts();
        if (--left < 0) return nullptr;
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            json::Array a;
            for (const Expr* i : x->inits()) { a.push_back(constants(i, c, left)); if (left < 0) return nullptr; }
            return std::move(a);
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) { if (x->isOrdinary()) { json::Object o; o["s"] = json::fixUTF8(x->getString()); return std::move(o); } return nullptr; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) if (auto* v = dyn_cast<VarDecl>(x->getDecl())) if (v->getType()->isArrayType()) { json::Object o; o["g"] = v->getQualifiedNameAsString(); return std::move(o); }
        if (e->isValueDependent()) return nullptr;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, c)) return (int64_t)r.Val.getInt().getExtValue();
        if (e->isNullPointerConstant(c, Expr::NPC_ValueDependentIsNull)) return (int64_t)0;
        return nullptr;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isLocalVarDeclOrParm() || !v->hasInit() || v->getDeclContext()->isDependentContext() || !D.inRoots(v->getLocation())) return true;
        if (v->getType()->isArrayType()) {
            int64_t left = 60000;
            json::Value data = constants(v->getInit(), v->getASTContext(), left);
            if (left < 0 || data.kind() != json::Value::Array) return true;
            json::Object o; o["name"] = v->getQualifiedNameAsString(); o["ti"] = D.typeInfo(v->getType()); o["file"] = D.fileOf(v->getLocation()); o["l"] = (int64_t)D.lineOf(v->getLocation());
            const Type* et = v->getType()->getArrayElementTypeNoTypeQual();
            if (auto* rt = et->getAs<RecordType>()) { json::Array fs; for (auto* f : rt->getDecl()->fields()) fs.push_back(f->getNameAsString()); o["fields"] = std::move(fs); }
            o["data"] = std::move(data);
            globals.push_back(std::move(o));
            return true;
        }
        json::Object o; o["name"] = v->getQualifiedNameAsString(); o["ti"] = D.typeInfo(v->getType()); o["file"] = D.fileOf(v->getLocation()); o["l"] = (int64_t)D.lineOf(v->getLocation());
        o["init"] = D.ex(v->getInit());
        globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        json::Array f, r, e, g;
        Visitor v(C, f, r, e, g);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(f); o["records"] = std::move(r); o["enums"] = std::move(e); o["globals"] = std::move(g);
        o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
        std::error_code ec;
        llvm::raw_fd_ostream os(g_Out, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

int main(int argc, const char** argv) {
    // extract OUT SOURCE ROOT[,ROOT] -- flags
    if (argc < 5) return 2;
    g_Out = argv[1];
    std::string src = argv[2], roots = argv[3];
    size_t p = 0;
    while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); g_Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { src });
    Factory fac;
    return tool.run(&fac);
}
