// Fact extractor: parses translation units with clang and dumps a compact,
// name- and type-resolved syntax tree (one JSON document per unit) which the
// rules in /verif/rules decide on.  Nothing from /repo is executed.
//
// usage: extract OUTDIR LISTFILE SRCROOT
//   LISTFILE lines: <out-name>\t<source>\t<arg>\t<arg>...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
using llvm::raw_ostream;

static std::string g_root;
static std::string g_all;               // files below this prefix: every template instantiation is emitted
static std::set<std::string> g_seen;   // functions/records emitted already (process wide)

namespace {

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    raw_ostream &O;
    PrintingPolicy PP;
    std::map<std::string, unsigned> types;
    std::vector<std::string> typeList;
    std::unordered_map<const Decl*, unsigned> ids;

    Dumper(ASTContext &C, raw_ostream &O): C(C), SM(C.getSourceManager()), O(O), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = false;
    }

    static void esc(raw_ostream &O, llvm::StringRef s) {
        O << '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { O << '\\' << c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); O << b; }
            else O << c;
        }
        O << '"';
    }
    void str(llvm::StringRef s) { esc(O, s); }
    void key(const char *k) { O << ",\"" << k << "\":"; }

    unsigned line(SourceLocation l) { return l.isValid() ? SM.getExpansionLineNumber(l) : 0; }
    std::string file(SourceLocation l) {
        if (l.isInvalid()) return "";
        SourceLocation e = SM.getExpansionLoc(l);
        return SM.getFilename(e).str();
    }
    unsigned tid(QualType t) {
        if (t.isNull()) return 0;
        std::string s = t.getCanonicalType().getAsString(PP);
        auto it = types.find(s);
        if (it != types.end()) return it->second;
        typeList.push_back(s);
        return types[s] = typeList.size();
    }
    unsigned did(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        unsigned n = ids.size() + 1;
        return ids[d] = n;
    }
    // declaration id of the class behind a type (through arrays and references), 0 when there is none
    unsigned rid(QualType t) {
        if (t.isNull()) return 0;
        t = t.getNonReferenceType();
        while (auto a = C.getAsArrayType(t)) t = a->getElementType();
        if (auto r = t->getAsCXXRecordDecl()) { if (auto d = r->getDefinition()) return did(d); return did(r); }
        return 0;
    }
    std::string qname(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }

    const char* vkind(const ValueDecl *d) {
        if (isa<EnumConstantDecl>(d)) return "e";
        if (isa<ParmVarDecl>(d)) return "p";
        if (auto v = dyn_cast<VarDecl>(d)) {
            if (v->isStaticLocal()) return "s";
            if (v->isStaticDataMember()) return "sm";
            if (v->hasGlobalStorage()) return "g";
            return "v";
        }
        if (isa<FunctionDecl>(d)) return "f";
        if (isa<BindingDecl>(d)) return "b";
        if (isa<NonTypeTemplateParmDecl>(d)) return "n";
        if (isa<FieldDecl>(d)) return "m";
        return "o";
    }

    void decl(const ValueDecl *d) {
        O << "\"n\":"; str(d->getNameAsString());
        const char *k = vkind(d);
        key("d"); str(k);
        if (*k != 'v' && *k != 'p') { key("q"); str(qname(d)); }
        if (*k == 's') { }
        key("id"); O << did(d);
        key("t"); O << tid(d->getType());
        if (auto e = dyn_cast<EnumConstantDecl>(d)) { key("v"); O << e->getInitVal().getExtValue(); }
    }

    void fdecl(const FunctionDecl *f) {
        O << "\"q\":"; str(qname(f));
        key("fid"); O << did(f);
        key("sig"); O << tid(f->getType());
        if (f->isNoReturn()) { key("nr"); O << 1; }
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            key("cls"); str(qname(m->getParent()));
            if (m->isVirtual()) { key("virt"); O << 1; }
            if (m->isConst()) { key("cm"); O << 1; }
            if (m->isStatic()) { key("st"); O << 1; }
        }
        std::string ta = targs(f);
        if (!ta.empty()) { key("ta"); str(ta); }
        if (auto p = f->getTemplateInstantiationPattern()) {
            key("pl"); std::string s; llvm::raw_string_ostream os(s); os << rel(file(p->getLocation())) << ":" << line(p->getLocation()); str(os.str());
        }
        SourceLocation dl = f->getLocation();
        const FunctionDecl *def = nullptr;
        if (f->hasBody(def) && def) dl = def->getLocation();
        key("dl"); { std::string s; llvm::raw_string_ostream os(s); os << rel(file(dl)) << ":" << line(dl); str(os.str()); }
    }
    std::string rel(const std::string &f) {
        if (f.compare(0, g_root.size(), g_root) == 0) return f.substr(g_root.size());
        return f;
    }
    std::string targs(const FunctionDecl *f) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto a = f->getTemplateSpecializationArgs()) {
            printTemplateArgumentList(os, a->asArray(), PP);
        }
        return os.str();
    }

    template <class R> void list(const char *k, R r) {
        O << ",\"" << k << "\":[";
        bool first = true;
        for (auto a : r) { if (!first) O << ","; first = false; S(a); }
        O << "]";
    }

    void cst(const Expr *e) {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        QualType t = e->getType();
        if (t.isNull() || !t->isIntegralOrEnumerationType()) return;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
            llvm::APSInt v = r.Val.getInt();
            key("v");
            llvm::SmallString<24> b; v.toString(b, 10); O << b;
        }
    }

    void var(const VarDecl *v) {
        O << "{\"k\":\"Var\",\"l\":" << line(v->getLocation()) << ",";
        decl(v);
        if (v->getType()->isReferenceType()) { key("ref"); O << 1; }
        if (!g_all.empty()) if (unsigned r = rid(v->getType())) { key("tr"); O << r; }
        if (auto ca = C.getAsConstantArrayType(v->getType())) { key("arr"); O << ca->getSize().getZExtValue(); }
        if (v->hasInit()) { key("i"); S(v->getInit()); }
        O << "}";
    }

    void S(const Stmt *s) {
        if (!s) { O << "null"; return; }
        // transparent wrappers
        while (true) {
            if (auto e = dyn_cast<ImplicitCastExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<FullExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
            if (auto e = dyn_cast<CXXStdInitializerListExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto e = dyn_cast<AttributedStmt>(s)) { s = e->getSubStmt(); continue; }
            if (auto e = dyn_cast<OMPCanonicalLoop>(s)) { s = e->getLoopStmt(); continue; }
            if (auto e = dyn_cast<CapturedStmt>(s)) { s = e->getCapturedStmt(); continue; }
            if (auto e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); continue; }
            break;
        }
        if (!s) { O << "null"; return; }
        O << "{\"k\":";
        unsigned ln = line(s->getBeginLoc());
        auto L = [&]() { key("l"); O << ln; };
        if (auto x = dyn_cast<CompoundStmt>(s)) { O << "\"Block\""; L(); list("c", x->body()); }
        else if (auto x = dyn_cast<DeclStmt>(s)) {
            O << "\"Decl\""; L(); O << ",\"c\":[";
            bool first = true;
            for (auto d : x->decls()) {
                if (auto v = dyn_cast<VarDecl>(d)) { if (!first) O << ","; first = false; var(v); }
            }
            O << "]";
            if (x->isSingleDecl()) if (auto dd = dyn_cast<DecompositionDecl>(x->getSingleDecl())) {
                O << ",\"bind\":["; bool f2 = true;
                for (auto b : dd->bindings()) { if (!f2) O << ","; f2 = false; O << "{"; decl(b); O << "}"; }
                O << "]";
            }
        }
        else if (auto x = dyn_cast<IfStmt>(s)) {
            O << "\"If\""; L();
            if (x->isConstexpr()) { key("cx"); O << 1; }
            if (x->getInit()) { key("init"); S(x->getInit()); }
            if (x->getConditionVariable()) { key("cv"); var(x->getConditionVariable()); }
            key("e"); S(x->getCond()); key("th"); S(x->getThen()); key("el"); S(x->getElse());
        }
        else if (auto x = dyn_cast<ForStmt>(s)) {
            O << "\"For\""; L(); key("init"); S(x->getInit()); key("e"); S(x->getCond()); key("inc"); S(x->getInc()); key("b"); S(x->getBody());
        }
        else if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
            O << "\"Range\""; L(); key("var"); if (x->getLoopVariable()) var(x->getLoopVariable()); else O << "null";
            key("e"); S(x->getRangeInit()); key("b"); S(x->getBody());
        }
        else if (auto x = dyn_cast<WhileStmt>(s)) { O << "\"While\""; L(); key("e"); S(x->getCond()); key("b"); S(x->getBody()); }
        else if (auto x = dyn_cast<DoStmt>(s)) { O << "\"Do\""; L(); key("e"); S(x->getCond()); key("b"); S(x->getBody()); }
        else if (auto x = dyn_cast<SwitchStmt>(s)) { O << "\"Switch\""; L(); key("e"); S(x->getCond()); key("t"); O << tid(x->getCond()->IgnoreImpCasts()->getType()); key("b"); S(x->getBody()); }
        else if (auto x = dyn_cast<CaseStmt>(s)) { O << "\"Case\""; L(); key("e"); S(x->getLHS()); cst(x->getLHS()); key("c"); S(x->getSubStmt()); }
        else if (auto x = dyn_cast<DefaultStmt>(s)) { O << "\"Default\""; L(); key("c"); S(x->getSubStmt()); }
        else if (auto x = dyn_cast<ReturnStmt>(s)) { O << "\"Return\""; L(); key("e"); S(x->getRetValue()); }
        else if (isa<BreakStmt>(s)) { O << "\"Break\""; L(); }
        else if (isa<ContinueStmt>(s)) { O << "\"Continue\""; L(); }
        else if (isa<NullStmt>(s)) { O << "\"Null\""; L(); }
        else if (auto x = dyn_cast<GotoStmt>(s)) { O << "\"Goto\""; L(); key("n"); str(x->getLabel()->getName()); }
        else if (auto x = dyn_cast<LabelStmt>(s)) { O << "\"Label\""; L(); key("n"); str(x->getName()); key("c"); S(x->getSubStmt()); }
        else if (auto x = dyn_cast<CXXTryStmt>(s)) {
            O << "\"Try\""; L(); key("b"); S(x->getTryBlock()); O << ",\"h\":[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) O << ","; S(x->getHandler(i)->getHandlerBlock()); }
            O << "]";
        }
        else if (auto x = dyn_cast<OMPExecutableDirective>(s)) { omp(x, ln); }
        else if (auto x = dyn_cast<DeclRefExpr>(s)) {
            O << "\"Ref\""; L(); O << ",";
            if (auto f = dyn_cast<FunctionDecl>(x->getDecl())) { O << "\"n\":"; str(f->getNameAsString()); key("d"); str("f"); O << ","; fdecl(f); }
            else { decl(x->getDecl()); if (!isa<EnumConstantDecl>(x->getDecl())) cst(x); }
        }
        else if (auto x = dyn_cast<MemberExpr>(s)) {
            O << "\"Mem\""; L(); key("n"); str(x->getMemberDecl()->getNameAsString());
            key("q"); str(qname(x->getMemberDecl()));
            key("t"); O << tid(x->getType());
            key("id"); O << did(x->getMemberDecl());
            if (x->isArrow()) { key("ar"); O << 1; }
            if (isa<VarDecl>(x->getMemberDecl())) { key("sm"); O << 1; }
            if (auto fd = dyn_cast<FunctionDecl>(x->getMemberDecl())) { key("fn"); O << "{"; fdecl(fd); O << "}"; }
            key("b"); S(x->getBase());
        }
        else if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
            O << "\"Mem\""; L(); key("dep"); O << 1; key("n"); str(x->getMember().getAsString());
            if (x->isArrow()) { key("ar"); O << 1; }
            key("b"); if (x->isImplicitAccess()) O << "{\"k\":\"This\"}"; else S(x->getBase());
        }
        else if (auto x = dyn_cast<UnresolvedMemberExpr>(s)) {
            O << "\"Mem\""; L(); key("dep"); O << 1; key("n"); str(x->getMemberName().getAsString());
            if (x->isArrow()) { key("ar"); O << 1; }
            key("b"); if (x->isImplicitAccess()) O << "{\"k\":\"This\"}"; else S(x->getBase());
        }
        else if (auto x = dyn_cast<OverloadExpr>(s)) { O << "\"Ref\""; L(); key("dep"); O << 1; key("d"); str("f"); key("n"); str(x->getName().getAsString());
            std::string q; { llvm::raw_string_ostream os(q); if (x->getQualifier()) x->getQualifier()->print(os, PP); os << x->getName().getAsString(); }
            if (x->getNumDecls()) { NamedDecl *d = *x->decls_begin(); q = qname(d); }
            key("q"); str(q);
        }
        else if (auto x = dyn_cast<DependentScopeDeclRefExpr>(s)) { O << "\"Ref\""; L(); key("dep"); O << 1; key("d"); str("o"); key("n"); str(x->getDeclName().getAsString());
            std::string q; { llvm::raw_string_ostream os(q); if (x->getQualifier()) x->getQualifier()->print(os, PP); os << x->getDeclName().getAsString(); }
            key("q"); str(q);
        }
        else if (auto x = dyn_cast<LambdaExpr>(s)) {
            O << "\"Lambda\""; L(); O << ",\"cap\":[";
            bool first = true;
            for (auto &c : x->captures()) {
                if (!first) O << ","; first = false;
                O << "{\"r\":" << (c.getCaptureKind() == LCK_ByRef ? 1 : 0);
                if (c.capturesThis()) { O << ",\"n\":\"this\""; }
                else if (c.capturesVariable()) { O << ","; decl(c.getCapturedVar()); }
                O << "}";
            }
            O << "],\"p\":["; first = true;
            for (auto p : x->getCallOperator()->parameters()) { if (!first) O << ","; first = false; O << "{"; decl(p); O << "}"; }
            O << "]"; key("b"); S(x->getBody());
        }
        else if (auto x = dyn_cast<CXXOperatorCallExpr>(s)) {
            O << "\"OpCall\""; L(); key("op"); str(getOperatorSpelling(x->getOperator()));
            if (auto f = x->getDirectCallee()) { O << ","; fdecl(f); }
            key("t"); O << tid(x->getType());
            list("a", x->arguments());
        }
        else if (auto x = dyn_cast<CXXMemberCallExpr>(s)) {
            O << "\"Call\""; L();
            if (auto f = x->getMethodDecl()) { O << ","; O << "\"n\":"; str(f->getNameAsString()); O << ","; fdecl(f); key("o"); S(x->getImplicitObjectArgument());
                if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) { if (me->isArrow()) { key("ar"); O << 1; } if (me->hasQualifier()) { key("qual"); O << 1; } }
            }
            else { key("fe"); S(x->getCallee()); }
            key("t"); O << tid(x->getType());
            list("a", x->arguments());
        }
        else if (auto x = dyn_cast<CallExpr>(s)) {
            O << "\"Call\""; L();
            if (auto f = x->getDirectCallee()) { O << ","; O << "\"n\":"; str(f->getNameAsString()); O << ","; fdecl(f); }
            else { 
                const Expr *ce = x->getCallee()->IgnoreParenImpCasts();
                if (auto m = dyn_cast<CXXDependentScopeMemberExpr>(ce)) { key("n"); str(m->getMember().getAsString()); key("dep"); O << 1; key("o"); if (m->isImplicitAccess()) O << "{\"k\":\"This\"}"; else S(m->getBase()); if (m->isArrow()) { key("ar"); O << 1; } }
                else if (auto m = dyn_cast<UnresolvedMemberExpr>(ce)) { key("n"); str(m->getMemberName().getAsString()); key("dep"); O << 1; key("o"); if (m->isImplicitAccess()) O << "{\"k\":\"This\"}"; else S(m->getBase()); if (m->isArrow()) { key("ar"); O << 1; } }
                else if (auto m = dyn_cast<OverloadExpr>(ce)) { key("n"); str(m->getName().getAsString()); key("dep"); O << 1; if (m->getNumDecls()) { key("q"); str(qname(*m->decls_begin())); } }
                else if (auto m = dyn_cast<DependentScopeDeclRefExpr>(ce)) { key("n"); str(m->getDeclName().getAsString()); key("dep"); O << 1; std::string q; { llvm::raw_string_ostream os(q); if (m->getQualifier()) m->getQualifier()->print(os, PP); os << m->getDeclName().getAsString(); } key("q"); str(q); }
                else { key("fe"); S(ce); }
            }
            key("t"); O << tid(x->getType());
            list("a", x->arguments());
        }
        else if (auto x = dyn_cast<CXXConstructExpr>(s)) {
            // elidable copies are transparent enough to keep as Ctor with 1 arg
            O << "\"Ctor\""; L(); key("t"); O << tid(x->getType());
            if (x->getConstructor()->isCopyConstructor()) { key("cp"); O << 1; }
            if (x->getConstructor()->isMoveConstructor()) { key("mv"); O << 1; }
            O << ","; fdecl(x->getConstructor());
            if (!g_all.empty()) { key("tr"); O << rid(x->getType()); }
            list("a", x->arguments());
        }
        else if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(s)) { O << "\"Ctor\""; L(); key("dep"); O << 1; key("t"); O << tid(x->getTypeAsWritten()); list("a", x->arguments()); }
        else if (auto x = dyn_cast<CXXNewExpr>(s)) {
            O << "\"New\""; L(); key("t"); O << tid(x->getAllocatedType());
            if (!g_all.empty()) { key("tr"); O << rid(x->getAllocatedType()); }
            if (x->isArray()) { key("arr"); if (x->getArraySize() && *x->getArraySize()) S(*x->getArraySize()); else O << "null"; }
            if (x->getNumPlacementArgs()) { key("pl"); O << 1; }
            key("i"); S(x->getInitializer());
        }
        else if (auto x = dyn_cast<CXXDeleteExpr>(s)) { O << "\"Delete\""; L(); if (x->isArrayForm()) { key("arr"); O << 1; } key("e"); S(x->getArgument()); }
        else if (auto x = dyn_cast<CXXThisExpr>(s)) { O << "\"This\""; L(); (void)x; }
        else if (auto x = dyn_cast<CXXThrowExpr>(s)) { O << "\"Throw\""; L(); key("e"); S(x->getSubExpr()); }
        else if (auto x = dyn_cast<BinaryOperator>(s)) {
            O << "\"Bin\""; L(); key("op"); str(x->getOpcodeStr()); key("t"); O << tid(x->getType()); 
            if (!x->isAssignmentOp()) cst(x);
            key("x"); S(x->getLHS()); key("y"); S(x->getRHS());
        }
        else if (auto x = dyn_cast<UnaryOperator>(s)) {
            O << "\"Un\""; L(); key("op"); str(UnaryOperator::getOpcodeStr(x->getOpcode())); if (x->isPostfix()) { key("post"); O << 1; }
            key("t"); O << tid(x->getType()); if (!x->isIncrementDecrementOp()) cst(x); key("e"); S(x->getSubExpr());
        }
        else if (auto x = dyn_cast<ConditionalOperator>(s)) { O << "\"Cond\""; L(); key("t"); O << tid(x->getType()); cst(x); key("e"); S(x->getCond()); key("x"); S(x->getTrueExpr()); key("y"); S(x->getFalseExpr()); }
        else if (auto x = dyn_cast<ArraySubscriptExpr>(s)) { O << "\"Idx\""; L(); key("t"); O << tid(x->getType()); key("b"); S(x->getBase()); key("i"); S(x->getIdx()); }
        else if (auto x = dyn_cast<ExplicitCastExpr>(s)) { O << "\"Cast\""; L(); key("ck"); str(x->getStmtClassName()); key("t"); O << tid(x->getType()); cst(x); key("e"); S(x->getSubExpr()); }
        else if (auto x = dyn_cast<IntegerLiteral>(s)) { O << "\"Int\""; L(); key("t"); O << tid(x->getType()); key("v"); llvm::SmallString<24> b; x->getValue().toString(b, 10, false); O << b; }
        else if (auto x = dyn_cast<CharacterLiteral>(s)) { O << "\"Chr\""; L(); key("v"); O << x->getValue(); }
        else if (auto x = dyn_cast<CXXBoolLiteralExpr>(s)) { O << "\"Bool\""; L(); key("v"); O << (x->getValue() ? 1 : 0); }
        else if (auto x = dyn_cast<FloatingLiteral>(s)) { O << "\"Flt\""; L(); key("v"); llvm::SmallString<32> b; x->getValue().toString(b); str(b); }
        else if (auto x = dyn_cast<StringLiteral>(s)) { O << "\"Str\""; L(); key("v"); if (x->getCharByteWidth() == 1) str(x->getString()); else str("?"); }
        else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { O << "\"Nul\""; L(); }
        else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            O << "\"Sizeof\""; L(); key("tk"); O << (int)x->getKind(); cst(x); key("at"); O << tid(x->getTypeOfArgument());
            if (!x->isArgumentType()) { key("e"); S(x->getArgumentExpr()); }
        }
        else if (auto x = dyn_cast<InitListExpr>(s)) {
            if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            O << "\"Init\""; L(); key("t"); O << tid(x->getType()); if (!g_all.empty()) { key("tr"); O << rid(x->getType()); }
            O << ",\"c\":["; for (unsigned i = 0; i < x->getNumInits(); ++i) { if (i) O << ","; S(x->getInit(i)); } O << "]";
        }
        else if (auto x = dyn_cast<ParenListExpr>(s)) { O << "\"Init\""; L(); O << ",\"c\":["; for (unsigned i = 0; i < x->getNumExprs(); ++i) { if (i) O << ","; S(x->getExpr(i)); } O << "]"; }
        else if (auto x = dyn_cast<CXXDefaultArgExpr>(s)) { O << "\"DefArg\""; L(); key("e"); S(x->getExpr()); }
        else if (auto x = dyn_cast<PredefinedExpr>(s)) { O << "\"Str\""; L(); key("v"); str(x->getFunctionName() ? x->getFunctionName()->getString() : ""); }
        else if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) { O << "\"Zero\""; L(); key("t"); O << tid(cast<Expr>(s)->getType()); }
        else {
            O << "\"Other\""; L(); key("cn"); str(s->getStmtClassName());
            if (auto e = dyn_cast<Expr>(s)) { key("t"); O << tid(e->getType()); cst(e); }
            O << ",\"c\":["; bool first = true;
            for (auto c : s->children()) { if (!c) continue; if (!first) O << ","; first = false; S(c); }
            O << "]";
        }
        O << "}";
    }

    void omp(const OMPExecutableDirective *x, unsigned ln) {
        O << "\"OMP\",\"l\":" << ln; key("n"); str(llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()));
        O << ",\"cl\":[";
        bool first = true;
        for (auto c : x->clauses()) {
            if (c->isImplicit()) continue;
            if (!first) O << ","; first = false;
            O << "{\"n\":"; str(llvm::omp::getOpenMPClauseName(c->getClauseKind()));
            if (auto r = dyn_cast<OMPReductionClause>(c)) { key("op"); str(r->getNameInfo().getName().getAsString()); }
            if (auto sc = dyn_cast<OMPScheduleClause>(c)) { key("sk"); str(getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, sc->getScheduleKind())); }
            if (auto dc = dyn_cast<OMPDefaultClause>(c)) { key("dk"); str(getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_default, unsigned(dc->getDefaultKind()))); }
            O << ",\"c\":["; bool f2 = true;
            for (auto ch : const_cast<OMPClause*>(c)->children()) { if (!ch) continue; if (!f2) O << ","; f2 = false; S(ch); }
            O << "]}";
        }
        O << "]";
        key("b");
        const Stmt *a = x->hasAssociatedStmt() ? x->getAssociatedStmt() : nullptr;
        while (a && isa<CapturedStmt>(a)) a = cast<CapturedStmt>(a)->getCapturedStmt();
        S(a);
    }

};

struct V : RecursiveASTVisitor<V> {
    Dumper &D;
    ASTContext &C;
    std::map<const void*, int> instCount;
    bool firstF = true, firstR = true, firstE = true, firstG = true;
    std::string sf, sr, se, sg;
    llvm::raw_string_ostream of, orr, oe, og;
    V(Dumper &D, ASTContext &C): D(D), C(C), of(sf), orr(sr), oe(se), og(sg) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool mine(SourceLocation l) {
        std::string f = D.file(l);
        return f.compare(0, g_root.size(), g_root) == 0;
    }
    bool all(SourceLocation l) { return !g_all.empty() && D.rel(D.file(l)).compare(0, g_all.size(), g_all) == 0; }
    bool VisitEnumDecl(EnumDecl *e) {
        if (!e->isThisDeclarationADefinition() || !mine(e->getLocation())) return true;
        std::string q = D.qname(e);
        std::string k = "E" + D.file(e->getLocation()) + ":" + std::to_string(D.line(e->getLocation())) + q;
        if (!g_seen.insert(k).second) return true;
        if (!firstE) oe << ","; firstE = false;
        oe << "{\"q\":"; Dumper::esc(oe, q); oe << ",\"f\":"; Dumper::esc(oe, D.rel(D.file(e->getLocation()))); oe << ",\"l\":" << D.line(e->getLocation()) << ",\"sc\":" << (e->isScoped() ? 1 : 0) << ",\"c\":[";
        bool f = true;
        for (auto c : e->enumerators()) { if (!f) oe << ","; f = false; oe << "["; Dumper::esc(oe, c->getName()); oe << "," << c->getInitVal().getExtValue() << "]"; }
        oe << "]}";
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->isThisDeclarationADefinition() || !mine(v->getLocation())) return true;
        if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
        std::string k = "G" + D.file(v->getLocation()) + ":" + std::to_string(D.line(v->getLocation())) + ":" + D.qname(v);
        if (!g_seen.insert(k).second) return true;
        if (!firstG) og << ","; firstG = false;
        std::string buf; { llvm::raw_string_ostream os(buf); Dumper d2(C, os); d2.types = D.types; d2.typeList = D.typeList; d2.ids = D.ids; d2.var(v); os.flush(); D.types = d2.types; D.typeList = d2.typeList; D.ids = d2.ids; }
        og << "{\"q\":"; Dumper::esc(og, D.qname(v)); og << ",\"f\":"; Dumper::esc(og, D.rel(D.file(v->getLocation()))); og << ",\"const\":" << (v->getType().isConstQualified() || v->isConstexpr() ? 1 : 0) << ",\"var\":" << buf << "}";
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || !mine(r->getLocation()) || r->isLambda()) return true;
        if (r->isImplicit()) return true;
        std::string ta;
        if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            llvm::raw_string_ostream os(ta); printTemplateArgumentList(os, s->getTemplateArgs().asArray(), D.PP);
            if (!s->isExplicitSpecialization() ) {
                // first implicit/explicit instantiation only
                if (instCount[s->getSpecializedTemplate()->getCanonicalDecl()]++ > 0 && !all(r->getLocation())) return true;
            }
        }
        std::string q = D.qname(r);
        std::string k = "R" + D.file(r->getLocation()) + ":" + std::to_string(D.line(r->getLocation())) + ":" + q + ta;
        if (!g_all.empty()) k += "#" + std::to_string(D.did(r));
        if (!g_seen.insert(k).second) return true;
        if (!firstR) orr << ","; firstR = false;
        orr << "{\"q\":"; Dumper::esc(orr, q); orr << ",\"ta\":"; Dumper::esc(orr, ta); orr << ",\"f\":"; Dumper::esc(orr, D.rel(D.file(r->getLocation())));
        if (!g_all.empty()) {
            orr << ",\"id\":" << D.did(r) << ",\"bid\":["; bool fb = true;
            for (auto &b : r->bases()) { if (!fb) orr << ","; fb = false; orr << D.rid(b.getType()); }
            orr << "]";
        }
        orr << ",\"l\":" << D.line(r->getLocation()) << ",\"tp\":" << (r->getDescribedClassTemplate() ? 1 : 0) << ",\"bases\":[";
        bool f = true;
        for (auto &b : r->bases()) { if (!f) orr << ","; f = false; std::string s; 
            if (auto bd = b.getType()->getAsCXXRecordDecl()) s = D.qname(bd); else s = b.getType().getAsString(D.PP);
            Dumper::esc(orr, s); }
        orr << "],\"fields\":["; f = true;
        for (auto d : r->decls()) {
            if (auto fd = dyn_cast<FieldDecl>(d)) {
                if (!f) orr << ","; f = false;
                orr << "{\"n\":"; Dumper::esc(orr, fd->getName()); orr << ",\"t\":"; Dumper::esc(orr, fd->getType().getCanonicalType().getAsString(D.PP)); orr << ",\"l\":" << D.line(fd->getLocation()) << ",\"a\":" << (int)fd->getAccess();
                if (!g_all.empty()) { orr << ",\"id\":" << D.did(fd) << ",\"tr\":" << D.rid(fd->getType()); }
                if (auto e = fd->getInClassInitializer()) {
                    std::string buf; { llvm::raw_string_ostream os(buf); Dumper d2(C, os); d2.types = D.types; d2.typeList = D.typeList; d2.ids = D.ids; d2.S(e); os.flush(); D.types = d2.types; D.typeList = d2.typeList; D.ids = d2.ids; }
                    orr << ",\"i\":" << buf;
                }
                orr << "}";
            }
        }
        orr << "],\"methods\":["; f = true;
        for (auto d : r->decls()) {
            FunctionDecl *fdl = dyn_cast<FunctionDecl>(d);
            if (auto ft = dyn_cast<FunctionTemplateDecl>(d)) fdl = ft->getTemplatedDecl();
            auto m = dyn_cast_or_null<CXXMethodDecl>(fdl);
            if (!m || m->isImplicit()) continue;
            if (!f) orr << ","; f = false;
            orr << "{\"n\":"; Dumper::esc(orr, m->getNameAsString()); orr << ",\"t\":"; Dumper::esc(orr, m->getType().getCanonicalType().getAsString(D.PP)); orr << ",\"a\":" << (int)m->getAccess() << ",\"l\":" << D.line(m->getLocation());
            if (m->isVirtual()) orr << ",\"virt\":1";
            if (m->isPureVirtual()) orr << ",\"pure\":1";
            if (m->isDeleted()) orr << ",\"del\":1";
            if (m->isDefaulted()) orr << ",\"def\":1";
            if (m->isStatic()) orr << ",\"st\":1";
            if (auto cc = dyn_cast<CXXConstructorDecl>(m)) { orr << ",\"ctor\":1"; if (cc->isCopyConstructor()) orr << ",\"cc\":1"; if (cc->isMoveConstructor()) orr << ",\"mc\":1"; }
            if (isa<CXXDestructorDecl>(m)) orr << ",\"dtor\":1";
            if (m->isCopyAssignmentOperator()) orr << ",\"ca\":1";
            if (m->isMoveAssignmentOperator()) orr << ",\"ma\":1";
            orr << "}";
        }
        orr << "]}";
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return true;
        if (!f->doesThisDeclarationHaveABody() || f->isDefaulted() || f->isDeleted()) return true;
        if (!mine(f->getLocation())) return true;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        const char *tm = "";
        std::string ta;
        if (f->isTemplated()) tm = "pat";   // dependent context: template pattern
        else if (f->isTemplateInstantiation() || (f->getTemplateInstantiationPattern() != nullptr)) {
            tm = "inst";
            const void *pat = f->getTemplateInstantiationPattern();
            if (instCount[pat]++ >= maxInst && !all(f->getLocation())) return true;
        }
        { llvm::raw_string_ostream os(ta);
          if (auto a = f->getTemplateSpecializationArgs()) printTemplateArgumentList(os, a->asArray(), D.PP);
          if (auto m = dyn_cast<CXXMethodDecl>(f)) if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) { os << "|"; printTemplateArgumentList(os, s->getTemplateArgs().asArray(), D.PP); }
        }
        std::string q = D.qname(f);
        SourceLocation loc = f->getLocation();
        std::string fl = D.rel(D.file(loc));
        std::string k = fl + ":" + std::to_string(D.line(loc)) + ":" + std::to_string(C.getSourceManager().getExpansionColumnNumber(loc)) + q + tm + ta + f->getType().getCanonicalType().getAsString();
        if (!g_all.empty()) k += "#" + std::to_string(D.did(f));
        if (!g_seen.insert(k).second) return true;
        if (!firstF) of << ","; firstF = false;
        std::string buf;
        {
            llvm::raw_string_ostream os(buf);
            Dumper d2(C, os);
            std::swap(d2.types, D.types); std::swap(d2.typeList, D.typeList); std::swap(d2.ids, D.ids);
            os << "{"; d2.fdecl(f);
            os << ",\"n\":"; Dumper::esc(os, f->getNameAsString());
            os << ",\"f\":"; Dumper::esc(os, fl); os << ",\"l\":" << D.line(loc) << ",\"el\":" << D.line(f->getEndLoc());
            os << ",\"tm\":\"" << tm << "\",\"cta\":"; Dumper::esc(os, ta);
            os << ",\"ret\":" << d2.tid(f->getReturnType());
            if (f->getStorageClass() == SC_Static) os << ",\"stc\":1";
            if (auto m = dyn_cast<CXXMethodDecl>(f)) {
                os << ",\"acc\":" << (int)m->getAccess();
                if (!g_all.empty()) os << ",\"cid\":" << d2.did(m->getParent());
                if (isa<CXXConstructorDecl>(m)) os << ",\"ctor\":1";
                if (isa<CXXDestructorDecl>(m)) os << ",\"dtor\":1";
                bool ff = true; os << ",\"ov\":[";
                for (auto o : m->overridden_methods()) { if (!ff) os << ","; ff = false; Dumper::esc(os, D.qname(o)); }
                os << "]";
            }
            os << ",\"p\":["; bool ff = true;
            for (auto p : f->parameters()) { if (!ff) os << ","; ff = false; os << "{"; d2.decl(p); if (p->getType()->isReferenceType()) os << ",\"ref\":1"; os << "}"; }
            os << "]";
            if (auto cd = dyn_cast<CXXConstructorDecl>(f)) {
                os << ",\"init\":["; ff = true;
                for (auto i : cd->inits()) {
                    if (!i->isWritten() && !i->isInClassMemberInitializer()) continue;
                    if (!ff) os << ","; ff = false;
                    os << "{\"n\":"; 
                    if (i->isAnyMemberInitializer()) { Dumper::esc(os, i->getAnyMember()->getNameAsString()); if (!g_all.empty()) os << ",\"id\":" << d2.did(i->getAnyMember()); }
                    else if (i->isBaseInitializer()) { os << "\"\",\"base\":"; Dumper::esc(os, QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(D.PP)); if (!g_all.empty()) os << ",\"bid\":" << d2.rid(QualType(i->getBaseClass(), 0)); }
                    else os << "\"\"";
                    os << ",\"w\":" << (i->isWritten() ? 1 : 0) << ",\"e\":"; d2.S(i->getInit()); os << "}";
                }
                os << "]";
            }
            os << ",\"b\":"; d2.S(f->getBody()); os << "}";
            os.flush();
            std::swap(d2.types, D.types); std::swap(d2.typeList, D.typeList); std::swap(d2.ids, D.ids);
        }
        of << buf;
        return true;
    }
    int maxInst = 1;
};

struct Consumer : ASTConsumer {
    std::string out;
    std::string src;
    Consumer(std::string o, std::string s): out(o), src(s) {}
    void HandleTranslationUnit(ASTContext &C) override {
        std::string dummy; llvm::raw_string_ostream os(dummy);
        Dumper D(C, os);
        V v(D, C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream o(out, ec);
        o << "{\"tu\":"; Dumper::esc(o, D.rel(src));
        o << ",\"errors\":" << (C.getDiagnostics().hasErrorOccurred() ? 1 : 0);
        o << ",\"types\":[\"\"";
        for (auto &t : D.typeList) { o << ","; Dumper::esc(o, t); }
        o << "],\"functions\":[" << v.of.str() << "],\"records\":[" << v.orr.str() << "],\"enums\":[" << v.oe.str() << "],\"globals\":[" << v.og.str() << "]}";
    }
};
struct Action : ASTFrontendAction {
    std::string out, src;
    Action(std::string o, std::string s): out(o), src(s) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(out, src); }
};

}

int main(int argc, char **argv)
{
    if (argc != 4 && argc != 5) { llvm::errs() << "usage: extract OUTDIR LIST ROOT [ALL-INSTANCES-PREFIX]\n"; return 2; }
    if (argc == 5) g_all = argv[4];
    std::string outdir = argv[1]; g_root = argv[3];
    if (g_root.back() != '/') g_root += '/';
    std::ifstream in(argv[2]);
    std::string ln; int bad = 0;
    while (std::getline(in, ln)) {
        std::vector<std::string> p; std::stringstream ss(ln); std::string x;
        while (std::getline(ss, x, '\t')) p.push_back(x);
        if (p.size() < 2) continue;
        std::vector<std::string> cmd; cmd.push_back("clang++"); 
        for (size_t i = 2; i < p.size(); ++i) cmd.push_back(p[i]);
        cmd.push_back("-fsyntax-only"); cmd.push_back(p[1]);
        llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
        tooling::ToolInvocation inv(cmd, std::make_unique<Action>(outdir + "/" + p[0], p[1]), fm.get());
        if (!inv.run()) { llvm::errs() << "extract: errors in " << p[1] << "\n"; bad++; }
    }
    return bad ? 3 : 0;
}
