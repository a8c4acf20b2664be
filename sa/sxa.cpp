// sxa: dumps the resolved, typed program (classes, functions, statements,
// expressions; template instantiations included) of one translation unit of
// stxxl as JSON, for the abstract interpreter in /verif/sa/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string g_repo = "/repo/";
static std::string g_extra;           // path prefix of the driver units
static std::string g_out;

static void esc(std::string& o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    o += '"';
}

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::vector<std::string> types; std::map<const void*, int> typeIds; std::vector<bool> typeDone;
    std::vector<std::string> funs; std::map<const Decl*, int> funIds;
    std::map<const Decl*, int> varIds;
    std::map<std::string, int> fileIds; std::vector<std::string> files;
    std::vector<std::string> bodies, recs, globals;
    std::set<const Decl*> recDone, funDone, globDone;
    std::vector<const FunctionDecl*> pending;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true; PP.Bool = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string fileOf(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str();
    }
    bool inRepo(SourceLocation L) {
        std::string f = fileOf(L);
        if (f.empty()) return false;
        if (f.compare(0, g_repo.size(), g_repo) == 0) return true;
        return !g_extra.empty() && f.compare(0, g_extra.size(), g_extra) == 0;
    }
    int fileId(SourceLocation L) {
        std::string f = fileOf(L);
        auto it = fileIds.find(f);
        if (it != fileIds.end()) return it->second;
        int id = files.size(); files.push_back(f); fileIds[f] = id; return id;
    }
    int line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }

    std::string ctxName(const DeclContext* D) {
        std::string r;
        if (!D) return r;
        if (const auto* F = dyn_cast<FunctionDecl>(D)) {
            r = ctxName(F->getDeclContext());
            if (!r.empty()) r += "::";
            return r + F->getNameAsString();
        }
        const NamedDecl* N = dyn_cast<NamedDecl>(D);
        if (const auto* NS = dyn_cast<NamespaceDecl>(D)) {
            if (NS->isInline()) return ctxName(NS->getParent());
            r = ctxName(NS->getParent());
            if (!r.empty()) r += "::";
            return r + (NS->isAnonymousNamespace() ? std::string("(anon)") : NS->getNameAsString());
        }
        if (isa<TranslationUnitDecl>(D)) return "";
        r = ctxName(D->getParent());
        if (N) { if (!r.empty()) r += "::"; std::string nn = N->getNameAsString(); r += nn.empty() ? std::string("(anon)") : nn; }
        return r;
    }
    std::string qname(const NamedDecl* N) {
        std::string r = ctxName(N->getDeclContext());
        if (!r.empty()) r += "::";
        return r + N->getNameAsString();
    }
    std::string fullRec(const RecordDecl* R) {
        return C.getRecordType(R).getAsString(PP);
    }

    int typeId(QualType T) {
        if (T.isNull()) return -1;
        QualType CT = T.getCanonicalType();
        const void* key = CT.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size(); typeIds[key] = id; types.push_back("");
        std::string o = "{";
        o += "\"s\":"; std::string s = CT.getAsString(PP); if (s.size() > 400) s.resize(400); esc(o, s);
        if (CT.isConstQualified()) o += ",\"c\":1";
        if (CT.isVolatileQualified()) o += ",\"vol\":1";
        const Type* t = CT.getTypePtr();
        if (t->isDependentType()) o += ",\"k\":\"dep\"";
        else if (t->isBooleanType()) o += ",\"k\":\"bool\",\"w\":1";
        else if (const auto* ET = dyn_cast<EnumType>(t)) {
            o += ",\"k\":\"enum\",\"en\":"; esc(o, qname(ET->getDecl()));
            o += ",\"w\":" + std::to_string(C.getTypeSize(CT));
        }
        else if (t->isIntegerType()) {
            o += ",\"k\":\"int\",\"w\":" + std::to_string(C.getTypeSize(CT));
            if (t->isSignedIntegerType()) o += ",\"sg\":1";
        }
        else if (t->isFloatingType()) o += ",\"k\":\"float\"";
        else if (t->isVoidType()) o += ",\"k\":\"void\"";
        else if (t->isNullPtrType()) o += ",\"k\":\"nullptr\"";
        else if (const auto* P = dyn_cast<PointerType>(t)) o += ",\"k\":\"ptr\",\"pt\":" + std::to_string(typeId(P->getPointeeType()));
        else if (const auto* P = dyn_cast<ReferenceType>(t)) {
            o += std::string(",\"k\":\"") + (isa<RValueReferenceType>(t) ? "rref" : "ref") + "\",\"pt\":" + std::to_string(typeId(P->getPointeeType()));
        }
        else if (const auto* A = dyn_cast<ConstantArrayType>(t)) {
            o += ",\"k\":\"arr\",\"n\":" + std::to_string(A->getSize().getZExtValue()) + ",\"pt\":" + std::to_string(typeId(A->getElementType()));
        }
        else if (const auto* R = dyn_cast<RecordType>(t)) {
            o += ",\"k\":\"rec\",\"ct\":"; esc(o, qname(R->getDecl()));
            const CXXRecordDecl* CR = dyn_cast<CXXRecordDecl>(R->getDecl());
            if (CR) {
                o += ",\"rid\":" + std::to_string(recId(CR));
                if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
                    o += ",\"ta\":[";
                    bool first = true;
                    for (const TemplateArgument& a : S->getTemplateArgs().asArray()) emitTA(o, a, first);
                    o += "]";
                }
                if (CR->hasDefinition() && !CR->hasTrivialDestructor()) o += ",\"ntd\":1";
            }
            if (R->getDecl()->isCompleteDefinition() && !R->getDecl()->isInvalidDecl() && !R->isDependentType())
                o += ",\"sz\":" + std::to_string(C.getTypeSizeInChars(CT).getQuantity());
        }
        else if (t->isFunctionType()) o += ",\"k\":\"fn\"";
        else if (t->isMemberPointerType()) o += ",\"k\":\"mptr\"";
        else o += ",\"k\":\"other\"";
        o += "}";
        types[id] = o;
        return id;
    }
    void emitTA(std::string& o, const TemplateArgument& a, bool& first) {
        if (a.getKind() == TemplateArgument::Pack) { for (const auto& x : a.pack_elements()) emitTA(o, x, first); return; }
        if (!first) o += ","; first = false;
        if (a.getKind() == TemplateArgument::Type) o += "[\"t\"," + std::to_string(typeId(a.getAsType())) + "]";
        else if (a.getKind() == TemplateArgument::Integral) o += "[\"i\"," + llvm::toString(a.getAsIntegral(), 10) + "]";
        else o += "[\"o\"]";
    }

    std::map<const CXXRecordDecl*, int> recIds; std::vector<const CXXRecordDecl*> recList;
    int recId(const CXXRecordDecl* R) {
        const CXXRecordDecl* D = R->getDefinition() ? R->getDefinition() : R->getCanonicalDecl();
        auto it = recIds.find(D);
        if (it != recIds.end()) return it->second;
        int id = recList.size(); recIds[D] = id; recList.push_back(D); return id;
    }

    int varId(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = varIds.find(D);
        if (it != varIds.end()) return it->second;
        int id = varIds.size() + 1; varIds[D] = id; return id;
    }

    int funId(const FunctionDecl* F0) {
        const FunctionDecl* F = F0->getCanonicalDecl();
        auto it = funIds.find(F);
        if (it != funIds.end()) return it->second;
        int id = funs.size(); funIds[F] = id; funs.push_back("");
        const FunctionDecl* Def = nullptr;
        F0->hasBody(Def);
        std::string o = "{\"fn\":"; esc(o, qname(F));
        o += ",\"n\":"; esc(o, F->getNameAsString());
        llvm::SmallString<256> usr; index::generateUSRForDecl(F, usr);
        o += ",\"u\":"; esc(o, usr);
        const char* kind = "func";
        if (const auto* M = dyn_cast<CXXMethodDecl>(F)) {
            kind = "method";
            if (isa<CXXConstructorDecl>(M)) {
                kind = "ctor";
                auto* CD = cast<CXXConstructorDecl>(M);
                if (CD->isCopyConstructor()) o += ",\"copy\":1";
                if (CD->isMoveConstructor()) o += ",\"move\":1";
                if (CD->isDefaultConstructor()) o += ",\"dflt\":1";
            }
            else if (isa<CXXDestructorDecl>(M)) kind = "dtor";
            else if (isa<CXXConversionDecl>(M)) kind = "conv";
            else {
                if (M->isCopyAssignmentOperator()) o += ",\"copy\":1";
                if (M->isMoveAssignmentOperator()) o += ",\"move\":1";
            }
            o += ",\"ct\":"; esc(o, qname(M->getParent()));
            o += ",\"rid\":" + std::to_string(recId(M->getParent()));
            if (M->isStatic()) o += ",\"st\":1";
            if (M->isConst()) o += ",\"cst\":1";
            if (M->isVirtual()) o += ",\"vi\":1";
            if (M->isPureVirtual()) o += ",\"pv\":1";
            if (M->getAccess() == AS_public) o += ",\"pub\":1";
            if (M->isImplicit()) o += ",\"imp\":1";
            if (M->isTrivial()) o += ",\"triv\":1";
            if (M->isDefaulted()) o += ",\"dfd\":1";
            if (M->isDeletedAsWritten()) o += ",\"del\":1";
            if (M->size_overridden_methods()) {
                o += ",\"ov\":["; bool f1 = true;
                for (const CXXMethodDecl* x : M->overridden_methods()) { if (!f1) o += ","; f1 = false; o += std::to_string(funId(x)); }
                o += "]";
            }
        }
        o += ",\"k\":\""; o += kind; o += "\"";
        if (F->isOverloadedOperator()) { o += ",\"oo\":"; esc(o, getOperatorSpelling(F->getOverloadedOperator())); }
        if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<CXX11NoReturnAttr>()) o += ",\"nr\":1";
        if (const auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
            if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && !F->isDependentContext() && FPT->isNothrow()) o += ",\"ne\":1";
        }
        if (F->getBuiltinID()) o += ",\"bi\":1";
        o += ",\"rt\":" + std::to_string(typeId(F->getReturnType()));
        o += ",\"ps\":[";
        bool f1 = true;
        for (const ParmVarDecl* p : F->parameters()) {
            if (!f1) o += ","; f1 = false;
            o += std::to_string(typeId(p->getType()));
        }
        o += "]";
        SourceLocation L = (Def ? Def : F0)->getLocation();
        bool ir = inRepo(L);
        if (ir) o += ",\"ir\":1";
        o += ",\"f\":" + std::to_string(fileId(L)) + ",\"l\":" + std::to_string(line(L));
        o += "}";
        funs[id] = o;
        if (Def && ir && !Def->isDependentContext()) pending.push_back(Def);
        return id;
    }

    // ---- expressions
    void kids(std::string& o, const Stmt* S) {
        o += "\"c\":["; bool f1 = true;
        for (const Stmt* c : S->children()) { if (!c) continue; if (!f1) o += ","; f1 = false; stmt(o, c); }
        o += "]";
    }
    void args(std::string& o, llvm::ArrayRef<const Expr*> a) {
        o += "\"a\":["; bool f1 = true;
        for (const Expr* e : a) { if (!f1) o += ","; f1 = false; expr(o, e); }
        o += "]";
    }
    void tl(std::string& o, const Expr* E) {
        o += ",\"t\":" + std::to_string(typeId(E->getType())) + ",\"l\":" + std::to_string(line(E->getExprLoc()));
        if (E->isGLValue()) o += ",\"lv\":1";
    }
    bool constant(std::string& o, const Expr* E) {
        QualType T = E->getType();
        if (E->isGLValue() && !isa<DeclRefExpr>(E)) return false;
        if (!T->isIntegralOrEnumerationType()) return false;
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        if (isa<InitListExpr>(E)) return false;
        if (const auto* D = dyn_cast<DeclRefExpr>(E)) {
            if (isa<EnumConstantDecl>(D->getDecl())) return false;
            if (const auto* V = dyn_cast<VarDecl>(D->getDecl())) { if (!V->getType().isConstQualified()) return false; }
            else return false;
        }
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
        if (!R.Val.isInt()) return false;
        o += "{\"k\":\"int\",\"v\":" + llvm::toString(R.Val.getInt(), 10);
        if (const auto* DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) {
            if (isa<EnumConstantDecl>(DR->getDecl())) { o += ",\"en\":"; esc(o, qname(DR->getDecl())); }
        }
        tl(o, E); o += "}";
        return true;
    }

    void expr(std::string& o, const Expr* E) {
        if (!E) { o += "null"; return; }
        if (const auto* X = dyn_cast<ParenExpr>(E)) return expr(o, X->getSubExpr());
        if (const auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(o, X->getExpr());
        if (const auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(o, X->getExpr());
        if (const auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(o, X->getReplacement());
        if (const auto* X = dyn_cast<ConstantExpr>(E)) return expr(o, X->getSubExpr());
        if (const auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(o, X->getSubExpr());
        if (const auto* X = dyn_cast<GenericSelectionExpr>(E)) return expr(o, X->getResultExpr());
        if (const auto* X = dyn_cast<ChooseExpr>(E)) return expr(o, X->getChosenSubExpr());
        if (const auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(o, X->getSourceExpr()); }
        if (const auto* DR = dyn_cast<DeclRefExpr>(E)) {
            if (const auto* EC = dyn_cast<EnumConstantDecl>(DR->getDecl())) {
                o += "{\"k\":\"int\",\"v\":" + llvm::toString(EC->getInitVal(), 10) + ",\"en\":"; esc(o, qname(EC));
                tl(o, E); o += "}"; return;
            }
        }
        if (constant(o, E)) return;
        if (const auto* X = dyn_cast<ExprWithCleanups>(E)) {
            o += "{\"k\":\"full\",\"e\":"; expr(o, X->getSubExpr()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            o += "{\"k\":\"mat\",\"e\":"; expr(o, X->getSubExpr());
            if (X->getExtendingDecl()) o += ",\"ext\":1";
            tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) {
            o += "{\"k\":\"tmp\",\"e\":"; expr(o, X->getSubExpr());
            if (X->getTemporary()->getDestructor()) o += ",\"d\":" + std::to_string(funId(X->getTemporary()->getDestructor()));
            tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<IntegerLiteral>(E)) {
            o += "{\"k\":\"int\",\"v\":" + llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<FloatingLiteral>(E)) {
            llvm::SmallString<32> s; X->getValue().toString(s);
            o += "{\"k\":\"float\",\"v\":"; esc(o, s); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<StringLiteral>(E)) {
            o += "{\"k\":\"str\",\"v\":"; esc(o, X->isOrdinary() ? X->getString() : llvm::StringRef("?")); tl(o, E); o += "}"; return;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o += "{\"k\":\"null\""; tl(o, E); o += "}"; return; }
        if (const auto* X = dyn_cast<CXXThisExpr>(E)) { (void)X; o += "{\"k\":\"this\""; tl(o, E); o += "}"; return; }
        if (const auto* X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = X->getDecl();
            if (const auto* F = dyn_cast<FunctionDecl>(D)) {
                o += "{\"k\":\"fref\",\"fi\":" + std::to_string(funId(F)); tl(o, E); o += "}"; return;
            }
            o += "{\"k\":\"var\",\"id\":" + std::to_string(varId(D)) + ",\"n\":"; esc(o, D->getNameAsString());
            if (const auto* V = dyn_cast<VarDecl>(D)) {
                if (isa<ParmVarDecl>(V)) o += ",\"sc\":\"p\"";
                else if (V->isStaticDataMember()) { o += ",\"sc\":\"sm\",\"q\":"; esc(o, gname(V)); }
                else if (V->isStaticLocal()) { o += ",\"sc\":\"sl\",\"q\":"; esc(o, gname(V)); }
                else if (V->hasGlobalStorage()) { o += ",\"sc\":\"g\",\"q\":"; esc(o, gname(V)); }
                else o += ",\"sc\":\"l\"";
                if (V->getType()->isReferenceType()) o += ",\"r\":1";
                if (V->hasGlobalStorage()) noteGlobal(V);
            }
            tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* D = X->getMemberDecl();
            if (const auto* F = dyn_cast<FieldDecl>(D)) {
                o += "{\"k\":\"mem\",\"n\":"; esc(o, F->getNameAsString());
                o += ",\"oc\":"; esc(o, qname(F->getParent()));
                if (X->isArrow()) o += ",\"ar\":1";
                if (F->getType()->isReferenceType()) o += ",\"r\":1";
                if (F->isMutable()) o += ",\"mu\":1";
                o += ",\"b\":"; expr(o, X->getBase());
                tl(o, E); o += "}"; return;
            }
            if (const auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                o += "{\"k\":\"int\",\"v\":" + llvm::toString(EC->getInitVal(), 10) + ",\"en\":"; esc(o, qname(EC));
                tl(o, E); o += "}"; return;
            }
            if (const auto* V = dyn_cast<VarDecl>(D)) {
                o += "{\"k\":\"var\",\"id\":" + std::to_string(varId(V)) + ",\"n\":"; esc(o, V->getNameAsString());
                o += ",\"sc\":\"sm\",\"q\":"; esc(o, gname(V)); noteGlobal(V);
                tl(o, E); o += "}"; return;
            }
            if (const auto* F = dyn_cast<FunctionDecl>(D)) {
                o += "{\"k\":\"mref\",\"fi\":" + std::to_string(funId(F)) + ",\"b\":"; expr(o, X->getBase()); tl(o, E); o += "}"; return;
            }
        }
        if (const auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            const auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            const CXXMethodDecl* M = X->getMethodDecl();
            if (ME && M) {
                o += "{\"k\":\"call\",\"fi\":" + std::to_string(funId(M));
                if (ME->isArrow()) o += ",\"ar\":1";
                if (M->isVirtual() && !ME->hasQualifier()) o += ",\"virt\":1";
                o += ",\"o\":"; expr(o, ME->getBase());
                o += ","; args(o, llvm::ArrayRef<const Expr*>((const Expr* const*)X->getArgs(), X->getNumArgs()));
                tl(o, E); o += "}"; return;
            }
        }
        if (const auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl* F = X->getDirectCallee();
            if (F) {
                o += "{\"k\":\"call\",\"fi\":" + std::to_string(funId(F));
                unsigned start = 0;
                if (const auto* M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic()) {
                    if (M->isVirtual()) o += ",\"virt\":1";
                    o += ",\"o\":"; expr(o, X->getArg(0)); start = 1;
                }
                std::vector<const Expr*> as;
                for (unsigned i = start; i < X->getNumArgs(); ++i) as.push_back(X->getArg(i));
                o += ","; args(o, as);
                tl(o, E); o += "}"; return;
            }
        }
        if (const auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) { (void)X; o += "{\"k\":\"nop\""; tl(o, E); o += "}"; return; }
        if (const auto* X = dyn_cast<CallExpr>(E)) {
            if (isa<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) { o += "{\"k\":\"nop\""; tl(o, E); o += "}"; return; }
            std::vector<const Expr*> as(X->getArgs(), X->getArgs() + X->getNumArgs());
            if (const FunctionDecl* F = X->getDirectCallee()) {
                o += "{\"k\":\"call\",\"fi\":" + std::to_string(funId(F)) + ",";
                args(o, as); tl(o, E); o += "}"; return;
            }
            o += "{\"k\":\"icall\",\"e\":"; expr(o, X->getCallee()); o += ","; args(o, as); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXConstructExpr>(E)) {
            o += "{\"k\":\"ctor\",\"fi\":" + std::to_string(funId(X->getConstructor()));
            if (X->isElidable()) o += ",\"el\":1";
            if (X->requiresZeroInitialization()) o += ",\"zi\":1";
            std::vector<const Expr*> as(X->getArgs(), X->getArgs() + X->getNumArgs());
            o += ","; args(o, as); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            o += "{\"k\":\"ctor\",\"fi\":" + std::to_string(funId(X->getConstructor())) + ",\"a\":[]"; tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXNewExpr>(E)) {
            o += "{\"k\":\"new\"";
            if (X->isArray()) { o += ",\"n\":"; auto s = X->getArraySize(); if (s) expr(o, *s); else o += "null"; }
            if (X->getNumPlacementArgs()) {
                o += ",\"pl\":["; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) { if (i) o += ","; expr(o, X->getPlacementArg(i)); } o += "]";
            }
            if (X->getOperatorNew()) o += ",\"on\":" + std::to_string(funId(X->getOperatorNew()));
            o += ",\"at\":" + std::to_string(typeId(X->getAllocatedType()));
            if (X->hasInitializer()) { o += ",\"i\":"; expr(o, X->getInitializer()); }
            tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            o += "{\"k\":\"delete\",\"e\":"; expr(o, X->getArgument());
            if (X->isArrayForm()) o += ",\"arr\":1";
            QualType DT = X->getDestroyedType();
            if (!DT.isNull()) {
                o += ",\"dt\":" + std::to_string(typeId(DT));
                if (const auto* R = DT->getAsCXXRecordDecl()) if (R->hasDefinition() && R->getDestructor()) o += ",\"d\":" + std::to_string(funId(R->getDestructor()));
            }
            if (X->getOperatorDelete()) o += ",\"od\":" + std::to_string(funId(X->getOperatorDelete()));
            tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CXXThrowExpr>(E)) {
            o += "{\"k\":\"throw\",\"e\":"; if (X->getSubExpr()) expr(o, X->getSubExpr()); else o += "null"; tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<UnaryOperator>(E)) {
            o += "{\"k\":\"un\",\"op\":\""; 
            switch (X->getOpcode()) {
            case UO_PostInc: o += "p++"; break; case UO_PostDec: o += "p--"; break;
            default: o += UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            }
            o += "\",\"e\":"; expr(o, X->getSubExpr()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<BinaryOperator>(E)) {
            if (X->isAssignmentOp()) o += "{\"k\":\"asg\",\"op\":"; else o += "{\"k\":\"bin\",\"op\":";
            esc(o, X->getOpcodeStr());
            if (const auto* CA = dyn_cast<CompoundAssignOperator>(X)) o += ",\"ctp\":" + std::to_string(typeId(CA->getComputationResultType()));
            o += ",\"x\":"; expr(o, X->getLHS()); o += ",\"y\":"; expr(o, X->getRHS()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            o += "{\"k\":\"cond\",\"e\":"; expr(o, X->getCond()); o += ",\"x\":"; expr(o, X->getTrueExpr()); o += ",\"y\":"; expr(o, X->getFalseExpr()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            o += "{\"k\":\"idx\",\"x\":"; expr(o, X->getBase()); o += ",\"y\":"; expr(o, X->getIdx()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion:
            case CK_BuiltinFnToFnPtr: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
                return expr(o, X->getSubExpr());
            case CK_LValueToRValue:
                o += "{\"k\":\"ld\",\"e\":"; expr(o, X->getSubExpr()); tl(o, E); o += "}"; return;
            default: break;
            }
            o += "{\"k\":\"cast\",\"ck\":"; esc(o, X->getCastKindName());
            if (isa<ExplicitCastExpr>(X)) o += ",\"xp\":1";
            o += ",\"e\":"; expr(o, X->getSubExpr()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<InitListExpr>(E)) {
            const InitListExpr* S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            o += "{\"k\":\"il\",";
            std::vector<const Expr*> as; for (const Expr* e : S->inits()) as.push_back(e);
            args(o, as); tl(o, E); o += "}"; return;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o += "{\"k\":\"zero\""; tl(o, E); o += "}"; return; }
        if (const auto* X = dyn_cast<LambdaExpr>(E)) {
            o += "{\"k\":\"lambda\",\"fi\":" + std::to_string(funId(X->getCallOperator()));
            o += ",\"body\":"; stmt(o, X->getBody()); tl(o, E); o += "}"; return;
        }
        if (const auto* X = dyn_cast<AtomicExpr>(E)) { o += "{\"k\":\"atomic\","; kids(o, X); tl(o, E); o += "}"; return; }
        if (const auto* X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; o += "{\"k\":\"typeid\""; tl(o, E); o += "}"; return; }
        o += "{\"k\":\"unk\",\"cls\":"; esc(o, E->getStmtClassName()); o += ","; kids(o, E); tl(o, E); o += "}";
    }

    void vardecl(std::string& o, const VarDecl* V) {
        o += "{\"k\":\"vd\",\"id\":" + std::to_string(varId(V)) + ",\"n\":"; esc(o, V->getNameAsString());
        o += ",\"t\":" + std::to_string(typeId(V->getType()));
        o += ",\"l\":" + std::to_string(line(V->getLocation()));
        if (V->isStaticLocal()) { o += ",\"sl\":1"; noteGlobal(V); }
        if (const auto* R = V->getType()->getAsCXXRecordDecl()) if (R->hasDefinition() && R->getDestructor() && !R->hasTrivialDestructor()) o += ",\"d\":" + std::to_string(funId(R->getDestructor()));
        if (V->getInit()) { o += ",\"i\":"; expr(o, V->getInit()); }
        o += "}";
    }

    void stmt(std::string& o, const Stmt* S) {
        if (!S) { o += "null"; return; }
        if (const auto* E = dyn_cast<Expr>(S)) return expr(o, E);
        std::string ln = ",\"l\":" + std::to_string(line(S->getBeginLoc()));
        if (const auto* X = dyn_cast<CompoundStmt>(S)) {
            o += "{\"k\":\"blk\",\"s\":["; bool f1 = true;
            for (const Stmt* c : X->body()) { if (!f1) o += ","; f1 = false; stmt(o, c); }
            o += "]" + ln + ",\"el\":" + std::to_string(line(X->getEndLoc())) + "}"; return;
        }
        if (const auto* X = dyn_cast<DeclStmt>(S)) {
            o += "{\"k\":\"decl\",\"d\":["; bool f1 = true;
            for (const Decl* d : X->decls()) {
                const VarDecl* V = dyn_cast<VarDecl>(d); if (!V) continue;
                if (!f1) o += ","; f1 = false; vardecl(o, V);
            }
            o += "]" + ln + "}"; return;
        }
        if (const auto* X = dyn_cast<IfStmt>(S)) {
            o += "{\"k\":\"if\",";
            if (X->getInit()) { o += "\"init\":"; stmt(o, X->getInit()); o += ","; }
            if (X->getConditionVariable()) { o += "\"cv\":"; vardecl(o, X->getConditionVariable()); o += ","; }
            o += "\"e\":"; expr(o, X->getCond()); o += ",\"x\":"; stmt(o, X->getThen()); o += ",\"y\":"; stmt(o, X->getElse()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<WhileStmt>(S)) {
            o += "{\"k\":\"while\",";
            if (X->getConditionVariable()) { o += "\"cv\":"; vardecl(o, X->getConditionVariable()); o += ","; }
            o += "\"e\":"; expr(o, X->getCond()); o += ",\"b\":"; stmt(o, X->getBody()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<DoStmt>(S)) {
            o += "{\"k\":\"do\",\"e\":"; expr(o, X->getCond()); o += ",\"b\":"; stmt(o, X->getBody()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<ForStmt>(S)) {
            o += "{\"k\":\"for\",\"i\":"; stmt(o, X->getInit()); o += ",\"e\":"; if (X->getCond()) expr(o, X->getCond()); else o += "null";
            o += ",\"n\":"; stmt(o, X->getInc()); o += ",\"b\":"; stmt(o, X->getBody()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            o += "{\"k\":\"frange\",\"rg\":"; stmt(o, X->getRangeStmt()); o += ",\"bg\":"; stmt(o, X->getBeginStmt()); o += ",\"en\":"; stmt(o, X->getEndStmt());
            o += ",\"e\":"; expr(o, X->getCond()); o += ",\"n\":"; expr(o, X->getInc()); o += ",\"v\":"; stmt(o, X->getLoopVarStmt()); o += ",\"b\":"; stmt(o, X->getBody()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<SwitchStmt>(S)) {
            o += "{\"k\":\"switch\",\"e\":"; expr(o, X->getCond()); o += ",\"b\":"; stmt(o, X->getBody()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<CaseStmt>(S)) {
            o += "{\"k\":\"case\",\"e\":"; expr(o, X->getLHS()); 
            if (X->getRHS()) { o += ",\"e2\":"; expr(o, X->getRHS()); }
            o += ",\"b\":"; stmt(o, X->getSubStmt()); o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<DefaultStmt>(S)) { o += "{\"k\":\"default\",\"b\":"; stmt(o, X->getSubStmt()); o += ln + "}"; return; }
        if (const auto* X = dyn_cast<ReturnStmt>(S)) { o += "{\"k\":\"ret\",\"e\":"; if (X->getRetValue()) expr(o, X->getRetValue()); else o += "null"; o += ln + "}"; return; }
        if (isa<BreakStmt>(S)) { o += "{\"k\":\"break\"" + ln + "}"; return; }
        if (isa<ContinueStmt>(S)) { o += "{\"k\":\"continue\"" + ln + "}"; return; }
        if (isa<NullStmt>(S)) { o += "{\"k\":\"null_s\"" + ln + "}"; return; }
        if (const auto* X = dyn_cast<GotoStmt>(S)) { o += "{\"k\":\"goto\",\"n\":"; esc(o, X->getLabel()->getName()); o += ln + "}"; return; }
        if (const auto* X = dyn_cast<LabelStmt>(S)) { o += "{\"k\":\"label\",\"n\":"; esc(o, X->getDecl()->getName()); o += ",\"b\":"; stmt(o, X->getSubStmt()); o += ln + "}"; return; }
        if (const auto* X = dyn_cast<AttributedStmt>(S)) return stmt(o, X->getSubStmt());
        if (const auto* X = dyn_cast<CXXTryStmt>(S)) {
            o += "{\"k\":\"try\",\"b\":"; stmt(o, X->getTryBlock()); o += ",\"h\":["; 
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                const CXXCatchStmt* H = X->getHandler(i);
                if (i) o += ",";
                o += "{";
                if (H->getExceptionDecl()) { o += "\"t\":" + std::to_string(typeId(H->getCaughtType())) + ",\"id\":" + std::to_string(varId(H->getExceptionDecl())) + ","; }
                o += "\"l\":" + std::to_string(line(H->getBeginLoc())) + ",\"b\":"; stmt(o, H->getHandlerBlock()); o += "}";
            }
            o += "]" + ln + "}"; return;
        }
        if (const auto* X = dyn_cast<OMPExecutableDirective>(S)) {
            o += "{\"k\":\"omp\",\"d\":"; esc(o, X->getStmtClassName());
            o += ",\"b\":";
            if (X->hasAssociatedStmt() && X->getAssociatedStmt()) {
                const Stmt* B = X->getAssociatedStmt();
                while (const auto* CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
                stmt(o, B);
            } else o += "null";
            o += ln + "}"; return;
        }
        if (const auto* X = dyn_cast<CapturedStmt>(S)) return stmt(o, X->getCapturedStmt());
        o += "{\"k\":\"unks\",\"cls\":"; esc(o, S->getStmtClassName()); o += ","; kids(o, S); o += ln + "}";
    }

    // qualified name of a variable with static storage, distinct per template instance
    std::string gname(const VarDecl* V) {
        std::string n = qname(V);
        for (const DeclContext* C = V->getDeclContext(); C; C = C->getParent()) {
            const auto* F = dyn_cast<FunctionDecl>(C);
            if (isa<ClassTemplateSpecializationDecl>(C) || (F && F->isTemplateInstantiation())) {
                llvm::SmallString<256> usr; index::generateUSRForDecl(cast<Decl>(C), usr);
                return n + "@" + std::to_string((unsigned)(std::hash<std::string>()(std::string(usr.str())) % 1000000));
            }
        }
        return n;
    }

    void noteGlobal(const VarDecl* V0) {
        const VarDecl* V = V0->getDefinition() ? V0->getDefinition() : V0;
        if (!globDone.insert(V->getCanonicalDecl()).second) return;
        if (!inRepo(V->getLocation())) return;
        std::string o = "{\"id\":" + std::to_string(varId(V)) + ",\"q\":"; esc(o, gname(V));
        o += ",\"t\":" + std::to_string(typeId(V->getType())) + ",\"f\":" + std::to_string(fileId(V->getLocation())) + ",\"l\":" + std::to_string(line(V->getLocation()));
        const VarDecl* D = nullptr; const Expr* I = V->getAnyInitializer(D);
        if (I && !I->isValueDependent() && !I->isTypeDependent()) { o += ",\"i\":"; expr(o, I); }
        o += "}";
        globals.push_back(o);
    }

    void function(const FunctionDecl* F) {
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def)) return;
        F = Def;
        if (F->isDependentContext()) return;
        if (!inRepo(F->getLocation())) return;
        if (!funDone.insert(F->getCanonicalDecl()).second) return;
        if (F->isImplicit() && F->isTrivial()) return;
        int id = funId(F);
        std::string o = "{\"fi\":" + std::to_string(id) + ",\"pv\":[";
        bool f1 = true;
        for (const ParmVarDecl* p : F->parameters()) {
            if (!f1) o += ","; f1 = false;
            o += "[" + std::to_string(varId(p)) + ","; esc(o, p->getNameAsString()); o += "," + std::to_string(typeId(p->getType())) + "]";
        }
        o += "],\"f\":" + std::to_string(fileId(F->getLocation())) + ",\"l\":" + std::to_string(line(F->getLocation()));
        o += ",\"le\":" + std::to_string(line(F->getEndLoc()));
        if (const auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            o += ",\"in\":["; f1 = true;
            for (const CXXCtorInitializer* I : CD->inits()) {
                if (!f1) o += ","; f1 = false;
                o += "{";
                if (I->isAnyMemberInitializer()) { o += "\"m\":"; esc(o, I->getAnyMember()->getNameAsString()); o += ",\"mt\":" + std::to_string(typeId(I->getAnyMember()->getType())); }
                else if (I->isBaseInitializer()) { o += "\"bs\":" + std::to_string(typeId(QualType(I->getBaseClass(), 0))); }
                else o += "\"dg\":1";
                if (I->isWritten()) o += ",\"w\":1";
                o += ",\"l\":" + std::to_string(line(I->getSourceLocation()));
                o += ",\"e\":"; expr(o, I->getInit()); o += "}";
            }
            o += "]";
        }
        o += ",\"b\":"; 
        std::string b; stmt(b, F->getBody()); o += b;
        o += "}";
        bodies.push_back(o);
    }

    void record(const CXXRecordDecl* R) {
        std::string o = "{\"ct\":"; esc(o, qname(R));
        std::string fr = fullRec(R); if (fr.size() > 600) fr.resize(600);
        o += ",\"q\":"; esc(o, fr);
        llvm::SmallString<256> usr; index::generateUSRForDecl(R, usr);
        o += ",\"u\":"; esc(o, usr);
        const CXXRecordDecl* D = R->getDefinition();
        if (inRepo(R->getLocation())) o += ",\"ir\":1";
        o += ",\"f\":" + std::to_string(fileId(R->getLocation())) + ",\"l\":" + std::to_string(line(R->getLocation()));
        if (D && !D->isDependentContext()) {
            o += ",\"def\":1";
            if (D->isUnion()) o += ",\"un\":1";
            if (D->isPolymorphic()) o += ",\"poly\":1";
            if (D->isAbstract()) o += ",\"abs\":1";
            if (!D->isInvalidDecl() && D->isCompleteDefinition() && !D->isDependentType()) o += ",\"sz\":" + std::to_string(D->getASTContext().getASTRecordLayout(D).getSize().getQuantity());
            o += ",\"bs\":["; bool f1 = true;
            for (const auto& B : D->bases()) {
                const CXXRecordDecl* BR = B.getType()->getAsCXXRecordDecl();
                if (!BR) continue;
                if (!f1) o += ","; f1 = false;
                o += "[" + std::to_string(recId(BR)) + "," + (B.isVirtual() ? "1" : "0") + "]";
            }
            o += "]";
            bool ir = inRepo(R->getLocation());
            if (ir) {
                o += ",\"fs\":["; f1 = true;
                for (const FieldDecl* F : D->fields()) {
                    if (!f1) o += ","; f1 = false;
                    o += "{\"n\":"; esc(o, F->getNameAsString()); o += ",\"t\":" + std::to_string(typeId(F->getType())) + ",\"l\":" + std::to_string(line(F->getLocation()));
                    if (F->isMutable()) o += ",\"mu\":1";
                    if (F->hasInClassInitializer()) o += ",\"ici\":1";
                    if (F->getAccess() == AS_public) o += ",\"pub\":1";
                    o += "}";
                }
                o += "],\"ms\":["; f1 = true;
                for (const Decl* d : D->decls()) {
                    const FunctionDecl* M = dyn_cast<CXXMethodDecl>(d);
                    if (!M) {
                        if (const auto* FT = dyn_cast<FunctionTemplateDecl>(d)) {
                            for (const FunctionDecl* s : FT->specializations()) { if (!f1) o += ","; f1 = false; o += std::to_string(funId(s)); }
                        }
                        if (const auto* V = dyn_cast<VarDecl>(d)) noteGlobal(V);
                        continue;
                    }
                    if (!f1) o += ","; f1 = false; o += std::to_string(funId(M));
                }
                o += "]";
            } 
            if (D->hasDefinition() && D->getDestructor()) o += ",\"dt\":" + std::to_string(funId(D->getDestructor()));
        }
        o += "}";
        recs.push_back(o);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    explicit Visitor(Dumper& d) : D(d) { }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (D.inRepo(F->getLocation())) D.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (D.inRepo(R->getLocation()) && !R->isDependentContext() && R->isThisDeclarationADefinition()) D.recId(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage() && D.inRepo(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) D.noteGlobal(V);
        return true;
    }
    bool TraverseLambdaExpr(LambdaExpr*) { return true; }
};

static void join(std::ofstream& f, const char* key, const std::vector<std::string>& v, bool last = false) {
    f << '"' << key << "\":[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) f << ",\n"; f << (v[i].empty() ? "null" : v[i]); }
    f << "]" << (last ? "" : ",\n");
}

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& ci) : CI(ci) { }
    void HandleTranslationUnit(ASTContext& Ctx) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(Ctx);
        Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        size_t rdone = 0;
        while (!D.pending.empty() || rdone < D.recList.size()) {
            while (!D.pending.empty()) { const FunctionDecl* F = D.pending.back(); D.pending.pop_back(); D.function(F); }
            while (rdone < D.recList.size()) D.record(D.recList[rdone++]);
        }
        std::ofstream f(g_out);
        f << "{";
        join(f, "recs", D.recs); join(f, "bodies", D.bodies); join(f, "globals", D.globals);
        join(f, "funs", D.funs); join(f, "types", D.types);
        std::vector<std::string> fs; for (auto& x : D.files) { std::string o; esc(o, x); fs.push_back(o); }
        join(f, "files", fs, true);
        f << "}\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};

// usage: sxa OUT.json SRC -- clang arguments
int main(int argc, char** argv) {
    if (argc < 4) { llvm::errs() << "usage: sxa OUT SRC REPO EXTRA [clang args]\n"; return 2; }
    g_out = argv[1];
    std::string src = argv[2];
    g_repo = argv[3]; if (g_repo.back() != '/') g_repo += '/';
    g_extra = argc > 4 ? argv[4] : "";
    std::vector<std::string> args = { "sxa", "-fsyntax-only", "-resource-dir", SXA_RESOURCE_DIR };
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(src);
    IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
    return inv.run() ? 0 : 1;
}
