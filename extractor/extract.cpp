// Fact extractor: parses C++ translation units with clang's front end and dumps
// functions (control flow graphs whose elements are calls, stores, uses, ...),
// records, enumerations, globals and declarations as JSON.  No rule is decided
// here; see /verif/analysis.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace clang;
using std::string;

static std::vector<string> g_roots; // only entities in these directories are dumped
static std::set<string> g_seen;     // keys of functions/records/... already dumped
static llvm::raw_ostream *g_out;
static bool g_first = true;
static int g_errors = 0;

static void jstr(string &o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
                if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
                else o += (char) c;
        }
    }
    o += '"';
}
static void emit(const string &line) {
    if (!g_first) *g_out << ",\n";
    g_first = false;
    *g_out << line;
}

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()),
                            MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.TerseOutput = true;
        PP.FullyQualifiedName = true;
    }

    string path(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto fe = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!fe) return "";
        llvm::SmallString<256> p(fe->getName());
        auto &FM = SM.getFileManager();
        FM.makeAbsolutePath(p);
        string s(p.str());
        // normalise a/../b
        std::vector<string> parts; string cur;
        for (char c : s + "/") {
            if (c == '/') {
                if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
                else if (!cur.empty() && cur != ".") parts.push_back(cur);
                cur.clear();
            } else cur += c;
        }
        s.clear();
        for (auto &x : parts) s += "/" + x;
        return s;
    }
    std::unordered_map<unsigned, std::pair<string, bool>> fcache;
    const std::pair<string, bool> &fileInfo(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        FileID id = SM.getFileID(L);
        unsigned h = id.getHashValue();
        auto it = fcache.find(h);
        if (it != fcache.end()) return it->second;
        string p = path(L), rel = p; bool in = false;
        for (auto &r : g_roots)
            if (p.compare(0, r.size(), r) == 0) { in = true; rel = p; break; }
        return fcache[h] = { rel, in };
    }
    bool inScope(SourceLocation L) { return L.isValid() && fileInfo(L).second; }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    unsigned col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

    string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }

    string lambdaKey(const CXXMethodDecl *M) {
        const CXXRecordDecl *R = M->getParent();
        SourceLocation L = R->getLocation();
        string s = "lambda@" + fileInfo(L).first + ":" + std::to_string(line(L)) + ":" + std::to_string(col(L));
        // disambiguate by enclosing function instantiation
        const DeclContext *DC = R->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) {
            auto *FD = cast<FunctionDecl>(DC);
            if (FD->isTemplateInstantiation() ||
                (isa<CXXMethodDecl>(FD) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(FD)->getParent())))
                s += "#" + fkey(FD);
        }
        if (M->isTemplateInstantiation()) {
            s += "<";
            if (auto *A = M->getTemplateSpecializationArgs())
                for (auto &a : A->asArray()) { llvm::raw_string_ostream os(s); a.print(PP, os, true); s += ","; }
            s += ">";
        }
        return s;
    }

    std::unordered_map<const FunctionDecl *, string> kcache;
    string fkey(const FunctionDecl *FD) {
        FD = FD->getCanonicalDecl();
        auto it = kcache.find(FD);
        if (it != kcache.end()) return it->second;
        string s;
        if (auto *M = dyn_cast<CXXMethodDecl>(FD))
            if (M->getParent()->isLambda() && M->getOverloadedOperator() == OO_Call)
                return kcache[FD] = lambdaKey(M);
        llvm::raw_string_ostream os(s);
        if (FD->getDeclContext()->isDependentContext() || FD->isDependentContext()) {
            os << "dep:" << FD->getQualifiedNameAsString() << "@" << fileInfo(FD->getLocation()).first << ":" << line(FD->getLocation());
        } else if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
        else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(FD)) MC->mangleName(GlobalDecl(FD), os);
        else os << FD->getNameAsString();
        os.flush();
        if (FD->getFormalLinkage() == Linkage::Internal || FD->isInAnonymousNamespace())
            s += "@" + fileInfo(FD->getLocation()).first;
        return kcache[FD] = s;
    }

    string qname(const NamedDecl *D) {
        string s; llvm::raw_string_ostream os(s);
        if (auto *FD = dyn_cast<FunctionDecl>(D)) {
            if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
                if (M->getParent()->isLambda()) { os << "lambda"; if (M->getOverloadedOperator() != OO_Call) os << "::conv"; os.flush(); return s; }
                os << M->getParent()->getQualifiedNameAsString() << "::" << FD->getNameAsString();
                os.flush(); return s;
            }
        }
        os << D->getQualifiedNameAsString();
        os.flush();
        return s;
    }

    string varId(const ValueDecl *V) {
        SourceLocation L = V->getLocation();
        string n = V->getNameAsString();
        return n + ":" + std::to_string(line(L)) + ":" + std::to_string(col(L));
    }

    static bool isGlobalVar(const VarDecl *V) { return V->hasGlobalStorage(); }
    string gname(const VarDecl *V) {
        string s = V->getQualifiedNameAsString();
        if (V->isStaticLocal()) {
            if (auto *FD = dyn_cast<FunctionDecl>(V->getDeclContext())) s = FD->getQualifiedNameAsString() + "::" + V->getNameAsString();
        }
        return s;
    }

    // ------------------------------------------------------------------
    struct Fn {
        std::unordered_map<const Stmt *, int> ev;      // event index of a statement
        std::unordered_set<const Stmt *> discarded;
        std::unordered_map<const Stmt *, int> tryOf;
        std::unordered_map<const CXXTryStmt *, int> tryId;
        std::vector<const LambdaExpr *> lambdas;
    };
    Fn *F = nullptr;

    static bool isEvent(const Stmt *S) {
        if (isa<CallExpr>(S) || isa<CXXConstructExpr>(S) || isa<CXXNewExpr>(S) ||
            isa<CXXDeleteExpr>(S) || isa<CXXThrowExpr>(S) || isa<CXXInheritedCtorInitExpr>(S))
            return true;
        if (auto *B = dyn_cast<BinaryOperator>(S)) return B->isAssignmentOp();
        if (auto *U = dyn_cast<UnaryOperator>(S)) return U->isIncrementDecrementOp();
        return false;
    }

    void expr(string &o, const Stmt *S, int depth = 0) {
        if (!S) { o += "null"; return; }
        if (depth > 40) { o += "[\"deep\"]"; return; }
        if (auto *E = dyn_cast<Expr>(S)) {
            if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<ParenExpr>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(o, X->getReplacement(), depth);
            if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { o += "[\"def\","; expr(o, X->getExpr(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(o, X->getExpr(), depth);
            if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(o, X->getSemanticForm(), depth);
            if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(o, X->getSourceExpr(), depth);
            if (auto *X = dyn_cast<GNUNullExpr>(E)) { (void) X; o += "[\"null\"]"; return; }
            if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(o, X->getSubExpr(), depth);
            if (auto *X = dyn_cast<CastExpr>(E)) {
                const Expr *sub = X->getSubExpr();
                bool implicit = isa<ImplicitCastExpr>(X);
                CastKind k = X->getCastKind();
                if (implicit) {
                    if (k == CK_NullToPointer) { o += "[\"null\"]"; return; }
                    if (k == CK_IntegralCast || k == CK_IntegralToFloating || k == CK_FloatingToIntegral) {
                        o += "[\"ic\","; jstr(o, ty(X->getType())); o += ","; jstr(o, ty(sub->getType())); o += ",";
                        expr(o, sub, depth + 1); o += "]"; return;
                    }
                    return expr(o, sub, depth);
                }
                if (isa<CXXFunctionalCastExpr>(X) && (k == CK_ConstructorConversion)) return expr(o, sub, depth);
                o += "[\"cast\","; jstr(o, ty(X->getType())); o += ","; jstr(o, ty(sub->getType())); o += ",";
                expr(o, sub, depth + 1); o += "]"; return;
            }
            if (F) {
                auto it = F->ev.find(S);
                if (it != F->ev.end()) { o += "[\"ev\"," + std::to_string(it->second) + "]"; return; }
            }
            if (auto *X = dyn_cast<IntegerLiteral>(E)) {
                llvm::SmallString<32> t; X->getValue().toString(t, 10, X->getType()->isSignedIntegerType());
                o += "[\"i\","; o += t.c_str(); o += "]"; return;
            }
            if (auto *X = dyn_cast<CharacterLiteral>(E)) { o += "[\"i\"," + std::to_string(X->getValue()) + "]"; return; }
            if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o += X->getValue() ? "[\"b\",1]" : "[\"b\",0]"; return; }
            if (auto *X = dyn_cast<FloatingLiteral>(E)) {
                llvm::SmallString<32> t; X->getValue().toString(t); o += "[\"f\","; jstr(o, t); o += "]"; return; }
            if (auto *X = dyn_cast<StringLiteral>(E)) {
                o += "[\"s\","; if (X->getCharByteWidth() == 1) jstr(o, X->getString()); else o += "\"\""; o += "]"; return; }
            if (isa<CXXNullPtrLiteralExpr>(E)) { o += "[\"null\"]"; return; }
            if (isa<CXXThisExpr>(E)) { o += "[\"this\"]"; return; }
            if (auto *X = dyn_cast<DeclRefExpr>(E)) {
                const ValueDecl *D = X->getDecl();
                if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                    string n;
                    if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) {
                        n = ED->getNameAsString(); if (!n.empty()) n += "::";
                    }
                    n += EC->getNameAsString();
                    o += "[\"e\","; jstr(o, n); llvm::SmallString<24> t; EC->getInitVal().toString(t, 10);
                    o += ","; o += t.c_str(); o += "]"; return;
                }
                if (auto *FD = dyn_cast<FunctionDecl>(D)) { o += "[\"fn\","; jstr(o, fkey(FD)); o += ","; jstr(o, qname(FD)); o += "]"; return; }
                if (auto *VD = dyn_cast<VarDecl>(D)) {
                    if (isGlobalVar(VD)) { o += "[\"g\","; jstr(o, gname(VD)); o += "]"; return; }
                    o += "[\"v\","; jstr(o, varId(VD)); o += "]"; return;
                }
                if (auto *BD = dyn_cast<BindingDecl>(D)) {
                    if (const VarDecl *HV = BD->getHoldingVar()) { if (HV->getInit()) { o += "[\"v\","; jstr(o, varId(BD)); o += "]"; return; } }
                    o += "[\"v\","; jstr(o, varId(BD)); o += "]"; return;
                }
                o += "[\"d\","; jstr(o, D->getNameAsString()); o += "]"; return;
            }
            if (auto *X = dyn_cast<MemberExpr>(E)) {
                const ValueDecl *D = X->getMemberDecl();
                if (auto *VD = dyn_cast<VarDecl>(D)) { o += "[\"g\","; jstr(o, gname(VD)); o += "]"; return; }
                if (auto *FD = dyn_cast<FunctionDecl>(D)) {
                    o += "[\"mf\","; expr(o, X->getBase(), depth + 1); o += ","; jstr(o, fkey(FD)); o += ","; jstr(o, qname(FD)); o += "]"; return; }
                if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o += "[\"e\","; jstr(o, EC->getNameAsString()); o += ",0]"; return; }
                // skip anonymous struct/union levels
                if (auto *FD = dyn_cast<FieldDecl>(D)) if (FD->isAnonymousStructOrUnion()) return expr(o, X->getBase(), depth);
                string rec;
                if (auto *FD = dyn_cast<FieldDecl>(D)) {
                    const RecordDecl *R = FD->getParent();
                    while (R->isAnonymousStructOrUnion()) { auto *PR = dyn_cast<RecordDecl>(R->getDeclContext()); if (!PR) break; R = PR; }
                    rec = R->getQualifiedNameAsString();
                }
                bool arrow = X->isArrow();
                o += "[\"m\","; expr(o, X->getBase(), depth + 1); o += ","; jstr(o, D->getNameAsString()); o += ","; jstr(o, rec);
                o += arrow ? ",1]" : ",0]"; return;
            }
            if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
                o += "[\"ix\","; expr(o, X->getBase(), depth + 1); o += ","; expr(o, X->getIdx(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<UnaryOperator>(E)) {
                o += "[\"u\","; jstr(o, UnaryOperator::getOpcodeStr(X->getOpcode())); o += ","; expr(o, X->getSubExpr(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<BinaryOperator>(E)) {
                o += "[\"bi\","; jstr(o, X->getOpcodeStr()); o += ","; expr(o, X->getLHS(), depth + 1); o += ","; expr(o, X->getRHS(), depth + 1);
                o += ","; jstr(o, ty(X->getType())); o += "]"; return; }
            if (auto *X = dyn_cast<ConditionalOperator>(E)) {
                o += "[\"?\","; expr(o, X->getCond(), depth + 1); o += ","; expr(o, X->getTrueExpr(), depth + 1); o += ",";
                expr(o, X->getFalseExpr(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
                o += "[\"?\","; expr(o, X->getCommon(), depth + 1); o += ","; expr(o, X->getTrueExpr(), depth + 1); o += ",";
                expr(o, X->getFalseExpr(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
                o += "[\"sizeof\","; jstr(o, ty(X->getTypeOfArgument()));
                Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) { llvm::SmallString<24> t; R.Val.getInt().toString(t, 10); o += ","; o += t.c_str(); } else o += ",0";
                o += "]"; return; }
            if (auto *X = dyn_cast<SizeOfPackExpr>(E)) { o += "[\"i\"," + std::to_string(X->isValueDependent() ? 0 : X->getPackLength()) + "]"; return; }
            if (auto *X = dyn_cast<InitListExpr>(E)) {
                if (X->isSemanticForm() || !X->getSemanticForm()) {} else X = X->getSemanticForm();
                o += "[\"il\","; jstr(o, ty(X->getType()));
                unsigned n = X->getNumInits();
                for (unsigned i = 0; i < n && i < 4096; ++i) { o += ","; expr(o, X->getInit(i), depth + 1); }
                o += "]"; return; }
            if (auto *X = dyn_cast<LambdaExpr>(E)) {
                o += "[\"lam\","; jstr(o, fkey(X->getCallOperator())); o += ",[";
                bool first = true;
                auto init = X->capture_init_begin();
                for (auto &c : X->captures()) {
                    if (!first) o += ","; first = false;
                    o += "[";
                    if (c.capturesThis()) jstr(o, "this"); else if (c.capturesVariable()) jstr(o, varId(c.getCapturedVar())); else jstr(o, "?");
                    o += (c.getCaptureKind() == LCK_ByRef) ? ",1" : ",0";
                    o += ","; if (c.capturesVariable()) jstr(o, ty(c.getCapturedVar()->getType())); else jstr(o, "");
                    o += ","; if (init && *init) expr(o, *init, depth + 1); else o += "null";
                    o += "]"; ++init;
                }
                o += "]]"; return; }
            if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { (void) X; o += "[\"zero\"]"; return; }
            if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void) X; o += "[\"zero\"]"; return; }
            if (auto *X = dyn_cast<CXXConstructExpr>(E)) { ctorInline(o, X, depth); return; }
            if (auto *X = dyn_cast<CallExpr>(E)) { // only outside of functions (global initialisers)
                o += "[\"call\","; jstr(o, X->getDirectCallee() ? qname(X->getDirectCallee()) : string("?"));
                for (auto *a : X->arguments()) { o += ","; expr(o, a, depth + 1); }
                o += "]"; return; }
            if (auto *X = dyn_cast<TypeTraitExpr>(E)) { o += X->isValueDependent() ? "[\"?\"]" : (X->getValue() ? "[\"b\",1]" : "[\"b\",0]"); return; }
            if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o += "[\"arrcopy\","; expr(o, X->getCommonExpr()->getSourceExpr(), depth + 1); o += "]"; return; }
            if (auto *X = dyn_cast<StmtExpr>(E)) { (void) X; o += "[\"stmtexpr\"]"; return; }
            if (auto *X = dyn_cast<VAArgExpr>(E)) { o += "[\"vaarg\","; jstr(o, ty(X->getType())); o += "]"; return; }
            if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void) X; o += "[\"s\",\"__func__\"]"; return; }
        }
        if (const auto *OE = dyn_cast<OffsetOfExpr>(S)) {
            Expr::EvalResult R;
            if (!OE->isValueDependent() && OE->EvaluateAsInt(R, C)) {
                o += "[\"i\"," + std::to_string(R.Val.getInt().getExtValue()) + "]"; return;
            }
        }
        o += "[\"x\","; jstr(o, S->getStmtClassName()); o += "]";
    }
    void ctorInline(string &o, const CXXConstructExpr *X, int depth) {
        o += "[\"ctor\","; jstr(o, ty(X->getType()));
        for (auto *a : X->arguments()) { o += ","; expr(o, a, depth + 1); }
        o += "]";
    }

    void walk(const Stmt *S, int tryid, bool disc) {
        if (!S) return;
        if (auto *E = dyn_cast<Expr>(S)) {
            const Expr *I = E;
            while (true) {
                if (auto *X = dyn_cast<ExprWithCleanups>(I)) I = X->getSubExpr();
                else if (auto *X = dyn_cast<ParenExpr>(I)) I = X->getSubExpr();
                else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(I)) I = X->getSubExpr();
                else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(I)) I = X->getSubExpr();
                else break;
            }
            if (disc) {
                F->discarded.insert(I);
                if (auto *CE = dyn_cast<CastExpr>(I)) if (CE->getType()->isVoidType()) { walk(CE->getSubExpr(), tryid, true); F->tryOf[S] = tryid; return; }
                if (auto *CO = dyn_cast<ConditionalOperator>(I)) { walk(CO->getCond(), tryid, false); walk(CO->getTrueExpr(), tryid, true); walk(CO->getFalseExpr(), tryid, true); if (tryid >= 0) F->tryOf[S] = tryid; return; }
            }
        }
        if (tryid >= 0) F->tryOf[S] = tryid;
        if (auto *X = dyn_cast<LambdaExpr>(S)) {
            F->lambdas.push_back(X);
            for (auto it = X->capture_init_begin(); it != X->capture_init_end(); ++it) walk(*it, tryid, false);
            return;
        }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            int id = (int) F->tryId.size();
            F->tryId[X] = id;
            walk(X->getTryBlock(), id, false);
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) walk(X->getHandler(i), tryid, false);
            return;
        }
        auto D = [&](const Stmt *c) { walk(c, tryid, true); };
        auto K = [&](const Stmt *c) { walk(c, tryid, false); };
        if (auto *X = dyn_cast<CompoundStmt>(S)) { for (auto *c : X->body()) D(c); return; }
        if (auto *X = dyn_cast<IfStmt>(S)) { K(X->getInit()); if (X->getConditionVariableDeclStmt()) K(X->getConditionVariableDeclStmt()); else K(X->getCond()); D(X->getThen()); D(X->getElse()); return; }
        if (auto *X = dyn_cast<ForStmt>(S)) { D(X->getInit()); K(X->getCond()); D(X->getInc()); D(X->getBody()); return; }
        if (auto *X = dyn_cast<WhileStmt>(S)) { if (X->getConditionVariableDeclStmt()) K(X->getConditionVariableDeclStmt()); else K(X->getCond()); D(X->getBody()); return; }
        if (auto *X = dyn_cast<DoStmt>(S)) { D(X->getBody()); K(X->getCond()); return; }
        if (auto *X = dyn_cast<SwitchStmt>(S)) { K(X->getInit()); K(X->getCond()); D(X->getBody()); return; }
        if (auto *X = dyn_cast<SwitchCase>(S)) { D(X->getSubStmt()); return; }
        if (auto *X = dyn_cast<LabelStmt>(S)) { D(X->getSubStmt()); return; }
        if (auto *X = dyn_cast<AttributedStmt>(S)) { D(X->getSubStmt()); return; }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            K(X->getInit()); K(X->getRangeStmt()); K(X->getBeginStmt()); K(X->getEndStmt()); K(X->getCond()); D(X->getInc()); K(X->getLoopVarStmt()); D(X->getBody()); return; }
        if (auto *X = dyn_cast<BinaryOperator>(S)) if (X->getOpcode() == BO_Comma) { D(X->getLHS()); walk(X->getRHS(), tryid, disc); return; }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) K(V->getInit());
            return; }
        if (auto *X = dyn_cast<InitListExpr>(S)) { if (auto *Y = X->getSemanticForm()) if (Y != X) { for (auto *c : Y->children()) K(c); return; } }
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { K(X->getExpr()); return; }
        for (auto *c : S->children()) K(c);
    }

    static bool refBase(const MemberExpr *M) {
        const Expr *B = M->getBase()->IgnoreParenImpCasts();
        if (auto *D = dyn_cast<DeclRefExpr>(B)) return D->getDecl()->getType()->isReferenceType();
        return false;
    }

    void stmtCommon(string &o, const Stmt *S) {
        o += ",\"l\":" + std::to_string(line(S->getBeginLoc()));
        auto it = F->tryOf.find(S);
        if (it != F->tryOf.end() && it->second >= 0) o += ",\"try\":" + std::to_string(it->second);
        if (F->discarded.count(S)) o += ",\"disc\":1";
    }

    void callee(string &o, const FunctionDecl *FD) {
        o += ",\"fn\":"; jstr(o, fkey(FD)); o += ",\"q\":"; jstr(o, qname(FD));
        if (FD->isNoReturn()) o += ",\"noret\":1";
        if (auto *FT = FD->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow()) o += ",\"nothrow\":1";
        if (inScope(FD->getLocation())) o += ",\"repo\":1";
    }

    void argList(string &o, llvm::ArrayRef<const Expr *> A) {
        o += ",\"a\":[";
        for (size_t i = 0; i < A.size(); ++i) { if (i) o += ","; expr(o, A[i]); }
        o += "]";
    }

    // returns false if S is not an element worth dumping
    bool event(string &o, const Stmt *S, int idx) {
        auto head = [&](const char *k) { o += "{\"k\":\""; o += k; o += "\""; if (idx >= 0) o += ",\"i\":" + std::to_string(idx); stmtCommon(o, S); };
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
            head("call");
            const FunctionDecl *FD = X->getDirectCallee();
            std::vector<const Expr *> A;
            unsigned start = 0;
            if (FD) {
                callee(o, FD);
                if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (!M->isStatic()) {
                    o += ",\"obj\":"; expr(o, X->getArg(0)); start = 1; }
            } else { o += ",\"ce\":"; expr(o, X->getCallee()); }
            for (unsigned i = start; i < X->getNumArgs(); ++i) A.push_back(X->getArg(i));
            argList(o, A); o += ",\"ty\":"; jstr(o, ty(X->getType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
            head("call");
            const CXXMethodDecl *M = X->getMethodDecl();
            if (M) { callee(o, M);
                if (M->isVirtual()) { auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()); if (!ME || !ME->hasQualifier()) o += ",\"virt\":1"; } }
            else { o += ",\"ce\":"; expr(o, X->getCallee()); }
            o += ",\"obj\":"; expr(o, X->getImplicitObjectArgument());
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->isArrow()) o += ",\"arrow\":1";
            std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
            argList(o, A); o += ",\"ty\":"; jstr(o, ty(X->getType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CallExpr>(S)) {
            head("call");
            if (auto *FD = X->getDirectCallee()) callee(o, FD);
            else { o += ",\"ce\":"; expr(o, X->getCallee()); }
            std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
            argList(o, A); o += ",\"ty\":"; jstr(o, ty(X->getType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
            head("ctor"); callee(o, X->getConstructor());
            if (X->getConstructor()->isCopyConstructor()) o += ",\"copy\":1";
            if (X->getConstructor()->isMoveConstructor()) o += ",\"move\":1";
            if (X->isElidable()) o += ",\"elid\":1";
            std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
            argList(o, A); o += ",\"ty\":"; jstr(o, ty(X->getType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(S)) {
            head("new"); o += ",\"ty\":"; jstr(o, ty(X->getAllocatedType()));
            if (X->isArray()) { o += ",\"n\":"; if (auto s = X->getArraySize()) expr(o, *s); else o += "null"; }
            std::vector<const Expr *> A; for (auto *p : const_cast<CXXNewExpr *>(X)->placement_arguments()) A.push_back(p);
            if (X->getOperatorNew()) { o += ",\"opn\":"; jstr(o, fkey(X->getOperatorNew())); }
            argList(o, A); o += ",\"init\":"; expr(o, X->getInitializer()); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
            head("delete"); o += ",\"arr\":" + std::to_string(X->isArrayForm()); o += ",\"e\":"; expr(o, X->getArgument());
            o += ",\"ty\":"; jstr(o, ty(X->getDestroyedType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(S)) { head("throw"); o += ",\"e\":"; expr(o, X->getSubExpr()); o += "}"; return true; }
        if (auto *X = dyn_cast<BinaryOperator>(S)) {
            if (!X->isAssignmentOp()) return false;
            head("asg"); o += ",\"op\":"; jstr(o, X->getOpcodeStr()); o += ",\"l_\":"; expr(o, X->getLHS()); o += ",\"r\":"; expr(o, X->getRHS());
            o += ",\"ty\":"; jstr(o, ty(X->getType())); o += "}"; return true;
        }
        if (auto *X = dyn_cast<UnaryOperator>(S)) {
            if (X->isIncrementDecrementOp()) {
                head("inc"); o += ",\"op\":"; jstr(o, UnaryOperator::getOpcodeStr(X->getOpcode())); if (X->isPostfix()) o += ",\"post\":1";
                o += ",\"e\":"; expr(o, X->getSubExpr()); o += "}"; return true; }
            if (X->getOpcode() == UO_Deref) { head("deref"); o += ",\"e\":"; expr(o, X); o += "}"; return true; }
            return false;
        }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { head("ret"); o += ",\"e\":"; expr(o, X->getRetValue()); o += "}"; return true; }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            bool any = false;
            for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) {
                if (any) o += ",";
                any = true;
                head("decl"); o += ",\"v\":"; jstr(o, isGlobalVar(V) ? gname(V) : varId(V)); o += ",\"ty\":"; jstr(o, ty(V->getType()));
                if (isGlobalVar(V)) o += ",\"static\":1";
                o += ",\"init\":"; expr(o, V->getInit()); 
                if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
                    o += ",\"bind\":["; bool f2 = true;
                    for (auto *b : DD->bindings()) { if (!f2) o += ","; f2 = false; jstr(o, varId(b)); }
                    o += "]";
                }
                o += "}";
            }
            return any;
        }
        if (auto *X = dyn_cast<MemberExpr>(S)) {
            if (isa<FieldDecl>(X->getMemberDecl()) && (X->isArrow() || refBase(X))) { head("deref"); o += ",\"e\":"; expr(o, X); o += "}"; return true; }
            if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) { head("use"); o += ",\"e\":[\"g\","; jstr(o, gname(VD)); o += "]}"; return true; }
            return false;
        }
        if (isa<ArraySubscriptExpr>(S)) { head("deref"); o += ",\"e\":"; expr(o, S); o += "}"; return true; }
        if (auto *X = dyn_cast<DeclRefExpr>(S)) {
            if (auto *VD = dyn_cast<VarDecl>(X->getDecl())) if (isGlobalVar(VD) && !VD->isConstexpr()) {
                head("use"); o += ",\"e\":[\"g\","; jstr(o, gname(VD)); o += "]}"; return true; }
            return false;
        }
        if (auto *X = dyn_cast<GCCAsmStmt>(S)) { (void) X; head("asm"); o += "}"; return true; }
        if (isa<LambdaExpr>(S)) { head("lam"); o += ",\"e\":"; expr(o, S); o += "}"; return true; }
        return false;
    }

    void dumpFunction(const FunctionDecl *FD) {
        if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
        if (!FD->hasBody()) return;
        if (FD->isDependentContext()) return;
        const FunctionDecl *Def = nullptr;
        if (!FD->hasBody(Def) || !Def) return;
        FD = Def;
        if (!inScope(FD->getLocation())) return;
        string key = fkey(FD);
        if (!g_seen.insert("f:" + key).second) return;

        Fn fn; F = &fn;
        const Stmt *body = FD->getBody();
        walk(body, -1, false);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
            for (auto *I : CD->inits()) walk(I->getInit(), -1, false);

        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddTemporaryDtors = true;
        BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = false;
        BO.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(FD, const_cast<Stmt *>(body), &C, BO);
        if (!cfg) { llvm::errs() << "extract: no CFG for " << key << "\n"; g_errors++; F = nullptr; return; }

        int n = 0;
        for (const CFGBlock *B : *cfg)
            for (const CFGElement &El : *B)
                if (auto CS = El.getAs<CFGStmt>()) {
                    const Stmt *S = CS->getStmt();
                    if (isEvent(S) && !fn.ev.count(S)) fn.ev[S] = n++;
                }

        string o = "{\"t\":\"fn\",\"key\":"; jstr(o, key);
        o += ",\"q\":"; jstr(o, qname(FD)); o += ",\"name\":"; jstr(o, FD->getNameAsString());
        o += ",\"file\":"; jstr(o, fileInfo(FD->getLocation()).first);
        o += ",\"line\":" + std::to_string(line(FD->getLocation()));
        o += ",\"end\":" + std::to_string(line(FD->getEndLoc()));
        o += ",\"ret\":"; jstr(o, ty(FD->getReturnType()));
        if (FD->isNoReturn()) o += ",\"noret\":1";
        if (auto *FT = FD->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow()) o += ",\"nothrow\":1";
        if (FD->isExternC()) o += ",\"externc\":1";
        if (FD->getFormalLinkage() == Linkage::Internal) o += ",\"internal\":1";
        if (FD->isInlined()) o += ",\"inline\":1";
        if (FD->isImplicit()) o += ",\"implicit\":1";
        if (FD->isDefaulted()) o += ",\"defaulted\":1";
        if (FD->isTemplateInstantiation()) o += ",\"tmpl\":1";
        if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
            o += ",\"cls\":"; jstr(o, M->getParent()->isLambda() ? string("lambda") : M->getParent()->getQualifiedNameAsString());
            if (M->isStatic()) o += ",\"static\":1";
            if (M->isVirtual()) o += ",\"virtual\":1";
            if (M->isConst()) o += ",\"const\":1";
            if (M->getParent()->isLambda()) {
                const DeclContext *DC = M->getParent()->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
                if (DC) { o += ",\"parent\":"; jstr(o, fkey(cast<FunctionDecl>(DC))); }
            }
            if (M->size_overridden_methods()) {
                o += ",\"over\":["; bool f = true;
                for (auto *x : M->overridden_methods()) { if (!f) o += ","; f = false; jstr(o, fkey(x)); }
                o += "]"; }
            if (isa<CXXConstructorDecl>(M)) o += ",\"ctor\":1";
            if (isa<CXXDestructorDecl>(M)) o += ",\"dtor\":1";
        }
        o += ",\"params\":[";
        for (unsigned i = 0; i < FD->getNumParams(); ++i) {
            if (i) o += ",";
            o += "["; jstr(o, varId(FD->getParamDecl(i))); o += ","; jstr(o, ty(FD->getParamDecl(i)->getType())); o += "]"; }
        o += "],\"lams\":[";
        { bool f = true; for (auto *L : fn.lambdas) { if (!f) o += ","; f = false; jstr(o, fkey(L->getCallOperator())); } }
        o += "],\"ntry\":" + std::to_string(fn.tryId.size());
        o += ",\"entry\":" + std::to_string(cfg->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(cfg->getExit().getBlockID());
        o += ",\"blocks\":[";
        bool firstB = true;
        for (const CFGBlock *B : *cfg) {
            if (!firstB) o += ",\n"; firstB = false;
            o += "{\"id\":" + std::to_string(B->getBlockID());
            if (B->hasNoReturnElement()) o += ",\"noret\":1";
            if (const Stmt *L = B->getLabel()) {
                if (auto *X = dyn_cast<CaseStmt>(L)) {
                    o += ",\"label\":[\"case\","; expr(o, X->getLHS());
                    if (X->getRHS()) { o += ","; expr(o, X->getRHS()); }
                    o += "]"; }
                else if (isa<DefaultStmt>(L)) o += ",\"label\":[\"default\"]";
                else if (auto *X = dyn_cast<CXXCatchStmt>(L)) {
                    int tid = -1;
                    for (auto &kv : fn.tryId) for (unsigned i = 0; i < kv.first->getNumHandlers(); ++i) if (kv.first->getHandler(i) == X) tid = kv.second;
                    o += ",\"label\":[\"catch\"," + std::to_string(tid) + ","; jstr(o, X->getExceptionDecl() ? ty(X->getCaughtType()) : string("...")); o += "]"; }
                else if (auto *X = dyn_cast<LabelStmt>(L)) { o += ",\"label\":[\"label\","; jstr(o, X->getName()); o += "]"; }
            }
            o += ",\"ev\":[";
            bool first = true;
            for (const CFGElement &El : *B) {
                string e;
                switch (El.getKind()) {
                    case CFGElement::Statement:
                    case CFGElement::Constructor:
                    case CFGElement::CXXRecordTypedCall: {
                        const Stmt *S = El.castAs<CFGStmt>().getStmt();
                        auto it = fn.ev.find(S);
                        if (!event(e, S, it == fn.ev.end() ? -1 : it->second)) e.clear();
                        break; }
                    case CFGElement::Initializer: {
                        const CXXCtorInitializer *I = El.castAs<CFGInitializer>().getInitializer();
                        e = "{\"k\":\"minit\",\"l\":" + std::to_string(line(I->getSourceLocation()));
                        if (I->isAnyMemberInitializer()) { e += ",\"m\":"; jstr(e, I->getAnyMember()->getNameAsString()); }
                        else { e += ",\"base\":"; jstr(e, I->isBaseInitializer() ? ty(QualType(I->getBaseClass(), 0)) : string("delegate")); }
                        e += ",\"written\":" + std::to_string(I->isWritten());
                        e += ",\"init\":"; expr(e, I->getInit()); e += "}"; break; }
                    case CFGElement::AutomaticObjectDtor: {
                        auto D = El.castAs<CFGAutomaticObjDtor>();
                        const CXXDestructorDecl *DD = D.getDestructorDecl(C);
                        e = "{\"k\":\"dtor\",\"l\":" + std::to_string(line(D.getTriggerStmt()->getEndLoc()));
                        e += ",\"v\":"; jstr(e, varId(D.getVarDecl()));
                        e += ",\"ty\":"; jstr(e, ty(D.getVarDecl()->getType()));
                        if (DD) callee(e, DD);
                        e += "}"; break; }
                    case CFGElement::TemporaryDtor: {
                        auto D = El.castAs<CFGTemporaryDtor>();
                        const CXXDestructorDecl *DD = D.getDestructorDecl(C);
                        const CXXBindTemporaryExpr *BT = D.getBindTemporaryExpr();
                        e = "{\"k\":\"dtor\",\"tmp\":1,\"l\":" + std::to_string(line(BT->getBeginLoc()));
                        e += ",\"ty\":"; jstr(e, ty(BT->getType()));
                        e += ",\"e\":"; expr(e, BT->getSubExpr());
                        if (DD) callee(e, DD);
                        e += "}"; break; }
                    case CFGElement::MemberDtor: {
                        auto D = El.castAs<CFGMemberDtor>();
                        const CXXDestructorDecl *DD = D.getDestructorDecl(C);
                        e = "{\"k\":\"dtor\",\"l\":0,\"m\":"; jstr(e, D.getFieldDecl()->getNameAsString());
                        e += ",\"ty\":"; jstr(e, ty(D.getFieldDecl()->getType()));
                        if (DD) callee(e, DD);
                        e += "}"; break; }
                    case CFGElement::BaseDtor: {
                        const CXXDestructorDecl *DD = El.castAs<CFGBaseDtor>().getDestructorDecl(C);
                        e = "{\"k\":\"dtor\",\"l\":0,\"base\":1"; if (DD) callee(e, DD); e += "}"; break; }
                    case CFGElement::DeleteDtor: {
                        const CXXDestructorDecl *DD = El.castAs<CFGDeleteDtor>().getDestructorDecl(C);
                        if (DD) { e = "{\"k\":\"dtor\",\"l\":" + std::to_string(line(El.castAs<CFGDeleteDtor>().getDeleteExpr()->getBeginLoc())) + ",\"del\":1"; callee(e, DD); if (DD->isVirtual()) e += ",\"virt\":1"; e += "}"; }
                        break; }
                    default: break;
                }
                if (!e.empty()) { if (!first) o += ","; first = false; o += e; }
            }
            o += "],\"succ\":[";
            first = true;
            for (auto &S : B->succs()) {
                if (!first) o += ","; first = false;
                const CFGBlock *R = S.getReachableBlock();
                if (R) o += std::to_string(R->getBlockID());
                else if (S.getPossiblyUnreachableBlock()) o += "null"; else o += "null";
            }
            o += "]";
            CFGTerminator T = B->getTerminator();
            if (T.isValid()) {
                if (T.isTemporaryDtorsBranch()) o += ",\"term\":[\"tempdtor\",null]";
                else {
                    const Stmt *S = T.getStmt();
                    const char *k = "?";
                    const Stmt *cond = B->getTerminatorCondition(false);
                    if (isa<IfStmt>(S)) k = "if"; else if (isa<ForStmt>(S)) k = "for"; else if (isa<WhileStmt>(S)) k = "while";
                    else if (isa<DoStmt>(S)) k = "do"; else if (isa<SwitchStmt>(S)) k = "switch"; else if (isa<CXXForRangeStmt>(S)) k = "range";
                    else if (auto *BO2 = dyn_cast<BinaryOperator>(S)) k = BO2->getOpcode() == BO_LAnd ? "&&" : "||";
                    else if (isa<AbstractConditionalOperator>(S)) k = "?:"; else if (isa<CXXTryStmt>(S)) k = "try"; else if (isa<GotoStmt>(S)) k = "goto";
                    else if (isa<BreakStmt>(S)) k = "break"; else if (isa<ContinueStmt>(S)) k = "continue";
                    o += ",\"term\":["; jstr(o, k); o += ","; expr(o, cond);
                    o += "," + std::to_string(line(S->getBeginLoc()));
                    if (auto *TS = dyn_cast<CXXTryStmt>(S)) o += "," + std::to_string(fn.tryId[TS]);
                    o += "]";
                }
            }
            o += "}";
        }
        o += "]}";
        F = nullptr;
        emit(o);
        for (auto *L : fn.lambdas) dumpLambda(L);
    }
    void dumpLambda(const LambdaExpr *L) {
        const CXXMethodDecl *M = L->getCallOperator();
        if (auto *T = M->getDescribedFunctionTemplate()) { for (auto *S : T->specializations()) dumpFunction(S); }
        else dumpFunction(M);
    }

    void dumpDecl(const FunctionDecl *FD) {
        if (!inScope(FD->getLocation()) || FD->isDependentContext() || FD->isImplicit()) return;
        string key = fkey(FD);
        string file = fileInfo(FD->getLocation()).first;
        if (!g_seen.insert("d:" + key + file + std::to_string(line(FD->getLocation()))).second) return;
        string o = "{\"t\":\"decl\",\"key\":"; jstr(o, key); o += ",\"q\":"; jstr(o, qname(FD));
        o += ",\"file\":"; jstr(o, file); o += ",\"line\":" + std::to_string(line(FD->getLocation()));
        if (FD->isExternC()) o += ",\"externc\":1";
        if (FD->isThisDeclarationADefinition()) o += ",\"def\":1";
        if (FD->isNoReturn()) o += ",\"noret\":1";
        if (FD->hasAttr<VisibilityAttr>()) o += ",\"export\":1";
        if (FD->isInlined()) o += ",\"inline\":1";
        if (auto *M = dyn_cast<CXXMethodDecl>(FD)) { (void) M; o += ",\"method\":1"; }
        if (auto *A = FD->getAttr<FormatAttr>()) o += ",\"fmt\":[" + std::to_string(A->getFormatIdx()) + "," + std::to_string(A->getFirstArg()) + "]";
        o += ",\"ret\":"; jstr(o, ty(FD->getReturnType()));
        o += ",\"params\":[";
        for (unsigned i = 0; i < FD->getNumParams(); ++i) { if (i) o += ",";
            auto *P = FD->getParamDecl(i);
            o += "["; jstr(o, P->getNameAsString()); o += ","; jstr(o, ty(P->getType())); o += P->hasDefaultArg() ? ",1]" : ",0]"; }
        o += "]}";
        emit(o);
    }

    void dumpRecord(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || !inScope(R->getLocation()) || R->isDependentContext() || R->isLambda()) return;
        string key = ty(C.getRecordType(R));
        if (!g_seen.insert("r:" + key).second) return;
        string o = "{\"t\":\"rec\",\"key\":"; jstr(o, key); o += ",\"q\":"; jstr(o, R->getQualifiedNameAsString());
        o += ",\"file\":"; jstr(o, fileInfo(R->getLocation()).first); o += ",\"line\":" + std::to_string(line(R->getLocation()));
        if (R->isUnion()) o += ",\"union\":1";
        if (!R->isInvalidDecl()) o += ",\"size\":" + std::to_string(C.getTypeSizeInChars(C.getRecordType(R)).getQuantity());
        o += ",\"bases\":["; { bool f = true; for (auto &b : R->bases()) { if (!f) o += ","; f = false; jstr(o, ty(b.getType())); } }
        o += "],\"fields\":[";
        bool f = true;
        std::function<void(const RecordDecl *)> fields = [&](const RecordDecl *RR) {
            for (auto *fd : RR->fields()) {
                if (fd->isAnonymousStructOrUnion()) { if (auto *X = fd->getType()->getAsRecordDecl()) fields(X); continue; }
                if (!f) o += ","; f = false;
                o += "["; jstr(o, fd->getNameAsString()); o += ","; jstr(o, ty(fd->getType())); o += ",";
                o += fd->isBitField() ? std::to_string(fd->getBitWidthValue(C)) : string("-1");
                o += fd->hasInClassInitializer() ? ",1," : ",0,";
                if (RR->isUnion()) o += "1"; else o += "0";
                o += ","; if (fd->hasInClassInitializer()) expr(o, fd->getInClassInitializer()); else o += "null";
                o += "]";
            }
        };
        fields(R);
        o += "],\"methods\":[";
        f = true;
        for (auto *M : R->methods()) {
            if (!f) o += ","; f = false;
            o += "{\"n\":"; jstr(o, M->getNameAsString()); o += ",\"key\":"; jstr(o, fkey(M));
            if (M->isVirtual()) o += ",\"virtual\":1";
            if (M->isPureVirtual()) o += ",\"pure\":1";
            if (M->isDeleted()) o += ",\"deleted\":1";
            if (M->isDefaulted()) o += ",\"defaulted\":1";
            if (M->isImplicit()) o += ",\"implicit\":1";
            if (M->isCopyAssignmentOperator()) o += ",\"sm\":\"copyasg\"";
            if (M->isMoveAssignmentOperator()) o += ",\"sm\":\"moveasg\"";
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
                if (CD->isCopyConstructor()) o += ",\"sm\":\"copyctor\"";
                else if (CD->isMoveConstructor()) o += ",\"sm\":\"movector\"";
                else if (CD->isDefaultConstructor()) o += ",\"sm\":\"defctor\""; }
            if (isa<CXXDestructorDecl>(M)) o += ",\"sm\":\"dtor\"";
            if (M->size_overridden_methods()) { o += ",\"over\":["; bool g = true; for (auto *x : M->overridden_methods()) { if (!g) o += ","; g = false; jstr(o, fkey(x)); } o += "]"; }
            o += "}";
        }
        o += "],\"has\":{\"copyctor\":" + std::to_string(R->hasSimpleCopyConstructor() || R->hasUserDeclaredCopyConstructor());
        o += ",\"udtor\":" + std::to_string(R->hasUserDeclaredDestructor()) + ",\"ucopyctor\":" + std::to_string(R->hasUserDeclaredCopyConstructor());
        o += ",\"ucopyasg\":" + std::to_string(R->hasUserDeclaredCopyAssignment()) + ",\"umovector\":" + std::to_string(R->hasUserDeclaredMoveConstructor());
        o += ",\"umoveasg\":" + std::to_string(R->hasUserDeclaredMoveAssignment()) + "}}";
        emit(o);
    }
    void dumpEnum(const EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || !inScope(E->getLocation())) return;
        string n = E->getQualifiedNameAsString();
        if (!g_seen.insert("e:" + n + std::to_string(line(E->getLocation()))).second) return;
        string o = "{\"t\":\"enum\",\"q\":"; jstr(o, n); o += ",\"file\":"; jstr(o, fileInfo(E->getLocation()).first);
        o += ",\"line\":" + std::to_string(line(E->getLocation())) + ",\"vals\":[";
        bool f = true;
        for (auto *c : E->enumerators()) { if (!f) o += ","; f = false; o += "["; jstr(o, c->getNameAsString()); llvm::SmallString<24> t; c->getInitVal().toString(t, 10); o += ","; o += t.c_str(); o += "]"; }
        o += "]}"; emit(o);
    }
    void dumpVar(const VarDecl *V) {
        if (!V->hasGlobalStorage() || !inScope(V->getLocation()) || V->getDeclContext()->isDependentContext()) return;
        string n = gname(V), file = fileInfo(V->getLocation()).first;
        if (!g_seen.insert("g:" + n + file + std::to_string(line(V->getLocation()))).second) return;
        string o = "{\"t\":\"var\",\"q\":"; jstr(o, n); o += ",\"file\":"; jstr(o, file); o += ",\"line\":" + std::to_string(line(V->getLocation()));
        o += ",\"ty\":"; jstr(o, ty(V->getType()));
        if (V->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
        if (V->getType().isConstQualified() || V->isConstexpr()) o += ",\"const\":1";
        if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) o += ",\"extern\":1";
        if (V->isStaticLocal()) o += ",\"slocal\":1";
        if (V->getFormalLinkage() == Linkage::Internal) o += ",\"internal\":1";
        o += ",\"init\":"; F = nullptr; expr(o, V->getInit()); o += "}";
        emit(o);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    Visitor(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *FD) {
        D.dumpDecl(FD);
        if (FD->doesThisDeclarationHaveABody()) {
            if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return true;
            D.dumpFunction(FD);
        }
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *L) { if (!L->getCallOperator()->isDependentContext()) D.dumpLambda(L); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.dumpRecord(R); return true; }
    bool VisitEnumDecl(EnumDecl *E) { D.dumpEnum(E); return true; }
    bool VisitVarDecl(VarDecl *V) { D.dumpVar(V); return true; }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { g_errors++; return; }
        Dumper D(C);
        Visitor V(D);
        // only traverse declarations located in scope
        for (auto *d : C.getTranslationUnitDecl()->decls()) {
            SourceLocation L = d->getLocation();
            if (isa<LinkageSpecDecl>(d) || isa<NamespaceDecl>(d) || D.inScope(L)) V.TraverseDecl(d);
        }
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
    // usage: extract OUT -r ROOT... -f FLAG... -s SOURCE...
    if (argc < 2) return 2;
    string out = argv[1];
    std::vector<string> flags, srcs;
    char mode = 0;
    for (int i = 2; i < argc; ++i) {
        string a = argv[i];
        if (a == "-r" || a == "-f" || a == "-s") { mode = a[1]; continue; }
        if (mode == 'r') g_roots.push_back(a); else if (mode == 'f') flags.push_back(a); else srcs.push_back(a);
    }
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) return 2;
    g_out = &os;
    os << "[\n";
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, srcs);
    int rv = T.run(tooling::newFrontendActionFactory<Action>().get());
    os << "\n]\n";
    os.close();
    if (rv || g_errors) { llvm::errs() << "extract: " << g_errors << " problem(s)\n"; return 3; }
    return 0;
}
