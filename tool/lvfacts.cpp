// lvfacts: exports the resolved program (records, functions, AST, CFG) of one translation unit as JSON.
// Nothing is decided here; the rules live in /verif/lvrules.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string g_root = "/repo";
static std::vector<std::string> g_extraRoots;

struct Exporter {
    ASTContext& Ctx;
    SourceManager& SM;
    std::unique_ptr<MangleContext> MC;
    PrintingPolicy PP;
    llvm::DenseMap<const Decl*,int> DeclIds;
    int nextDecl = 1;
    json::Array Functions, Records, Globals, Enums;
    std::set<const Decl*> SeenF, SeenR, SeenG;

    explicit Exporter(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    }
    int declId(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = DeclIds.find(D);
        if(it!=DeclIds.end()) return it->second;
        return DeclIds[D] = nextDecl++;
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if(L.isInvalid()) return "";
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if(!FE) return "";
        StringRef n = FE->getFileEntry().tryGetRealPathName();
        return n.empty()?FE->getName().str():n.str();
    }
    unsigned lineOf(SourceLocation L) {L = SM.getExpansionLoc(L); return L.isInvalid()?0:SM.getExpansionLineNumber(L);}
    bool inRepo(SourceLocation L) {
        std::string f = fileOf(L);
        StringRef r(f);
        if(r.starts_with(g_root+"/")) return true;
        for(auto& x : g_extraRoots) if(r.starts_with(x+"/")) return true;
        return false;
    }
    std::string ty(QualType T) {
        if(T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string sugar(QualType T) {
        if(T.isNull()) return "";
        PrintingPolicy P(Ctx.getLangOpts()); P.SuppressTagKeyword=true; P.Bool=true;
        return T.getAsString(P);
    }
    std::string qname(const NamedDecl* D) {
        std::string s; llvm::raw_string_ostream os(s);
        PrintingPolicy P(Ctx.getLangOpts()); P.SuppressTagKeyword = true; P.Bool=true; P.AnonymousTagLocations=false;
        D->printQualifiedName(os,P);
        return os.str();
    }
    std::string recName(const CXXRecordDecl* R) {
        if(R->isLambda()) return "lambda#"+std::to_string(declId(R));
        return ty(Ctx.getTypeDeclType(R));
    }
    std::string fkey(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        if(auto* M = dyn_cast<CXXMethodDecl>(F))
            if(M->getParent()->isLambda())
                return "lambda#"+std::to_string(declId(F));
        if(F->isDependentContext()) return "dep#"+std::to_string(declId(F));
        // local-linkage entities and such still mangle fine
        std::string s; llvm::raw_string_ostream os(s);
        GlobalDecl GD;
        if(auto* C = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(C,Ctor_Complete);
        else if(auto* D = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(D,Dtor_Complete);
        else GD = GlobalDecl(F);
        if(MC->shouldMangleDeclName(F)) MC->mangleName(GD,os); else os << F->getNameAsString();
        return os.str();
    }
    std::string macroOf(SourceLocation L) {
        if(!L.isMacroID()) return "";
        // outermost macro name
        while(true) {
            SourceLocation up = SM.getImmediateMacroCallerLoc(L);
            if(SM.isMacroArgExpansion(L)) { L = SM.getImmediateExpansionRange(L).getBegin(); if(!L.isMacroID()) return ""; continue; }
            if(!up.isMacroID()) break;
            L = up;
        }
        return Lexer::getImmediateMacroName(L,SM,Ctx.getLangOpts()).str();
    }

    // ------------------------------------------------------------------ per function
    struct FnState {
        llvm::DenseMap<const Stmt*,int> Ids;
        json::Array Nodes;
        int next = 0;
        std::vector<const LambdaExpr*> Lambdas;
    };
    static const Stmt* stripTrivial(const Stmt* S) {
        while(S) {
            if(auto* P = dyn_cast<ParenExpr>(S)) {S = P->getSubExpr(); continue;}
            if(auto* E = dyn_cast<ExprWithCleanups>(S)) {S = E->getSubExpr(); continue;}
            if(auto* E = dyn_cast<ConstantExpr>(S)) {S = E->getSubExpr(); continue;}
            if(auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) {S = E->getSubExpr(); continue;}
            if(auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) {S = E->getSubExpr(); continue;}
            if(auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {S = E->getReplacement(); continue;}
            if(auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {S = E->getExpr(); continue;}
            if(auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {S = E->getExpr(); continue;}
            if(auto* C = dyn_cast<ImplicitCastExpr>(S)) {
                switch(C->getCastKind()) {
                    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                    case CK_BuiltinFnToFnPtr: case CK_BaseToDerived: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
                        S = C->getSubExpr(); continue;
                    default: return S;
                }
            }
            return S;
        }
        return S;
    }
    void addType(json::Object& O, const Expr* E) {
        O["t"] = ty(E->getType());
        if(E->isLValue()) O["lv"] = 1;
    }
    int ser(FnState& F, const Stmt* S0) {
        if(!S0) return -1;
        auto itf = F.Ids.find(S0);
        if(itf!=F.Ids.end()) return itf->second;
        const Stmt* S = stripTrivial(S0);
        if(!S) return -1;
        auto it = F.Ids.find(S);
        int id;
        if(it!=F.Ids.end()) {
            id = it->second;
        } else {
            id = F.next++;
            F.Ids[S] = id;
            F.Nodes.push_back(nullptr);
            json::Value V = serNode(F,S,id); // may grow F.Nodes
            F.Nodes[id] = std::move(V);
        }
        // map every stripped wrapper to the same id
        const Stmt* W = S0;
        while(W && W!=S) {
            F.Ids[W] = id;
            if(auto* P = dyn_cast<ParenExpr>(W)) W = P->getSubExpr();
            else if(auto* E = dyn_cast<FullExpr>(W)) W = E->getSubExpr();
            else if(auto* E = dyn_cast<MaterializeTemporaryExpr>(W)) W = E->getSubExpr();
            else if(auto* E = dyn_cast<CXXBindTemporaryExpr>(W)) W = E->getSubExpr();
            else if(auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(W)) W = E->getReplacement();
            else if(auto* E = dyn_cast<ImplicitCastExpr>(W)) W = E->getSubExpr();
            else break;
        }
        return id;
    }
    json::Object declInfo(FnState& F, const VarDecl* V) {
        json::Object O;
        O["id"] = declId(V);
        O["name"] = V->getNameAsString();
        O["t"] = ty(V->getType());
        O["s"] = sugar(V->getType());
        if(V->isStaticLocal()) O["static"] = 1;
        if(V->getTSCSpec()!=TSCS_unspecified || V->getTLSKind()!=VarDecl::TLS_None) O["tls"] = 1;
        if(V->getType()->isReferenceType()) O["ref"] = 1;
        O["line"] = lineOf(V->getLocation());
        return O;
    }
    void calleeInfo(json::Object& O, const FunctionDecl* FD) {
        O["fk"] = fkey(FD);
        O["fn"] = qname(FD);
        if(auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            O["rec"] = recName(M->getParent());
            if(M->isVirtual()) O["virt"] = 1;
            if(M->isConst()) O["mconst"] = 1;
            if(M->isStatic()) O["mstatic"] = 1;
        }
        if(FD->isVariadic()) O["variadic"] = (int)FD->getNumParams();
        json::Array pt;
        for(auto* P : FD->parameters()) pt.push_back(ty(P->getType()));
        if(!pt.empty()) O["pt"] = std::move(pt);
        if(auto* FPT = FD->getType()->getAs<FunctionProtoType>())
            if(FPT->isNothrow()) O["noexcept"] = 1;
    }
    json::Value serNode(FnState& F, const Stmt* S, int id) {
        json::Object O;
        O["k"] = S->getStmtClassName();
        O["line"] = lineOf(S->getBeginLoc());
        std::string mac = macroOf(S->getBeginLoc());
        if(!mac.empty()) O["mac"] = mac;
        json::Array Ch;
        bool defaultChildren = true;
        if(auto* E = dyn_cast<Expr>(S)) {
            addType(O,E);
            if(!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue()) {
                Expr::EvalResult R;
                if(E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R,Ctx,Expr::SE_NoSideEffects)) {
                    llvm::APSInt v = R.Val.getInt();
                    if(v.isRepresentableByInt64()) O["c"] = (int64_t)v.getExtValue();
                    else { llvm::SmallString<40> s; v.toString(s,10); O["cs"] = s.str().str(); }
                } else if(E->getType()->isFloatingType()) {
                    llvm::APFloat fv(0.0);
                    if(E->EvaluateAsFloat(fv,Ctx)) { O["fc"] = fv.convertToDouble(); if(!llvm::json::Value(fv.convertToDouble()).getAsNumber() || !fv.isFinite()) { O["fc"]=nullptr; O["fcs"] = fv.isNaN()?"nan":(fv.isNegative()?"-inf":"inf"); } }
                }
            } else if(!E->isValueDependent() && !E->isTypeDependent() && E->isLValue() && E->getType()->isIntegralOrEnumerationType() && E->getType().isConstQualified()) {
                Expr::EvalResult R;
                if(E->EvaluateAsInt(R,Ctx,Expr::SE_NoSideEffects)) {
                    llvm::APSInt v = R.Val.getInt();
                    if(v.isRepresentableByInt64()) O["c"] = (int64_t)v.getExtValue();
                }
            }
        }
        if(auto* D = dyn_cast<DeclRefExpr>(S)) {
            const ValueDecl* VD = D->getDecl();
            O["n"] = VD->getNameAsString();
            O["d"] = declId(VD);
            if(isa<ParmVarDecl>(VD)) O["dk"] = "parm";
            else if(auto* V = dyn_cast<VarDecl>(VD)) {
                O["dk"] = V->isLocalVarDecl()?(V->isStaticLocal()?"slocal":"local"):(V->isStaticDataMember()?"smember":"global");
                if(!V->isLocalVarDecl()) O["q"] = qname(V);
                if(V->getTLSKind()!=VarDecl::TLS_None) O["tls"] = 1;
                if(V->getType()->isReferenceType()) O["ref"] = 1;
                if(V->getType().isConstQualified()) O["const"] = 1;
                noteGlobal(V);
            }
            else if(isa<EnumConstantDecl>(VD)) {O["dk"] = "enum"; O["q"] = qname(VD);}
            else if(auto* FD = dyn_cast<FunctionDecl>(VD)) {O["dk"] = "func"; calleeInfo(O,FD);}
            else O["dk"] = VD->getDeclKindName();
        }
        else if(auto* M = dyn_cast<MemberExpr>(S)) {
            const ValueDecl* VD = M->getMemberDecl();
            O["n"] = VD->getNameAsString();
            O["d"] = declId(VD);
            if(auto* FD = dyn_cast<FieldDecl>(VD)) {
                O["dk"] = "field";
                if(auto* R = dyn_cast<CXXRecordDecl>(FD->getParent())) O["rec"] = recName(R);
                if(VD->getType()->isReferenceType()) O["ref"] = 1;
            }
            else if(auto* V = dyn_cast<VarDecl>(VD)) {O["dk"] = "smember"; O["q"] = qname(V); noteGlobal(V);}
            else if(auto* FD = dyn_cast<FunctionDecl>(VD)) {O["dk"] = "func"; calleeInfo(O,FD);}
            if(M->isArrow()) O["arrow"] = 1;
            if(auto* Q = M->getQualifier()) O["qual"] = 1;
        }
        else if(auto* C = dyn_cast<CXXConstructExpr>(S)) {
            calleeInfo(O,C->getConstructor());
            if(C->getConstructor()->isCopyOrMoveConstructor()) O["cpmv"] = C->getConstructor()->isMoveConstructor()?"move":"copy";
            if(C->isListInitialization()) O["list"] = 1;
            if(C->isElidable()) O["elid"] = 1;
        }
        else if(auto* C = dyn_cast<CallExpr>(S)) {
            if(const FunctionDecl* FD = C->getDirectCallee()) calleeInfo(O,FD);
            if(auto* OC = dyn_cast<CXXOperatorCallExpr>(S)) O["op"] = getOperatorSpelling(OC->getOperator());
            if(auto* MC2 = dyn_cast<CXXMemberCallExpr>(S)) {
                if(auto* ME = dyn_cast<MemberExpr>(MC2->getCallee()->IgnoreParens()))
                    if(ME->hasQualifier()) O["qualcall"] = 1;
            }
        }
        else if(auto* B = dyn_cast<BinaryOperator>(S)) {O["op"] = B->getOpcodeStr();}
        else if(auto* U = dyn_cast<UnaryOperator>(S)) {O["op"] = (U->isPostfix()?std::string("post"):std::string(""))+UnaryOperator::getOpcodeStr(U->getOpcode()).str();}
        else if(auto* L = dyn_cast<StringLiteral>(S)) {if(L->getCharByteWidth()==1) O["v"] = llvm::json::fixUTF8(L->getString());}
        else if(auto* L = dyn_cast<FloatingLiteral>(S)) {(void)L;}
        else if(auto* C = dyn_cast<CastExpr>(S)) {O["ck"] = C->getCastKindName();}
        else if(auto* D = dyn_cast<DeclStmt>(S)) {
            json::Array ds;
            for(auto* DD : D->decls()) {
                if(auto* V = dyn_cast<VarDecl>(DD)) {
                    json::Object VO = declInfo(F,V);
                    if(V->hasInit()) { int c = ser(F,V->getInit()); VO["init"] = c; Ch.push_back(c);}
                    ds.push_back(std::move(VO));
                }
            }
            O["decls"] = std::move(ds);
            defaultChildren = false;
        }
        else if(auto* L = dyn_cast<LambdaExpr>(S)) {
            O["lam"] = fkey(L->getCallOperator());
            json::Array caps;
            auto ii = L->capture_init_begin();
            for(auto& cap : L->captures()) {
                json::Object CO;
                if(cap.capturesThis()) CO["this"] = 1;
                else if(cap.capturesVariable()) {
                    CO["d"] = declId(cap.getCapturedVar()); CO["n"] = cap.getCapturedVar()->getNameAsString();
                    if(cap.getCaptureKind()==LCK_ByRef) CO["ref"] = 1;
                }
                int c = (ii!=L->capture_init_end() && *ii)?ser(F,*ii):-1;
                CO["init"] = c;
                if(c>=0) Ch.push_back(c);
                if(ii!=L->capture_init_end()) ++ii;
                caps.push_back(std::move(CO));
            }
            O["caps"] = std::move(caps);
            F.Lambdas.push_back(L);
            defaultChildren = false;
        }
        else if(auto* R = dyn_cast<CXXForRangeStmt>(S)) {
            json::Object P;
            P["range"] = ser(F,R->getRangeStmt()); P["begin"] = ser(F,R->getBeginStmt()); P["end"] = ser(F,R->getEndStmt());
            P["cond"] = ser(F,R->getCond()); P["inc"] = ser(F,R->getInc()); P["var"] = ser(F,R->getLoopVarStmt()); P["body"] = ser(F,R->getBody());
            O["parts"] = std::move(P);
        }
        else if(auto* R = dyn_cast<ForStmt>(S)) {
            json::Object P;
            P["init"] = ser(F,R->getInit()); P["cond"] = ser(F,R->getCond()); P["inc"] = ser(F,R->getInc()); P["body"] = ser(F,R->getBody());
            O["parts"] = std::move(P);
        }
        else if(auto* R = dyn_cast<IfStmt>(S)) {
            json::Object P;
            P["cond"] = ser(F,R->getCond()); P["then"] = ser(F,R->getThen()); P["else"] = ser(F,R->getElse());
            O["parts"] = std::move(P);
        }
        else if(auto* R = dyn_cast<WhileStmt>(S)) {
            json::Object P; P["cond"] = ser(F,R->getCond()); P["body"] = ser(F,R->getBody()); O["parts"] = std::move(P);
        }
        else if(auto* R = dyn_cast<DoStmt>(S)) {
            json::Object P; P["cond"] = ser(F,R->getCond()); P["body"] = ser(F,R->getBody()); O["parts"] = std::move(P);
        }
        else if(auto* R = dyn_cast<CaseStmt>(S)) {
            Expr::EvalResult ER;
            if(R->getLHS() && !R->getLHS()->isValueDependent() && R->getLHS()->EvaluateAsInt(ER,Ctx)) { if(ER.Val.getInt().isRepresentableByInt64()) O["c"] = (int64_t)ER.Val.getInt().getExtValue(); }
        }
        else if(auto* R = dyn_cast<CXXCatchStmt>(S)) {
            if(R->getExceptionDecl()) O["ct"] = ty(R->getCaughtType()); else O["ct"] = "...";
            if(R->getExceptionDecl()) O["cd"] = declId(R->getExceptionDecl());
        }
        else if(auto* R = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)R; defaultChildren = false; }
        else if(auto* R = dyn_cast<InitListExpr>(S)) { if(R->isSemanticForm()==false && R->getSemanticForm()) {} }
        else if(auto* R = dyn_cast<OMPExecutableDirective>(S)) {
            O["omp"] = llvm::omp::getOpenMPDirectiveName(R->getDirectiveKind()).str();
            json::Array cls;
            for(auto* C : R->clauses()) {
                json::Object CO;
                CO["kind"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
                json::Array vars;
                auto addVars = [&](auto* VC){ for(auto* E : VC->varlists()) if(auto* DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) vars.push_back(declId(DR->getDecl())); };
                if(auto* X = dyn_cast<OMPPrivateClause>(C)) addVars(X);
                else if(auto* X = dyn_cast<OMPFirstprivateClause>(C)) addVars(X);
                else if(auto* X = dyn_cast<OMPLastprivateClause>(C)) addVars(X);
                else if(auto* X = dyn_cast<OMPReductionClause>(C)) addVars(X);
                else if(auto* X = dyn_cast<OMPSharedClause>(C)) addVars(X);
                else if(auto* X = dyn_cast<OMPCollapseClause>(C)) { Expr::EvalResult ER; if(X->getNumForLoops()->EvaluateAsInt(ER,Ctx)) CO["n"] = (int64_t)ER.Val.getInt().getExtValue(); }
                CO["vars"] = std::move(vars);
                cls.push_back(std::move(CO));
            }
            O["clauses"] = std::move(cls);
            if(R->hasAssociatedStmt()) {
                const Stmt* B = R->getAssociatedStmt();
                while(auto* CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
                Ch.push_back(ser(F,B));
            }
            defaultChildren = false;
        }
        else if(auto* T = dyn_cast<CXXTypeidExpr>(S)) {(void)T;}
        else if(auto* T = dyn_cast<CXXNewExpr>(S)) { if(T->isArray()) O["arr"] = 1; O["nt"] = ty(T->getAllocatedType()); }
        else if(auto* T = dyn_cast<CXXDeleteExpr>(S)) { if(T->isArrayForm()) O["arr"] = 1; }
        if(defaultChildren)
            for(const Stmt* c : S->children())
                Ch.push_back(ser(F,c));
        O["ch"] = std::move(Ch);
        return O;
    }
    void noteGlobal(const VarDecl* V) {
        if(V->isLocalVarDecl()) return;
        const VarDecl* D = V->getDefinition()?V->getDefinition():V;
        if(!SeenG.insert(D->getCanonicalDecl()).second) return;
        if(!inRepo(D->getLocation())) return;
        json::Object O;
        O["id"] = declId(V); O["q"] = qname(V); O["t"] = ty(V->getType()); O["file"] = fileOf(D->getLocation()); O["line"] = lineOf(D->getLocation());
        if(V->getTLSKind()!=VarDecl::TLS_None) O["tls"] = 1;
        const VarDecl* ID = nullptr;
        if(const Expr* I = V->getAnyInitializer(ID)) {
            if(!I->isValueDependent() && !I->isTypeDependent()) {
                FnState F; int r = ser(F,I); O["init"] = r; O["nodes"] = std::move(F.Nodes);
            }
        }
        Globals.push_back(std::move(O));
    }
    json::Array serCFG(FnState& F, CFG* G) {
        json::Array Blocks;
        for(const CFGBlock* B : *G) {
            json::Object BO;
            BO["id"] = (int)B->getBlockID();
            json::Array El;
            for(const CFGElement& E : *B) {
                switch(E.getKind()) {
                    case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
                        const Stmt* S = E.castAs<CFGStmt>().getStmt();
                        El.push_back(ser(F,S));
                        break;
                    }
                    case CFGElement::Initializer: {
                        const CXXCtorInitializer* I = E.castAs<CFGInitializer>().getInitializer();
                        json::Object O; O["init"] = I->getInit()?ser(F,I->getInit()):-1;
                        if(I->isAnyMemberInitializer()) {O["field"] = I->getAnyMember()->getNameAsString(); O["fd"] = declId(I->getAnyMember());}
                        else if(I->isBaseInitializer()) O["base"] = ty(QualType(I->getBaseClass(),0));
                        else O["delegating"] = 1;
                        if(I->isWritten()) O["written"] = 1;
                        El.push_back(std::move(O));
                        break;
                    }
                    case CFGElement::AutomaticObjectDtor: {
                        auto D = E.castAs<CFGAutomaticObjDtor>();
                        json::Object O; O["dtor"] = declId(D.getVarDecl()); O["n"] = D.getVarDecl()->getNameAsString(); O["t"] = ty(D.getVarDecl()->getType());
                        if(auto* DD = D.getDestructorDecl(Ctx)) O["fk"] = fkey(DD);
                        El.push_back(std::move(O));
                        break;
                    }
                    case CFGElement::TemporaryDtor: {
                        auto D = E.castAs<CFGTemporaryDtor>();
                        json::Object O; O["tdtor"] = ser(F,D.getBindTemporaryExpr()); O["t"] = ty(D.getBindTemporaryExpr()->getType());
                        if(auto* DD = D.getDestructorDecl(Ctx)) O["fk"] = fkey(DD);
                        El.push_back(std::move(O));
                        break;
                    }
                    case CFGElement::MemberDtor: {
                        auto D = E.castAs<CFGMemberDtor>();
                        json::Object O; O["mdtor"] = D.getFieldDecl()->getNameAsString(); O["t"] = ty(D.getFieldDecl()->getType());
                        if(auto* DD = D.getDestructorDecl(Ctx)) O["fk"] = fkey(DD);
                        El.push_back(std::move(O));
                        break;
                    }
                    case CFGElement::BaseDtor: {
                        auto D = E.castAs<CFGBaseDtor>();
                        json::Object O; O["bdtor"] = ty(D.getBaseSpecifier()->getType());
                        if(auto* DD = D.getDestructorDecl(Ctx)) O["fk"] = fkey(DD);
                        El.push_back(std::move(O));
                        break;
                    }
                    default: break;
                }
            }
            BO["el"] = std::move(El);
            if(const Stmt* T = B->getTerminatorStmt()) {
                BO["term"] = T->getStmtClassName(); BO["termid"] = ser(F,T);
                if(B->getTerminator().isTemporaryDtorsBranch()) BO["tdbranch"] = 1;
            }
            if(const Stmt* C = B->getTerminatorCondition(false)) BO["cond"] = ser(F,C);
            if(const Stmt* L = B->getLabel()) { BO["label"] = ser(F,L); }
            json::Array Su;
            for(auto I = B->succ_begin(); I!=B->succ_end(); ++I) {
                if(const CFGBlock* X = I->getReachableBlock()) Su.push_back((int)X->getBlockID());
                else if(const CFGBlock* X = I->getPossiblyUnreachableBlock()) Su.push_back(-1-(int)X->getBlockID());
                else Su.push_back(nullptr);
            }
            BO["succ"] = std::move(Su);
            Blocks.push_back(std::move(BO));
        }
        return Blocks;
    }
    void doFunction(const FunctionDecl* FD) {
        if(!FD->doesThisDeclarationHaveABody()) return;
        if(FD->isDependentContext()) return;
        if(!inRepo(FD->getLocation())) return;
        if(!SeenF.insert(FD->getCanonicalDecl()).second) return;
        const Stmt* Body = FD->getBody();
        if(!Body) return;
        json::Object O;
        O["fk"] = fkey(FD);
        O["fn"] = qname(FD);
        O["file"] = fileOf(FD->getLocation());
        O["line"] = lineOf(FD->getLocation());
        O["endline"] = lineOf(FD->getEndLoc());
        O["rt"] = ty(FD->getReturnType());
        if(FD->getTemplateInstantiationPattern()) {O["inst"] = 1; O["tmpl"] = declId(FD->getTemplateInstantiationPattern());}
        if(FD->isImplicit() || FD->isDefaulted()) O["defaulted"] = 1;
        if(auto* FPT = FD->getType()->getAs<FunctionProtoType>()) if(FPT->isNothrow()) O["noexcept"] = 1;
        if(auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            O["rec"] = recName(M->getParent());
            if(M->isVirtual()) O["virt"] = 1;
            if(M->isStatic()) O["mstatic"] = 1;
            if(M->isConst()) O["mconst"] = 1;
            O["access"] = (int)M->getAccess();
            json::Array ov;
            for(auto* X : M->overridden_methods()) ov.push_back(fkey(X));
            O["over"] = std::move(ov);
            if(isa<CXXConstructorDecl>(FD)) O["kind"] = "ctor";
            else if(isa<CXXDestructorDecl>(FD)) O["kind"] = "dtor";
            else O["kind"] = "method";
            if(M->getParent()->isLambda()) O["kind"] = "lambda";
        } else O["kind"] = "func";
        json::Array Ps;
        for(auto* P : FD->parameters()) {
            json::Object PO; PO["id"] = declId(P); PO["name"] = P->getNameAsString(); PO["t"] = ty(P->getType());
            if(P->getType()->isReferenceType()) PO["ref"] = 1;
            Ps.push_back(std::move(PO));
        }
        O["params"] = std::move(Ps);
        FnState F;
        O["body"] = ser(F,Body);
        if(auto* C = dyn_cast<CXXConstructorDecl>(FD)) {
            json::Array inits;
            for(auto* I : C->inits()) {
                json::Object IO; IO["init"] = I->getInit()?ser(F,I->getInit()):-1;
                if(I->isAnyMemberInitializer()) {IO["field"] = I->getAnyMember()->getNameAsString();}
                else if(I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(),0));
                if(I->isWritten()) IO["written"] = 1;
                inits.push_back(std::move(IO));
            }
            O["inits"] = std::move(inits);
        }
        CFG::BuildOptions BO;
        BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = true; BO.AddLifetime = false; BO.AddScopes = false;
        BO.PruneTriviallyFalseEdges = true; BO.AddEHEdges = false; BO.AddRichCXXConstructors = false; BO.AddCXXNewAllocator = false; BO.AddCXXDefaultInitExprInCtors = true;
        BO.setAllAlwaysAdd();
        if(std::unique_ptr<CFG> G = CFG::buildCFG(FD,const_cast<Stmt*>(Body),&Ctx,BO)) {
            O["entry"] = (int)G->getEntry().getBlockID();
            O["exit"] = (int)G->getExit().getBlockID();
            O["cfg"] = serCFG(F,G.get());
        }
        O["nodes"] = std::move(F.Nodes);
        Functions.push_back(std::move(O));
        for(auto* L : std::vector<const LambdaExpr*>(F.Lambdas)) {
            if(L->getCallOperator()->isDependentContext()) {
                for(auto* Sp : (L->getCallOperator()->getDescribedFunctionTemplate()?std::vector<FunctionDecl*>(L->getCallOperator()->getDescribedFunctionTemplate()->spec_begin(),L->getCallOperator()->getDescribedFunctionTemplate()->spec_end()):std::vector<FunctionDecl*>()))
                    doFunction(Sp);
            } else doFunction(L->getCallOperator());
        }
    }
    const char* smStatus(bool needsImplicit, const FunctionDecl* D) {
        if(!D) return needsImplicit?"implicit":"none";
        if(D->isDeleted()) return "deleted";
        if(D->isDefaulted() || D->isImplicit()) return "implicit";
        return "user";
    }
    void doRecord(const CXXRecordDecl* R) {
        if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if(!inRepo(R->getLocation())) return;
        if(!SeenR.insert(R->getCanonicalDecl()).second) return;
        json::Object O;
        O["name"] = recName(R); O["file"] = fileOf(R->getLocation()); O["line"] = lineOf(R->getLocation());
        if(isa<ClassTemplateSpecializationDecl>(R)) O["inst"] = 1;
        json::Array Fs;
        for(auto* FD : R->fields()) {
            json::Object FO; FO["name"] = FD->getNameAsString(); FO["id"] = declId(FD); FO["t"] = ty(FD->getType()); FO["s"] = sugar(FD->getType());
            FO["line"] = lineOf(FD->getLocation());
            if(FD->getType().isConstQualified()) FO["const"] = 1;
            if(FD->hasInClassInitializer()) FO["ici"] = 1;
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        json::Array Bs;
        for(auto& B : R->bases()) { json::Object BO; BO["t"] = ty(B.getType()); if(B.isVirtual()) BO["virt"]=1; Bs.push_back(std::move(BO)); }
        O["bases"] = std::move(Bs);
        const CXXConstructorDecl *cc=nullptr,*mc=nullptr; const CXXMethodDecl *ca=nullptr,*ma=nullptr;
        for(auto* C : R->ctors()) { if(C->isCopyConstructor()) cc = C; else if(C->isMoveConstructor()) mc = C; }
        for(auto* M : R->methods()) { if(M->isCopyAssignmentOperator()) ca = M; else if(M->isMoveAssignmentOperator()) ma = M; }
        O["copyctor"] = smStatus(R->needsImplicitCopyConstructor(),cc);
        O["movector"] = smStatus(R->needsImplicitMoveConstructor(),mc);
        O["copyasgn"] = smStatus(R->needsImplicitCopyAssignment(),ca);
        O["moveasgn"] = smStatus(R->needsImplicitMoveAssignment(),ma);
        if(R->isAbstract()) O["abstract"] = 1;
        if(R->isUnion()) O["union"] = 1;
        json::Array Ms;
        for(auto* M : R->methods()) {
            json::Object MO; MO["fk"] = fkey(M); MO["name"] = M->getNameAsString(); MO["access"] = (int)M->getAccess();
            if(M->isVirtual()) MO["virt"]=1; if(M->isPureVirtual()) MO["pure"]=1; if(M->isDeleted()) MO["deleted"]=1; if(M->isImplicit()) MO["implicit"]=1;
            json::Array ov; for(auto* X : M->overridden_methods()) ov.push_back(fkey(X)); MO["over"] = std::move(ov);
            Ms.push_back(std::move(MO));
        }
        O["methods"] = std::move(Ms);
        Records.push_back(std::move(O));
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Exporter& X;
    explicit Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const {return true;}
    bool shouldVisitImplicitCode() const {return true;}
    bool VisitFunctionDecl(FunctionDecl* F) {X.doFunction(F); return true;}
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {X.doRecord(R); return true;}
    bool VisitVarDecl(VarDecl* V) {
        if(V->hasGlobalStorage() && !V->isLocalVarDecl() && !V->getDeclContext()->isDependentContext() && X.inRepo(V->getLocation())) X.noteGlobal(V);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if(!E->isThisDeclarationADefinition() || E->isDependentContext() || !X.inRepo(E->getLocation())) return true;
        json::Object O; O["name"] = X.qname(E); json::Object V;
        for(auto* C : E->enumerators()) { if(C->getInitVal().isRepresentableByInt64()) V[C->getNameAsString()] = (int64_t)C->getInitVal().getExtValue(); }
        O["vals"] = std::move(V); O["file"] = X.fileOf(E->getLocation()); O["line"] = X.lineOf(E->getLocation());
        X.Enums.push_back(std::move(O));
        return true;
    }
};
static std::string g_out;
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if(C.getDiagnostics().hasUncompilableErrorOccurred()) {
            llvm::errs() << "lvfacts: errors in translation unit\n";
        }
        Exporter X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object O;
        O["errors"] = C.getDiagnostics().hasUncompilableErrorOccurred();
        O["functions"] = std::move(X.Functions); O["records"] = std::move(X.Records); O["globals"] = std::move(X.Globals); O["enums"] = std::move(X.Enums);
        std::error_code EC; llvm::raw_fd_ostream os(g_out,EC);
        os << json::Value(std::move(O));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {return std::make_unique<Consumer>();}
};
struct Factory : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override {return std::make_unique<Action>();}
};
int main(int argc, char** argv) {
    // usage: lvfacts OUT.json ROOT[:ROOT2...] FILE -- flags...
    if(argc<5) return 2;
    g_out = argv[1];
    {
        std::string r = argv[2]; size_t p; bool first = true;
        while(true) { p = r.find(':'); std::string x = r.substr(0,p); if(first) {g_root = x; first=false;} else g_extraRoots.push_back(x); if(p==std::string::npos) break; r = r.substr(p+1); }
    }
    std::string file = argv[3];
    std::vector<std::string> flags(argv+5,argv+argc);
    tooling::FixedCompilationDatabase DB(".",flags);
    tooling::ClangTool T(DB,{file});
    Factory Fa;
    return T.run(&Fa);
}
