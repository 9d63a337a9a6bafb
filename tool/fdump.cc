// fdump: a libTooling fact extractor.
// Dumps the type-checked AST of every function defined in files under the given
// roots (template instantiations and implicitly defined functions included),
// plus class and global-variable records, as one JSON document on stdout/-o.
#include <set>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
typedef json::Object Obj;
typedef json::Array Arr;

static std::vector<std::string> gRoots;
static std::string gOut;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string,int> types;
    Arr typeArr, recArr;
    std::map<const Decl*,int> locals;
    Arr functions, classes, globals, enums;
    std::set<const Decl*> doneFn, doneCls, doneVar;
    std::set<std::string> doneU;
    std::vector<const FunctionDecl*> pending;
    std::map<std::string,int> files;
    Arr fileArr;

    explicit Dumper(ASTContext &c) :C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = false;
    }

    std::string fileOf(SourceLocation L) {
        if(L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L, false);
        if(P.isInvalid()) return "";
        llvm::SmallString<256> s(P.getFilename());
        return s.str().str();
    }
    int lineOf(SourceLocation L) {
        if(L.isInvalid()) return 0;
        L = SM.getExpansionLoc(L);
        return SM.getExpansionLineNumber(L);
    }
    bool inRoots(SourceLocation L) {
        if(L.isInvalid()) return false;
        FileID F = SM.getFileID(SM.getExpansionLoc(L));
        auto E = SM.getFileEntryRefForID(F);
        if(!E) return false;
        std::string fn = E->getFileEntry().tryGetRealPathName().str();
        if(fn.empty()) fn = E->getName().str();
        for(auto &r : gRoots) if(fn.compare(0, r.size(), r)==0) return true;
        return false;
    }
    std::string realFile(SourceLocation L) {
        if(L.isInvalid()) return "";
        FileID F = SM.getFileID(SM.getExpansionLoc(L));
        auto E = SM.getFileEntryRefForID(F);
        if(!E) return "";
        std::string fn = E->getFileEntry().tryGetRealPathName().str();
        if(fn.empty()) fn = E->getName().str();
        return fn;
    }
    int typeId(QualType T) {
        if(T.isNull()) return -1;
        std::string s = T.getCanonicalType().getAsString(PP);
        auto it = types.find(s);
        if(it!=types.end()) return it->second;
        int n = types.size();
        types[s] = n;
        typeArr.push_back(json::Value(s));
        QualType U = T.getCanonicalType();
        recArr.push_back(U->isRecordType() ? 1 : U->isEnumeralType() ? 2 : U->isArrayType() ? 3 : U->isReferenceType() ? 4 : U->isPointerType() ? 5 : 0);
        return n;
    }
    std::string usr(const Decl *D) {
        llvm::SmallString<128> buf;
        if(!D) return "";
        if(auto *F = dyn_cast<FunctionDecl>(D)) { if(F->getCanonicalDecl()) D = F->getCanonicalDecl(); }
        if(index::generateUSRForDecl(D, buf)) return "";
        return buf.str().str();
    }
    std::string qname(const NamedDecl *D) {
        std::string s; llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string fullname(const NamedDecl *D) { // with template args
        std::string s; llvm::raw_string_ostream os(s);
        D->getNameForDiagnostic(os, PP, true);
        return os.str();
    }
    int localId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = locals.find(D);
        if(it!=locals.end()) return it->second;
        int n = locals.size()+1;
        locals[D] = n;
        return n;
    }
    Obj node(const char *k, SourceLocation L) {
        Obj o; o["k"] = k; o["l"] = lineOf(L);
        return o;
    }
    json::Value nil() { return json::Value(nullptr); }

    void needFn(const FunctionDecl *F) { (void)F; }

    Obj varDecl(const VarDecl *V) {
        Obj o = node("Var", V->getLocation());
        o["id"] = localId(V);
        o["n"] = V->getNameAsString();
        o["t"] = typeId(V->getType());
        if(V->isStaticLocal()) { o["static"] = true; o["usr"] = usr(V); globalVar(V); }
        if(V->hasInit()) { o["init"] = expr(V->getInit()); if(V->getInitStyle()==VarDecl::CallInit) o["ci"]=1; }
        addDtor(o, V->getType());
        return o;
    }
    void addDtor(Obj &o, QualType T) {
        T = T.getCanonicalType();
        while(const ArrayType *A = C.getAsArrayType(T)) T = A->getElementType();
        if(auto *R = T->getAsCXXRecordDecl()) {
            if(R->hasDefinition() && !R->hasTrivialDestructor()) {
                if(auto *D = R->getDestructor()) o["dtor"] = usr(D);
                else o["dtor"] = "?";
            }
        }
    }

    Arr args(llvm::ArrayRef<const Expr*> A) {
        Arr r;
        for(auto *e : A) r.push_back(expr(e));
        return r;
    }
    template<typename CE> Arr callArgs(const CE *E, unsigned from=0) {
        Arr r;
        for(unsigned i=from; i<E->getNumArgs(); i++) r.push_back(expr(E->getArg(i)));
        return r;
    }
    void calleeInfo(Obj &o, const FunctionDecl *F) {
        o["fn"] = usr(F);
        o["q"] = qname(F);
        o["n"] = F->getNameAsString();
        if(F->getTemplateSpecializationArgs()) {
            Arr ta;
            for(auto &A : F->getTemplateSpecializationArgs()->asArray()) {
                if(A.getKind()==TemplateArgument::Type) ta.push_back(typeId(A.getAsType()));
                else ta.push_back(-1);
            }
            o["ta"] = std::move(ta);
        }
        const FunctionProtoType *FP = F->getType()->getAs<FunctionProtoType>();
        if(FP && FP->canThrow()==CT_Cannot) o["nothrow"] = true;
        else if(FP && FP->getExceptionSpecType()==EST_Unevaluated) o["nothrow"] = isa<CXXDestructorDecl>(F);
        if(F->isNoReturn()) o["noreturn"] = true;
        if(F->isExternC()) o["extc"] = true;
        Arr pt;
        for(auto *p : F->parameters()) pt.push_back(typeId(p->getType()));
        o["pt"] = std::move(pt);
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if(M->isVirtual()) o["vm"] = true;
            if(M->isConst()) o["cm"] = true;
            if(M->isStatic()) o["sm"] = true;
            o["cls"] = typeId(C.getRecordType(M->getParent()));
        }
        if(F->isImplicit() || F->isDefaulted()) o["impl"] = true;
    }

    json::Value expr(const Expr *E) {
        if(!E) return nil();
        json::Value v = expr1(E);
        if(E->isGLValue()) if(auto *o = v.getAsObject()) {
            llvm::StringRef k = *o->getString("k");
            if(k=="Call" || k=="Cond" || k=="Cast" || k=="Bin" || k=="Un" || k=="Other") (*o)["gl"] = 1;
        }
        return v;
    }
    void setInt(Obj &o, const llvm::APSInt& I) {
        if(I.isRepresentableByInt64()) o["cv"] = I.getExtValue();
        else if(I.getActiveBits()<=64) o["cvu"] = std::to_string(I.getZExtValue());
    }
    void addCV(Obj &o, const Expr *E) {
        if(E->isValueDependent() || E->isTypeDependent()) return;
        if(!E->getType()->isIntegralOrEnumerationType()) return;
        if(E->isGLValue()) return;
        Expr::EvalResult R;
        if(E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            setInt(o, R.Val.getInt());
        }
    }
    json::Value expr1(const Expr *E) {
        // strip wrappers
        if(auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
        if(auto *x = dyn_cast<ExprWithCleanups>(E)) {
            Obj o = node("Full", E->getBeginLoc());
            o["e"] = expr(x->getSubExpr());
            return std::move(o);
        }
        if(auto *x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
        if(auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) {
            return expr(x->getSubExpr());
        }
        if(auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
        if(auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
        if(auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
        if(auto *x = dyn_cast<OpaqueValueExpr>(E)) return expr(x->getSourceExpr());
        if(auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(x->getSubExpr());
        if(auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
        if(auto *x = dyn_cast<ImplicitCastExpr>(E)) {
            const Expr *S = x->getSubExpr();
            switch(x->getCastKind()) {
            case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
            case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
            {
                Obj o = node("ICast", E->getBeginLoc());
                o["ck"] = x->getCastKindName();
                o["t"] = typeId(E->getType());
                addCV(o, E);
                o["e"] = expr(S);
                return std::move(o);
            }
            case CK_LValueToRValue:
            {
                Obj o = node("Ld", E->getBeginLoc());
                o["t"] = typeId(E->getType());
                o["e"] = expr(S);
                return std::move(o);
            }
            default: return expr(S);
            }
        }
        if(auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) {
            Obj o = node("Tmp", E->getBeginLoc());
            o["e"] = expr(x->getSubExpr());
            o["t"] = typeId(E->getType());
            if(x->getTemporary() && x->getTemporary()->getDestructor()) o["dtor"] = usr(x->getTemporary()->getDestructor());
            return std::move(o);
        }
        SourceLocation L = E->getExprLoc();
        if(auto *x = dyn_cast<IntegerLiteral>(E)) {
            Obj o = node("Lit", L); o["lt"]="int"; o["t"]=typeId(E->getType());
            if(x->getValue().getActiveBits()<=63) o["v"] = (int64_t)x->getValue().getZExtValue();
            else o["v"] = (double)x->getValue().getZExtValue();
            return std::move(o);
        }
        if(auto *x = dyn_cast<CharacterLiteral>(E)) {
            Obj o = node("Lit", L); o["lt"]="int"; o["t"]=typeId(E->getType()); o["v"]=(int64_t)x->getValue(); return std::move(o);
        }
        if(auto *x = dyn_cast<FloatingLiteral>(E)) {
            Obj o = node("Lit", L); o["lt"]="float"; o["t"]=typeId(E->getType()); o["v"]=x->getValueAsApproximateDouble(); return std::move(o);
        }
        if(auto *x = dyn_cast<StringLiteral>(E)) {
            Obj o = node("Lit", L); o["lt"]="str"; o["t"]=typeId(E->getType());
            std::string s = x->getCharByteWidth()==1 ? x->getBytes().str() : std::string();
            if(!json::isUTF8(s)) s = json::fixUTF8(s);
            o["v"]=s; return std::move(o);
        }
        if(auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) {
            Obj o = node("Lit", L); o["lt"]="bool"; o["t"]=typeId(E->getType()); o["v"]=x->getValue(); return std::move(o);
        }
        if(isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            Obj o = node("Lit", L); o["lt"]="null"; o["t"]=typeId(E->getType()); o["v"]=0; return std::move(o);
        }
        if(auto *x = dyn_cast<PredefinedExpr>(E)) {
            Obj o = node("Lit", L); o["lt"]="str"; o["t"]=typeId(E->getType());
            o["v"] = x->getFunctionName() ? x->getFunctionName()->getBytes().str() : std::string(); return std::move(o);
        }
        if(isa<CXXThisExpr>(E)) { Obj o = node("This", L); o["t"]=typeId(E->getType()); return std::move(o); }
        if(auto *x = dyn_cast<DeclRefExpr>(E)) {
            Obj o = node("Ref", L);
            o["t"] = typeId(E->getType());
            const ValueDecl *D = x->getDecl();
            o["n"] = D->getNameAsString();
            if(auto *V = dyn_cast<VarDecl>(D)) {
                o["vt"] = typeId(V->getType());
                if(V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    o["dk"] = isa<ParmVarDecl>(V) ? "param" : "local";
                    o["id"] = localId(V);
                } else {
                    o["dk"] = "global"; o["usr"] = usr(V); o["q"] = qname(V);
                    globalVar(V);
                }
                if(V->getType().isConstQualified() || V->isConstexpr()) addCVvar(o, E);
            } else if(auto *F = dyn_cast<FunctionDecl>(D)) {
                o["dk"] = "func"; calleeInfo(o, F);
            } else if(auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["dk"] = "enum"; o["q"] = qname(EC); setInt(o, EC->getInitVal());
            } else if(isa<BindingDecl>(D)) {
                o["dk"] = "local"; o["id"] = localId(D);
            } else { o["dk"] = "other"; o["q"] = qname(D); }
            return std::move(o);
        }
        if(auto *x = dyn_cast<MemberExpr>(E)) {
            Obj o = node("Mem", x->getMemberLoc());
            o["t"] = typeId(E->getType());
            const ValueDecl *D = x->getMemberDecl();
            o["n"] = D->getNameAsString();
            if(auto *V = dyn_cast<VarDecl>(D)) { // static member
                o["k"] = "Ref"; o["dk"] = "global"; o["usr"] = usr(V); o["q"] = qname(V); globalVar(V);
                return std::move(o);
            }
            if(auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "Ref"; o["dk"] = "enum"; o["q"] = qname(EC); setInt(o, EC->getInitVal());
                return std::move(o);
            }
            o["b"] = expr(x->getBase());
            o["arrow"] = x->isArrow();
            if(auto *F = dyn_cast<FieldDecl>(D)) {
                o["cls"] = typeId(C.getRecordType(F->getParent()));
                if(F->isAnonymousStructOrUnion()) o["anon"] = true;
            } else if(auto *M = dyn_cast<FunctionDecl>(D)) { o["meth"]=true; calleeInfo(o, M); }
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
            Obj o = node("Call", L);
            o["t"] = typeId(E->getType());
            o["op"] = getOperatorSpelling(x->getOperator());
            const FunctionDecl *F = x->getDirectCallee();
            if(F) calleeInfo(o, F);
            unsigned from = 0;
            if(F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = expr(x->getArg(0)); from = 1; }
            o["args"] = callArgs(x, from);
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
            Obj o = node("Call", L);
            o["t"] = typeId(E->getType());
            const CXXMethodDecl *M = x->getMethodDecl();
            if(M) calleeInfo(o, M);
            const Expr *callee = x->getCallee()->IgnoreParens();
            if(auto *ME = dyn_cast<MemberExpr>(callee)) {
                o["arrow"] = ME->isArrow();
                if(M && M->isVirtual() && ME->performsVirtualDispatch(C.getLangOpts())) o["virt"] = true;
                o["obj"] = expr(ME->getBase());
                o["objt"] = typeId(ME->getBase()->getType());
            } else {
                o["callee"] = expr(x->getCallee());
                if(x->getImplicitObjectArgument()) o["obj"] = expr(x->getImplicitObjectArgument());
            }
            o["args"] = callArgs(x);
            return std::move(o);
        }
        if(auto *x = dyn_cast<CallExpr>(E)) {
            Obj o = node("Call", L);
            o["t"] = typeId(E->getType());
            if(const FunctionDecl *F = x->getDirectCallee()) {
                calleeInfo(o, F);
                if(auto *M = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) (void)M;
            } else o["callee"] = expr(x->getCallee());
            o["args"] = callArgs(x);
            addCV(o, E);
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXConstructExpr>(E)) {
            // elidable copies of temporaries are transparent
            const CXXConstructorDecl *K = x->getConstructor();
            if(x->isElidable() && x->getNumArgs()>=1 && K->isCopyOrMoveConstructor()) return expr(x->getArg(0));
            Obj o = node("Ctor", L);
            o["t"] = typeId(E->getType());
            calleeInfo(o, K);
            o["cls"] = typeId(C.getRecordType(K->getParent()));
            if(K->isCopyConstructor()) o["copy"] = true;
            else if(K->isMoveConstructor()) o["move"] = true;
            else if(K->isDefaultConstructor()) o["dflt"] = true;
            if(x->requiresZeroInitialization()) o["zero"] = true;
            o["args"] = callArgs(x);
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Obj o = node("Other", L); o["cls"]=x->getStmtClassName(); return std::move(o); }
        if(auto *x = dyn_cast<UnaryOperator>(E)) {
            Obj o = node("Un", L);
            o["t"] = typeId(E->getType());
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if(x->isPostfix()) op = "p"+op;
            o["op"] = op;
            addCV(o, E);
            o["e"] = expr(x->getSubExpr());
            return std::move(o);
        }
        if(auto *x = dyn_cast<BinaryOperator>(E)) {
            Obj o = node("Bin", L);
            o["t"] = typeId(E->getType());
            o["op"] = x->getOpcodeStr().str();
            addCV(o, E);
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            return std::move(o);
        }
        if(auto *x = dyn_cast<AbstractConditionalOperator>(E)) {
            Obj o = node("Cond", L);
            o["t"] = typeId(E->getType());
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return std::move(o);
        }
        if(auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
            Obj o = node("Sub", L);
            o["t"] = typeId(E->getType());
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            QualType BT = x->getBase()->IgnoreParenImpCasts()->getType();
            if(auto *CA = C.getAsConstantArrayType(BT)) o["alen"] = (int64_t)CA->getSize().getZExtValue();
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXNewExpr>(E)) {
            Obj o = node("New", L);
            o["t"] = typeId(E->getType());
            o["at"] = typeId(x->getAllocatedType());
            if(x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
            if(x->getInitializer()) o["init"] = expr(x->getInitializer());
            Arr pl; for(unsigned i=0;i<x->getNumPlacementArgs();i++) pl.push_back(expr(x->getPlacementArg(i)));
            if(!pl.empty()) o["place"] = std::move(pl);
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXDeleteExpr>(E)) {
            Obj o = node("Del", L);
            o["e"] = expr(x->getArgument());
            o["arr"] = x->isArrayForm();
            o["dt"] = typeId(x->getDestroyedType());
            addDtor(o, x->getDestroyedType());
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXThrowExpr>(E)) {
            Obj o = node("Throw", L);
            if(x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); o["tt"] = typeId(x->getSubExpr()->getType()); }
            return std::move(o);
        }
        if(auto *x = dyn_cast<ExplicitCastExpr>(E)) {
            Obj o = node("Cast", L);
            o["t"] = typeId(E->getType());
            o["cs"] = x->getStmtClassName();
            o["ck"] = x->getCastKindName();
            o["ft"] = typeId(x->getSubExpr()->getType());
            addCV(o, E);
            o["e"] = expr(x->getSubExpr());
            return std::move(o);
        }
        if(auto *x = dyn_cast<InitListExpr>(E)) {
            Obj o = node("Init", L);
            o["t"] = typeId(E->getType());
            Arr a; for(unsigned i=0;i<x->getNumInits();i++) a.push_back(expr(x->getInit(i)));
            o["c"] = std::move(a);
            return std::move(o);
        }
        if(isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            Obj o = node("Zero", L); o["t"]=typeId(E->getType()); return std::move(o);
        }
        if(auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Obj o = node("SizeOf", L); o["t"]=typeId(E->getType()); addCV(o, E);
            o["at"] = typeId(x->getTypeOfArgument());
            return std::move(o);
        }
        if(auto *x = dyn_cast<LambdaExpr>(E)) {
            Obj o = node("Lambda", L); o["t"]=typeId(E->getType());
            o["fn"] = usr(x->getCallOperator());
            o["body"] = stmt(x->getBody());
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXTypeidExpr>(E)) {
            Obj o = node("TypeId", L); o["t"]=typeId(E->getType());
            if(!x->isTypeOperand()) o["e"] = expr(x->getExprOperand());
            return std::move(o);
        }
        if(auto *x = dyn_cast<ArrayInitLoopExpr>(E)) { Obj o = node("ArrInitLoop", L); o["t"]=typeId(E->getType()); o["e"]=expr(x->getCommonExpr()); return std::move(o); }
        Obj o = node("Other", L);
        o["cls"] = E->getStmtClassName();
        o["t"] = typeId(E->getType());
        addCV(o, E);
        Arr a;
        for(const Stmt *S : E->children()) if(auto *X = dyn_cast_or_null<Expr>(S)) a.push_back(expr(X));
        o["c"] = std::move(a);
        return std::move(o);
    }
    void addCVvar(Obj &o, const Expr *E) {
        if(E->isValueDependent()) return;
        if(!E->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if(E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) setInt(o, R.Val.getInt());
    }

    json::Value stmt(const Stmt *S) {
        if(!S) return nil();
        if(auto *E = dyn_cast<Expr>(S)) {
            Obj o = node("Expr", E->getBeginLoc()); o["e"] = expr(E); return std::move(o);
        }
        SourceLocation L = S->getBeginLoc();
        if(auto *x = dyn_cast<CompoundStmt>(S)) {
            Obj o = node("Block", L); Arr a;
            for(auto *c : x->body()) a.push_back(stmt(c));
            o["c"] = std::move(a); o["el"] = lineOf(x->getRBracLoc());
            return std::move(o);
        }
        if(auto *x = dyn_cast<DeclStmt>(S)) {
            Obj o = node("Decl", L); Arr a;
            for(auto *d : x->decls()) {
                if(auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
            }
            o["c"] = std::move(a);
            return std::move(o);
        }
        if(auto *x = dyn_cast<IfStmt>(S)) {
            Obj o = node("If", L);
            if(x->isConstexpr()) o["cx"] = true;
            if(x->getInit()) o["init"] = stmt(x->getInit());
            if(x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse());
            return std::move(o);
        }
        if(auto *x = dyn_cast<WhileStmt>(S)) {
            Obj o = node("While", L);
            if(x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return std::move(o);
        }
        if(auto *x = dyn_cast<DoStmt>(S)) {
            Obj o = node("Do", L); o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return std::move(o);
        }
        if(auto *x = dyn_cast<ForStmt>(S)) {
            Obj o = node("For", L);
            o["init"] = stmt(x->getInit()); 
            if(x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody());
            return std::move(o);
        }
        if(auto *x = dyn_cast<CXXForRangeStmt>(S)) {
            Obj o = node("ForRange", L);
            o["range"] = expr(x->getRangeInit()); o["var"] = varDecl(x->getLoopVariable()); o["body"] = stmt(x->getBody());
            return std::move(o);
        }
        if(auto *x = dyn_cast<SwitchStmt>(S)) {
            Obj o = node("Switch", L);
            if(x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody());
            if(x->isAllEnumCasesCovered()) o["full"] = true;
            return std::move(o);
        }
        if(auto *x = dyn_cast<CaseStmt>(S)) {
            Obj o = node("Case", L); o["v"] = expr(x->getLHS());
            Expr::EvalResult R;
            if(!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(R, C)) setInt(o, R.Val.getInt());
            o["s"] = stmt(x->getSubStmt()); return std::move(o);
        }
        if(auto *x = dyn_cast<DefaultStmt>(S)) { Obj o = node("Default", L); o["s"] = stmt(x->getSubStmt()); return std::move(o); }
        if(isa<BreakStmt>(S)) return node("Break", L);
        if(isa<ContinueStmt>(S)) return node("Continue", L);
        if(isa<NullStmt>(S)) return node("Null", L);
        if(auto *x = dyn_cast<ReturnStmt>(S)) { Obj o = node("Ret", L); if(x->getRetValue()) o["e"] = expr(x->getRetValue()); return std::move(o); }
        if(auto *x = dyn_cast<GotoStmt>(S)) { Obj o = node("Goto", L); o["n"] = x->getLabel()->getNameAsString(); return std::move(o); }
        if(auto *x = dyn_cast<LabelStmt>(S)) { Obj o = node("Label", L); o["n"] = x->getDecl()->getNameAsString(); o["s"] = stmt(x->getSubStmt()); return std::move(o); }
        if(auto *x = dyn_cast<CXXTryStmt>(S)) {
            Obj o = node("Try", L);
            o["body"] = stmt(x->getTryBlock());
            Arr h;
            for(unsigned i=0;i<x->getNumHandlers();i++) {
                const CXXCatchStmt *K = x->getHandler(i);
                Obj c = node("Catch", K->getBeginLoc());
                if(K->getExceptionDecl()) { c["var"] = varDecl(K->getExceptionDecl()); c["t"] = typeId(K->getCaughtType()); }
                c["body"] = stmt(K->getHandlerBlock());
                h.push_back(std::move(c));
            }
            o["h"] = std::move(h);
            return std::move(o);
        }
        if(auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
        Obj o = node("OtherS", L); o["cls"] = S->getStmtClassName();
        return std::move(o);
    }

    void globalVar(const VarDecl *V) {
        V = V->getCanonicalDecl();
        if(!doneVar.insert(V).second) return;
        const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
        Obj o;
        o["usr"] = usr(V); o["q"] = qname(V); o["n"] = V->getNameAsString();
        o["t"] = typeId(V->getType());
        o["f"] = realFile(Def->getLocation()); o["l"] = lineOf(Def->getLocation());
        o["repo"] = inRoots(Def->getLocation()) || inRoots(V->getLocation());
        o["const"] = V->getType().isConstQualified() || V->isConstexpr() ||
             (C.getAsArrayType(V->getType()) && C.getBaseElementType(V->getType()).isConstQualified());
        o["tls"] = V->getTLSKind()!=VarDecl::TLS_None;
        o["slocal"] = V->isStaticLocal();
        if(bool(inRoots(Def->getLocation())) && Def->hasInit() && !Def->getType()->isDependentType() && !Def->getInit()->isValueDependent())
            o["init"] = expr(Def->getInit());
        globals.push_back(std::move(o));
    }

    void enm(const EnumDecl *E) {
        Obj o; o["q"] = qname(E); o["f"] = realFile(E->getLocation()); o["l"] = lineOf(E->getLocation());
        Arr vs;
        for(auto *k : E->enumerators()) { Arr p; p.push_back(k->getNameAsString()); p.push_back((int64_t)k->getInitVal().getExtValue()); vs.push_back(std::move(p)); }
        o["vals"] = std::move(vs);
        enums.push_back(std::move(o));
    }

    void cls(const CXXRecordDecl *R) {
        if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isInvalidDecl()) return;
        if(!inRoots(R->getLocation())) return;
        if(!doneCls.insert(R).second) return;
        Obj o;
        o["usr"] = usr(R); o["q"] = qname(R); o["ty"] = typeId(C.getRecordType(R));
        o["f"] = realFile(R->getLocation()); o["l"] = lineOf(R->getLocation());
        o["abstract"] = R->isAbstract();
        o["union"] = R->isUnion();
        o["poly"] = R->isPolymorphic();
        Arr bs;
        for(auto &b : R->bases()) bs.push_back(typeId(b.getType()));
        o["bases"] = std::move(bs);
        Arr fs;
        for(auto *f : R->fields()) {
            Obj x; x["n"] = f->getNameAsString(); x["t"] = typeId(f->getType()); x["l"] = lineOf(f->getLocation());
            if(f->isMutable()) x["mut"] = true;
            if(f->hasInClassInitializer()) x["ici"] = true;
            QualType T = f->getType().getCanonicalType();
            x["pod"] = T.isPODType(C);
            x["acc"] = (int)f->getAccess();
            if(auto *SP = dyn_cast_or_null<ClassTemplateSpecializationDecl>(T->getAsCXXRecordDecl())) {
                // size of a container's element
                if(SP->getTemplateArgs().size() && SP->getTemplateArgs()[0].getKind()==TemplateArgument::Type) {
                    QualType ET = SP->getTemplateArgs()[0].getAsType();
                    if(!ET->isDependentType() && !ET->isIncompleteType() && !ET->isFunctionType() && !ET->isVoidType())
                        x["esz"] = (int64_t)C.getTypeSizeInChars(ET).getQuantity();
                }
            }
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        Arr ms;
        for(auto *m : R->methods()) {
            Obj x; x["usr"] = usr(m); x["n"] = m->getNameAsString(); x["virt"] = m->isVirtual(); x["pure"] = m->isPureVirtual();
            x["const"] = m->isConst(); x["static"] = m->isStatic(); x["acc"] = (int)m->getAccess(); x["l"]=lineOf(m->getLocation());
            x["impl"] = m->isImplicit(); x["ut"] = m->isUserProvided(); x["del"] = m->isDeleted();
            x["ft"] = typeId(m->getType());
            if(isa<CXXConstructorDecl>(m)) { x["ctor"] = true; auto *k=cast<CXXConstructorDecl>(m); x["copy"]=k->isCopyConstructor(); }
            if(isa<CXXDestructorDecl>(m)) x["dtor"] = true;
            if(m->isCopyAssignmentOperator()) x["casg"] = true;
            Arr ov; for(auto *b : m->overridden_methods()) ov.push_back(usr(b));
            x["over"] = std::move(ov);
            ms.push_back(std::move(x));
        }
        o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
    }

    void fn(const FunctionDecl *F) {
        if(!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if(F->isDependentContext() || F->isInvalidDecl()) return;
        if(!F->hasBody()) return;
        if(!inRoots(F->getLocation())) return;
        const FunctionDecl *Def = nullptr;
        if(!F->hasBody(Def) || Def!=F) return;
        if(!doneFn.insert(F).second) return;
        Obj o;
        calleeInfo(o, F);
        o["usr"] = usr(F);
        o["full"] = fullname(F);
        o["f"] = realFile(F->getLocation()); o["l"] = lineOf(F->getLocation());
        o["el"] = lineOf(F->getBodyRBrace());
        o["rt"] = typeId(F->getReturnType());
        o["access"] = (int)F->getAccess();
        o["static"] = F->getStorageClass()==SC_Static || !F->isExternallyVisible();
        Arr ps;
        for(auto *p : F->parameters()) {
            Obj x; x["id"] = localId(p); x["n"] = p->getNameAsString(); x["t"] = typeId(p->getType()); ps.push_back(std::move(x));
        }
        o["params"] = std::move(ps);
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["method"] = true; o["virtual"] = M->isVirtual();
            Arr ov; for(auto *b : M->overridden_methods()) ov.push_back(usr(b));
            o["over"] = std::move(ov);
        }
        if(auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true; o["copy"] = K->isCopyConstructor(); 
            Arr in;
            for(auto *i : K->inits()) {
                Obj x; x["l"] = lineOf(i->getSourceLocation()); x["written"] = i->isWritten();
                if(i->isAnyMemberInitializer()) x["f"] = i->getAnyMember()->getNameAsString();
                else if(i->isBaseInitializer()) x["base"] = typeId(QualType(i->getBaseClass(),0));
                else x["deleg"] = true;
                x["e"] = expr(i->getInit());
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        if(isa<CXXDestructorDecl>(F)) o["dtorf"] = true;
        if(F->isExternC()) o["extc"] = true;
        o["body"] = stmt(F->getBody());
        functions.push_back(std::move(o));
    }
};

struct Visitor : public RecursiveASTVisitor<Visitor> {
    Dumper &D;
    explicit Visitor(Dumper &d) :D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { D.fn(F); return true; }
    bool VisitEnumDecl(EnumDecl *E) { if(E->isThisDeclarationADefinition() && D.inRoots(E->getLocation()) && !E->getDeclContext()->isDependentContext()) D.enm(E); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.cls(R); return true; }
    bool VisitVarDecl(VarDecl *V) {
        if(V->hasGlobalStorage() && !V->getType()->isDependentType() && D.inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext())
            D.globalVar(V);
        return true;
    }
};

struct Consumer : public ASTConsumer {
    CompilerInstance &CI; 
    explicit Consumer(CompilerInstance &ci) :CI(ci) {}
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if(CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(Ctx);
        Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        Obj top;
        top["functions"] = std::move(D.functions);
        top["classes"] = std::move(D.classes);
        top["enums"] = std::move(D.enums);
        top["globals"] = std::move(D.globals);
        top["tk"] = std::move(D.recArr);
        top["types"] = std::move(D.typeArr);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(top));
    }
};
struct Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};

// usage: fdump OUT.json ROOT[,ROOT...] -- file.cpp flags...
int main(int argc, char **argv) {
    if(argc<5) { std::cerr<<"usage\n"; return 2; }
    gOut = argv[1];
    { std::stringstream ss(argv[2]); std::string r; while(std::getline(ss, r, ',')) gRoots.push_back(r); }
    std::string file = argv[4];
    std::vector<std::string> flags;
    for(int i=5;i<argc;i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    T.setPrintErrorMessage(true);
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
