// egx: extracts the resolved program (type-checked AST) of the translation unit
// it is given as JSON, for the analyses in /verif/eg.  It executes nothing of
// the analysed code.  Only declarations located under the given root are emitted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using namespace llvm;
namespace J = llvm::json;

static cl::OptionCategory Cat("egx");
static cl::opt<std::string> Root("root", cl::desc("source root"), cl::init("/repo"), cl::cat(Cat));
static cl::opt<std::string> Out("out", cl::desc("output file"), cl::init("-"), cl::cat(Cat));

namespace {

class Emitter {
  public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> typeIdx;
    J::Array types;
    std::map<const Decl *, int> declId;
    int nextId = 1;

    explicit Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressScope = false;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }

    std::string typeStr(QualType T)
    {
        if (T.isNull())
            return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    int type(QualType T)
    {
        std::string S = typeStr(T);
        auto It = typeIdx.find(S);
        if (It != typeIdx.end())
            return It->second;
        int I = (int)types.size();
        types.push_back(S);
        typeIdx[S] = I;
        return I;
    }
    static std::string usr(const Decl *D)
    {
        SmallString<256> Buf;
        if (isa<FunctionDecl>(D))
            D = D->getCanonicalDecl(); // top-level const on parameters differs between redeclarations
        if (index::generateUSRForDecl(D, Buf))
            return "";
        return std::string(Buf.str());
    }
    int id(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto It = declId.find(D);
        if (It != declId.end())
            return It->second;
        return declId[D] = nextId++;
    }
    std::string file(SourceLocation L)
    {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
        if (P.isInvalid())
            return "";
        SmallString<256> Path(P.getFilename());
        // make absolute + canonical
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) {
            StringRef R = FE->getFileEntry().tryGetRealPathName();
            if (!R.empty())
                return R.str();
        }
        return std::string(Path.str());
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        std::string F = file(L);
        return StringRef(F).starts_with(Root.getValue() + "/");
    }
    std::string qname(const NamedDecl *D)
    {
        std::string S;
        raw_string_ostream OS(S);
        PrintingPolicy P = PP;
        P.SuppressUnwrittenScope = true;
        D->printQualifiedName(OS, P);
        return OS.str();
    }

    // ---------------------------------------------------------------- exprs
    J::Value fnref(const FunctionDecl *F, J::Object &O)
    {
        O["f"] = usr(F);
        O["n"] = qname(F);
        return nullptr;
    }

    J::Value exprs(ArrayRef<const Expr *> A)
    {
        J::Array R;
        for (auto *E : A)
            R.push_back(expr(E));
        return R;
    }
    template <typename It> J::Value exprRange(It B, It E)
    {
        J::Array R;
        for (; B != E; ++B)
            R.push_back(expr(cast_or_null<Expr>(*B)));
        return R;
    }

    // constructor reached by std::make_unique / make_shared style factories
    const CXXConstructExpr *findNewCtor(const Stmt *S)
    {
        if (!S)
            return nullptr;
        if (auto *N = dyn_cast<CXXNewExpr>(S))
            return N->getConstructExpr();
        for (auto *Ch : S->children())
            if (auto *R = findNewCtor(Ch))
                return R;
        return nullptr;
    }

    J::Object node(const char *K, const Expr *E)
    {
        J::Object O;
        O["k"] = K;
        if (E) {
            O["t"] = type(E->getType());
            O["l"] = line(E->getExprLoc());
        }
        return O;
    }

    J::Value expr(const Expr *E)
    {
        if (!E)
            return nullptr;
        // transparent wrappers
        while (true) {
            if (auto *X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<ExprWithCleanups>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<ConstantExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
                E = X->getExpr();
            else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
                if (!X->getSourceExpr())
                    break;
                E = X->getSourceExpr();
            } else
                break;
        }
        switch (E->getStmtClass()) {
        case Stmt::CXXDefaultArgExprClass: {
            auto O = node("defarg", E);
            O["e"] = expr(cast<CXXDefaultArgExpr>(E)->getExpr());
            return O;
        }
        case Stmt::IntegerLiteralClass: {
            auto O = node("int", E);
            SmallString<40> S;
            cast<IntegerLiteral>(E)->getValue().toString(
              S, 10, E->getType()->isSignedIntegerType());
            O["v"] = std::string(S.str());
            return O;
        }
        case Stmt::CharacterLiteralClass: {
            auto O = node("int", E);
            O["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue());
            return O;
        }
        case Stmt::FloatingLiteralClass: {
            auto O = node("float", E);
            SmallString<40> S;
            cast<FloatingLiteral>(E)->getValue().toString(S);
            O["v"] = std::string(S.str());
            return O;
        }
        case Stmt::StringLiteralClass: {
            auto O = node("str", E);
            auto *SL = cast<clang::StringLiteral>(E);
            std::string V = SL->isOrdinary() || SL->isUTF8() ? SL->getString().str() : "?wide";
            O["v"] = J::isUTF8(V) ? V : J::fixUTF8(V);
            return O;
        }
        case Stmt::PredefinedExprClass: {
            auto O = node("str", E);
            O["v"] = "__func__";
            return O;
        }
        case Stmt::CXXBoolLiteralExprClass: {
            auto O = node("bool", E);
            O["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
            return O;
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            return node("null", E);
        case Stmt::CXXThisExprClass:
            return node("this", E);
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(E)->getDecl();
            auto O = node("ref", E);
            O["n"] = qname(D);
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                O["dk"] = "func";
                O["f"] = usr(F);
            } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["dk"] = "enum";
                SmallString<40> S;
                EC->getInitVal().toString(S, 10);
                O["v"] = std::string(S.str());
            } else if (auto *V = dyn_cast<VarDecl>(D)) {
                if (isa<ParmVarDecl>(V))
                    O["dk"] = "param";
                else if (V->isLocalVarDecl() && !V->isStaticLocal())
                    O["dk"] = "local";
                else if (V->isStaticLocal()) {
                    O["dk"] = "static";
                    O["u"] = usr(V);
                } else {
                    O["dk"] = "global";
                    O["u"] = usr(V);
                }
                O["id"] = id(V);
            } else if (isa<BindingDecl>(D)) {
                O["dk"] = "binding";
                O["id"] = id(D);
            } else
                O["dk"] = "other";
            return O;
        }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(E);
            auto O = node("mem", E);
            O["b"] = expr(M->getBase());
            O["n"] = qname(M->getMemberDecl());
            O["m"] = M->getMemberDecl()->getNameAsString();
            O["arrow"] = M->isArrow();
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
                O["f"] = usr(F);
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                O["u"] = usr(V);
                O["static"] = true;
            }
            return O;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *X = cast<CXXOperatorCallExpr>(E);
            auto O = node("call", E);
            O["op"] = getOperatorSpelling(X->getOperator());
            unsigned I = 0;
            if (auto *F = X->getDirectCallee()) {
                fnref(F, O);
                if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
                    if (!M->isStatic()) {
                        O["o"] = expr(X->getArg(0));
                        O["cm"] = M->isConst();
                        I = 1;
                    }
                }
            } else
                O["fe"] = expr(X->getCallee());
            J::Array A;
            for (; I < X->getNumArgs(); ++I)
                A.push_back(expr(X->getArg(I)));
            O["a"] = std::move(A);
            return O;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *X = cast<CXXMemberCallExpr>(E);
            auto O = node("call", E);
            if (auto *M = X->getMethodDecl()) {
                fnref(M, O);
                O["cm"] = M->isConst();
                bool Qual = false;
                if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                    Qual = ME->hasQualifier();
                    if (ME->isArrow())
                        O["arrow"] = true;
                }
                if (M->isVirtual() && !Qual)
                    O["virt"] = true;
            } else
                O["fe"] = expr(X->getCallee());
            O["o"] = expr(X->getImplicitObjectArgument());
            O["a"] = exprRange(X->arg_begin(), X->arg_end());
            return O;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *X = cast<CallExpr>(E);
            auto O = node("call", E);
            if (auto *F = X->getDirectCallee()) {
                fnref(F, O);
                if (F->isNoReturn())
                    O["noret"] = true;
                StringRef N = F->getIdentifier() ? F->getName() : "";
                if (F->isInStdNamespace() && (N == "make_unique" || N == "make_shared")) {
                    if (auto *TA = F->getTemplateSpecializationArgs())
                        if (TA->size() && TA->get(0).getKind() == TemplateArgument::Type)
                            O["mk"] = typeStr(TA->get(0).getAsType());
                    const FunctionDecl *Def = nullptr;
                    if (F->hasBody(Def) && Def)
                        if (auto *CE = findNewCtor(Def->getBody()))
                            O["ctor"] = usr(CE->getConstructor());
                }
            } else
                O["fe"] = expr(X->getCallee());
            O["a"] = exprRange(X->arg_begin(), X->arg_end());
            return O;
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *X = cast<CXXConstructExpr>(E);
            auto O = node("ctor", E);
            auto *CD = X->getConstructor();
            fnref(CD, O);
            O["cls"] = qname(CD->getParent());
            if (CD->isCopyConstructor())
                O["cp"] = "copy";
            else if (CD->isMoveConstructor())
                O["cp"] = "move";
            if (X->isListInitialization())
                O["list"] = true;
            if (X->isStdInitListInitialization())
                O["il"] = true;
            O["a"] = exprRange(X->arg_begin(), X->arg_end());
            return O;
        }
        case Stmt::CXXInheritedCtorInitExprClass:
            return node("inhctor", E);
        case Stmt::CXXNewExprClass: {
            auto *X = cast<CXXNewExpr>(E);
            auto O = node("new", E);
            O["at"] = type(X->getAllocatedType());
            if (X->isArray()) {
                O["arr"] = true;
                if (X->getArraySize())
                    O["n"] = expr(*X->getArraySize());
            }
            O["e"] = expr(X->getInitializer());
            return O;
        }
        case Stmt::CXXDeleteExprClass: {
            auto *X = cast<CXXDeleteExpr>(E);
            auto O = node("delete", E);
            O["arr"] = X->isArrayForm();
            O["e"] = expr(X->getArgument());
            return O;
        }
        case Stmt::CXXThrowExprClass: {
            auto O = node("throw", E);
            O["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
            return O;
        }
        case Stmt::UnaryOperatorClass: {
            auto *X = cast<UnaryOperator>(E);
            auto O = node("un", E);
            std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix())
                Op = "p" + Op;
            O["op"] = Op;
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        case Stmt::CompoundAssignOperatorClass:
        case Stmt::BinaryOperatorClass: {
            auto *X = cast<BinaryOperator>(E);
            auto O = node(X->isAssignmentOp() ? "asg" : "bin", E);
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            return O;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
        case Stmt::BinaryConditionalOperatorClass:
        case Stmt::ConditionalOperatorClass: {
            auto *X = cast<AbstractConditionalOperator>(E);
            auto O = node("cond", E);
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
            return O;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto *X = cast<ArraySubscriptExpr>(E);
            auto O = node("sub", E);
            O["a"] = expr(X->getBase());
            O["b"] = expr(X->getIdx());
            return O;
        }
        case Stmt::InitListExprClass: {
            auto *X = cast<InitListExpr>(E);
            if (X->isSemanticForm() == false && X->getSemanticForm())
                X = X->getSemanticForm();
            auto O = node("init", E);
            O["a"] = exprRange(X->begin(), X->end());
            if (X->hasArrayFiller())
                O["fill"] = true;
            return O;
        }
        case Stmt::CompoundLiteralExprClass:
            return expr(cast<CompoundLiteralExpr>(E)->getInitializer());
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            return node("zero", E);
        case Stmt::UnaryExprOrTypeTraitExprClass: {
            auto *X = cast<UnaryExprOrTypeTraitExpr>(E);
            auto O = node("sizeof", E);
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                SmallString<40> S;
                R.Val.getInt().toString(S, 10);
                O["v"] = std::string(S.str());
            }
            if (X->isArgumentType())
                O["at"] = type(X->getArgumentType());
            else
                O["e"] = expr(X->getArgumentExpr());
            return O;
        }
        case Stmt::LambdaExprClass: {
            auto *X = cast<LambdaExpr>(E);
            auto O = node("lambda", E);
            O["u"] = usr(X->getCallOperator());
            J::Array Caps;
            auto CI = X->capture_init_begin();
            for (auto &Cap : X->captures()) {
                J::Object CO;
                if (Cap.capturesThis())
                    CO["this"] = true;
                else if (Cap.capturesVariable()) {
                    CO["id"] = id(Cap.getCapturedVar());
                    CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
                    if (cast<VarDecl>(Cap.getCapturedVar())->isInitCapture())
                        CO["init"] = expr(*CI);
                }
                Caps.push_back(std::move(CO));
                ++CI;
            }
            O["caps"] = std::move(Caps);
            O["ps"] = params(X->getCallOperator());
            O["rt"] = type(X->getCallOperator()->getReturnType());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::StmtExprClass: {
            auto O = node("stmtexpr", E);
            O["b"] = stmt(cast<StmtExpr>(E)->getSubStmt());
            return O;
        }
        case Stmt::CXXTypeidExprClass:
            return node("typeid", E);
        case Stmt::CXXNoexceptExprClass:
        case Stmt::TypeTraitExprClass: {
            auto O = node("bool", E);
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C))
                O["v"] = R.Val.getInt() != 0;
            return O;
        }
        default:
            break;
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            auto CK = X->getCastKind();
            bool Explicit = isa<ExplicitCastExpr>(X);
            switch (CK) {
            case CK_LValueToRValue:
            case CK_NoOp:
            case CK_ArrayToPointerDecay:
            case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
                if (!Explicit || CK == CK_ConstructorConversion || CK == CK_UserDefinedConversion)
                    return expr(X->getSubExpr());
                break;
            default:
                break;
            }
            auto O = node("cast", E);
            O["ck"] = X->getCastKindName();
            if (Explicit) {
                O["x"] = isa<CXXStaticCastExpr>(X)        ? "static"
                         : isa<CXXReinterpretCastExpr>(X) ? "reinterpret"
                         : isa<CXXConstCastExpr>(X)       ? "const"
                         : isa<CXXDynamicCastExpr>(X)     ? "dynamic"
                                                          : "c";
                O["wt"] = cast<ExplicitCastExpr>(X)->getTypeAsWritten().getAsString(PP);
            }
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        auto O = node("other", E);
        O["sc"] = E->getStmtClassName();
        J::Array A;
        for (auto *Ch : E->children())
            if (auto *CE = dyn_cast_or_null<Expr>(Ch))
                A.push_back(expr(CE));
        O["a"] = std::move(A);
        return O;
    }

    // ---------------------------------------------------------------- stmts
    J::Value var(const VarDecl *V)
    {
        J::Object O;
        O["id"] = id(V);
        O["n"] = V->getNameAsString();
        O["t"] = type(V->getType());
        O["l"] = line(V->getLocation());
        if (V->isStaticLocal()) {
            O["static"] = true;
            O["u"] = usr(V);
        }
        if (V->getTSCSpec() != TSCS_unspecified)
            O["tls"] = true;
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            J::Array B;
            for (auto *BD : DD->bindings()) {
                J::Object BO;
                BO["id"] = id(BD);
                BO["n"] = BD->getNameAsString();
                if (BD->getBinding())
                    BO["e"] = expr(BD->getBinding());
                B.push_back(std::move(BO));
            }
            O["bind"] = std::move(B);
        }
        if (V->hasInit())
            O["i"] = expr(V->getInit());
        return O;
    }

    J::Value stmt(const Stmt *S)
    {
        if (!S)
            return nullptr;
        if (auto *E = dyn_cast<Expr>(S))
            return expr(E);
        J::Object O;
        O["l"] = line(S->getBeginLoc());
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            O["k"] = "block";
            O["le"] = line(S->getEndLoc());
            J::Array A;
            for (auto *Ch : cast<CompoundStmt>(S)->body())
                A.push_back(stmt(Ch));
            O["c"] = std::move(A);
            return O;
        }
        case Stmt::DeclStmtClass: {
            O["k"] = "decl";
            J::Array A;
            for (auto *D : cast<DeclStmt>(S)->decls())
                if (auto *V = dyn_cast<VarDecl>(D))
                    A.push_back(var(V));
            O["vars"] = std::move(A);
            return O;
        }
        case Stmt::IfStmtClass: {
            auto *X = cast<IfStmt>(S);
            O["k"] = "if";
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen());
            O["b"] = stmt(X->getElse());
            return O;
        }
        case Stmt::ForStmtClass: {
            auto *X = cast<ForStmt>(S);
            O["k"] = "for";
            O["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["inc"] = expr(X->getInc());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::WhileStmtClass: {
            auto *X = cast<WhileStmt>(S);
            O["k"] = "while";
            if (X->getConditionVariable())
                O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::DoStmtClass: {
            auto *X = cast<DoStmt>(S);
            O["k"] = "do";
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *X = cast<CXXForRangeStmt>(S);
            O["k"] = "rfor";
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            O["v"] = var(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::ReturnStmtClass:
            O["k"] = "ret";
            O["e"] = expr(cast<ReturnStmt>(S)->getRetValue());
            return O;
        case Stmt::CXXTryStmtClass: {
            auto *X = cast<CXXTryStmt>(S);
            O["k"] = "try";
            O["b"] = stmt(X->getTryBlock());
            J::Array H;
            for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
                auto *Hd = X->getHandler(I);
                J::Object HO;
                if (Hd->getExceptionDecl())
                    HO["v"] = var(Hd->getExceptionDecl());
                if (!Hd->getCaughtType().isNull())
                    HO["t"] = type(Hd->getCaughtType());
                else
                    HO["all"] = true;
                HO["b"] = stmt(Hd->getHandlerBlock());
                HO["l"] = line(Hd->getBeginLoc());
                H.push_back(std::move(HO));
            }
            O["h"] = std::move(H);
            return O;
        }
        case Stmt::SwitchStmtClass: {
            auto *X = cast<SwitchStmt>(S);
            O["k"] = "switch";
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        case Stmt::CaseStmtClass: {
            auto *X = cast<CaseStmt>(S);
            O["k"] = "case";
            O["v"] = expr(X->getLHS());
            Expr::EvalResult R;
            if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) {
                SmallString<40> SS;
                R.Val.getInt().toString(SS, 10);
                O["iv"] = std::string(SS.str());
            }
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        case Stmt::DefaultStmtClass:
            O["k"] = "default";
            O["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
            return O;
        case Stmt::BreakStmtClass:
            O["k"] = "break";
            return O;
        case Stmt::ContinueStmtClass:
            O["k"] = "continue";
            return O;
        case Stmt::NullStmtClass:
            O["k"] = "nop";
            return O;
        case Stmt::GotoStmtClass:
            O["k"] = "goto";
            O["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
            return O;
        case Stmt::LabelStmtClass:
            O["k"] = "label";
            O["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
            O["b"] = stmt(cast<LabelStmt>(S)->getSubStmt());
            return O;
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(S)->getSubStmt());
        default:
            break;
        }
        O["k"] = "otherstmt";
        O["sc"] = S->getStmtClassName();
        J::Array A;
        for (auto *Ch : S->children())
            A.push_back(stmt(Ch));
        O["c"] = std::move(A);
        return O;
    }

    J::Value params(const FunctionDecl *F)
    {
        J::Array A;
        for (auto *P : F->parameters()) {
            J::Object O;
            O["id"] = id(P);
            O["n"] = P->getNameAsString();
            O["t"] = type(P->getType());
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() &&
                !P->hasUnparsedDefaultArg())
                O["d"] = expr(P->getDefaultArg());
            A.push_back(std::move(O));
        }
        return A;
    }

    J::Value function(const FunctionDecl *F)
    {
        J::Object O;
        O["u"] = usr(F);
        O["n"] = qname(F);
        O["file"] = file(F->getLocation());
        O["l"] = line(F->getLocation());
        O["le"] = line(F->getEndLoc());
        O["rt"] = type(F->getReturnType());
        O["ps"] = params(F);
        if (F->isExternC())
            O["c"] = true;
        if (F->isStatic())
            O["static"] = true;
        if (!F->isExternallyVisible())
            O["internal"] = true;
        O["decl"] = file(F->getCanonicalDecl()->getLocation());
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
            auto EST = FPT->getExceptionSpecType();
            if (EST != EST_Unevaluated && EST != EST_Uninstantiated && EST != EST_Unparsed &&
                EST != EST_DependentNoexcept && FPT->canThrow() == CT_Cannot)
                O["noexcept"] = true;
        }
        if (F->isDefaulted())
            O["defaulted"] = true;
        if (F->isDeleted())
            O["deleted"] = true;
        if (F->isImplicit())
            O["implicit"] = true;
        if (F->isTemplateInstantiation())
            O["inst"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = qname(M->getParent());
            O["const"] = M->isConst();
            O["access"] = (int)M->getAccess();
            if (M->isVirtual())
                O["virtual"] = true;
            J::Array Ov;
            for (auto *B : M->overridden_methods())
                Ov.push_back(usr(B));
            if (!Ov.empty())
                O["ovr"] = std::move(Ov);
            if (M->isCopyAssignmentOperator())
                O["special"] = "copyassign";
            if (M->isMoveAssignmentOperator())
                O["special"] = "moveassign";
        }
        if (auto *D = dyn_cast<CXXDestructorDecl>(F)) {
            O["dtor"] = true;
            (void)D;
        }
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            O["ctor"] = true;
            if (CD->isCopyConstructor())
                O["special"] = "copyctor";
            if (CD->isMoveConstructor())
                O["special"] = "movector";
            J::Array In;
            for (auto *I : CD->inits()) {
                J::Object IO;
                if (I->isMemberInitializer() || I->isIndirectMemberInitializer())
                    IO["field"] = qname(I->getAnyMember());
                else if (I->isBaseInitializer())
                    IO["base"] = typeStr(QualType(I->getBaseClass(), 0));
                else
                    IO["deleg"] = true;
                IO["written"] = I->isWritten();
                IO["l"] = line(I->getSourceLocation());
                IO["e"] = expr(I->getInit());
                In.push_back(std::move(IO));
            }
            O["inits"] = std::move(In);
        }
        if (F->doesThisDeclarationHaveABody() && F->getBody())
            O["b"] = stmt(F->getBody());
        return O;
    }

    J::Value record(const RecordDecl *R)
    {
        J::Object O;
        O["n"] = qname(R);
        O["u"] = usr(R);
        O["file"] = file(R->getLocation());
        O["l"] = line(R->getLocation());
        J::Array Fs;
        for (auto *F : R->fields()) {
            J::Object FO;
            FO["n"] = qname(F);
            FO["m"] = F->getNameAsString();
            FO["t"] = type(F->getType());
            FO["l"] = line(F->getLocation());
            FO["mutable"] = F->isMutable();
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                FO["i"] = expr(F->getInClassInitializer());
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
            if (CR->hasDefinition()) {
                J::Array Bs;
                for (auto &B : CR->bases())
                    Bs.push_back(typeStr(B.getType()));
                O["bases"] = std::move(Bs);
                J::Array Ms;
                for (auto *M : CR->methods()) {
                    J::Object MO;
                    MO["n"] = qname(M);
                    MO["u"] = usr(M);
                    MO["t"] = type(M->getType());
                    MO["rt"] = type(M->getReturnType());
                    MO["access"] = (int)M->getAccess();
                    MO["static"] = M->isStatic();
                    MO["const"] = M->isConst();
                    MO["virtual"] = M->isVirtual();
                    MO["pure"] = M->isPureVirtual();
                    MO["implicit"] = M->isImplicit();
                    MO["defaulted"] = M->isDefaulted();
                    MO["deleted"] = M->isDeleted();
                    MO["l"] = line(M->getLocation());
                    J::Array Ps;
                    for (auto *P : M->parameters())
                        Ps.push_back(type(P->getType()));
                    MO["ps"] = std::move(Ps);
                    if (isa<CXXConstructorDecl>(M))
                        MO["ctor"] = true;
                    Ms.push_back(std::move(MO));
                }
                O["methods"] = std::move(Ms);
                J::Array Sv;
                for (auto *D : CR->decls())
                    if (auto *V = dyn_cast<VarDecl>(D)) {
                        J::Object VO;
                        VO["n"] = qname(V);
                        VO["u"] = usr(V);
                        VO["t"] = type(V->getType());
                        VO["l"] = line(V->getLocation());
                        Sv.push_back(std::move(VO));
                    }
                O["statics"] = std::move(Sv);
            }
        }
        return O;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  public:
    Emitter &Em;
    J::Array funcs, records, enums, globals, decls;
    std::set<const Decl *> seen;
    explicit Visitor(Emitter &E) : Em(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isDependentContext() || F->isTemplated())
            return true;
        if (!Em.inRoot(F->getLocation()))
            return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return true;
        if (F->isThisDeclarationADefinition() && !F->isDeleted()) {
            if (seen.insert(F).second)
                funcs.push_back(Em.function(F));
        } else if (F->isExternC() && !F->isDefined()) {
            if (seen.insert(F).second)
                decls.push_back(Em.function(F));
        } else if (F->isExternC() && F->isFirstDecl()) {
            if (seen.insert(F).second)
                decls.push_back(Em.function(F));
        }
        return true;
    }
    bool VisitRecordDecl(RecordDecl *R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext())
            return true;
        if (!Em.inRoot(R->getLocation()))
            return true;
        if (auto *CR = dyn_cast<CXXRecordDecl>(R))
            if (CR->isLambda())
                return true;
        records.push_back(Em.record(R));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E)
    {
        if (!E->isThisDeclarationADefinition() || !Em.inRoot(E->getLocation()))
            return true;
        J::Object O;
        O["n"] = Em.qname(E);
        if (auto *TD = E->getTypedefNameForAnonDecl())
            O["n"] = Em.qname(TD);
        O["file"] = Em.file(E->getLocation());
        O["l"] = Em.line(E->getLocation());
        J::Array A;
        for (auto *C : E->enumerators()) {
            J::Object CO;
            CO["n"] = Em.qname(C);
            SmallString<40> S;
            C->getInitVal().toString(S, 10);
            CO["v"] = std::string(S.str());
            A.push_back(std::move(CO));
        }
        O["c"] = std::move(A);
        enums.push_back(std::move(O));
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (V->isLocalVarDeclOrParm() || V->getDeclContext()->isDependentContext())
            return true;
        if (!V->isThisDeclarationADefinition() || !Em.inRoot(V->getLocation()))
            return true;
        J::Object O = *Em.var(V).getAsObject();
        O["n"] = Em.qname(V);
        O["u"] = Emitter::usr(V);
        O["file"] = Em.file(V->getLocation());
        O["const"] = V->getType().isConstQualified();
        globals.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override
    {
        Emitter Em(C);
        Visitor V(Em);
        V.TraverseDecl(C.getTranslationUnitDecl());
        J::Object O;
        O["main"] = Em.file(C.getSourceManager().getLocForStartOfFile(
          C.getSourceManager().getMainFileID()));
        O["errors"] = C.getDiagnostics().hasErrorOccurred();
        O["types"] = std::move(Em.types);
        O["funcs"] = std::move(V.funcs);
        O["decls"] = std::move(V.decls);
        O["records"] = std::move(V.records);
        O["enums"] = std::move(V.enums);
        O["globals"] = std::move(V.globals);
        std::error_code EC;
        if (Out == "-")
            outs() << J::Value(std::move(O)) << "\n";
        else {
            raw_fd_ostream OS(Out, EC);
            OS << J::Value(std::move(O)) << "\n";
        }
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char **argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) {
        errs() << P.takeError();
        return 2;
    }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
