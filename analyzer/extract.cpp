// Fact extractor for the QuantiT checks.
// Parses one translation unit of /repo with the project's flags and writes, as JSON, the resolved
// (type-checked) syntax trees of every function defined under /repo/include or /repo/sources,
// including template instantiations and lambda bodies, plus class and variable declarations.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string RepoRoot = "/repo";
static std::string ExtraRoot = "";
static std::string OutFile;

namespace
{
struct Extractor : RecursiveASTVisitor<Extractor>
{
	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;
	Array functions, classes, globals;
	std::vector<std::string> types;
	std::map<std::string, int> typeIdx;
	llvm::DenseMap<const Decl *, int> ids;
	std::set<const Decl *> seenFn, seenCls, seenVar;
	int nextId = 1;

	explicit Extractor(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
	{
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
	}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }

	std::string fileOf(SourceLocation L)
	{
		L = SM.getExpansionLoc(L);
		auto F = SM.getFilename(L);
		return F.str();
	}
	unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
	bool inRepo(SourceLocation L)
	{
		if (L.isInvalid())
			return false;
		auto f = fileOf(L);
		auto has = [&](const std::string &p) { return f.compare(0, p.size(), p) == 0; };
		if (has(RepoRoot + "/include/") or has(RepoRoot + "/sources/"))
			return true;
		return not ExtraRoot.empty() and has(ExtraRoot);
	}
	int id(const Decl *D)
	{
		if (!D)
			return 0;
		D = D->getCanonicalDecl();
		auto it = ids.find(D);
		if (it != ids.end())
			return it->second;
		ids[D] = nextId;
		return nextId++;
	}
	int type(QualType T)
	{
		std::string s = T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP);
		auto it = typeIdx.find(s);
		if (it != typeIdx.end())
			return it->second;
		int n = types.size();
		types.push_back(s);
		typeIdx[s] = n;
		return n;
	}
	std::string usr(const Decl *D)
	{
		llvm::SmallString<256> buf;
		if (index::generateUSRForDecl(D, buf))
			return "";
		std::string s = buf.str().str();
		if (auto *F = dyn_cast<FunctionDecl>(D))
		{
			if (auto *A = F->getTemplateSpecializationArgs())
			{
				s += "|";
				for (auto &a : A->asArray())
				{
					llvm::raw_string_ostream os(s);
					a.print(PP, os, true);
					os << ",";
				}
			}
			if (auto *M = dyn_cast<CXXMethodDecl>(F))
				s += "|" + C.getRecordType(M->getParent()).getCanonicalType().getAsString(PP);
		}
		return s;
	}
	std::string qname(const NamedDecl *D)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		PrintingPolicy P = PP;
		P.TerseOutput = true;
		P.SuppressUnwrittenScope = true; // anonymous / inline namespaces
		D->printQualifiedName(os, P);
		os.flush();
		// strip template arguments so that names are stable between instantiations
		std::string out;
		int depth = 0;
		for (size_t i = 0; i < s.size(); ++i)
		{
			// keep operator<, operator<<, operator<=, operator>, operator->, ...
			if (s.compare(i, 8, "operator") == 0 and depth == 0)
			{
				size_t j = i + 8;
				bool sym = j < s.size() and !isalnum(s[j]) and s[j] != '_';
				if (sym)
				{
					while (j < s.size() and !(isalnum(s[j])) and s[j] != ':')
						++j;
					// conversion operators ("operator T") keep everything
					out.append(s, i, j - i);
					i = j - 1;
					if (i + 1 < s.size() and s[i] == ' ')
					{
						out.append(s, i + 1, std::string::npos);
						break;
					}
					continue;
				}
			}
			if (s[i] == '<')
				++depth;
			if (depth == 0)
				out += s[i];
			if (s[i] == '>')
				--depth;
		}
		return out;
	}

	// ---------- expressions ----------
	static const Expr *peel(const Expr *E)
	{
		for (;;)
		{
			if (!E)
				return E;
			if (auto *X = dyn_cast<ImplicitCastExpr>(E))
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<ParenExpr>(E))
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<FullExpr>(E)) // ExprWithCleanups, ConstantExpr
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
			{
				E = X->getReplacement();
				continue;
			}
			if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
			{
				E = X->getExpr();
				continue;
			}
			if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
			{
				E = X->getExpr();
				continue;
			}
			if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
			{
				E = X->getSubExpr();
				continue;
			}
			if (auto *X = dyn_cast<OpaqueValueExpr>(E))
			{
				E = X->getSourceExpr();
				continue;
			}
			return E;
		}
	}
	static std::string passKind(QualType T)
	{
		if (T.isNull())
			return "val";
		if (T->isLValueReferenceType())
			return T->getPointeeType().isConstQualified() ? "cref" : "ref";
		if (T->isRValueReferenceType())
			return "rref";
		if (T->isPointerType())
			return T->getPointeeType().isConstQualified() ? "cptr" : "ptr";
		return "val";
	}
	void callee(Object &O, const FunctionDecl *F)
	{
		if (!F)
			return;
		O["f"] = qname(F);
		if (inRepo(F->getLocation()) or
		    (F->getTemplateInstantiationPattern() and inRepo(F->getTemplateInstantiationPattern()->getLocation())))
			O["u"] = usr(F);
		if (auto *M = dyn_cast<CXXMethodDecl>(F))
		{
			O["m"] = true;
			if (M->isConst())
				O["fc"] = true;
			if (M->isStatic())
				O["ms"] = true;
			if (M->isVirtual())
				O["mv"] = true;
		}
		Array P;
		for (auto *p : F->parameters())
			P.push_back(passKind(p->getType()));
		O["pk"] = std::move(P);
		Array PN;
		for (auto *p : F->parameters())
			PN.push_back(p->getNameAsString());
		O["pn"] = std::move(PN);
		if (auto *A = F->getTemplateSpecializationArgs())
		{
			std::string s;
			llvm::raw_string_ostream os(s);
			for (auto &a : A->asArray())
			{
				a.print(PP, os, true);
				os << ";";
			}
			os.flush();
			if (s.size() < 400)
				O["ta"] = s;
		}
	}
	Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R)
	{
		Array A;
		for (auto *E : R)
			A.push_back(expr(E));
		return A;
	}
	Value expr(const Expr *E0)
	{
		const Expr *E = peel(E0);
		if (!E)
			return nullptr;
		Object O;
		O["l"] = (int64_t)lineOf(E->getExprLoc());
		O["t"] = type(E->getType());
		// type conversions dropped by peel(): keep the outer type when it differs arithmetically
		if (E0 != E and !E0->getType().isNull() and !E->getType().isNull() and E0->getType()->isArithmeticType() and
		    (E->getType()->isArithmeticType() or E->getType()->isPointerType()) and
		    E0->getType().getCanonicalType().getUnqualifiedType() != E->getType().getCanonicalType().getUnqualifiedType())
			O["ct"] = type(E0->getType());
		auto K = [&](llvm::StringRef k) { O["k"] = k; };
		if (!E->getType().isNull() and !E->isValueDependent() and !E->isTypeDependent() and E->getType()->isIntegralOrEnumerationType() and !isa<CallExpr>(E) and
		    !isa<LambdaExpr>(E))
		{
			Expr::EvalResult R;
			if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
			{
				llvm::SmallString<32> S;
				R.Val.getInt().toString(S, 10);
				O["v"] = S.str().str();
			}
		}
		if (auto *X = dyn_cast<IntegerLiteral>(E))
		{
			K("int");
			llvm::SmallString<32> S;
			X->getValue().toString(S, 10, true);
			O["v"] = S.str().str();
			return O;
		}
		if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
		{
			K("bool");
			O["v"] = X->getValue() ? "1" : "0";
			return O;
		}
		if (auto *X = dyn_cast<FloatingLiteral>(E))
		{
			K("float");
			char V[40];
			snprintf(V, sizeof V, "%.17g", X->getValueAsApproximateDouble());
			O["v"] = std::string(V);
			return O;
		}
		if (auto *X = dyn_cast<clang::StringLiteral>(E))
		{
			K("str");
			if (X->getCharByteWidth() == 1)
			{
				auto s = X->getString().substr(0, 200).str();
				O["v"] = llvm::json::fixUTF8(s);
			}
			return O;
		}
		if (isa<CXXNullPtrLiteralExpr>(E))
		{
			K("null");
			return O;
		}
		if (isa<CXXThisExpr>(E))
		{
			K("this");
			return O;
		}
		if (auto *X = dyn_cast<DeclRefExpr>(E))
		{
			K("ref");
			auto *D = X->getDecl();
			O["n"] = D->getNameAsString();
			O["d"] = id(D);
			if (auto *V = dyn_cast<VarDecl>(D))
			{
				if (V->isLocalVarDeclOrParm() and not V->isStaticLocal())
					O["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
				else
				{
					O["dk"] = "global";
					O["q"] = qname(V);
				}
			}
			else if (isa<BindingDecl>(D))
				O["dk"] = "bind";
			else if (auto *F = dyn_cast<FunctionDecl>(D))
			{
				O["dk"] = "fn";
				O["q"] = qname(F);
				O["u"] = usr(F);
			}
			else if (isa<EnumConstantDecl>(D))
			{
				O["dk"] = "enum";
				O["q"] = qname(D);
			}
			else
				O["dk"] = "other";
			return O;
		}
		if (auto *X = dyn_cast<MemberExpr>(E))
		{
			K("member");
			O["n"] = X->getMemberDecl()->getNameAsString();
			O["q"] = qname(X->getMemberDecl());
			if (X->isArrow())
				O["arrow"] = true;
			if (isa<FunctionDecl>(X->getMemberDecl()))
				O["dk"] = "fn";
			if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
			{
				(void)V;
				O["dk"] = "static";
			}
			O["b"] = expr(X->getBase());
			return O;
		}
		if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
		{
			K("call");
			const FunctionDecl *F = X->getDirectCallee();
			callee(O, F);
			O["op"] = getOperatorSpelling(X->getOperator());
			if (F and isa<CXXMethodDecl>(F) and not cast<CXXMethodDecl>(F)->isStatic())
			{
				O["obj"] = expr(X->getArg(0));
				Array A;
				for (unsigned i = 1; i < X->getNumArgs(); ++i)
					A.push_back(expr(X->getArg(i)));
				O["a"] = std::move(A);
			}
			else
			{
				if (!F)
					O["ce"] = expr(X->getCallee());
				O["a"] = exprs(X->arguments());
			}
			return O;
		}
		if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
		{
			K("call");
			callee(O, X->getDirectCallee());
			if (auto *ob = X->getImplicitObjectArgument())
				O["obj"] = expr(ob);
			if (auto *ME = dyn_cast_or_null<MemberExpr>(peel(X->getCallee())))
				if (ME->isArrow())
					O["arrow"] = true;
			if (!X->getDirectCallee())
				O["ce"] = expr(X->getCallee());
			O["a"] = exprs(X->arguments());
			return O;
		}
		if (auto *X = dyn_cast<CallExpr>(E))
		{
			K("call");
			callee(O, X->getDirectCallee());
			if (!X->getDirectCallee())
				O["ce"] = expr(X->getCallee());
			O["a"] = exprs(X->arguments());
			return O;
		}
		if (auto *X = dyn_cast<CXXConstructExpr>(E))
		{
			K("construct");
			auto *D = X->getConstructor();
			callee(O, D);
			if (D->isCopyConstructor())
				O["cc"] = "copy";
			else if (D->isMoveConstructor())
				O["cc"] = "move";
			else if (D->isDefaultConstructor())
				O["cc"] = "default";
			O["cls"] = qname(D->getParent());
			if (X->isListInitialization())
				O["list"] = true;
			if (isa<CXXTemporaryObjectExpr>(X))
				O["temp"] = true;
			Array A;
			for (auto *e : X->arguments())
				A.push_back(expr(e));
			O["a"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E))
		{
			K("uconstruct");
			Array A;
			for (auto *e : X->arguments())
				A.push_back(expr(e));
			O["a"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<BinaryOperator>(E))
		{
			K(X->isAssignmentOp() ? "assign" : "bin");
			O["op"] = X->getOpcodeStr().str();
			O["a"] = Array{expr(X->getLHS()), expr(X->getRHS())};
			if (X->isMultiplicativeOp() or X->isAdditiveOp())
				if (auto *T = X->getType()->getAs<BuiltinType>(); T and T->getKind() == BuiltinType::Int)
					O["int"] = true;
			return O;
		}
		if (auto *X = dyn_cast<UnaryOperator>(E))
		{
			K("un");
			O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
			if (X->isPostfix())
				O["post"] = true;
			O["a"] = Array{expr(X->getSubExpr())};
			return O;
		}
		if (auto *X = dyn_cast<ConditionalOperator>(E))
		{
			K("cond");
			O["a"] = Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
			return O;
		}
		if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
		{
			K("sub");
			O["a"] = Array{expr(X->getLHS()), expr(X->getRHS())};
			return O;
		}
		if (auto *X = dyn_cast<ExplicitCastExpr>(E))
		{
			K("cast");
			O["ck"] = X->getStmtClassName();
			O["to"] = type(X->getTypeAsWritten());
			O["from"] = type(X->getSubExpr()->getType());
			O["a"] = Array{expr(X->getSubExpr())};
			return O;
		}
		if (auto *X = dyn_cast<CXXThrowExpr>(E))
		{
			K("throw");
			Array A;
			if (X->getSubExpr())
				A.push_back(expr(X->getSubExpr()));
			O["a"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<InitListExpr>(E))
		{
			if (auto *S = X->getSemanticForm())
				X = S;
			K("initlist");
			Array A;
			for (auto *e : X->inits())
				A.push_back(expr(e));
			O["a"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<LambdaExpr>(E))
		{
			K("lambda");
			Array caps;
			auto init = X->capture_init_begin();
			for (auto &c : X->captures())
			{
				Object cc;
				if (c.capturesThis())
					cc["this"] = true;
				else if (c.capturesVariable())
				{
					cc["d"] = id(c.getCapturedVar());
					cc["n"] = c.getCapturedVar()->getNameAsString();
					cc["byref"] = c.getCaptureKind() == LCK_ByRef;
					if (X->isInitCapture(&c))
						cc["init"] = expr(*init);
				}
				caps.push_back(std::move(cc));
				++init;
			}
			O["caps"] = std::move(caps);
			Array bodies;
			if (auto *FT = X->getDependentCallOperator())
			{
				bool any = false;
				for (auto *S : FT->specializations())
					if (S->hasBody())
					{
						any = true;
						bodies.push_back(func(S, true));
					}
				if (!any)
				{
					Value b = func(X->getCallOperator(), true);
					bodies.push_back(std::move(b));
				}
			}
			else
				bodies.push_back(func(X->getCallOperator(), true));
			O["bodies"] = std::move(bodies);
			return O;
		}
		if (auto *X = dyn_cast<CXXNewExpr>(E))
		{
			K("new");
			Array A;
			if (auto *e = X->getInitializer())
				A.push_back(expr(e));
			O["at"] = type(X->getAllocatedType());
			O["a"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
		{
			K("sizeof");
			return O;
		}
		if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E))
		{
			(void)X;
			K("valueinit");
			return O;
		}
		if (auto *X = dyn_cast<CXXFoldExpr>(E))
		{
			K("fold");
			O["a"] = Array{expr(X->getPattern())};
			return O;
		}
		if (auto *X = dyn_cast<UnresolvedLookupExpr>(E))
		{
			K("unresolved");
			O["n"] = X->getName().getAsString();
			return O;
		}
		if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E))
		{
			K("depmember");
			O["n"] = X->getMember().getAsString();
			if (!X->isImplicitAccess())
				O["b"] = expr(X->getBase());
			return O;
		}
		if (auto *X = dyn_cast<UnresolvedMemberExpr>(E))
		{
			K("depmember");
			O["n"] = X->getMemberName().getAsString();
			if (!X->isImplicitAccess())
				O["b"] = expr(X->getBase());
			return O;
		}
		if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E))
		{
			K("unresolved");
			O["n"] = X->getDeclName().getAsString();
			return O;
		}
		if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E))
		{
			(void)X;
			K("pseudodtor");
			return O;
		}
		K("other");
		O["sc"] = E->getStmtClassName();
		Array A;
		for (auto *ch : E->children())
			if (auto *ce = dyn_cast_or_null<Expr>(ch))
				A.push_back(expr(ce));
		O["a"] = std::move(A);
		return O;
	}
	Value var(const VarDecl *V)
	{
		Object O;
		O["k"] = "vardecl";
		O["l"] = (int64_t)lineOf(V->getLocation());
		O["d"] = id(V);
		O["n"] = V->getNameAsString();
		O["t"] = type(V->getType());
		O["pk"] = passKind(V->getType());
		if (V->isStaticLocal())
			O["static"] = true;
		if (V->getType().isConstQualified() or V->isConstexpr())
			O["const"] = true;
		if (auto *D = dyn_cast<DecompositionDecl>(V))
		{
			Array B;
			for (auto *b : D->bindings())
			{
				Object o;
				o["d"] = id(b);
				o["n"] = b->getNameAsString();
				o["t"] = type(b->getType());
				B.push_back(std::move(o));
			}
			O["binds"] = std::move(B);
		}
		if (V->getInit())
			O["init"] = expr(V->getInit());
		return O;
	}
	Value stmt(const Stmt *S)
	{
		if (!S)
			return nullptr;
		if (auto *E = dyn_cast<Expr>(S))
		{
			Object O;
			O["k"] = "expr";
			O["l"] = (int64_t)lineOf(E->getBeginLoc());
			O["e"] = expr(E);
			return O;
		}
		Object O;
		O["l"] = (int64_t)lineOf(S->getBeginLoc());
		auto K = [&](llvm::StringRef k) { O["k"] = k; };
		if (auto *X = dyn_cast<CompoundStmt>(S))
		{
			K("block");
			Array A;
			for (auto *c : X->body())
				A.push_back(stmt(c));
			O["s"] = std::move(A);
			O["le"] = (int64_t)lineOf(X->getEndLoc());
			return O;
		}
		if (auto *X = dyn_cast<DeclStmt>(S))
		{
			K("decl");
			Array A;
			for (auto *d : X->decls())
				if (auto *v = dyn_cast<VarDecl>(d))
					A.push_back(var(v));
			O["v"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<IfStmt>(S))
		{
			K("if");
			if (X->isConstexpr())
				O["cx"] = true;
			O["init"] = stmt(X->getInit());
			if (X->getConditionVariable())
				O["cv"] = var(X->getConditionVariable());
			O["cond"] = expr(X->getCond());
			O["then"] = stmt(X->getThen());
			O["else"] = stmt(X->getElse());
			return O;
		}
		if (auto *X = dyn_cast<WhileStmt>(S))
		{
			K("while");
			if (X->getConditionVariable())
				O["cv"] = var(X->getConditionVariable());
			O["cond"] = expr(X->getCond());
			O["body"] = stmt(X->getBody());
			return O;
		}
		if (auto *X = dyn_cast<DoStmt>(S))
		{
			K("do");
			O["cond"] = expr(X->getCond());
			O["body"] = stmt(X->getBody());
			return O;
		}
		if (auto *X = dyn_cast<ForStmt>(S))
		{
			K("for");
			O["init"] = stmt(X->getInit());
			if (X->getCond())
				O["cond"] = expr(X->getCond());
			if (X->getInc())
				O["inc"] = expr(X->getInc());
			O["body"] = stmt(X->getBody());
			return O;
		}
		if (auto *X = dyn_cast<CXXForRangeStmt>(S))
		{
			K("rfor");
			O["range"] = expr(X->getRangeInit());
			O["var"] = var(X->getLoopVariable());
			O["body"] = stmt(X->getBody());
			return O;
		}
		if (auto *X = dyn_cast<SwitchStmt>(S))
		{
			K("switch");
			O["cond"] = expr(X->getCond());
			O["body"] = stmt(X->getBody());
			return O;
		}
		if (auto *X = dyn_cast<CaseStmt>(S))
		{
			K("case");
			O["e"] = expr(X->getLHS());
			O["s"] = stmt(X->getSubStmt());
			return O;
		}
		if (auto *X = dyn_cast<DefaultStmt>(S))
		{
			K("default");
			O["s"] = stmt(X->getSubStmt());
			return O;
		}
		if (auto *X = dyn_cast<ReturnStmt>(S))
		{
			K("return");
			if (X->getRetValue())
				O["e"] = expr(X->getRetValue());
			return O;
		}
		if (isa<BreakStmt>(S))
		{
			K("break");
			return O;
		}
		if (isa<ContinueStmt>(S))
		{
			K("continue");
			return O;
		}
		if (isa<NullStmt>(S))
		{
			K("nop");
			return O;
		}
		if (auto *X = dyn_cast<CXXTryStmt>(S))
		{
			K("try");
			O["body"] = stmt(X->getTryBlock());
			Array A;
			for (unsigned i = 0; i < X->getNumHandlers(); ++i)
			{
				Object h;
				h["t"] = X->getHandler(i)->getCaughtType().isNull() ? -1 : type(X->getHandler(i)->getCaughtType());
				h["body"] = stmt(X->getHandler(i)->getHandlerBlock());
				A.push_back(std::move(h));
			}
			O["h"] = std::move(A);
			return O;
		}
		if (auto *X = dyn_cast<AttributedStmt>(S))
			return stmt(X->getSubStmt());
		if (auto *X = dyn_cast<LabelStmt>(S))
			return stmt(X->getSubStmt());
		K("otherstmt");
		O["sc"] = S->getStmtClassName();
		return O;
	}
	Value func(const FunctionDecl *F, bool lambda = false)
	{
		Object O;
		O["q"] = qname(F);
		O["u"] = usr(F);
		O["n"] = F->getNameAsString();
		O["file"] = fileOf(F->getLocation());
		O["line"] = (int64_t)lineOf(F->getLocation());
		if (F->getBody())
			O["endline"] = (int64_t)lineOf(F->getBody()->getEndLoc());
		O["ret"] = type(F->getReturnType());
		O["retpk"] = passKind(F->getReturnType());
		O["t"] = type(F->getType());
		if (F->isDependentContext())
			O["dep"] = true;
		if (F->isTemplateInstantiation())
			O["inst"] = true;
		if (auto *P = F->getTemplateInstantiationPattern())
		{
			O["patfile"] = fileOf(P->getLocation());
			O["patline"] = (int64_t)lineOf(P->getLocation());
		}
		if (F->isDefaulted())
			O["defaulted"] = true;
		if (F->isImplicit())
			O["implicit"] = true;
		if (F->isVariadic())
			O["variadic"] = true;
		if (auto *A = F->getTemplateSpecializationArgs())
		{
			std::string s;
			llvm::raw_string_ostream os(s);
			for (auto &a : A->asArray())
			{
				a.print(PP, os, true);
				os << ";";
			}
			os.flush();
			O["ta"] = s;
		}
		if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
			if (FPT->getExceptionSpecType() != EST_Unevaluated and FPT->getExceptionSpecType() != EST_Uninstantiated and
			    FPT->getExceptionSpecType() != EST_Unparsed and FPT->canThrow() == CT_Cannot)
				O["noexcept"] = true;
		O["kind"] = "function";
		if (auto *M = dyn_cast<CXXMethodDecl>(F))
		{
			O["kind"] = lambda                          ? "lambda"
			            : isa<CXXConstructorDecl>(M)    ? "ctor"
			            : isa<CXXDestructorDecl>(M)     ? "dtor"
			            : isa<CXXConversionDecl>(M)     ? "conv"
			                                            : "method";
			O["cls"] = qname(M->getParent());
			O["clst"] = type(C.getRecordType(M->getParent()));
			if (M->isConst())
				O["const"] = true;
			if (M->isStatic())
				O["static"] = true;
			if (M->isVirtual())
				O["virtual"] = true;
			O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
			if (M->isCopyAssignmentOperator())
				O["sm"] = "copyassign";
			if (M->isMoveAssignmentOperator())
				O["sm"] = "moveassign";
		}
		Array P;
		for (auto *p : F->parameters())
		{
			Object o;
			o["d"] = id(p);
			o["n"] = p->getNameAsString();
			o["t"] = type(p->getType());
			o["pk"] = passKind(p->getType());
			if (p->hasDefaultArg() and !p->hasUninstantiatedDefaultArg() and !p->hasUnparsedDefaultArg() and !lambda)
				o["def"] = expr(p->getDefaultArg());
			P.push_back(std::move(o));
		}
		O["params"] = std::move(P);
		if (auto *D = dyn_cast<CXXConstructorDecl>(F))
		{
			if (D->isCopyConstructor())
				O["sm"] = "copyctor";
			if (D->isMoveConstructor())
				O["sm"] = "movector";
			if (D->isExplicit())
				O["explicit"] = true;
			Array I;
			for (auto *i : D->inits())
			{
				Object o;
				if (i->isAnyMemberInitializer() and i->getAnyMember())
					o["member"] = i->getAnyMember()->getNameAsString();
				else if (i->isDelegatingInitializer())
					o["delegating"] = true;
				else if (i->isBaseInitializer())
					o["base"] = type(QualType(i->getBaseClass(), 0));
				o["written"] = i->isWritten();
				o["e"] = expr(i->getInit());
				I.push_back(std::move(o));
			}
			O["inits"] = std::move(I);
		}
		const FunctionDecl *Def = nullptr;
		if (F->hasBody(Def) and Def)
		{
			// parameters of the definition are the ones the body refers to
			if (Def != F)
				return func(Def, lambda);
			O["body"] = stmt(F->getBody());
		}
		return O;
	}

	bool VisitFunctionDecl(FunctionDecl *F)
	{
		SourceLocation L = F->getLocation();
		if (auto *P = F->getTemplateInstantiationPattern())
			L = P->getLocation();
		if (!inRepo(L))
			return true;
		if (!F->doesThisDeclarationHaveABody() and !F->isDefaulted())
			return true;
		if (auto *M = dyn_cast<CXXMethodDecl>(F))
			if (M->getParent()->isLambda())
				return true;
		if (F->getNameAsString().compare(0, 13, "DOCTEST_ANON_") == 0 or
		    F->getNameAsString().find("DOCTEST_ANON") != std::string::npos)
			return true;
		if (!seenFn.insert(F).second)
			return true;
		functions.push_back(func(F));
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *R)
	{
		SourceLocation L = R->getLocation();
		if (auto *P = R->getTemplateInstantiationPattern())
			L = P->getLocation();
		if (!inRepo(L) or !R->isThisDeclarationADefinition() or R->isLambda())
			return true;
		if (!seenCls.insert(R).second)
			return true;
		Object O;
		O["q"] = qname(R);
		O["t"] = type(C.getRecordType(R));
		O["file"] = fileOf(R->getLocation());
		O["line"] = (int64_t)lineOf(R->getLocation());
		if (R->isDependentContext())
			O["dep"] = true;
		Array Fl;
		for (auto *f : R->fields())
		{
			Object o;
			o["n"] = f->getNameAsString();
			o["t"] = type(f->getType());
			o["pk"] = passKind(f->getType());
			o["mutable"] = f->isMutable();
			o["hasinit"] = f->hasInClassInitializer();
			o["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
			Fl.push_back(std::move(o));
		}
		O["fields"] = std::move(Fl);
		Array B;
		for (auto &b : R->bases())
			B.push_back(type(b.getType()));
		O["bases"] = std::move(B);
		if (auto *D = R->getDestructor())
			(void)D;
		Array M;
		for (auto *m : R->methods())
		{
			Object o;
			o["n"] = m->getNameAsString();
			o["u"] = usr(m);
			o["q"] = qname(m);
			o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
			if (m->isConst())
				o["const"] = true;
			if (m->isDeleted())
				o["deleted"] = true;
			if (m->isImplicit())
				o["implicit"] = true;
			if (m->isDefaulted())
				o["defaulted"] = true;
			if (m->isUserProvided())
				o["user"] = true;
			if (m->isPureVirtual())
				o["pure"] = true;
			if (m->isVirtual())
				o["virtual"] = true;
			if (m->isStatic())
				o["static"] = true;
			o["ret"] = type(m->getReturnType());
			o["retpk"] = passKind(m->getReturnType());
			o["ty"] = type(m->getType());
			if (auto *c = dyn_cast<CXXConstructorDecl>(m))
				o["sm"] = c->isCopyConstructor()   ? "copyctor"
				          : c->isMoveConstructor() ? "movector"
				          : c->isDefaultConstructor() ? "defctor"
				                                   : "ctor";
			else if (m->isCopyAssignmentOperator())
				o["sm"] = "copyassign";
			else if (m->isMoveAssignmentOperator())
				o["sm"] = "moveassign";
			else if (isa<CXXDestructorDecl>(m))
				o["sm"] = "dtor";
			M.push_back(std::move(o));
		}
		O["methods"] = std::move(M);
		Array Fr;
		for (auto *f : R->friends())
			if (auto *nd = f->getFriendDecl())
				Fr.push_back(qname(nd));
		O["friends"] = std::move(Fr);
		classes.push_back(std::move(O));
		return true;
	}
	bool VisitVarDecl(VarDecl *V)
	{
		if (isa<ParmVarDecl>(V) or !inRepo(V->getLocation()))
			return true;
		if (V->isLocalVarDecl() and !V->isStaticLocal())
			return true;
		if (!V->hasGlobalStorage())
			return true;
		if (V->getNameAsString().find("DOCTEST_ANON") != std::string::npos or V->getLocation().isMacroID())
			return true;
		if (!seenVar.insert(V).second)
			return true;
		Object O;
		O["q"] = qname(V);
		O["n"] = V->getNameAsString();
		O["t"] = type(V->getType());
		O["file"] = fileOf(V->getLocation());
		O["line"] = (int64_t)lineOf(V->getLocation());
		O["constexpr"] = V->isConstexpr();
		O["const"] = V->getType().isConstQualified();
		O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
		if (V->isStaticLocal())
			O["staticlocal"] = true;
		if (auto *R = V->getType()->getAsCXXRecordDecl())
			O["cls"] = qname(R);
		globals.push_back(std::move(O));
		return true;
	}
};

struct Consumer : ASTConsumer
{
	CompilerInstance &CI;
	Consumer(CompilerInstance &ci) : CI(ci) {}
	void HandleTranslationUnit(ASTContext &Ctx) override
	{
		Extractor X(Ctx);
		X.TraverseDecl(Ctx.getTranslationUnitDecl());
		Object Root;
		Root["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
		Root["functions"] = std::move(X.functions);
		Root["classes"] = std::move(X.classes);
		Root["globals"] = std::move(X.globals);
		Array T;
		for (auto &s : X.types)
			T.push_back(llvm::json::fixUTF8(s));
		Root["types"] = std::move(T);
		std::error_code EC;
		llvm::raw_fd_ostream os(OutFile, EC);
		os << Value(std::move(Root));
	}
};
struct Action : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override
	{
		return std::make_unique<Consumer>(CI);
	}
};
} // namespace

// usage: extract REPO EXTRA OUT.json FILE -- clang args...
int main(int argc, char **argv)
{
	if (argc < 6)
	{
		llvm::errs() << "usage: extract REPO EXTRA|- OUT FILE -- args\n";
		return 2;
	}
	RepoRoot = argv[1];
	ExtraRoot = std::string(argv[2]) == "-" ? "" : argv[2];
	OutFile = argv[3];
	std::string file = argv[4];
	std::vector<std::string> args;
	for (int i = 6; i < argc; ++i)
		args.push_back(argv[i]);
	tooling::FixedCompilationDatabase DB(".", args);
	tooling::ClangTool Tool(DB, {file});
	return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
