// factgen: resolved-program extractor for the static analyses in /verif.
// Parses one translation unit with the clang front end and writes the resolved, implicit-cast-free
// syntax of every function, lambda, record, enum and namespace-scope table of the repository as JSON.
// It executes nothing of the analysed program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gOut;

namespace {

class Dumper
{
public:
	ASTContext& ctx;
	SourceManager& sm;
	PrintingPolicy pp;
	std::map<const Decl*, int> ids;
	std::vector<const FunctionDecl*> pending;
	std::set<const FunctionDecl*> queued;

	explicit Dumper(ASTContext& c)
		: ctx(c)
		, sm(c.getSourceManager())
		, pp(c.getPrintingPolicy())
	{
		pp.SuppressTagKeyword = true;
		pp.SuppressUnwrittenScope = true;
		pp.AnonymousTagLocations = false;
		pp.PrintCanonicalTypes = true;
		pp.FullyQualifiedName = true;
		pp.SplitTemplateClosers = false;
		pp.SuppressDefaultTemplateArgs = true;
	}

	int id(const Decl* d)
	{
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end())
			return it->second;
		int n = static_cast<int>(ids.size()) + 1;
		ids[d] = n;
		return n;
	}

	bool inRepo(SourceLocation loc)
	{
		if (loc.isInvalid())
			return false;
		loc = sm.getExpansionLoc(loc);
		auto f = sm.getFilename(loc);
		if (f.empty())
			return false;
		llvm::SmallString<256> p(f);
		sm.getFileManager().makeAbsolutePath(p);
		std::string s(p.str());
		// normalise /src/../include
		for (size_t k; (k = s.find("/../")) != std::string::npos;)
		{
			size_t j = s.rfind('/', k - 1);
			if (j == std::string::npos)
				break;
			s = s.substr(0, j) + s.substr(k + 3);
		}
		return s.compare(0, gRoot.size(), gRoot) == 0;
	}

	std::string relFile(SourceLocation loc)
	{
		loc = sm.getExpansionLoc(loc);
		llvm::SmallString<256> p(sm.getFilename(loc));
		sm.getFileManager().makeAbsolutePath(p);
		std::string s(p.str());
		for (size_t k; (k = s.find("/../")) != std::string::npos;)
		{
			size_t j = s.rfind('/', k - 1);
			if (j == std::string::npos)
				break;
			s = s.substr(0, j) + s.substr(k + 3);
		}
		if (s.compare(0, gRoot.size(), gRoot) == 0)
			s = s.substr(gRoot.size());
		return s;
	}

	int line(SourceLocation loc)
	{
		return loc.isInvalid() ? 0 : static_cast<int>(sm.getExpansionLineNumber(loc));
	}

	std::string type(QualType t)
	{
		if (t.isNull())
			return "";
		return t.getCanonicalType().getAsString(pp);
	}

	std::string qname(const NamedDecl* d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		PrintingPolicy p2 = pp;
		p2.SuppressUnwrittenScope = false;
		d->printQualifiedName(os, p2);
		os.flush();
		std::string out;
		// drop "(anonymous namespace)::" and inline std namespaces
		size_t i = 0;
		while (i < s.size())
		{
			static const std::string a = "(anonymous namespace)::";
			static const std::string b = "__cxx11::";
			if (s.compare(i, a.size(), a) == 0)
				i += a.size();
			else if (s.compare(i, b.size(), b) == 0)
				i += b.size();
			else
				out += s[i++];
		}
		return out;
	}

	json::Array targs(const TemplateArgumentList* l)
	{
		json::Array a;
		if (!l)
			return a;
		for (const auto& arg : l->asArray())
			addTArg(a, arg);
		return a;
	}

	void addTArg(json::Array& a, const TemplateArgument& arg)
	{
		if (arg.getKind() == TemplateArgument::Pack)
		{
			for (const auto& e : arg.pack_elements())
				addTArg(a, e);
			return;
		}
		std::string s;
		llvm::raw_string_ostream os(s);
		if (arg.getKind() == TemplateArgument::Type)
			os << type(arg.getAsType());
		else
			arg.print(pp, os, true);
		os.flush();
		a.push_back(s);
	}

	void want(const FunctionDecl* fd)
	{
		if (!fd)
			return;
		const FunctionDecl* def = nullptr;
		if (!fd->hasBody(def) || !def)
			return;
		if (!inRepo(def->getLocation()))
			return;
		if (queued.insert(def).second)
			pending.push_back(def);
	}

	void fillCallee(json::Object& o, const FunctionDecl* fd)
	{
		o["f"] = qname(fd);
		o["fid"] = id(fd);
		if (auto* l = fd->getTemplateSpecializationArgs())
			o["ta"] = targs(l);
		if (auto* md = dyn_cast<CXXMethodDecl>(fd))
		{
			o["cls"] = type(ctx.getRecordType(md->getParent()));
			if (md->isVirtual())
				o["virt"] = true;
			if (md->isStatic())
				o["static"] = true;
			if (md->isConst())
				o["cm"] = true;
		}
		std::string pm;
		for (auto* p : fd->parameters())
		{
			auto t = p->getType();
			if (t->isRValueReferenceType())
				pm += 'm';
			else if (t->isLValueReferenceType())
				pm += t->getPointeeType().isConstQualified() ? 'c' : 'r';
			else if (t->isPointerType())
				pm += t->getPointeeType().isConstQualified() ? 'c' : '*';
			else
				pm += 'v';
		}
		o["pm"] = pm;
		want(fd);
	}

	json::Value exprs(llvm::ArrayRef<const Expr*> es)
	{
		json::Array a;
		for (auto* e : es)
			a.push_back(expr(e));
		return a;
	}

	json::Value expr(const Expr* e)
	{
		if (!e)
			return nullptr;
		// transparent nodes
		if (auto* x = dyn_cast<FullExpr>(e))
			return expr(x->getSubExpr());
		if (auto* x = dyn_cast<ParenExpr>(e))
			return expr(x->getSubExpr());
		if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
			return expr(x->getSubExpr());
		if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
			return expr(x->getSubExpr());
		if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
			return expr(x->getReplacement());
		if (auto* x = dyn_cast<ImplicitCastExpr>(e))
		{
			if (x->getCastKind() == CK_PointerToBoolean || x->getCastKind() == CK_IntegralToBoolean
				|| x->getCastKind() == CK_FloatingToBoolean)
			{
				json::Object o { { "k", "tobool" } };
				o["e"] = expr(x->getSubExpr());
				return o;
			}
			return expr(x->getSubExpr());
		}
		if (auto* x = dyn_cast<CXXDefaultArgExpr>(e))
		{
			json::Object o { { "k", "defarg" } };
			o["e"] = expr(x->getExpr());
			return o;
		}
		if (auto* x = dyn_cast<CXXDefaultInitExpr>(e))
			return expr(x->getExpr());
		if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
			return expr(x->getSubExpr());
		if (auto* x = dyn_cast<OpaqueValueExpr>(e))
			return expr(x->getSourceExpr());
		if (auto* x = dyn_cast<ConstantExpr>(e))
			return expr(x->getSubExpr());

		json::Object o;
		o["l"] = line(e->getExprLoc());

		if (auto* x = dyn_cast<DeclRefExpr>(e))
		{
			auto* d = x->getDecl();
			o["k"] = "ref";
			o["n"] = d->getNameAsString();
			o["d"] = id(d);
			if (auto* fd = dyn_cast<FunctionDecl>(d))
			{
				o["dk"] = "func";
				fillCallee(o, fd);
			}
			else if (isa<EnumConstantDecl>(d))
			{
				o["dk"] = "enum";
				o["q"] = qname(d);
				o["v"] = static_cast<int64_t>(
					cast<EnumConstantDecl>(d)->getInitVal().getExtValue());
			}
			else if (auto* vd = dyn_cast<VarDecl>(d))
			{
				o["dk"] = isa<ParmVarDecl>(d) ? "param" : (vd->isLocalVarDecl() ? "local" : "global");
				if (vd->isStaticLocal())
					o["static"] = true;
				if (!vd->isLocalVarDecl() && !isa<ParmVarDecl>(d))
					o["q"] = qname(d);
			}
			else if (isa<BindingDecl>(d))
			{
				o["dk"] = "binding";
			}
			else
			{
				o["dk"] = d->getDeclKindName();
				o["q"] = qname(d);
			}
			o["t"] = type(x->getType());
			return o;
		}
		if (auto* x = dyn_cast<MemberExpr>(e))
		{
			auto* d = x->getMemberDecl();
			o["k"] = "mem";
			o["n"] = d->getNameAsString();
			o["q"] = qname(d);
			o["b"] = expr(x->getBase());
			if (x->isArrow())
				o["arrow"] = true;
			if (auto* fd = dyn_cast<FunctionDecl>(d))
			{
				o["dk"] = "method";
				fillCallee(o, fd);
			}
			else
			{
				o["dk"] = "field";
				o["d"] = id(d);
			}
			o["t"] = type(x->getType());
			return o;
		}
		if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
		{
			o["k"] = "op";
			o["op"] = getOperatorSpelling(x->getOperator());
			if (auto* fd = x->getDirectCallee())
				fillCallee(o, fd);
			json::Array a;
			for (auto* arg : x->arguments())
				a.push_back(expr(arg));
			o["a"] = std::move(a);
			o["t"] = type(x->getType());
			return o;
		}
		if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
		{
			o["k"] = "mcall";
			if (auto* fd = x->getMethodDecl())
			{
				fillCallee(o, fd);
				if (isa<CXXConversionDecl>(fd))
					o["conv"] = true;
			}
			auto* callee = x->getCallee()->IgnoreParens();
			if (auto* me = dyn_cast<MemberExpr>(callee))
			{
				o["n"] = me->getMemberDecl()->getNameAsString();
				o["o"] = expr(me->getBase());
				if (me->isArrow())
					o["arrow"] = true;
				if (me->hasQualifier())
					o["qual"] = true;
			}
			else
				o["o"] = expr(x->getImplicitObjectArgument());
			json::Array a;
			for (auto* arg : x->arguments())
				a.push_back(expr(arg));
			o["a"] = std::move(a);
			o["t"] = type(x->getType());
			return o;
		}
		if (auto* x = dyn_cast<UserDefinedLiteral>(e))
		{
			// "..."sv / "..."s: keep the cooked string
			if (x->getNumArgs() > 0)
				return expr(x->getArg(0));
		}
		if (auto* x = dyn_cast<CallExpr>(e))
		{
			o["k"] = "call";
			if (auto* fd = x->getDirectCallee())
			{
				o["n"] = fd->getNameAsString();
				fillCallee(o, fd);
			}
			else
				o["c"] = expr(x->getCallee());
			json::Array a;
			for (auto* arg : x->arguments())
				a.push_back(expr(arg));
			o["a"] = std::move(a);
			o["t"] = type(x->getType());
			return o;
		}
		if (auto* x = dyn_cast<CXXConstructExpr>(e))
		{
			auto* cd = x->getConstructor();
			o["k"] = "ctor";
			o["t"] = type(x->getType());
			o["fid"] = id(cd);
			want(cd);
			if (cd->isCopyConstructor())
				o["copy"] = true;
			if (cd->isMoveConstructor())
				o["move"] = true;
			json::Array a;
			for (auto* arg : x->arguments())
				a.push_back(expr(arg));
			o["a"] = std::move(a);
			json::Array pt;
			for (auto* p : cd->parameters())
				pt.push_back(type(p->getType()));
			o["pt"] = std::move(pt);
			return o;
		}
		if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
		{
			o["k"] = "ctor";
			o["t"] = type(x->getType());
			o["a"] = json::Array();
			return o;
		}
		if (auto* x = dyn_cast<InitListExpr>(e))
		{
			if (auto* s = x->getSemanticForm())
				x = s;
			o["k"] = "init";
			o["t"] = type(x->getType());
			json::Array a;
			for (auto* i : x->inits())
				a.push_back(expr(i));
			o["a"] = std::move(a);
			if (auto* rd = x->getType()->getAsCXXRecordDecl())
			{
				json::Array names;
				for (unsigned b = 0; b < (rd->isAggregate() ? rd->getNumBases() : 0); ++b)
					names.push_back("<base>");
				for (auto* f : rd->fields())
					names.push_back(f->getNameAsString());
				o["fn"] = std::move(names);
			}
			return o;
		}
		if (auto* x = dyn_cast<LambdaExpr>(e))
		{
			o["k"] = "lambda";
			o["file"] = relFile(e->getExprLoc());
			auto* op = x->getCallOperator();
			o["fid"] = id(op);
			json::Array caps;
			auto initIt = x->capture_init_begin();
			for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++initIt)
			{
				json::Object c;
				if (it->capturesThis())
				{
					c["this"] = true;
					c["byref"] = it->getCaptureKind() == LCK_This;
				}
				else if (it->capturesVariable())
				{
					auto* v = it->getCapturedVar();
					c["n"] = v->getNameAsString();
					c["d"] = id(v);
					c["t"] = type(v->getType());
					c["byref"] = it->getCaptureKind() == LCK_ByRef;
					auto* vd = dyn_cast<VarDecl>(v);
					if (vd && vd->isInitCapture())
					{
						c["init"] = true;
						c["e"] = expr(vd->getInit());
					}
				}
				caps.push_back(std::move(c));
			}
			o["caps"] = std::move(caps);
			const CXXMethodDecl* use = op;
			if (auto* ft = op->getDescribedFunctionTemplate())
			{
				// a generic lambda: describe its first complete instantiation
				for (auto* spec : ft->specializations())
				{
					if (spec->hasBody() && !spec->isDependentContext())
					{
						use = cast<CXXMethodDecl>(spec);
						break;
					}
				}
				o["generic"] = true;
			}
			o["ret"] = type(use->getReturnType());
			json::Array ps;
			for (auto* p : use->parameters())
				ps.push_back(param(p));
			o["p"] = std::move(ps);
			o["body"] = use == op ? stmt(x->getBody()) : stmt(use->getBody());
			o["noexcept"] = isNoexcept(use);
			return o;
		}
		if (auto* x = dyn_cast<StringLiteral>(e))
		{
			o["k"] = "str";
			std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : std::string();
			if (!llvm::json::isUTF8(s))
				s = llvm::json::fixUTF8(s);
			o["v"] = s;
			o["len"] = static_cast<int64_t>(x->getLength());
			return o;
		}
		if (auto* x = dyn_cast<IntegerLiteral>(e))
		{
			o["k"] = "int";
			llvm::SmallString<32> s;
			x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
			o["v"] = static_cast<int64_t>(x->getValue().getLimitedValue(INT64_MAX));
			return o;
		}
		if (auto* x = dyn_cast<CharacterLiteral>(e))
		{
			o["k"] = "chr";
			o["v"] = static_cast<int64_t>(x->getValue());
			return o;
		}
		if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
		{
			o["k"] = "bool";
			o["v"] = x->getValue();
			return o;
		}
		if (auto* x = dyn_cast<FloatingLiteral>(e))
		{
			o["k"] = "flt";
			o["v"] = x->getValueAsApproximateDouble();
			return o;
		}
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
		{
			o["k"] = "null";
			return o;
		}
		if (isa<CXXThisExpr>(e))
		{
			o["k"] = "this";
			o["t"] = type(e->getType());
			return o;
		}
		if (auto* x = dyn_cast<CompoundAssignOperator>(e))
		{
			o["k"] = "assign";
			o["op"] = x->getOpcodeStr().str();
			o["a"] = expr(x->getLHS());
			o["b"] = expr(x->getRHS());
			return o;
		}
		if (auto* x = dyn_cast<BinaryOperator>(e))
		{
			if (x->isAssignmentOp())
			{
				o["k"] = "assign";
				o["op"] = "=";
			}
			else
			{
				o["k"] = "bin";
				o["op"] = x->getOpcodeStr().str();
			}
			o["a"] = expr(x->getLHS());
			o["b"] = expr(x->getRHS());
			return o;
		}
		if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
			return expr(x->getSemanticForm());
		if (auto* x = dyn_cast<UnaryOperator>(e))
		{
			o["k"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			o["post"] = x->isPostfix();
			o["e"] = expr(x->getSubExpr());
			return o;
		}
		if (auto* x = dyn_cast<ConditionalOperator>(e))
		{
			o["k"] = "cond";
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
			return o;
		}
		if (auto* x = dyn_cast<ExplicitCastExpr>(e))
		{
			// casts through a user-defined constructor / conversion keep their inner node
			o["k"] = "cast";
			o["ck"] = x->getCastKindName();
			o["t"] = type(x->getTypeAsWritten());
			o["e"] = expr(x->getSubExpr());
			return o;
		}
		if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
		{
			o["k"] = "idx";
			o["a"] = expr(x->getBase());
			o["b"] = expr(x->getIdx());
			return o;
		}
		if (auto* x = dyn_cast<CXXThrowExpr>(e))
		{
			o["k"] = "throw";
			if (x->getSubExpr())
			{
				o["e"] = expr(x->getSubExpr());
				o["t"] = type(x->getSubExpr()->getType());
			}
			return o;
		}
		if (auto* x = dyn_cast<CXXNewExpr>(e))
		{
			o["k"] = "new";
			o["t"] = type(x->getAllocatedType());
			if (x->getInitializer())
				o["e"] = expr(x->getInitializer());
			return o;
		}
		if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e))
		{
			o["k"] = "ctor";
			o["t"] = type(x->getType());
			o["a"] = json::Array();
			return o;
		}
		if (isa<ImplicitValueInitExpr>(e))
		{
			o["k"] = "ctor";
			o["t"] = type(e->getType());
			o["a"] = json::Array();
			return o;
		}
		if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
		{
			Expr::EvalResult r;
			o["k"] = "sizeof";
			if (!x->isValueDependent() && x->EvaluateAsInt(r, ctx))
				o["v"] = static_cast<int64_t>(r.Val.getInt().getExtValue());
			return o;
		}
		if (auto* x = dyn_cast<CXXTypeidExpr>(e))
		{
			o["k"] = "typeid";
			if (x->isTypeOperand())
				o["t"] = type(x->getTypeOperand(ctx));
			return o;
		}
		if (auto* x = dyn_cast<TypeTraitExpr>(e))
		{
			if (!x->isValueDependent())
			{
				o["k"] = "bool";
				o["v"] = x->getValue();
				return o;
			}
		}
		if (auto* x = dyn_cast<SizeOfPackExpr>(e))
		{
			if (!x->isValueDependent())
			{
				o["k"] = "int";
				o["v"] = static_cast<int64_t>(x->getPackLength());
				return o;
			}
		}
		// dependent forms (uninstantiated templates)
		if (auto* x = dyn_cast<UnresolvedLookupExpr>(e))
		{
			o["k"] = "ulookup";
			o["n"] = x->getName().getAsString();
			return o;
		}
		if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e))
		{
			o["k"] = "dmem";
			o["n"] = x->getMember().getAsString();
			if (!x->isImplicitAccess())
				o["b"] = expr(x->getBase());
			return o;
		}
		if (auto* x = dyn_cast<UnresolvedMemberExpr>(e))
		{
			o["k"] = "dmem";
			o["n"] = x->getMemberName().getAsString();
			if (!x->isImplicitAccess())
				o["b"] = expr(x->getBase());
			return o;
		}
		if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e))
		{
			o["k"] = "ctor";
			o["t"] = type(x->getType());
			json::Array a;
			for (auto* arg : x->arguments())
				a.push_back(expr(arg));
			o["a"] = std::move(a);
			return o;
		}
		if (auto* x = dyn_cast<ParenListExpr>(e))
		{
			o["k"] = "init";
			json::Array a;
			for (unsigned i = 0; i < x->getNumExprs(); ++i)
				a.push_back(expr(x->getExpr(i)));
			o["a"] = std::move(a);
			return o;
		}
		// generic fallback: keep children
		o["k"] = "other";
		o["cls"] = e->getStmtClassName();
		json::Array a;
		for (auto* c : e->children())
			if (auto* ce = dyn_cast_or_null<Expr>(c))
				a.push_back(expr(ce));
		o["a"] = std::move(a);
		return o;
	}

	bool isNoexcept(const FunctionDecl* fd)
	{
		auto* pt = fd->getType()->getAs<FunctionProtoType>();
		if (!pt)
			return false;
		auto es = pt->getExceptionSpecType();
		if (es == EST_Unevaluated || es == EST_Uninstantiated)
			return false;
		return pt->canThrow() == CT_Cannot;
	}

	json::Object param(const ParmVarDecl* p)
	{
		json::Object o;
		o["n"] = p->getNameAsString();
		o["d"] = id(p);
		o["t"] = type(p->getType());
		return o;
	}

	json::Value varDecl(const VarDecl* v)
	{
		json::Object o;
		o["n"] = v->getNameAsString();
		o["d"] = id(v);
		o["t"] = type(v->getType());
		if (v->isStaticLocal())
			o["static"] = true;
		if (v->getInit())
			o["i"] = expr(v->getInit());
		if (auto* dd = dyn_cast<DecompositionDecl>(v))
		{
			json::Array b;
			for (auto* bd : dd->bindings())
			{
				json::Object x;
				x["n"] = bd->getNameAsString();
				x["d"] = id(bd);
				if (auto f = boundField(bd); !f.empty())
					x["m"] = f;
				b.push_back(std::move(x));
			}
			o["bind"] = std::move(b);
		}
		return o;
	}

	// the member a structured binding stands for
	std::string boundField(const BindingDecl* bd)
	{
		if (auto* hv = bd->getHoldingVar())
		{
			auto* dd = dyn_cast_or_null<VarDecl>(bd->getDecomposedDecl());
			auto t = dd ? dd->getType().getNonReferenceType() : QualType();
			auto* rd = t.isNull() ? nullptr : t->getAsCXXRecordDecl();
			(void)hv;
			if (rd && rd->getNameAsString() == "pair")
			{
				unsigned i = 0;
				for (auto* b : cast<DecompositionDecl>(dd)->bindings())
				{
					if (b == bd)
						return i ? "second" : "first";
					++i;
				}
			}
			return "";
		}
		auto* b = bd->getBinding();
		if (!b)
			return "";
		if (auto* m = dyn_cast<MemberExpr>(b->IgnoreParenImpCasts()))
			return m->getMemberDecl()->getNameAsString();
		return "";
	}

	json::Value stmt(const Stmt* s)
	{
		if (!s)
			return nullptr;
		json::Object o;
		o["l"] = line(s->getBeginLoc());
		if (auto* x = dyn_cast<CompoundStmt>(s))
		{
			o["s"] = "block";
			json::Array a;
			for (auto* c : x->body())
				a.push_back(stmt(c));
			o["b"] = std::move(a);
			o["e"] = line(x->getRBracLoc());
			return o;
		}
		if (auto* x = dyn_cast<DeclStmt>(s))
		{
			o["s"] = "decl";
			json::Array a;
			for (auto* d : x->decls())
				if (auto* v = dyn_cast<VarDecl>(d))
					a.push_back(varDecl(v));
			o["v"] = std::move(a);
			return o;
		}
		if (auto* x = dyn_cast<IfStmt>(s))
		{
			o["s"] = "if";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			if (x->isConstexpr())
			{
				o["cexpr"] = true;
				Expr::EvalResult r;
				if (x->getCond() && !x->getCond()->isValueDependent()
					&& x->getCond()->EvaluateAsInt(r, ctx))
					o["cval"] = r.Val.getInt().getBoolValue();
			}
			o["t"] = stmt(x->getThen());
			if (x->getElse())
				o["e"] = stmt(x->getElse());
			return o;
		}
		if (auto* x = dyn_cast<ForStmt>(s))
		{
			o["s"] = "for";
			o["i"] = stmt(x->getInit());
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["n"] = expr(x->getInc());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto* x = dyn_cast<CXXForRangeStmt>(s))
		{
			o["s"] = "rfor";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			o["r"] = expr(x->getRangeInit());
			if (x->getLoopVariable())
			{
				json::Object v;
				auto* lv = x->getLoopVariable();
				v["n"] = lv->getNameAsString();
				v["d"] = id(lv);
				v["t"] = type(lv->getType());
				if (auto* dd = dyn_cast<DecompositionDecl>(lv))
				{
					json::Array b;
					for (auto* bd : dd->bindings())
					{
						json::Object y;
						y["n"] = bd->getNameAsString();
						y["d"] = id(bd);
						if (auto f = boundField(bd); !f.empty())
							y["m"] = f;
						b.push_back(std::move(y));
					}
					v["bind"] = std::move(b);
				}
				o["v"] = std::move(v);
			}
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto* x = dyn_cast<WhileStmt>(s))
		{
			o["s"] = "while";
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto* x = dyn_cast<DoStmt>(s))
		{
			o["s"] = "do";
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto* x = dyn_cast<SwitchStmt>(s))
		{
			o["s"] = "switch";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto* x = dyn_cast<CaseStmt>(s))
		{
			o["s"] = "case";
			o["v"] = expr(x->getLHS());
			o["b"] = stmt(x->getSubStmt());
			return o;
		}
		if (auto* x = dyn_cast<DefaultStmt>(s))
		{
			o["s"] = "default";
			o["b"] = stmt(x->getSubStmt());
			return o;
		}
		if (auto* x = dyn_cast<ReturnStmt>(s))
		{
			o["s"] = "ret";
			if (x->getRetValue())
				o["e"] = expr(x->getRetValue());
			return o;
		}
		if (isa<BreakStmt>(s))
		{
			o["s"] = "break";
			return o;
		}
		if (isa<ContinueStmt>(s))
		{
			o["s"] = "cont";
			return o;
		}
		if (isa<NullStmt>(s))
		{
			o["s"] = "null";
			return o;
		}
		if (auto* x = dyn_cast<CXXTryStmt>(s))
		{
			o["s"] = "try";
			o["b"] = stmt(x->getTryBlock());
			json::Array hs;
			for (unsigned i = 0; i < x->getNumHandlers(); ++i)
			{
				auto* h = x->getHandler(i);
				json::Object ho;
				ho["l"] = line(h->getBeginLoc());
				if (h->getExceptionDecl())
				{
					ho["t"] = type(h->getCaughtType());
					ho["n"] = h->getExceptionDecl()->getNameAsString();
					ho["d"] = id(h->getExceptionDecl());
				}
				ho["b"] = stmt(h->getHandlerBlock());
				hs.push_back(std::move(ho));
			}
			o["h"] = std::move(hs);
			return o;
		}
		if (auto* x = dyn_cast<AttributedStmt>(s))
			return stmt(x->getSubStmt());
		if (auto* x = dyn_cast<LabelStmt>(s))
			return stmt(x->getSubStmt());
		if (auto* x = dyn_cast<Expr>(s))
		{
			o["s"] = "expr";
			o["e"] = expr(x);
			return o;
		}
		o["s"] = "other";
		o["cls"] = s->getStmtClassName();
		return o;
	}

	json::Object function(const FunctionDecl* fd)
	{
		json::Object o;
		o["q"] = qname(fd);
		o["n"] = fd->getNameAsString();
		o["id"] = id(fd);
		o["file"] = relFile(fd->getLocation());
		o["l"] = line(fd->getLocation());
		o["ret"] = type(fd->getReturnType());
		o["noexcept"] = isNoexcept(fd);
		if (auto* l = fd->getTemplateSpecializationArgs())
			o["ta"] = targs(l);
		if (fd->isDependentContext())
			o["dep"] = true;
		if (fd->isTemplateInstantiation())
		{
			o["inst"] = true;
			if (auto* p = fd->getTemplateInstantiationPattern())
				o["pat"] = id(p);
		}
		json::Array ps;
		for (auto* p : fd->parameters())
			ps.push_back(param(p));
		o["p"] = std::move(ps);
		if (auto* md = dyn_cast<CXXMethodDecl>(fd))
		{
			o["cls"] = type(ctx.getRecordType(md->getParent()));
			o["clsq"] = qname(md->getParent());
			if (md->isConst())
				o["const"] = true;
			if (md->isStatic())
				o["static"] = true;
			if (md->isVirtual())
				o["virt"] = true;
			if (md->getParent()->isLambda())
				o["lam"] = true;
			o["acc"] = md->getAccess() == AS_public ? "public"
				: md->getAccess() == AS_protected   ? "protected"
													: "private";
			json::Array ov;
			for (auto* b : md->overridden_methods())
				ov.push_back(qname(b));
			if (!ov.empty())
				o["ov"] = std::move(ov);
		}
		if (fd->hasAttr<DeprecatedAttr>())
			o["deprecated"] = true;
		if (fd->isDefaulted())
			o["defaulted"] = true;
		if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
		{
			o["ctor"] = true;
			json::Array is;
			for (auto* i : cd->inits())
			{
				json::Object x;
				if (i->isAnyMemberInitializer())
					x["m"] = i->getAnyMember()->getNameAsString();
				else if (i->isBaseInitializer())
					x["base"] = type(QualType(i->getBaseClass(), 0));
				else
					x["deleg"] = true;
				x["e"] = expr(i->getInit());
				is.push_back(std::move(x));
			}
			o["inits"] = std::move(is);
		}
		if (isa<CXXDestructorDecl>(fd))
			o["dtor"] = true;
		o["body"] = stmt(fd->getBody());
		return o;
	}

	json::Object record(const CXXRecordDecl* rd)
	{
		json::Object o;
		o["q"] = qname(rd);
		o["t"] = type(ctx.getRecordType(rd));
		o["file"] = relFile(rd->getLocation());
		o["l"] = line(rd->getLocation());
		if (rd->isDependentContext())
			o["dep"] = true;
		if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
		{
			o["ta"] = targs(&sp->getTemplateArgs());
			o["spec"] = sp->isExplicitSpecialization();
		}
		json::Array bs;
		if (rd->hasDefinition())
			for (auto& b : rd->bases())
				bs.push_back(type(b.getType()));
		o["bases"] = std::move(bs);
		json::Array fs;
		for (auto* f : rd->fields())
		{
			json::Object x;
			x["n"] = f->getNameAsString();
			x["t"] = type(f->getType());
			x["d"] = id(f);
			if (f->isMutable())
				x["mut"] = true;
			if (f->getType().isConstQualified())
				x["const"] = true;
			if (f->getType()->isReferenceType())
				x["ref"] = true;
			if (f->hasInClassInitializer() && f->getInClassInitializer())
				x["i"] = expr(f->getInClassInitializer());
			fs.push_back(std::move(x));
		}
		o["fields"] = std::move(fs);
		json::Array ms;
		for (auto* m : rd->methods())
		{
			if (m->isImplicit())
				continue;
			json::Object x;
			x["n"] = m->getNameAsString();
			x["id"] = id(m);
			x["t"] = type(m->getType());
			if (m->isVirtual())
				x["virt"] = true;
			if (m->isPureVirtual())
				x["pure"] = true;
			if (m->isConst())
				x["const"] = true;
			if (m->isDeleted())
				x["del"] = true;
			if (m->hasAttr<DeprecatedAttr>())
				x["deprecated"] = true;
			x["acc"] = m->getAccess() == AS_public ? "public"
				: m->getAccess() == AS_protected   ? "protected"
												   : "private";
			ms.push_back(std::move(x));
		}
		o["methods"] = std::move(ms);
		return o;
	}
};

class Collector : public RecursiveASTVisitor<Collector>
{
public:
	Dumper& d;
	std::vector<const CXXRecordDecl*> recs;
	std::vector<const EnumDecl*> enums;
	std::vector<const VarDecl*> vars;
	std::vector<const TypedefNameDecl*> tds;
	std::set<const CXXRecordDecl*> seen;
	explicit Collector(Dumper& dd)
		: d(dd)
	{
	}
	bool shouldVisitTemplateInstantiations() const
	{
		return true;
	}
	bool shouldVisitImplicitCode() const
	{
		return false;
	}
	bool VisitFunctionDecl(FunctionDecl* fd)
	{
		if (fd->doesThisDeclarationHaveABody() && d.inRepo(fd->getLocation()))
		{
			if (auto* md = dyn_cast<CXXMethodDecl>(fd))
				if (md->getParent()->isLambda())
					return true;
			if (d.queued.insert(fd).second)
				d.pending.push_back(fd);
		}
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* rd)
	{
		if (rd->isThisDeclarationADefinition() && !rd->isLambda() && d.inRepo(rd->getLocation())
			&& seen.insert(rd).second)
			recs.push_back(rd);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* ed)
	{
		if (ed->isThisDeclarationADefinition() && d.inRepo(ed->getLocation()))
			enums.push_back(ed);
		return true;
	}
	bool VisitVarDecl(VarDecl* vd)
	{
		if (!vd->isLocalVarDeclOrParm() && d.inRepo(vd->getLocation()))
			vars.push_back(vd);
		return true;
	}
	bool VisitTypedefNameDecl(TypedefNameDecl* td)
	{
		if (d.inRepo(td->getLocation()) && !td->getDeclContext()->isFunctionOrMethod()
			&& !td->getUnderlyingType()->isDependentType())
			tds.push_back(td);
		return true;
	}
};

class Consumer : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext& ctx) override
	{
		if (ctx.getDiagnostics().hasUncompilableErrorOccurred())
			return;
		Dumper d(ctx);
		Collector c(d);
		c.TraverseDecl(ctx.getTranslationUnitDecl());
		std::error_code ec;
		llvm::raw_fd_ostream os(gOut, ec);
		json::OStream j(os);
		j.objectBegin();
		j.attributeBegin("functions");
		j.arrayBegin();
		for (size_t i = 0; i < d.pending.size(); ++i)
			j.value(d.function(d.pending[i]));
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("records");
		j.arrayBegin();
		for (auto* r : c.recs)
			j.value(d.record(r));
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("enums");
		j.arrayBegin();
		for (auto* e : c.enums)
		{
			json::Object o;
			o["q"] = d.qname(e);
			o["file"] = d.relFile(e->getLocation());
			o["l"] = d.line(e->getLocation());
			json::Array cs;
			for (auto* k : e->enumerators())
				cs.push_back(json::Array { k->getNameAsString(),
					static_cast<int64_t>(k->getInitVal().getExtValue()) });
			o["c"] = std::move(cs);
			j.value(std::move(o));
		}
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("vars");
		j.arrayBegin();
		for (auto* v : c.vars)
		{
			json::Object o;
			o["q"] = d.qname(v);
			o["d"] = d.id(v);
			o["t"] = d.type(v->getType());
			o["file"] = d.relFile(v->getLocation());
			o["l"] = d.line(v->getLocation());
			if (v->getInit() && !v->getType()->isDependentType())
				o["i"] = d.expr(v->getInit());
			if (v->getInit() && !v->getInit()->isValueDependent() && v->isConstexpr())
			{
				if (auto* ap = v->evaluateValue())
				{
					if (ap->isInt())
						o["cv"] = static_cast<int64_t>(ap->getInt().getExtValue());
				}
			}
			j.value(std::move(o));
		}
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("typedefs");
		j.arrayBegin();
		for (auto* t : c.tds)
		{
			json::Object o;
			o["q"] = d.qname(t);
			o["t"] = d.type(t->getUnderlyingType());
			j.value(std::move(o));
		}
		j.arrayEnd();
		j.attributeEnd();
		j.objectEnd();
	}
};

class Action : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

} // namespace

// factgen <root/> <out.json> <source> [flags...]
int main(int argc, const char** argv)
{
	if (argc < 4)
	{
		llvm::errs() << "usage: factgen root out source [flags]\n";
		return 2;
	}
	gRoot = argv[1];
	if (gRoot.empty() || gRoot.back() != '/')
		gRoot += '/';
	gOut = argv[2];
	std::vector<std::string> flags;
	for (int i = 4; i < argc; ++i)
		flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, { std::string(argv[3]) });
	class Factory : public tooling::FrontendActionFactory
	{
	public:
		std::unique_ptr<FrontendAction> create() override
		{
			return std::make_unique<Action>();
		}
	} factory;
	int rc = tool.run(&factory);
	return rc;
}
