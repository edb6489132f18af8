// astdump: dumps the resolved, type-checked program (post template
// instantiation) of one translation unit as JSON for the Python analyses in
// /verif/ygv. Only functions whose body is written below one of the --root
// directories are dumped with bodies; everything else is an external reference.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> ROOTS;
static std::string OUT;

namespace
{

class Dumper
{
public:
	explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
	{
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
	}

	ASTContext& C;
	SourceManager& SM;
	PrintingPolicy PP;
	std::map<Decl const*, int> ids;
	std::map<void const*, int> types;
	Array typeTable;
	Array functions, records, enums, globals;
	std::set<Decl const*> doneF, doneR, doneE, doneG;
	std::vector<FunctionDecl const*> work;

	int id(Decl const* d)
	{
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if(it != ids.end())
			return it->second;
		int n = static_cast<int>(ids.size()) + 1;
		ids[d] = n;
		return n;
	}

	std::string fileOf(SourceLocation l)
	{
		auto pl = SM.getPresumedLoc(SM.getExpansionLoc(l));
		return pl.isValid() ? pl.getFilename() : "";
	}
	unsigned lineOf(SourceLocation l)
	{
		auto pl = SM.getPresumedLoc(SM.getExpansionLoc(l));
		return pl.isValid() ? pl.getLine() : 0;
	}
	bool inRoot(SourceLocation l)
	{
		auto f = fileOf(l);
		for(auto& r : ROOTS)
			if(f.compare(0, r.size(), r) == 0)
				return true;
		return false;
	}

	std::string qual(NamedDecl const* d)
	{
		std::vector<std::string> parts;
		std::string nm = d->getNameAsString();
		if(auto* ctor = dyn_cast<CXXConstructorDecl>(d))
			nm = ctor->getParent()->getNameAsString();
		else if(isa<CXXDestructorDecl>(d))
			nm = "~";
		else if(isa<CXXConversionDecl>(d))
			nm = "operator conv";
		parts.push_back(nm);
		for(auto* dc = d->getDeclContext(); dc; dc = dc->getParent())
		{
			if(auto* ns = dyn_cast<NamespaceDecl>(dc))
			{
				if(ns->isInline() || ns->isAnonymousNamespace())
					continue;
				parts.push_back(ns->getNameAsString());
			}
			else if(auto* r = dyn_cast<TagDecl>(dc))
				parts.push_back(r->getNameAsString());
			else if(auto* f = dyn_cast<FunctionDecl>(dc))
				parts.push_back(f->getNameAsString() + "()");
		}
		std::string s;
		for(auto it = parts.rbegin(); it != parts.rend(); ++it)
		{
			if(!s.empty())
				s += "::";
			s += *it;
		}
		return s;
	}

	int type(QualType q)
	{
		q = q.getCanonicalType();
		auto it = types.find(q.getAsOpaquePtr());
		if(it != types.end())
			return it->second;
		int n = static_cast<int>(typeTable.size());
		types[q.getAsOpaquePtr()] = n;
		typeTable.push_back(Object{});
		Object o;
		o["s"] = q.getAsString(PP);
		o["c"] = q.isConstQualified();
		auto* t = q.getTypePtr();
		if(t->isReferenceType())
		{
			o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
			o["p"] = type(t->getPointeeType());
		}
		else if(t->isPointerType())
		{
			o["k"] = "ptr";
			o["p"] = type(t->getPointeeType());
		}
		else if(t->isMemberPointerType())
			o["k"] = "memptr";
		else if(t->isBooleanType())
		{
			o["k"] = "bool";
			o["w"] = 1;
			o["sg"] = false;
		}
		else if(t->isIntegralOrEnumerationType())
		{
			o["k"] = t->isEnumeralType() ? "enum" : "int";
			if(!t->isDependentType() && !t->isIncompleteType())
			{
				o["w"] = static_cast<int>(C.getIntWidth(q));
				o["sg"] = t->isSignedIntegerOrEnumerationType();
			}
			if(auto* et = t->getAs<EnumType>())
			{
				o["e"] = qual(et->getDecl());
				dumpEnum(et->getDecl());
			}
		}
		else if(t->isVoidType())
			o["k"] = "void";
		else if(auto* r = t->getAsCXXRecordDecl())
		{
			o["k"] = "rec";
			o["q"] = qual(r);
			o["r"] = id(r);
			dumpRecord(r);
			if(auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
				o["a"] = targs(sp->getTemplateArgs());
		}
		else if(t->isConstantArrayType())
		{
			auto* ca = C.getAsConstantArrayType(q);
			o["k"] = "arr";
			o["n"] = static_cast<int64_t>(ca->getSize().getZExtValue());
			o["p"] = type(ca->getElementType());
		}
		else if(t->isNullPtrType())
			o["k"] = "nullptr";
		else if(t->isFunctionType())
			o["k"] = "fn";
		else if(t->isFloatingType())
			o["k"] = "float";
		else
			o["k"] = "other";
		typeTable[n] = std::move(o);
		return n;
	}

	Array targs(TemplateArgumentList const& l)
	{
		Array a;
		for(auto& x : l.asArray())
			targ(x, a);
		return a;
	}
	void targ(TemplateArgument const& x, Array& a)
	{
		switch(x.getKind())
		{
		case TemplateArgument::Type: a.push_back(Object{{"t", type(x.getAsType())}}); break;
		case TemplateArgument::Integral:
			a.push_back(Object{{"v", static_cast<int64_t>(x.getAsIntegral().getExtValue())}});
			break;
		case TemplateArgument::Pack:
			for(auto& y : x.pack_elements())
				targ(y, a);
			break;
		default: a.push_back(Object{{"o", true}}); break;
		}
	}

	void dumpEnum(EnumDecl const* e)
	{
		if(auto* def = e->getDefinition())
			e = def;
		if(!doneE.insert(e->getCanonicalDecl()).second)
			return;
		Array vals;
		for(auto* c : e->enumerators())
			vals.push_back(Object{{"n", c->getNameAsString()},
			                      {"v", toStr(c->getInitVal())}});
		enums.push_back(Object{{"q", qual(e)},
		                       {"file", fileOf(e->getLocation())},
		                       {"line", lineOf(e->getLocation())},
		                       {"fixed", e->isFixed()},
		                       {"scoped", e->isScoped()},
		                       {"vals", std::move(vals)}});
	}

	static std::string toStr(llvm::APSInt const& v)
	{
		llvm::SmallString<40> s;
		v.toString(s, 10);
		return std::string(s);
	}

	void dumpRecord(CXXRecordDecl const* r)
	{
		if(auto* def = r->getDefinition())
			r = def;
		if(!r->hasDefinition() || r->isDependentContext())
			return;
		if(!doneR.insert(r->getCanonicalDecl()).second)
			return;
		Object o;
		o["id"] = id(r);
		o["q"] = qual(r);
		o["file"] = fileOf(r->getLocation());
		o["line"] = lineOf(r->getLocation());
		bool pb = false;
		Array bases;
		for(auto& b : r->bases())
			if(auto* br = b.getType()->getAsCXXRecordDecl())
			{
				bases.push_back(Object{{"r", id(br)}, {"q", qual(br)}});
				auto bq = qual(br);
				if(bq == "google::protobuf::MessageLite" || bq == "google::protobuf::Message")
					pb = true;
				if(inRoot(r->getLocation()))
					dumpRecord(br);
			}
		o["pb"] = pb;
		o["union"] = r->isUnion();
		o["lambda"] = r->isLambda();
		o["bases"] = std::move(bases);
		bool wanted = inRoot(r->getLocation());
		o["in"] = wanted;
		if(wanted)
		{
			Array fs;
			for(auto* f : r->fields())
			{
				Object fo;
				fo["id"] = id(f);
				fo["n"] = f->getNameAsString();
				fo["t"] = type(f->getType());
				fo["line"] = lineOf(f->getLocation());
				fo["bit"] = f->isBitField();
				fo["acc"] = static_cast<int>(f->getAccess());
				if(f->hasInClassInitializer() && f->getInClassInitializer())
					fo["init"] = expr(f->getInClassInitializer());
				fs.push_back(std::move(fo));
			}
			o["fields"] = std::move(fs);
			Array ms;
			for(auto* m : r->methods())
			{
				Object mo;
				mo["n"] = m->getNameAsString();
				mo["f"] = id(m);
				mo["virt"] = m->isVirtual();
				mo["pure"] = m->isPureVirtual();
				mo["acc"] = static_cast<int>(m->getAccess());
				mo["const"] = m->isConst();
				mo["implicit"] = m->isImplicit();
				mo["deleted"] = m->isDeleted();
				Array ov;
				for(auto* b : m->overridden_methods())
					ov.push_back(id(b));
				mo["over"] = std::move(ov);
				ms.push_back(std::move(mo));
			}
			o["methods"] = std::move(ms);
		}
		records.push_back(std::move(o));
	}

	// A variable with static storage, in the roots.
	void dumpGlobal(VarDecl const* v)
	{
		if(!doneG.insert(v->getCanonicalDecl()).second)
			return;
		Object o;
		o["id"] = id(v);
		o["n"] = v->getNameAsString();
		o["q"] = qual(v);
		o["t"] = type(v->getType());
		o["file"] = fileOf(v->getLocation());
		o["line"] = lineOf(v->getLocation());
		o["constexpr"] = v->isConstexpr();
		o["static_local"] = v->isStaticLocal();
		o["const"] = v->getType().isConstQualified();
		o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
		o["in"] = inRoot(v->getLocation());
		if(auto* in = v->getAnyInitializer())
			if(!in->isValueDependent() && inRoot(v->getLocation()))
				o["init"] = expr(in);
		globals.push_back(std::move(o));
	}

	int fnRef(FunctionDecl const* f)
	{
		FunctionDecl const* def = nullptr;
		if(f->hasBody(def) && def)
			f = def;
		work.push_back(f);
		return id(f);
	}

	void drain()
	{
		while(!work.empty())
		{
			auto* f = work.back();
			work.pop_back();
			dumpFunction(f);
		}
	}

	void dumpFunction(FunctionDecl const* f)
	{
		if(f->isDependentContext())
			return;
		FunctionDecl const* def = nullptr;
		if(f->hasBody(def) && def)
			f = def;
		if(!doneF.insert(f->getCanonicalDecl()).second)
			return;
		Object o;
		o["id"] = id(f);
		o["q"] = qual(f);
		o["n"] = f->getNameAsString();
		o["file"] = fileOf(f->getLocation());
		o["line"] = lineOf(f->getLocation());
		o["rt"] = type(f->getReturnType());
		o["noexcept"] = isNoexceptExceptionSpec(f->getExceptionSpecType());
		std::string sig;
		{
			llvm::raw_string_ostream os(sig);
			f->getNameForDiagnostic(os, PP, true);
		}
		o["sig"] = sig;
		if(auto* ta = f->getTemplateSpecializationArgs())
			o["ta"] = targs(*ta);
		if(auto* m = dyn_cast<CXXMethodDecl>(f))
		{
			o["rec"] = id(m->getParent());
			dumpRecord(m->getParent());
			o["static"] = m->isStatic();
			o["const"] = m->isConst();
			o["virt"] = m->isVirtual();
			o["implicit"] = m->isImplicit();
			o["defaulted"] = m->isDefaulted();
			o["copy_assign"] = m->isCopyAssignmentOperator();
			o["move_assign"] = m->isMoveAssignmentOperator();
			o["lambda"] = m->getParent()->isLambda();
		}
		if(auto* c = dyn_cast<CXXConstructorDecl>(f))
		{
			o["ctor"] = true;
			o["copy"] = c->isCopyOrMoveConstructor();
		}
		if(isa<CXXDestructorDecl>(f))
			o["dtor"] = true;
		o["variadic"] = f->isVariadic();
		Array ps;
		for(auto* p : f->parameters())
			ps.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
		o["params"] = std::move(ps);
		bool body = f->doesThisDeclarationHaveABody() && f->getBody() &&
		            (inRoot(f->getLocation()));
		o["in"] = inRoot(f->getLocation());
		if(body)
		{
			if(auto* c = dyn_cast<CXXConstructorDecl>(f))
			{
				Array inits;
				for(auto* i : c->inits())
				{
					Object io;
					if(i->isAnyMemberInitializer())
					{
						io["field"] = i->getAnyMember()->getNameAsString();
						io["fid"] = id(i->getAnyMember());
					}
					else if(i->isBaseInitializer())
						io["base"] = type(QualType(i->getBaseClass(), 0));
					else
						io["deleg"] = true;
					io["written"] = i->isWritten();
					io["line"] = lineOf(i->getSourceLocation());
					io["e"] = expr(i->getInit());
					inits.push_back(std::move(io));
				}
				o["inits"] = std::move(inits);
			}
			o["body"] = stmt(f->getBody());
		}
		functions.push_back(std::move(o));
	}

	Value nul() { return Value(nullptr); }

	Object node(char const* k, Stmt const* s)
	{
		Object o;
		o["k"] = k;
		o["l"] = static_cast<int>(lineOf(s->getBeginLoc()));
		auto f = fileOf(s->getBeginLoc());
		o["f_"] = fileIdx(f);
		return o;
	}
	std::map<std::string, int> fileIds;
	Array fileNames;
	int fileIdx(std::string const& f)
	{
		auto it = fileIds.find(f);
		if(it != fileIds.end())
			return it->second;
		int n = static_cast<int>(fileNames.size());
		fileIds[f] = n;
		fileNames.push_back(f);
		return n;
	}

	Value varDecl(VarDecl const* v)
	{
		Object o;
		o["id"] = id(v);
		o["n"] = v->getNameAsString();
		o["t"] = type(v->getType());
		o["l"] = static_cast<int>(lineOf(v->getLocation()));
		o["static"] = v->isStaticLocal();
		if(v->isStaticLocal())
			dumpGlobal(v);
		if(auto* i = v->getInit())
			o["init"] = expr(i);
		if(auto* dd = dyn_cast<DecompositionDecl>(v))
		{
			Array bs;
			for(auto* b : dd->bindings())
			{
				Object bo;
				bo["id"] = id(b);
				bo["n"] = b->getNameAsString();
				bo["t"] = type(b->getType());
				if(auto* hv = b->getHoldingVar())
				{
					bo["hv"] = id(hv);
					if(hv->getInit())
						bo["hinit"] = expr(hv->getInit());
				}
				if(b->getBinding())
					bo["e"] = expr(b->getBinding());
				bs.push_back(std::move(bo));
			}
			o["binds"] = std::move(bs);
		}
		return o;
	}

	Value stmt(Stmt const* s)
	{
		if(!s)
			return nul();
		if(auto* e = dyn_cast<Expr>(s))
		{
			auto o = node("expr", s);
			o["e"] = expr(e);
			return o;
		}
		if(auto* c = dyn_cast<CompoundStmt>(s))
		{
			auto o = node("block", s);
			Array a;
			for(auto* x : c->body())
				a.push_back(stmt(x));
			o["b"] = std::move(a);
			return o;
		}
		if(auto* d = dyn_cast<DeclStmt>(s))
		{
			auto o = node("decl", s);
			Array a;
			for(auto* x : d->decls())
				if(auto* v = dyn_cast<VarDecl>(x))
					a.push_back(varDecl(v));
			o["d"] = std::move(a);
			return o;
		}
		if(auto* i = dyn_cast<IfStmt>(s))
		{
			if(i->isConstexpr())
				if(auto nd = i->getNondiscardedCase(C))
				{
					auto o = node("block", s);
					Array a;
					if(i->getInit())
						a.push_back(stmt(i->getInit()));
					if(*nd)
						a.push_back(stmt(*nd));
					o["b"] = std::move(a);
					return o;
				}
			auto o = node("if", s);
			o["init"] = stmt(i->getInit());
			if(auto* cv = i->getConditionVariable())
				o["cv"] = varDecl(cv);
			o["c"] = expr(i->getCond());
			o["t"] = stmt(i->getThen());
			o["e"] = stmt(i->getElse());
			return o;
		}
		if(auto* w = dyn_cast<SwitchStmt>(s))
		{
			auto o = node("switch", s);
			o["init"] = stmt(w->getInit());
			if(auto* cv = w->getConditionVariable())
				o["cv"] = varDecl(cv);
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if(auto* c = dyn_cast<CaseStmt>(s))
		{
			auto o = node("case", s);
			o["v"] = expr(c->getLHS());
			if(c->getRHS())
				o["v2"] = expr(c->getRHS());
			o["s"] = stmt(c->getSubStmt());
			return o;
		}
		if(auto* c = dyn_cast<DefaultStmt>(s))
		{
			auto o = node("default", s);
			o["s"] = stmt(c->getSubStmt());
			return o;
		}
		if(auto* w = dyn_cast<WhileStmt>(s))
		{
			auto o = node("while", s);
			if(auto* cv = w->getConditionVariable())
				o["cv"] = varDecl(cv);
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if(auto* w = dyn_cast<DoStmt>(s))
		{
			auto o = node("do", s);
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if(auto* w = dyn_cast<ForStmt>(s))
		{
			auto o = node("for", s);
			o["init"] = stmt(w->getInit());
			if(auto* cv = w->getConditionVariable())
				o["cv"] = varDecl(cv);
			o["c"] = w->getCond() ? expr(w->getCond()) : nul();
			o["inc"] = w->getInc() ? expr(w->getInc()) : nul();
			o["b"] = stmt(w->getBody());
			return o;
		}
		if(auto* w = dyn_cast<CXXForRangeStmt>(s))
		{
			auto o = node("rfor", s);
			o["init"] = stmt(w->getInit());
			o["range"] = expr(w->getRangeInit());
			o["rv"] = varDecl(cast<VarDecl>(w->getRangeStmt()->getSingleDecl()));
			o["bv"] = varDecl(cast<VarDecl>(w->getBeginStmt()->getSingleDecl()));
			o["ev"] = varDecl(cast<VarDecl>(w->getEndStmt()->getSingleDecl()));
			o["c"] = expr(w->getCond());
			o["inc"] = expr(w->getInc());
			o["v"] = varDecl(w->getLoopVariable());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if(auto* r = dyn_cast<ReturnStmt>(s))
		{
			auto o = node("ret", s);
			o["e"] = r->getRetValue() ? expr(r->getRetValue()) : nul();
			return o;
		}
		if(isa<BreakStmt>(s))
			return node("break", s);
		if(isa<ContinueStmt>(s))
			return node("continue", s);
		if(isa<NullStmt>(s))
			return node("null", s);
		if(auto* a = dyn_cast<AttributedStmt>(s))
			return stmt(a->getSubStmt());
		if(auto* l = dyn_cast<LabelStmt>(s))
		{
			auto o = node("label", s);
			o["s"] = stmt(l->getSubStmt());
			return o;
		}
		auto o = node("ustmt", s);
		o["c"] = s->getStmtClassName();
		return o;
	}

	bool constInt(Expr const* e, Object& o)
	{
		if(e->isValueDependent() || e->isTypeDependent() || !e->isPRValue())
			return false;
		if(!e->getType()->isIntegralOrEnumerationType())
			return false;
		Expr::EvalResult r;
		if(!e->EvaluateAsRValue(r, C) || r.HasSideEffects || !r.Val.isInt())
			return false;
		o["k"] = "const";
		o["v"] = toStr(r.Val.getInt());
		return true;
	}

	Array args(Expr const* const* b, unsigned n)
	{
		Array a;
		for(unsigned i = 0; i < n; i++)
			a.push_back(expr(b[i]));
		return a;
	}

	Value expr(Expr const* e)
	{
		if(!e)
			return nul();
		// transparent wrappers
		if(auto* p = dyn_cast<ParenExpr>(e))
			return expr(p->getSubExpr());
		if(auto* p = dyn_cast<ExprWithCleanups>(e))
			return expr(p->getSubExpr());
		if(auto* p = dyn_cast<ConstantExpr>(e))
			if(!e->getType()->isIntegralOrEnumerationType())
				return expr(p->getSubExpr());
		if(auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
			if(!e->getType()->isIntegralOrEnumerationType())
				return expr(p->getReplacement());
		if(auto* p = dyn_cast<CXXDefaultArgExpr>(e))
			return expr(p->getExpr());
		if(auto* p = dyn_cast<CXXDefaultInitExpr>(e))
			return expr(p->getExpr());
		if(auto* p = dyn_cast<CXXBindTemporaryExpr>(e))
			return expr(p->getSubExpr());

		Object o = node("?", e);
		o["t"] = type(e->getType());
		if(e->isGLValue())
			o["lv"] = true;
		if(constInt(e, o))
		{
			// remember the enumerator the source names, if it does so plainly
			auto* in = e->IgnoreParenImpCasts();
			if(auto* dr = dyn_cast<DeclRefExpr>(in))
				if(auto* ec = dyn_cast<EnumConstantDecl>(dr->getDecl()))
					o["en"] = ec->getNameAsString();
			return o;
		}
		if(auto* p = dyn_cast<MaterializeTemporaryExpr>(e))
		{
			o["k"] = "mat";
			o["e"] = expr(p->getSubExpr());
			return o;
		}
		if(auto* p = dyn_cast<CastExpr>(e))
		{
			auto ck = p->getCastKind();
			if(ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion ||
			   ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr)
				return expr(p->getSubExpr());
			o["k"] = "cast";
			o["ck"] = p->getCastKindName();
			o["imp"] = isa<ImplicitCastExpr>(e);
			o["e"] = expr(p->getSubExpr());
			return o;
		}
		if(auto* d = dyn_cast<DeclRefExpr>(e))
		{
			auto* vd = d->getDecl();
			if(auto* fd = dyn_cast<FunctionDecl>(vd))
			{
				o["k"] = "fn";
				o["f"] = fnRef(fd);
				return o;
			}
			if(auto* fl = dyn_cast<FieldDecl>(vd))
			{
				o["k"] = "fieldref";
				o["n"] = fl->getNameAsString();
				return o;
			}
			o["k"] = "ref";
			o["d"] = id(vd);
			o["n"] = vd->getNameAsString();
			if(auto* v = dyn_cast<VarDecl>(vd))
				if(v->hasGlobalStorage())
				{
					o["g"] = true;
					dumpGlobal(v);
				}
			if(auto* b = dyn_cast<BindingDecl>(vd))
				o["bind"] = true;
			if(d->refersToEnclosingVariableOrCapture())
				o["cap"] = true;
			return o;
		}
		if(auto* m = dyn_cast<MemberExpr>(e))
		{
			o["b"] = expr(m->getBase());
			o["arrow"] = m->isArrow();
			if(auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
			{
				o["k"] = "mem";
				o["n"] = f->getNameAsString();
				o["fid"] = id(f);
				o["rec"] = id(f->getParent());
				dumpRecord(cast<CXXRecordDecl>(f->getParent()));
			}
			else if(auto* f2 = dyn_cast<FunctionDecl>(m->getMemberDecl()))
			{
				o["k"] = "mfn";
				o["f"] = fnRef(f2);
			}
			else if(auto* v = dyn_cast<VarDecl>(m->getMemberDecl()))
			{
				o["k"] = "ref";
				o["d"] = id(v);
				o["n"] = v->getNameAsString();
				o["g"] = true;
				dumpGlobal(v);
			}
			else
				o["k"] = "umem";
			return o;
		}
		if(auto* c = dyn_cast<CXXOperatorCallExpr>(e))
		{
			o["k"] = "call";
			o["op"] = getOperatorSpelling(c->getOperator());
			auto* fd = c->getDirectCallee();
			if(fd)
			{
				o["f"] = fnRef(fd);
				if(auto* m = dyn_cast<CXXMethodDecl>(fd); m && !m->isStatic())
				{
					o["this"] = expr(c->getArg(0));
					o["args"] = args(c->getArgs() + 1, c->getNumArgs() - 1);
					return o;
				}
			}
			o["args"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		if(auto* c = dyn_cast<CXXMemberCallExpr>(e))
		{
			o["k"] = "call";
			if(auto* md = c->getMethodDecl())
			{
				o["f"] = fnRef(md);
				bool qualified = false;
				if(auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
				{
					qualified = me->hasQualifier();
					o["arrow"] = me->isArrow();
				}
				o["virt"] = md->isVirtual() && !qualified;
				o["this"] = expr(c->getImplicitObjectArgument());
			}
			else
				o["callee"] = expr(c->getCallee());
			o["args"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		if(auto* c = dyn_cast<CallExpr>(e))
		{
			o["k"] = "call";
			if(auto* fd = c->getDirectCallee())
				o["f"] = fnRef(fd);
			else
				o["callee"] = expr(c->getCallee());
			o["args"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		if(auto* c = dyn_cast<CXXConstructExpr>(e))
		{
			o["k"] = "ctor";
			o["f"] = fnRef(c->getConstructor());
			o["args"] = args(c->getArgs(), c->getNumArgs());
			o["cm"] = c->getConstructor()->isCopyOrMoveConstructor();
			o["def"] = c->getConstructor()->isDefaultConstructor();
			o["list"] = c->isListInitialization();
			o["zero"] = c->requiresZeroInitialization();
			return o;
		}
		if(auto* l = dyn_cast<LambdaExpr>(e))
		{
			o["k"] = "lambda";
			o["r"] = id(l->getLambdaClass());
			dumpRecord(l->getLambdaClass());
			if(auto* ftd = l->getLambdaClass()->getDependentLambdaCallOperator())
			{
				Array insts;
				for(auto* s : ftd->specializations())
					insts.push_back(fnRef(s));
				o["insts"] = std::move(insts);
				o["generic"] = true;
			}
			else
				o["f"] = fnRef(l->getCallOperator());
			Array caps;
			auto init = l->capture_init_begin();
			for(auto& cp : l->captures())
			{
				Object co;
				if(cp.capturesThis())
					co["this"] = true;
				else if(cp.capturesVariable())
				{
					co["d"] = id(cp.getCapturedVar());
					co["n"] = cp.getCapturedVar()->getNameAsString();
					co["byref"] = cp.getCaptureKind() == LCK_ByRef;
					if(auto* vd = dyn_cast<VarDecl>(cp.getCapturedVar()); vd && vd->isInitCapture())
						co["ic"] = true;
					co["init"] = expr(*init);
				}
				++init;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			return o;
		}
		if(auto* b = dyn_cast<BinaryOperator>(e))
		{
			o["k"] = b->isAssignmentOp() ? "asg" : "bin";
			o["op"] = b->getOpcodeStr();
			o["a"] = expr(b->getLHS());
			o["b"] = expr(b->getRHS());
			if(auto* ca = dyn_cast<CompoundAssignOperator>(b))
				o["ct"] = type(ca->getComputationResultType());
			return o;
		}
		if(auto* u = dyn_cast<UnaryOperator>(e))
		{
			o["k"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode());
			o["post"] = u->isPostfix();
			if(u->getOpcode() == UO_AddrOf)
				if(auto* dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens()))
					if(isa<CXXMethodDecl>(dr->getDecl()) &&
					   !cast<CXXMethodDecl>(dr->getDecl())->isStatic())
					{
						o["k"] = "memfn";
						o["f"] = fnRef(cast<FunctionDecl>(dr->getDecl()));
						return o;
					}
			o["e"] = expr(u->getSubExpr());
			return o;
		}
		if(auto* c = dyn_cast<ConditionalOperator>(e))
		{
			o["k"] = "cond";
			o["c"] = expr(c->getCond());
			o["a"] = expr(c->getTrueExpr());
			o["b"] = expr(c->getFalseExpr());
			return o;
		}
		if(auto* i = dyn_cast<InitListExpr>(e))
		{
			if(i->isTransparent() && i->getNumInits() == 1)
				return expr(i->getInit(0));
			if(auto* sem = i->getSemanticForm())
				i = sem;
			o["k"] = "init";
			Array a;
			for(auto* x : i->inits())
				a.push_back(expr(x));
			o["e"] = std::move(a);
			if(i->getArrayFiller())
				o["fill"] = expr(i->getArrayFiller());
			if(auto* r = i->getType()->getAsCXXRecordDecl())
			{
				Array fn;
				for(auto& b : r->bases())
				{
					(void)b;
					fn.push_back("$base");
				}
				for(auto* f : r->fields())
					fn.push_back(f->getNameAsString());
				o["fn"] = std::move(fn);
			}
			return o;
		}
		if(auto* a = dyn_cast<ArraySubscriptExpr>(e))
		{
			o["k"] = "idx";
			o["a"] = expr(a->getBase());
			o["b"] = expr(a->getIdx());
			return o;
		}
		if(isa<CXXThisExpr>(e))
		{
			o["k"] = "this";
			return o;
		}
		if(isa<CXXNullPtrLiteralExpr>(e))
		{
			o["k"] = "null";
			return o;
		}
		if(auto* s = dyn_cast<StringLiteral>(e))
		{
			o["k"] = "str";
			if(s->getCharByteWidth() == 1)
				o["v"] = json::fixUTF8(s->getString());
			return o;
		}
		if(isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
		{
			o["k"] = "zero";
			return o;
		}
		if(auto* s = dyn_cast<CXXStdInitializerListExpr>(e))
		{
			o["k"] = "il";
			o["e"] = expr(s->getSubExpr());
			return o;
		}
		if(auto* n = dyn_cast<CXXNewExpr>(e))
		{
			o["k"] = "new";
			o["at"] = type(n->getAllocatedType());
			if(n->getInitializer())
				o["e"] = expr(n->getInitializer());
			return o;
		}
		if(auto* d = dyn_cast<CXXDeleteExpr>(e))
		{
			o["k"] = "delete";
			o["e"] = expr(d->getArgument());
			return o;
		}
		if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
		{
			o["k"] = "inhctor";
			o["f"] = fnRef(x->getConstructor());
			return o;
		}
		if(auto* x = dyn_cast<OpaqueValueExpr>(e))
			if(x->getSourceExpr())
				return expr(x->getSourceExpr());
		if(auto* x = dyn_cast<ArrayInitLoopExpr>(e))
		{
			o["k"] = "arrcopy";
			o["e"] = expr(x->getCommonExpr()->getSourceExpr());
			return o;
		}
		if(auto* x = dyn_cast<CXXFoldExpr>(e))
		{
			(void)x;
		}
		if(auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
			return expr(x->getSemanticForm());
		o["k"] = "uexpr";
		o["c"] = e->getStmtClassName();
		Array ch;
		for(auto* c : e->children())
			if(auto* ce = dyn_cast_or_null<Expr>(c))
				ch.push_back(expr(ce));
		o["ch"] = std::move(ch);
		return o;
	}
};

class Collector : public RecursiveASTVisitor<Collector>
{
public:
	explicit Collector(Dumper& d) : D(d) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if(f->isDependentContext() || !D.inRoot(f->getLocation()))
			return true;
		if(f->doesThisDeclarationHaveABody() && f->getBody())
			D.work.push_back(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		if(D.inRoot(r->getLocation()) && r->isThisDeclarationADefinition() &&
		   !r->isDependentContext())
			D.dumpRecord(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e)
	{
		if(D.inRoot(e->getLocation()) && !e->isDependentContext())
			D.dumpEnum(e);
		return true;
	}
	bool VisitVarDecl(VarDecl* v)
	{
		if(v->hasGlobalStorage() && D.inRoot(v->getLocation()) &&
		   !v->getDeclContext()->isDependentContext() && !isa<VarTemplateSpecializationDecl>(v) &&
		   !v->getType()->isDependentType())
			D.dumpGlobal(v);
		return true;
	}
	Dumper& D;
};

class Consumer : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext& c) override
	{
		if(c.getDiagnostics().hasUncompilableErrorOccurred())
			return;
		Dumper d(c);
		Collector col(d);
		col.TraverseDecl(c.getTranslationUnitDecl());
		d.drain();
		Object o;
		o["types"] = std::move(d.typeTable);
		o["functions"] = std::move(d.functions);
		o["records"] = std::move(d.records);
		o["enums"] = std::move(d.enums);
		o["globals"] = std::move(d.globals);
		o["files"] = std::move(d.fileNames);
		std::error_code ec;
		llvm::raw_fd_ostream os(OUT, ec);
		if(ec)
		{
			llvm::errs() << ec.message() << "\n";
			return;
		}
		os << Value(std::move(o));
	}
};

class Action : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

} // namespace

// astdump OUT ROOT[,ROOT...] SOURCE -- compiler-args...
int main(int argc, char const** argv)
{
	if(argc < 5)
		return 2;
	OUT = argv[1];
	std::string roots = argv[2];
	size_t p = 0;
	while(p <= roots.size())
	{
		auto q = roots.find(',', p);
		if(q == std::string::npos)
			q = roots.size();
		ROOTS.push_back(roots.substr(p, q - p));
		p = q + 1;
	}
	std::string src = argv[3];
	std::vector<std::string> a;
	for(int i = 5; i < argc; i++)
		a.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", a);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
