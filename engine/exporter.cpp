// Mechanical extraction: dumps the definitions (after template instantiation) of every function,
// record and enum of a translation unit that lives under --root as JSON.
// Usage: exporter --root=/repo/src -- FILE clang-args...
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string gRoot;
static std::string gOut;

class Dumper {
public:
	ASTContext& C;
	SourceManager& SM;
	std::unique_ptr<MangleContext> MC;
	std::map<Decl const*, int> ids;
	std::map<std::string, int> typeIdx;
	Array types;
	Object functions, records, enums, vars;
	std::set<Decl const*> done;
	std::vector<CXXRecordDecl const*> recQueue;
	std::set<CXXRecordDecl const*> recSeen;

	explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {}

	int id(Decl const* d) { d = d->getCanonicalDecl(); auto [it, _] = ids.emplace(d, (int) ids.size()); return it->second; }

	std::string fileOf(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto p = SM.getPresumedLoc(l);
		return p.isValid() ? p.getFilename() : "";
	}
	unsigned lineOf(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto p = SM.getPresumedLoc(l);
		return p.isValid() ? p.getLine() : 0;
	}
	bool inRoot(SourceLocation l) {
		auto f = fileOf(l);
		return f.rfind(gRoot, 0) == 0;
	}
	std::string recName(CXXRecordDecl const* r) {
		if(r->isLambda())
			return "lambda@" + std::to_string(id(r));
		std::string s;
		llvm::raw_string_ostream os(s);
		r->printQualifiedName(os);
		// local records
		if(r->getParentFunctionOrMethod())
			os << "@" << id(r);
		os.flush();
		return clean(s);
	}
	static std::string clean(std::string s) {
		for(char const* k : { "std::__cxx11::", "std::_V2::", "std::__1::" }) {
			size_t p;
			while((p = s.find(k)) != std::string::npos) s.replace(p, std::string(k).size(), "std::");
		}
		return s;
	}
	Value typeJ(QualType q) {
		q = q.getCanonicalType();
		bool isConst = q.isConstQualified();
		Type const* t = q.getTypePtr();
		Object o;
		if(isConst) o["c"] = 1;
		if(auto* b = dyn_cast<BuiltinType>(t)) {
			o["k"] = "b"; o["n"] = b->getName(C.getPrintingPolicy()).str();
		} else if(t->isPointerType()) {
			o["k"] = "p"; o["e"] = type(t->getPointeeType());
		} else if(t->isReferenceType()) {
			o["k"] = "r"; o["e"] = type(t->getPointeeType());
			o["rv"] = t->isRValueReferenceType();
		} else if(auto* e = dyn_cast<EnumType>(t)) {
			o["k"] = "e"; o["n"] = clean(e->getDecl()->getQualifiedNameAsString());
			dumpEnum(e->getDecl());
		} else if(auto* r = dyn_cast<RecordType>(t)) {
			auto* d = dyn_cast<CXXRecordDecl>(r->getDecl());
			o["k"] = "rec";
			if(!d) { o["n"] = r->getDecl()->getQualifiedNameAsString(); return o; }
			o["n"] = recName(d);
			if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d))
				o["a"] = targs(s->getTemplateArgs().asArray());
			if(recSeen.insert(d).second) recQueue.push_back(d);
		} else if(auto* a = dyn_cast<ConstantArrayType>(t)) {
			o["k"] = "arr"; o["e"] = type(a->getElementType()); o["n"] = (int64_t) a->getSize().getZExtValue();
		} else if(t->isFunctionType()) {
			o["k"] = "fn"; o["s"] = q.getAsString();
		} else if(auto* m = dyn_cast<MemberPointerType>(t)) {
			o["k"] = "mp"; o["e"] = type(m->getPointeeType());
		} else {
			o["k"] = "?"; o["s"] = q.getAsString();
		}
		return o;
	}
	Array targs(llvm::ArrayRef<TemplateArgument> as) {
		Array out;
		for(auto const& a : as) {
			switch(a.getKind()) {
			case TemplateArgument::Type: out.push_back(type(a.getAsType())); break;
			case TemplateArgument::Integral: { Object o; o["i"] = (int64_t) a.getAsIntegral().getExtValue(); out.push_back(std::move(o)); } break;
			case TemplateArgument::Pack: { Object o; o["pack"] = targs(a.pack_elements()); out.push_back(std::move(o)); } break;
			default: { Object o; o["o"] = 1; out.push_back(std::move(o)); }
			}
		}
		return out;
	}
	std::map<void const*, int> typeCache;
	int type(QualType q) {
		q = q.getCanonicalType();
		void const* key = q.getAsOpaquePtr();
		if(auto it = typeCache.find(key); it != typeCache.end()) return it->second;
		int idx = types.size();
		typeCache[key] = idx;
		types.push_back(nullptr);
		auto v = typeJ(q);
		types[idx] = std::move(v);
		return idx;
	}
	std::set<EnumDecl const*> enumsDone;
	void dumpEnum(EnumDecl const* e) {
		if(e->getDefinition()) e = e->getDefinition();
		if(!enumsDone.insert(e).second) return;
		Array a;
		for(auto* c : e->enumerators()) {
			Object o; o["n"] = c->getNameAsString(); o["v"] = (int64_t) c->getInitVal().getExtValue();
			a.push_back(std::move(o));
		}
		enums[clean(e->getQualifiedNameAsString())] = std::move(a);
	}
	std::string key(FunctionDecl const* f) {
		if(auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
			return "L" + std::to_string(id(f));
		for(DeclContext const* dc = f->getDeclContext(); dc; dc = dc->getParent())
			if(dc->isFunctionOrMethod()) return "N" + std::to_string(id(f)) + ":" + f->getNameAsString();
		std::string s;
		llvm::raw_string_ostream os(s);
		if(auto* c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
		else if(auto* d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
		else if(MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
		else os << f->getQualifiedNameAsString();
		os.flush();
		return s;
	}
	std::string qname(NamedDecl const* f) {
		if(auto* m = dyn_cast<CXXMethodDecl>(f))
			return recName(m->getParent()) + "::" + f->getNameAsString();
		return clean(f->getQualifiedNameAsString());
	}
	Object calleeJ(FunctionDecl const* f) {
		Object o;
		bool isCopy = false, isMove = false;
		std::string k;
		// only mangle what may be needed
		o["q"] = qname(f);
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["m"] = m->isStatic() ? 0 : 1;
			if(m->isVirtual()) o["virt"] = 1;
			if(m->isCopyAssignmentOperator()) o["casg"] = 1;
			if(m->isMoveAssignmentOperator()) o["masg"] = 1;
		}
		if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
			isCopy = c->isCopyConstructor(); isMove = c->isMoveConstructor();
			if(isCopy) o["copy"] = 1;
			if(isMove) o["move"] = 1;
			if(c->isDefaultConstructor()) o["defc"] = 1;
			if(c->isDefaulted()) o["defaulted"] = 1;
		}
		if(f->isImplicit() || f->isDefaulted()) o["impl"] = 1;
		o["k"] = key(f);
		if(auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
		o["ret"] = type(f->getReturnType());
		Array ps;
		for(auto* p : f->parameters()) ps.push_back(type(p->getType()));
		o["pt"] = std::move(ps);
		FunctionDecl const* def = nullptr;
		if(f->hasBody(def) && inRoot(def->getLocation())) { dumpFunction(def); o["src"] = 1; }
		else if(inRoot(f->getLocation())) o["src"] = 1;
		return o;
	}

	// ---- expressions ------------------------------------------------------
	Value expr(Expr const* e) {
		if(!e) return nullptr;
		for(;;) {
			if(auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
			else if(auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
			else if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
			else if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
			else if(auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
			else if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
			else if(auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
			else if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
				Object o; o["k"] = "StdInitList"; o["t"] = type(e->getType()); o["c"] = Array{ expr(x->getSubExpr()) };
				return o;
			}
			else break;
		}
		Object o;
		o["t"] = type(e->getType());
		o["l"] = lineOf(e->getBeginLoc());
		if(e->isLValue()) o["lv"] = 1;
		if(auto* x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "Int"; llvm::SmallString<32> s; x->getValue().toStringUnsigned(s); o["v"] = s.str().str(); }
		else if(auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; double d = x->getValue().convertToDouble(); char b[64]; snprintf(b, sizeof b, "%a", d); o["v"] = std::string(b); }
		else if(auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); }
		else if(auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Int"; o["v"] = std::to_string(x->getValue()); }
		else if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; }
		else if(auto* x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "Str"; o["v"] = x->isOrdinary() ? x->getString().str() : std::string("?"); }
		else if(auto* x = dyn_cast<DeclRefExpr>(e)) {
			auto* d = x->getDecl();
			o["k"] = "Ref"; o["n"] = d->getNameAsString();
			if(auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "Enum"; o["v"] = (int64_t) ec->getInitVal().getExtValue(); }
			else if(auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "Fn"; o["f"] = calleeJ(f); }
			else if(auto* b = dyn_cast<BindingDecl>(d)) { o["d"] = id(b); }
			else {
				o["d"] = id(d);
				if(auto* v = dyn_cast<VarDecl>(d)) {
					if(v->hasGlobalStorage()) {
						o["g"] = clean(v->getQualifiedNameAsString());
						dumpGlobal(v);
					}
				}
			}
		}
		else if(auto* x = dyn_cast<MemberExpr>(e)) {
			auto* d = x->getMemberDecl();
			o["k"] = "Member"; o["n"] = d->getNameAsString(); o["arrow"] = x->isArrow();
			if(auto* fd = dyn_cast<FieldDecl>(d)) { if(auto* r = dyn_cast<CXXRecordDecl>(fd->getParent())) o["cls"] = recName(r); }
			else if(auto* f = dyn_cast<FunctionDecl>(d)) { o["f"] = calleeJ(f); }
			else if(auto* v = dyn_cast<VarDecl>(d)) { o["k"] = "Ref"; o["g"] = clean(v->getQualifiedNameAsString()); o["d"] = id(v); dumpGlobal(v); }
			o["c"] = Array{ expr(x->getBase()) };
		}
		else if(auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
			o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
			if(auto* f = x->getDirectCallee()) o["f"] = calleeJ(f);
			Array a; for(auto* c : x->arguments()) a.push_back(expr(c));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
			o["k"] = "MCall";
			if(auto* f = x->getMethodDecl()) o["f"] = calleeJ(f);
			o["obj"] = expr(x->getImplicitObjectArgument());
			if(auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); if(me->hasQualifier()) o["nonvirt"] = 1; }
			Array a; for(auto* c : x->arguments()) a.push_back(expr(c));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<UserDefinedLiteral>(e)) {
			o["k"] = "Call"; o["udl"] = 1;
			if(auto* f = x->getDirectCallee()) o["f"] = calleeJ(f);
			Array a; for(auto* c : x->arguments()) a.push_back(expr(c));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<CallExpr>(e)) {
			o["k"] = "Call";
			if(auto* f = x->getDirectCallee()) o["f"] = calleeJ(f);
			else o["fe"] = expr(x->getCallee());
			Array a; for(auto* c : x->arguments()) a.push_back(expr(c));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<CXXConstructExpr>(e)) {
			o["k"] = "Ctor"; o["f"] = calleeJ(x->getConstructor());
			if(x->isElidable()) o["elide"] = 1;
			if(x->isListInitialization()) o["list"] = 1;
			if(x->isStdInitListInitialization()) o["silist"] = 1;
			Array a; for(auto* c : x->arguments()) a.push_back(expr(c));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "InheritedCtor"; o["f"] = calleeJ(x->getConstructor()); }
		else if(auto* x = dyn_cast<InitListExpr>(e)) {
			if(auto* s = x->getSemanticForm()) x = s;
			o["k"] = "InitList";
			Array a; for(auto* c : x->inits()) a.push_back(expr(c));
			o["c"] = std::move(a);
			if(x->hasArrayFiller()) o["filler"] = expr(x->getArrayFiller());
		}
		else if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "ValueInit"; }
		else if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { return expr(x->getExpr()); }
		else if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { o["k"] = "DefaultArg"; o["c"] = Array{ expr(x->getExpr()) }; }
		else if(auto* x = dyn_cast<CastExpr>(e)) {
			o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["c"] = Array{ expr(x->getSubExpr()) };
			if(isa<CXXDynamicCastExpr>(e)) o["dyn"] = 1;
			if(isa<ExplicitCastExpr>(e)) o["expl"] = 1;
			if(x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_ConstructorConversion)
				if(auto* f = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) o["f"] = calleeJ(f);
		}
		else if(auto* x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Unary"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["c"] = Array{ expr(x->getSubExpr()) }; }
		else if(auto* x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "CompoundAssign"; o["op"] = x->getOpcodeStr().str(); o["ct"] = type(x->getComputationResultType()); o["c"] = Array{ expr(x->getLHS()), expr(x->getRHS()) }; }
		else if(auto* x = dyn_cast<BinaryOperator>(e)) { o["k"] = "Binary"; o["op"] = x->getOpcodeStr().str(); o["c"] = Array{ expr(x->getLHS()), expr(x->getRHS()) }; }
		else if(auto* x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = Array{ expr(x->getCond()), expr(x->getTrueExpr()), expr(x->getFalseExpr()) }; }
		else if(auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Index"; o["c"] = Array{ expr(x->getBase()), expr(x->getIdx()) }; }
		else if(isa<CXXThisExpr>(e)) { o["k"] = "This"; }
		else if(auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "New"; o["at"] = type(x->getAllocatedType()); o["c"] = Array{ x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr) }; }
		else if(isa<CXXDeleteExpr>(e)) { o["k"] = "Delete"; }
		else if(isa<CXXThrowExpr>(e)) { o["k"] = "Throw"; }
		else if(auto* x = dyn_cast<LambdaExpr>(e)) {
			o["k"] = "Lambda";
			o["rec"] = recName(x->getLambdaClass());
			Array caps;
			for(auto const& c : x->captures()) {
				Object co;
				if(c.capturesThis()) { co["this"] = 1; co["byref"] = c.getCaptureKind() == LCK_This; }
				else if(c.capturesVariable()) {
					auto* v = c.getCapturedVar();
					co["d"] = id(v); co["n"] = v->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef;
					if(auto* vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture()) { co["init"] = expr(vd->getInit()); co["t"] = type(vd->getType()); }
				}
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			Array ops;
			auto* op = x->getCallOperator();
			if(auto* ft = op->getDescribedFunctionTemplate()) {
				for(auto* s : ft->specializations()) { FunctionDecl const* def = nullptr; if(s->hasBody(def)) { dumpFunction(def, true); ops.push_back(key(def)); } }
				o["generic"] = 1;
			} else { dumpFunction(op, true); ops.push_back(key(op)); }
			o["ops"] = std::move(ops);
		}
		else if(auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "SizeOf"; }
		else if(auto* x = dyn_cast<OpaqueValueExpr>(e)) { if(x->getSourceExpr()) return expr(x->getSourceExpr()); o["k"] = "Opaque"; }
		else if(auto* x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); }
		else if(auto* x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); }
		else if(auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; o["v"] = "?"; }
		else if(auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "ArrayCopy"; o["c"] = Array{ expr(x->getCommonExpr()) }; }
		else if(auto* x = dyn_cast<SizeOfPackExpr>(e); x && !x->isValueDependent()) { o["k"] = "Int"; o["v"] = std::to_string(x->getPackLength()); o["t"] = type(x->getType()); }
		else { o["k"] = "Unknown"; o["cls"] = e->getStmtClassName(); }
		return o;
	}

	Value varDecl(VarDecl const* v) {
		Object o;
		o["d"] = id(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType());
		o["static"] = v->isStaticLocal();
		if(v->hasInit()) o["init"] = expr(v->getInit());
		if(auto* dd = dyn_cast<DecompositionDecl>(v)) {
			Array bs;
			for(auto* b : dd->bindings()) { Object bo; bo["d"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = type(b->getType());
				if(auto* hv = b->getHoldingVar()) bo["hd"] = id(hv);
				bs.push_back(std::move(bo)); }
			o["bind"] = std::move(bs);
		}
		return o;
	}

	Value stmt(Stmt const* s) {
		if(!s) return nullptr;
		Object o;
		o["l"] = lineOf(s->getBeginLoc());
		if(auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; Array a; for(auto* c : x->body()) a.push_back(stmt(c)); o["c"] = std::move(a); }
		else if(auto* x = dyn_cast<DeclStmt>(s)) {
			o["k"] = "Decl"; Array a;
			for(auto* d : x->decls()) if(auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
			o["c"] = std::move(a);
		}
		else if(auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; o["c"] = Array{ x->getRetValue() ? expr(x->getRetValue()) : Value(nullptr) }; }
		else if(auto* x = dyn_cast<IfStmt>(s)) {
			o["k"] = "If";
			if(x->isConstexpr()) o["constexpr"] = 1;
			o["init"] = stmt(x->getInit());
			if(auto* v = x->getConditionVariable()) o["cv"] = varDecl(v);
			o["cond"] = expr(x->getCond()); o["then"] = stmt(x->getThen()); o["else"] = stmt(x->getElse());
		}
		else if(auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "For"; o["init"] = stmt(x->getInit()); o["cond"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); }
		else if(auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if(auto* v = x->getConditionVariable()) o["cv"] = varDecl(v); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
		else if(auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
		else if(auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "RangeFor"; o["init"] = stmt(x->getInit()); o["range"] = expr(x->getRangeInit()); o["var"] = varDecl(x->getLoopVariable()); o["body"] = stmt(x->getBody()); }
		else if(auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; o["init"] = stmt(x->getInit()); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
		else if(auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; Expr::EvalResult r; if(x->getLHS()->EvaluateAsInt(r, C)) o["v"] = (int64_t) r.Val.getInt().getExtValue(); o["c"] = Array{ stmt(x->getSubStmt()) }; }
		else if(auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["c"] = Array{ stmt(x->getSubStmt()) }; }
		else if(isa<BreakStmt>(s)) o["k"] = "Break";
		else if(isa<ContinueStmt>(s)) o["k"] = "Continue";
		else if(isa<NullStmt>(s)) o["k"] = "Nop";
		else if(auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		else if(auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "UnknownStmt"; o["cls"] = "LabelStmt"; }
		else if(auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "UnknownStmt"; o["cls"] = "Try"; }
		else if(auto* x = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["c"] = Array{ expr(x) }; }
		else { o["k"] = "UnknownStmt"; o["cls"] = s->getStmtClassName(); }
		return o;
	}

	void dumpGlobal(VarDecl const* v) {
		std::string n = clean(v->getQualifiedNameAsString());
		if(vars.get(n)) return;
		VarDecl const* def = nullptr;
		Expr const* init = v->getAnyInitializer(def);
		Object o;
		o["t"] = type(v->getType());
		o["const"] = v->getType().isConstQualified() || v->isConstexpr();
		vars[n] = Object(o);
		if(init && !init->isValueDependent()) o["init"] = expr(init);
		vars[n] = std::move(o);
	}

	void dumpFunction(FunctionDecl const* f, bool force = false) {
		FunctionDecl const* def = nullptr;
		if(!f->hasBody(def)) return;
		f = def;
		if(f->isDependentContext()) return;
		if(!force && !inRoot(f->getLocation())) return;
		if(!done.insert(f).second) return;
		Object o;
		o["q"] = qname(f); o["file"] = fileOf(f->getLocation()); o["line"] = lineOf(f->getLocation());
		o["endline"] = lineOf(f->getEndLoc());
		o["ret"] = type(f->getReturnType());
		Array ps;
		for(auto* p : f->parameters()) { Object po; po["d"] = id(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType());
			if(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(p->getDefaultArg());
			ps.push_back(std::move(po)); }
		o["params"] = std::move(ps);
		if(auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = recName(m->getParent()); o["method"] = m->isStatic() ? 0 : 1; o["const"] = m->isConst();
			if(m->getParent()) o["clsty"] = type(C.getRecordType(m->getParent()));
			if(m->isDefaulted()) o["defaulted"] = 1;
			Array ov; for(auto* b : m->overridden_methods()) ov.push_back(key(b)); o["ov"] = std::move(ov);
		}
		if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
			o["ctor"] = 1;
			Array is;
			for(auto* i : c->inits()) {
				Object io;
				if(i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); if(i->isInClassMemberInitializer()) io["inclass"] = 1; }
				else if(i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
				else if(i->isDelegatingInitializer()) io["deleg"] = 1;
				io["e"] = expr(i->getInit());
				is.push_back(std::move(io));
			}
			o["inits"] = std::move(is);
		}
		std::string k = key(f);
		o["body"] = stmt(f->getBody());
		functions[k] = std::move(o);
	}

	void dumpRecord(CXXRecordDecl const* r) {
		auto* d = r->getDefinition();
		std::string n = recName(r);
		Object o;
		if(!d) return;
		bool root = inRoot(d->getLocation());
		if(!root && !n.starts_with("pugi")) return;
		std::string k = n;
		Array fs, bs;
		for(auto& b : d->bases()) bs.push_back(type(b.getType()));
		for(auto* f : d->fields()) { Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType()); if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
		o["fields"] = std::move(fs); o["bases"] = std::move(bs);
		o["poly"] = d->isPolymorphic();
		if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) { o["a"] = targs(s->getTemplateArgs().asArray()); std::string sn; llvm::raw_string_ostream os(sn); s->getNameForDiagnostic(os, C.getPrintingPolicy(), true); os.flush(); k = sn; o["tmpl"] = n; }
		records[k] = std::move(o);
	}
	void flushRecords() {
		while(!recQueue.empty()) { auto* r = recQueue.back(); recQueue.pop_back(); dumpRecord(r); }
	}
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
	Dumper& D;
	explicit Visitor(Dumper& D) : D(D) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl* f) {
		if(f->isThisDeclarationADefinition() && D.inRoot(f->getLocation()) && !f->isDependentContext()) {
			if(auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) return true;
			D.dumpFunction(f);
		}
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e) { if(D.inRoot(e->getLocation()) && !e->isDependentContext()) D.dumpEnum(e); return true; }
	bool VisitVarDecl(VarDecl* v) { if(v->hasGlobalStorage() && !v->isStaticLocal() && D.inRoot(v->getLocation()) && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType() && !isa<VarTemplateSpecializationDecl>(v)) D.dumpGlobal(v); return true; }
};

class Consumer : public ASTConsumer {
	void HandleTranslationUnit(ASTContext& C) override {
		Dumper D(C);
		if(C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "exporter: compile errors\n"; exit(3); }
		Visitor V(D);
		// visit only declarations under root
		for(auto* d : C.getTranslationUnitDecl()->decls())
			if(D.inRoot(d->getLocation()) || isa<NamespaceDecl>(d)) {
				if(isa<NamespaceDecl>(d) && !D.inRoot(d->getLocation())) continue;
				V.TraverseDecl(d);
			}
		D.flushRecords();
		Object out;
		out["types"] = std::move(D.types); out["functions"] = std::move(D.functions); out["records"] = std::move(D.records);
		out["enums"] = std::move(D.enums); out["vars"] = std::move(D.vars);
		std::error_code ec;
		llvm::raw_fd_ostream os(gOut, ec);
		os << Value(std::move(out));
	}
};
class Action : public ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv) {
	std::string file;
	std::vector<std::string> args;
	int i = 1;
	for(; i < argc; ++i) {
		std::string a = argv[i];
		if(a.rfind("--root=", 0) == 0) gRoot = a.substr(7);
		else if(a.rfind("--out=", 0) == 0) gOut = a.substr(6);
		else if(a == "--") { ++i; break; }
	}
	file = argv[i++];
	args.push_back("/usr/bin/clang++");
	for(; i < argc; ++i) args.push_back(argv[i]);
	args.push_back("-fsyntax-only");
	args.push_back(file);
	llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
	tooling::ToolInvocation T(args, std::make_unique<Action>(), FM.get());
	return T.run() ? 0 : 2;
}
