// gfacts: dumps a compact, resolved program representation of all code under
// a set of root directories (classes, enums, functions with their bodies) as
// JSON lines. Callees, members and base classes are resolved by clang; template
// patterns are dumped together with one instantiation per function where one exists.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::vector<std::string> ROOTS;
static std::string OUTFILE;
static std::vector<std::string> ONLYSRC;

struct Dumper {
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &OS; PrintingPolicy PP;
  std::map<const Decl*, int> ids; int nextId = 1;
  std::set<const Decl*> done;
  std::set<const FunctionDecl*> instDone;
  long nfun=0,ncls=0;
  Dumper(ASTContext &c, llvm::raw_ostream &os): C(c), SM(c.getSourceManager()), OS(os), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.SuppressScope = false; PP.Bool = true; PP.FullyQualifiedName = false; if(const char*b=getenv("GF_IDBASE")) nextId=atoi(b);
  }
  int id(const Decl *D){ D = D->getCanonicalDecl(); auto it=ids.find(D); if(it!=ids.end()) return it->second; return ids[D]=nextId++; }
  std::string fileOf(SourceLocation L){ L = SM.getExpansionLoc(L); auto P = SM.getPresumedLoc(L,false); if(P.isInvalid()) return ""; 
    std::string f=P.getFilename(); return f; }
  unsigned lineOf(SourceLocation L){ return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L){ if(L.isInvalid()) return false; std::string f=fileOf(L); for(auto&r:ROOTS) if(f.rfind(r,0)==0) return true; return false; }
  std::string ty(QualType T){ if(T.isNull()) return "?"; return T.getAsString(PP); }
  std::string cty(QualType T){ if(T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
  // qualified name without template arguments
  std::string qn(const NamedDecl *D){
    if(!D) return "?";
    std::string n = D->getNameAsString();
    if(auto *FD = dyn_cast<CXXConstructorDecl>(D)) n = "ctor";
    else if(isa<CXXDestructorDecl>(D)) n = "dtor";
    else if(isa<CXXConversionDecl>(D)) n = "conv";
    const DeclContext *DC = D->getDeclContext();
    std::string pre;
    while(DC && !DC->isTranslationUnit()){
      if(auto *ND = dyn_cast<NamedDecl>(DC)){
        std::string x = ND->getNameAsString();
        if(auto*R=dyn_cast<CXXRecordDecl>(DC)) if(R->isLambda()) x="(lambda)";
        if(isa<FunctionDecl>(DC)) x = x + "()";
        if(!(isa<NamespaceDecl>(DC) && cast<NamespaceDecl>(DC)->isInline()))
        pre = x + "::" + pre;
      }
      DC = DC->getParent();
    }
    return pre + n;
  }
  std::string recName(const CXXRecordDecl *R){
    return qn(R);
  }
  const CXXRecordDecl* recOf(QualType T){
    if(T.isNull()) return nullptr;
    T = T.getNonReferenceType();
    if(T->isPointerType()) T = T->getPointeeType();
    if(auto *R = T->getAsCXXRecordDecl()) return R;
    if(auto *TST = T->getAs<TemplateSpecializationType>()){
      if(auto *TD = dyn_cast_or_null<ClassTemplateDecl>(TST->getTemplateName().getAsTemplateDecl())) return TD->getTemplatedDecl();
    }
    if(auto *IC = T->getAs<InjectedClassNameType>()) return IC->getDecl();
    return nullptr;
  }

  // ---------------- statements/expressions
  Value S(const Stmt *s){
    if(!s) return nullptr;
    Object o; 
    auto L=[&](const Stmt*x){ return (int64_t)lineOf(x->getBeginLoc()); };
    // transparent wrappers
    if(auto *e = dyn_cast<ExprWithCleanups>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<ImplicitCastExpr>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<ParenExpr>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<ConstantExpr>(s)) return S(e->getSubExpr());
    if(auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return S(e->getReplacement());
    if(auto *e = dyn_cast<CXXDefaultArgExpr>(s)) { o["k"]="defarg"; o["l"]=L(s); return o; }
    if(auto *e = dyn_cast<CXXDefaultInitExpr>(s)) { o["k"]="definit"; o["l"]=0; return o; }
    if(auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) return S(e->getSubExpr());
    if(auto *a = dyn_cast<AttributedStmt>(s)) return S(a->getSubStmt());
    if(auto *p = dyn_cast<PackExpansionExpr>(s)) return S(p->getPattern());
    if(auto *e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return S(e->getSemanticForm());

    o["l"] = L(s);
    if(auto *b = dyn_cast<CompoundStmt>(s)){ o["k"]="block"; o["e"]=(int64_t)lineOf(b->getRBracLoc()); Array a; for(auto*x:b->body()) a.push_back(S(x)); o["b"]=std::move(a); return o; }
    if(auto *d = dyn_cast<DeclStmt>(s)){ o["k"]="decl"; Array a; for(auto*x:d->decls()) if(auto*v=dyn_cast<VarDecl>(x)) a.push_back(varD(v)); else if(auto *f=dyn_cast<FunctionDecl>(x)){(void)f;} o["d"]=std::move(a); return o; }
    if(auto *i = dyn_cast<IfStmt>(s)){ o["k"]="if"; if(i->getInit()) o["i"]=S(i->getInit()); if(i->getConditionVariable()) o["v"]=varD(i->getConditionVariable()); if(i->isConstexpr()) o["cx"]=true; o["c"]=S(i->getCond()); o["t"]=S(i->getThen()); if(i->getElse()) o["f"]=S(i->getElse()); return o; }
    if(auto *f = dyn_cast<ForStmt>(s)){ o["k"]="for"; o["i"]=S(f->getInit()); o["c"]=S(f->getCond()); o["n"]=S(f->getInc()); o["b"]=S(f->getBody()); return o; }
    if(auto *f = dyn_cast<WhileStmt>(s)){ o["k"]="while"; o["c"]=S(f->getCond()); if(f->getConditionVariable()) o["v"]=varD(f->getConditionVariable()); o["b"]=S(f->getBody()); return o; }
    if(auto *f = dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=S(f->getCond()); o["b"]=S(f->getBody()); return o; }
    if(auto *f = dyn_cast<CXXForRangeStmt>(s)){ o["k"]="forrange"; o["v"]=varD(f->getLoopVariable(), true); o["r"]=S(f->getRangeInit()); o["b"]=S(f->getBody()); return o; }
    if(auto *w = dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=S(w->getCond()); o["ct"]=cty(w->getCond()->IgnoreParenImpCasts()->getType()); o["b"]=S(w->getBody()); return o; }
    if(auto *c = dyn_cast<CaseStmt>(s)){ o["k"]="case"; o["v"]=S(c->getLHS()); o["b"]=S(c->getSubStmt()); return o; }
    if(auto *c = dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["b"]=S(c->getSubStmt()); return o; }
    if(auto *r = dyn_cast<ReturnStmt>(s)){ o["k"]="return"; if(r->getRetValue()) o["e"]=S(r->getRetValue()); return o; }
    if(isa<BreakStmt>(s)){ o["k"]="break"; return o; }
    if(isa<ContinueStmt>(s)){ o["k"]="continue"; return o; }
    if(isa<NullStmt>(s)){ o["k"]="null"; return o; }
    if(auto *g = dyn_cast<GotoStmt>(s)){ o["k"]="goto"; o["n"]=g->getLabel()->getNameAsString(); return o; }
    if(auto *g = dyn_cast<LabelStmt>(s)){ o["k"]="label"; o["n"]=g->getDecl()->getNameAsString(); o["b"]=S(g->getSubStmt()); return o; }
    if(auto *t = dyn_cast<CXXTryStmt>(s)){ o["k"]="try"; o["b"]=S(t->getTryBlock()); Array a; for(unsigned i=0;i<t->getNumHandlers();i++){ auto*h=t->getHandler(i); Object ho; ho["k"]="catch"; ho["l"]=L(h); ho["t"]= h->getExceptionDecl()? Value(ty(h->getCaughtType())):Value("..."); if(h->getExceptionDecl()) ho["v"]=h->getExceptionDecl()->getNameAsString(); ho["b"]=S(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"]=std::move(a); return o; }
    // ---- expressions
    if(auto *t = dyn_cast<CXXThrowExpr>(s)){ o["k"]="throw"; if(t->getSubExpr()){ o["e"]=S(t->getSubExpr()); o["t"]=ty(t->getSubExpr()->getType()); } return o; }
    if(auto *r = dyn_cast<DeclRefExpr>(s)){ return ref(r->getDecl(), r, std::move(o)); }
    if(auto *m = dyn_cast<MemberExpr>(s)){ 
      auto *md = m->getMemberDecl();
      o["k"]="member"; o["n"]=memName(md); if(auto*RD=dyn_cast<CXXRecordDecl>(md->getDeclContext())) o["o"]=recName(RD);
      if(auto*FD=dyn_cast<FieldDecl>(md)) { o["t"]=ty(FD->getType()); }
      else if(isa<CXXMethodDecl>(md)) o["fn"]=true;
      else if(auto*VD=dyn_cast<VarDecl>(md)) { o["st"]=true; o["t"]=ty(VD->getType()); }
      if(m->hasQualifier()) o["qual"]=true;
      if(m->hasExplicitTemplateArgs()) o["ta"]=targs(m->template_arguments());
      o["b"]=S(m->getBase()); return o; }
    if(auto *m = dyn_cast<CXXDependentScopeMemberExpr>(s)){
      o["k"]="member"; o["dep"]=true; o["n"]=m->getMember().getAsString();
      if(m->isImplicitAccess()){ Object th; th["k"]="this"; th["l"]=L(s); o["b"]=std::move(th); if(auto*R=recOf(m->getBaseType())) o["o"]=recName(R);} 
      else { o["b"]=S(m->getBase()); if(auto*R=recOf(m->getBaseType())) o["o"]=recName(R); else { o["bt"]=ty(m->getBaseType()); } }
      if(m->getQualifier()){ o["qual"]=true; std::string q; llvm::raw_string_ostream qs(q); m->getQualifier()->print(qs,PP); o["q"]=qs.str(); }
      if(m->hasExplicitTemplateArgs()) o["ta"]=targs(m->template_arguments());
      return o; }
    if(auto *m = dyn_cast<UnresolvedMemberExpr>(s)){
      o["k"]="member"; o["fn"]=true; o["n"]=m->getMemberName().getAsString();
      const CXXRecordDecl*nR = m->getNamingClass(); if(nR) o["o"]=recName(nR);
      if(m->isImplicitAccess()){ Object th; th["k"]="this"; th["l"]=L(s); o["b"]=std::move(th);} else o["b"]=S(m->getBase());
      if(m->getQualifier()) o["qual"]=true;
      if(m->hasExplicitTemplateArgs()) o["ta"]=targs(m->template_arguments());
      return o; }
    if(auto *u = dyn_cast<UnresolvedLookupExpr>(s)){ o["k"]="ref"; o["rk"]="func"; o["n"]=u->getName().getAsString(); 
      std::string q=u->getName().getAsString(); for(auto*d:u->decls()){ q=qn(d->getUnderlyingDecl()); break; } o["q"]=q; 
      if(u->hasExplicitTemplateArgs()){ Array ta; for(auto&a:u->template_arguments()){ if(a.getArgument().getKind()==TemplateArgument::Type) ta.push_back(ty(a.getArgument().getAsType())); else ta.push_back("?"); } o["ta"]=std::move(ta);} return o; }
    if(auto *u = dyn_cast<DependentScopeDeclRefExpr>(s)){ o["k"]="ref"; o["rk"]="dep"; o["n"]=u->getDeclName().getAsString(); std::string q; llvm::raw_string_ostream qs(q); u->getQualifier()->print(qs,PP); o["q"]=qs.str()+u->getDeclName().getAsString(); return o; }
    if(isa<CXXThisExpr>(s)){ o["k"]="this"; return o; }
    if(auto *c = dyn_cast<CXXOperatorCallExpr>(s)){
      auto op=c->getOperator();
      std::string sp = getOperatorSpelling(op);
      if(auto*FD=c->getDirectCallee()) o["q"]=qn(FD);
      if(op==OO_Call){ o["k"]="call"; o["op"]="()"; Array a; for(unsigned i=1;i<c->getNumArgs();i++) a.push_back(S(c->getArg(i))); o["f"]=S(c->getArg(0)); o["ft"]=ty(c->getArg(0)->getType()); o["a"]=std::move(a); if(!c->isTypeDependent()) o["t"]=ty(c->getType()); return o; }
      if(op==OO_Subscript && c->getNumArgs()==2){ o["k"]="sub"; o["ov"]=true; o["b"]=S(c->getArg(0)); o["x"]=S(c->getArg(1)); return o; }
      if(op==OO_Arrow){ o["k"]="deref"; o["ov"]=true; o["s"]=S(c->getArg(0)); o["st"]=ty(c->getArg(0)->getType()); return o; }
      if(op==OO_Star && c->getNumArgs()==1){ o["k"]="deref"; o["ov"]=true; o["s"]=S(c->getArg(0)); o["st"]=ty(c->getArg(0)->getType()); return o; }
      if(c->getNumArgs()==2 && (op!=OO_PlusPlus && op!=OO_MinusMinus)){ o["k"]="bin"; o["ov"]=true; o["op"]=sp; o["a"]=S(c->getArg(0)); o["b"]=S(c->getArg(1)); return o; }
      o["k"]="un"; o["ov"]=true; o["op"]=sp; o["s"]=S(c->getArg(0)); return o; }
    if(auto *c = dyn_cast<CallExpr>(s)){
      o["k"]="call"; 
      const Expr *ce = c->getCallee()->IgnoreParenImpCasts();
      if(auto*FD=c->getDirectCallee()){ o["q"]=qn(FD); o["n"]=FD->getNameAsString(); o["sg"]=sig(FD); if(auto*MD=dyn_cast<CXXMethodDecl>(FD)){ if(MD->isVirtual()) o["virt"]=true; if(MD->isStatic()) o["sm"]=true; if(MD->isConst()) o["cst"]=true; }
        if(FD->getTemplateSpecializationArgs()){ Array ta; for(auto&a:FD->getTemplateSpecializationArgs()->asArray()) if(a.getKind()==TemplateArgument::Type) ta.push_back(ty(a.getAsType())); o["ta"]=std::move(ta);} }
      else if(auto*D=dyn_cast_or_null<NamedDecl>(c->getCalleeDecl())){ o["q"]=qn(D); o["n"]=D->getNameAsString(); }
      o["f"]=S(ce);
      Array a; for(auto*x:c->arguments()) a.push_back(S(x)); o["a"]=std::move(a);
      if(!c->isTypeDependent()) o["t"]=ty(c->getType());
      if(isa<UserDefinedLiteral>(s)) o["udl"]=true;
      return o; }
    if(auto *c = dyn_cast<CXXUnresolvedConstructExpr>(s)){ o["k"]="ctor"; o["t"]=ty(c->getTypeAsWritten()); Array a; for(unsigned i=0;i<c->getNumArgs();i++) a.push_back(S(c->getArg(i))); o["a"]=std::move(a); return o; }
    if(auto *c = dyn_cast<CXXConstructExpr>(s)){
      // elidable / conversion wrapper: keep as ctor
      if(c->isElidable() && c->getNumArgs()==1) return S(c->getArg(0));
      o["k"]="ctor"; o["t"]=ty(c->getType()); if(auto*R=c->getConstructor()->getParent()) o["q"]=recName(R); o["sg"]=sig(c->getConstructor());
      if(c->getConstructor()->isCopyConstructor()) o["cm"]="copy"; else if(c->getConstructor()->isMoveConstructor()) o["cm"]="move"; else if(c->getConstructor()->isDefaultConstructor()) o["cm"]="def";
      Array a; for(auto*x:c->arguments()) a.push_back(S(x)); o["a"]=std::move(a); return o; }
    if(auto *c = dyn_cast<CXXInheritedCtorInitExpr>(s)){ o["k"]="ctor"; o["t"]=ty(c->getType()); o["a"]=Array(); return o; }
    if(auto *b = dyn_cast<BinaryOperator>(s)){ o["k"]="bin"; o["op"]=b->getOpcodeStr().str(); o["a"]=S(b->getLHS()); o["b"]=S(b->getRHS()); 
      if(b->isComparisonOp()||b->isAdditiveOp()||b->isMultiplicativeOp()||b->isAssignmentOp()){ if(!b->getLHS()->isTypeDependent()) o["ta"]=cty(b->getLHS()->getType()); if(!b->getRHS()->isTypeDependent()) o["tb"]=cty(b->getRHS()->getType()); }
      return o; }
    if(auto *u = dyn_cast<UnaryOperator>(s)){ if(u->getOpcode()==UO_Deref){ o["k"]="deref"; o["s"]=S(u->getSubExpr()); if(!u->getSubExpr()->isTypeDependent()) o["st"]=ty(u->getSubExpr()->getType()); return o; } 
      if(u->getOpcode()==UO_Extension) return S(u->getSubExpr());
      o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(u->getOpcode()).str(); if(u->isPostfix()) o["post"]=true; o["s"]=S(u->getSubExpr()); return o; }
    if(auto *c = dyn_cast<ConditionalOperator>(s)){ o["k"]="cond"; o["c"]=S(c->getCond()); o["a"]=S(c->getTrueExpr()); o["b"]=S(c->getFalseExpr()); return o; }
    if(auto *c = dyn_cast<ExplicitCastExpr>(s)){ 
      std::string ck="cast"; if(isa<CXXDynamicCastExpr>(s)) ck="dynamic"; else if(isa<CXXStaticCastExpr>(s)) ck="static"; else if(isa<CXXConstCastExpr>(s)) ck="const"; else if(isa<CXXReinterpretCastExpr>(s)) ck="reinterpret"; else if(isa<CXXFunctionalCastExpr>(s)) ck="func"; else ck="c";
      o["k"]="cast"; o["ck"]=ck; o["t"]=ty(c->getTypeAsWritten()); o["s"]=S(c->getSubExpr()); if(!c->getSubExpr()->isTypeDependent()) o["st"]=ty(c->getSubExpr()->IgnoreParenImpCasts()->getType()); return o; }
    if(auto *a = dyn_cast<ArraySubscriptExpr>(s)){ o["k"]="sub"; o["b"]=S(a->getBase()); o["x"]=S(a->getIdx()); return o; }
    if(auto *l = dyn_cast<LambdaExpr>(s)){ o["k"]="lambda"; Array caps; unsigned ci=0; for(auto&c:l->captures()){ Object co; if(c.capturesThis()){ co["n"]="this"; co["m"]= c.getCaptureKind()==LCK_StarThis?"copy":"this"; } else if(c.capturesVariable()){ co["n"]=c.getCapturedVar()->getNameAsString(); co["id"]=id(c.getCapturedVar()); co["m"]=c.getCaptureKind()==LCK_ByRef?"ref":"copy"; if(auto*VD=dyn_cast<VarDecl>(c.getCapturedVar())) { if(VD->isInitCapture()&&VD->getInit()) co["i"]=S(VD->getInit()); co["t"]=ty(VD->getType()); } } if(c.isImplicit()) co["imp"]=true; caps.push_back(std::move(co)); ci++; } o["c"]=std::move(caps);
      o["dc"]= l->getCaptureDefault()==LCD_ByRef?"&":(l->getCaptureDefault()==LCD_ByCopy?"=":"");
      Array ps; for(auto*p:l->getCallOperator()->parameters()) ps.push_back(varD(p,true)); o["p"]=std::move(ps); o["b"]=S(l->getBody()); o["rt"]=ty(l->getCallOperator()->getReturnType()); return o; }
    if(auto *n = dyn_cast<CXXNewExpr>(s)){ o["k"]="new"; o["t"]=ty(n->getAllocatedType()); Array a; if(n->getInitializer()) a.push_back(S(n->getInitializer())); o["a"]=std::move(a); if(n->isArray()) o["arr"]=true; return o; }
    if(auto *d = dyn_cast<CXXDeleteExpr>(s)){ o["k"]="delete"; o["s"]=S(d->getArgument()); if(d->isArrayForm()) o["arr"]=true; return o; }
    if(auto *i = dyn_cast<InitListExpr>(s)){ const InitListExpr*si = i->isSemanticForm()?i:(i->getSemanticForm()?i->getSemanticForm():i); o["k"]="init"; Array a; for(auto*x:si->inits()) a.push_back(S(x)); o["a"]=std::move(a); if(!i->getType().isNull()) o["t"]=ty(i->getType()); return o; }
    if(auto *i = dyn_cast<ParenListExpr>(s)){ o["k"]="init"; Array a; for(unsigned k=0;k<i->getNumExprs();k++) a.push_back(S(i->getExpr(k))); o["a"]=std::move(a); return o; }
    if(auto *x = dyn_cast<IntegerLiteral>(s)){ o["k"]="lit"; o["v"]=llvm::toString(x->getValue(),10,false); o["lt"]="int"; return o; }
    if(auto *x = dyn_cast<FloatingLiteral>(s)){ o["k"]="lit"; std::string q; llvm::SmallString<32> ss; x->getValue().toString(ss); o["v"]=ss.str().str(); o["lt"]="float"; return o; }
    if(auto *x = dyn_cast<CXXBoolLiteralExpr>(s)){ o["k"]="lit"; o["v"]=x->getValue()?"true":"false"; o["lt"]="bool"; return o; }
    if(auto *x = dyn_cast<StringLiteral>(s)){ o["k"]="lit"; std::string v = x->getCharByteWidth()==1?x->getString().str():std::string("?"); if(!json::isUTF8(v)) v=json::fixUTF8(v); o["v"]=v; o["lt"]="str"; return o; }
    if(auto *x = dyn_cast<CharacterLiteral>(s)){ o["k"]="lit"; o["v"]=std::to_string(x->getValue()); o["lt"]="char"; return o; }
    if(isa<CXXNullPtrLiteralExpr>(s)||isa<GNUNullExpr>(s)){ o["k"]="lit"; o["v"]="nullptr"; o["lt"]="null"; return o; }
    if(auto *x = dyn_cast<CXXScalarValueInitExpr>(s)){ o["k"]="ctor"; o["t"]=ty(x->getType()); o["a"]=Array(); return o; }
    if(auto *x = dyn_cast<ImplicitValueInitExpr>(s)){ o["k"]="ctor"; o["t"]=ty(x->getType()); o["a"]=Array(); return o; }
    if(auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)){ o["k"]="sizeof"; return o; }
    if(auto *x = dyn_cast<PredefinedExpr>(s)){ o["k"]="lit"; o["lt"]="str"; o["v"]="__func__"; return o; }
    if(auto *x = dyn_cast<SizeOfPackExpr>(s)){ o["k"]="sizeof"; return o; }
    if(auto *x = dyn_cast<CXXFoldExpr>(s)){ o["k"]="fold"; Array a; a.push_back(S(x->getLHS())); a.push_back(S(x->getRHS())); o["c"]=std::move(a); return o; }
    // generic fallback
    o["k"]="x"; o["cls"]=s->getStmtClassName(); Array a; for(auto*x:s->children()) if(x) a.push_back(S(x)); o["c"]=std::move(a); return o;
  }
  Array targs(llvm::ArrayRef<TemplateArgumentLoc> as){ Array ta; for(auto&a:as){ if(a.getArgument().getKind()==TemplateArgument::Type) ta.push_back(ty(a.getArgument().getAsType())); else { std::string q; llvm::raw_string_ostream qs(q); a.getArgument().print(PP,qs,true); ta.push_back(qs.str()); } } return ta; }
  std::string memName(const NamedDecl*d){ if(isa<CXXDestructorDecl>(d)) return "dtor"; if(isa<CXXConversionDecl>(d)) return "conv"; return d->getNameAsString(); }
  Value ref(const ValueDecl *D, const DeclRefExpr *r, Object o){
    o["k"]="ref"; o["n"]=D->getNameAsString();
    if(auto*P=dyn_cast<ParmVarDecl>(D)){ o["rk"]="param"; o["id"]=id(P); o["t"]=ty(P->getType()); }
    else if(auto*V=dyn_cast<VarDecl>(D)){ if(V->isLocalVarDecl()||V->isInitCapture()){ o["rk"]="local"; o["id"]=id(V); o["t"]=ty(V->getType()); if(V->isStaticLocal()) o["sl"]=true; } else { o["rk"]= V->isStaticDataMember()?"sfield":"global"; o["q"]=qn(V); o["t"]=ty(V->getType()); } }
    else if(auto*E=dyn_cast<EnumConstantDecl>(D)){ o["rk"]="enum"; o["q"]=qn(E); o["t"]=ty(E->getType()); }
    else if(isa<FunctionDecl>(D)){ o["rk"]="func"; o["q"]=qn(D); }
    else if(isa<NonTypeTemplateParmDecl>(D)){ o["rk"]="ntparam"; }
    else if(isa<BindingDecl>(D)){ o["rk"]="local"; o["id"]=id(D); }
    else if(auto*F=dyn_cast<FieldDecl>(D)){ o["rk"]="field"; o["q"]=qn(F); }
    else { o["rk"]="other"; o["q"]=qn(D); }
    if(r && r->hasExplicitTemplateArgs()){ Array ta; for(auto&a:r->template_arguments()){ if(a.getArgument().getKind()==TemplateArgument::Type) ta.push_back(ty(a.getArgument().getAsType())); else { std::string q; llvm::raw_string_ostream qs(q); a.getArgument().print(PP,qs,true); ta.push_back(qs.str()); } } o["ta"]=std::move(ta);} 
    return o;
  }
  Value varD(const VarDecl *v, bool noinit=false){
    Object o; o["k"]="var"; o["l"]=(int64_t)lineOf(v->getLocation()); o["n"]=v->getNameAsString(); o["id"]=id(v); o["t"]=ty(v->getType()); 
    if(v->getType()->isReferenceType()) o["r"]=true;
    if(auto*R=recOf(v->getType())) o["tq"]=recName(R);
    if(v->isStaticLocal()) o["st"]=true;
    if(auto*DD=dyn_cast<DecompositionDecl>(v)){ Array b; for(auto*x:DD->bindings()){ Object bo; bo["n"]=x->getNameAsString(); bo["id"]=id(x); b.push_back(std::move(bo)); } o["bind"]=std::move(b); }
    if(!noinit && v->getInit()) { o["i"]=S(v->getInit()); }
    return o; }
  std::string sig(const FunctionDecl*F){ std::string s="("; bool first=true; for(auto*p:F->parameters()){ if(!first) s+=", "; first=false; s+=ty(p->getType()); } s+=")"; if(auto*M=dyn_cast<CXXMethodDecl>(F)) if(M->isConst()) s+=" const"; return s; }

  void emit(const std::string &key, Object o){ OS << key << "\t" << Value(std::move(o)) << "\n"; }

  void function(const FunctionDecl *F, const FunctionDecl *pattern, const std::string &mode){
    // F: with body
    const FunctionDecl *def=nullptr; if(!F->hasBody(def)||!def) { 
       return; }
    F=def; if(F->isImplicit()) return;
    std::string nm=F->getNameAsString(); if(nm.find("GUnitTests")!=std::string::npos) return;
    if(!done.insert(F).second) return;
    nfun++;
    Object o; o["k"]="func"; o["q"]=qn(F); o["n"]=nm; o["mode"]=mode; 
    o["file"]=fileOf(F->getLocation()); o["l"]=(int64_t)lineOf(F->getLocation());
    const FunctionDecl*keyD = pattern?pattern:F; { const FunctionDecl*kd; if(keyD->hasBody(kd)&&kd) keyD=kd; }
    o["key"]=fileOf(keyD->getLocation())+":"+std::to_string(lineOf(keyD->getLocation()))+":"+std::to_string(SM.getExpansionColumnNumber(keyD->getLocation()));
    o["sig"]=sig(F); o["ret"]=ty(F->getReturnType());
    if(F->getTemplateSpecializationArgs()){ Array ta; for(auto&a:F->getTemplateSpecializationArgs()->asArray()) if(a.getKind()==TemplateArgument::Type) ta.push_back(ty(a.getAsType())); o["fta"]=std::move(ta);}
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ o["cls"]=recName(M->getParent()); if(M->isVirtual()) o["virt"]=true; if(M->isConst()) o["const"]=true; if(M->isStatic()) o["static"]=true; switch(M->getAccess()){case AS_public:o["acc"]="public";break;case AS_protected:o["acc"]="protected";break;case AS_private:o["acc"]="private";break;default:break;}
      if(mode=="inst") o["clsT"]=ty(QualType(M->getParent()->getTypeForDecl(),0)); }
    if(isa<CXXConstructorDecl>(F)) { o["kind"]="ctor"; auto*CD=cast<CXXConstructorDecl>(F); if(CD->isCopyConstructor()) o["cm"]="copy"; else if(CD->isMoveConstructor()) o["cm"]="move"; else if(CD->isDefaultConstructor()) o["cm"]="def"; if(CD->isDelegatingConstructor()) o["deleg"]=true; }
    else if(isa<CXXDestructorDecl>(F)) o["kind"]="dtor"; else if(isa<CXXConversionDecl>(F)) o["kind"]="conv"; else if(isa<CXXMethodDecl>(F)) o["kind"]="method"; else o["kind"]="func";
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ if(M->isCopyAssignmentOperator()) o["cm"]="copy="; if(M->isMoveAssignmentOperator()) o["cm"]="move="; }
    if(F->isDefaulted()) o["dflt"]=true; 
    if(auto*FPT=F->getType()->getAs<FunctionProtoType>()){ auto est=FPT->getExceptionSpecType(); if(est==EST_BasicNoexcept||est==EST_NoexceptTrue||est==EST_DynamicNone) o["noex"]=true; }
    Array ps; for(auto*p:F->parameters()) { Value pv=varD(p,true); if(p->hasDefaultArg()) pv.getAsObject()->try_emplace("da",true); ps.push_back(std::move(pv)); } o["params"]=std::move(ps);
    if(auto*CD=dyn_cast<CXXConstructorDecl>(F)){ Array in; for(auto*i:CD->inits()){ Object io; io["k"]="cinit"; if(i->isMemberInitializer()||i->isIndirectMemberInitializer()) io["m"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()){ if(auto*R=recOf(QualType(i->getBaseClass(),0))) io["b"]=recName(R); else io["b"]=ty(QualType(i->getBaseClass(),0)); } else io["d"]=true; io["w"]=i->isWritten(); if(!isa<CXXDefaultInitExpr>(i->getInit())) io["e"]=S(i->getInit()); else io["di"]=true; in.push_back(std::move(io)); } o["inits"]=std::move(in); }
    o["body"]=S(F->getBody());
    std::string K="F|"+o["key"].getAsString()->str()+"|"+mode;
    emit(K,std::move(o));
  }
  void functionDeclOnly(const FunctionDecl*F){}

  void record(const CXXRecordDecl *R, const std::string &mode){
    R = R->getDefinition(); if(!R) return; 
    if(R->isLambda()) return;
    if(!done.insert(R).second) return;
    ncls++;
    Object o; o["k"]="class"; o["q"]=recName(R); o["n"]=R->getNameAsString(); o["mode"]=mode; o["file"]=fileOf(R->getLocation()); o["l"]=(int64_t)lineOf(R->getLocation());
    if(mode=="inst") o["clsT"]=ty(QualType(R->getTypeForDecl(),0));
    if(auto*PS=dyn_cast<ClassTemplateSpecializationDecl>(R)){ std::string q; llvm::raw_string_ostream qs(q); R->getNameForDiagnostic(qs,PP,true); o["spec"]=qs.str(); }
    if(R->isAbstract()) o["abs"]=true;
    Array bs; for(auto&b:R->bases()){ Object bo; if(auto*BR=recOf(b.getType())) bo["q"]=recName(BR); else bo["q"]=ty(b.getType()); bo["t"]=ty(b.getType()); if(b.isVirtual()) bo["v"]=true; bs.push_back(std::move(bo)); } o["bases"]=std::move(bs);
    Array fs; for(auto*d:R->decls()){ if(auto*f=dyn_cast<FieldDecl>(d)){ Object fo; fo["n"]=f->getNameAsString(); fo["l"]=(int64_t)lineOf(f->getLocation()); fo["t"]=ty(f->getType()); fo["ct"]=cty(f->getType()); if(f->isMutable()) fo["mut"]=true; if(f->hasInClassInitializer()&&f->getInClassInitializer()) fo["i"]=S(f->getInClassInitializer()); if(f->hasInClassInitializer()) fo["hi"]=true; switch(f->getAccess()){case AS_public:fo["acc"]="public";break;case AS_protected:fo["acc"]="protected";break;default:fo["acc"]="private";} 
        if(auto*FR=f->getType()->getAsCXXRecordDecl()) fo["tq"]=recName(FR); else if(auto*FR2=recOf(f->getType())) fo["tq"]=recName(FR2);
        QualType u=f->getType().getCanonicalType(); fo["sc"]= (u->isScalarType()); if(u->isPointerType()) fo["ptr"]=true; if(u->isReferenceType()) fo["ref"]=true; if(u->isEnumeralType()) fo["enum"]=true; if(u.isConstQualified()) fo["const"]=true;
        fs.push_back(std::move(fo)); }
      else if(auto*v=dyn_cast<VarDecl>(d)){ Object fo; fo["n"]=v->getNameAsString(); fo["t"]=ty(v->getType()); fo["st"]=true; if(v->isConstexpr()) fo["cx"]=true; fo["l"]=(int64_t)lineOf(v->getLocation()); fs.push_back(std::move(fo)); } }
    o["fields"]=std::move(fs);
    Array ms; auto addM=[&](const CXXMethodDecl*m){ Object mo; mo["n"]=memName(m); mo["sig"]=sig(m); mo["ret"]=ty(m->getReturnType()); mo["l"]=(int64_t)lineOf(m->getLocation()); if(m->isVirtual()) mo["virt"]=true; if(m->isPureVirtual()) mo["pure"]=true; if(m->isConst()) mo["const"]=true; if(m->isStatic()) mo["static"]=true; if(m->isDeleted()) mo["del"]=true; if(m->isDefaulted()) mo["dflt"]=true; if(m->isImplicit()) mo["impl"]=true; if(auto*CD=dyn_cast<CXXConstructorDecl>(m)){ mo["ctor"]= CD->isCopyConstructor()?"copy":CD->isMoveConstructor()?"move":CD->isDefaultConstructor()?"def":"other"; } if(m->isCopyAssignmentOperator()) mo["asg"]="copy"; if(m->isMoveAssignmentOperator()) mo["asg"]="move"; switch(m->getAccess()){case AS_public:mo["acc"]="public";break;case AS_protected:mo["acc"]="protected";break;default:mo["acc"]="private";} 
        Array ov; for(auto*x:m->overridden_methods()) ov.push_back(qn(x)); mo["ov"]=std::move(ov); ms.push_back(std::move(mo)); };
    for(auto*d:R->decls()){ if(auto*m=dyn_cast<CXXMethodDecl>(d)) addM(m); else if(auto*ft=dyn_cast<FunctionTemplateDecl>(d)) if(auto*m=dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl())) addM(m); }
    o["methods"]=std::move(ms);
    std::string K="C|"+o["q"].getAsString()->str()+"|"+mode+"|"+(o.get("spec")?o["spec"].getAsString()->str():std::string());
    emit(K,std::move(o));
    for(auto*d:R->decls()) visit(d, mode);
  }
  void enumD(const EnumDecl*E){ E=E->getDefinition(); if(!E||!done.insert(E).second) return; Object o; o["k"]="enum"; o["q"]=qn(E); o["file"]=fileOf(E->getLocation()); o["l"]=(int64_t)lineOf(E->getLocation()); o["scoped"]=E->isScoped(); Array a; for(auto*c:E->enumerators()){ Object eo; eo["n"]=c->getNameAsString(); eo["v"]=c->getInitVal().getExtValue(); a.push_back(std::move(eo)); } o["vals"]=std::move(a); emit("E|"+qn(E),std::move(o)); }
  void visit(const Decl *D, const std::string &mode){
    if(!D) return;
    if(auto*NS=dyn_cast<NamespaceDecl>(D)){ for(auto*d:NS->decls()) visit(d,mode); return; }
    if(auto*LS=dyn_cast<LinkageSpecDecl>(D)){ for(auto*d:LS->decls()) visit(d,mode); return; }
    if(!inRoots(D->getLocation())) return;
    if(auto*FT=dyn_cast<FunctionTemplateDecl>(D)){
      function(FT->getTemplatedDecl(), nullptr, mode=="inst"?"inst":"pattern");
      for(auto*s:FT->specializations()) instFn(s);
      return; }
    if(auto*CT=dyn_cast<ClassTemplateDecl>(D)){
      if(CT->isThisDeclarationADefinition()) record(CT->getTemplatedDecl(), "pattern");
      if(CT->isCanonicalDecl()) for(auto*s:CT->specializations()) { if(s->getSpecializationKind()==TSK_ExplicitSpecialization) continue; const CXXRecordDecl*d=s->getDefinition(); if(!d) continue; record(d,"inst"); }
      return; }
    if(auto*PS=dyn_cast<ClassTemplatePartialSpecializationDecl>(D)){ record(PS,"pattern"); return; }
    if(auto*R=dyn_cast<CXXRecordDecl>(D)){ if(R->isThisDeclarationADefinition()) record(R, mode); return; }
    if(auto*E=dyn_cast<EnumDecl>(D)){ if(mode!="inst") enumD(E); return; }
    if(auto*F=dyn_cast<FunctionDecl>(D)){
      if(mode=="inst") { instFn(F); return; }
      bool dep=F->isDependentContext();
      function(F,nullptr, dep?"pattern":"plain"); return; }
    if(auto*V=dyn_cast<VarDecl>(D)){ if(!done.insert(V).second) return; if(mode=="inst") return; Object o; o["k"]="gvar"; o["q"]=qn(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); o["file"]=fileOf(V->getLocation()); o["l"]=(int64_t)lineOf(V->getLocation()); o["const"]=V->getType().isConstQualified(); if(V->getInit()) o["i"]=S(V->getInit()); emit("V|"+fileOf(V->getLocation())+":"+std::to_string(lineOf(V->getLocation()))+":"+V->getNameAsString(),std::move(o)); return; }
  }
  std::set<const Decl*> instPat;
  void instFn(const FunctionDecl *F){
    const FunctionDecl*def=nullptr; if(!F->hasBody(def)||!def) return;
    if(def->isDependentContext()) return;
    const FunctionDecl*P=F->getTemplateInstantiationPattern(); if(!P) P=def;
    if(F->getTemplateSpecializationKind()==TSK_ExplicitSpecialization){ function(def,nullptr,"plain"); return; }
    if(!instPat.insert(P->getCanonicalDecl()).second) return; // one instantiation per pattern
    function(def,P,"inst");
  }
};

class Cons: public ASTConsumer { public:
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC; llvm::raw_fd_ostream OS(OUTFILE,EC); 
    Dumper D(C,OS);
    for(auto*d:C.getTranslationUnitDecl()->decls()) D.visit(d,"plain");
    Object o; o["k"]="summary"; o["funcs"]=D.nfun; o["classes"]=D.ncls; o["errors"]=(int64_t)C.getDiagnostics().hasErrorOccurred(); D.emit("S|",std::move(o));
  } };
class Act: public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc,char**argv){
  // gfacts OUT ROOT[,ROOT] SRC -- flags
  if(argc<5){ llvm::errs()<<"usage: gfacts OUT ROOTS SRC -- flags\n"; return 2; }
  OUTFILE=argv[1]; std::string r=argv[2]; size_t p=0; while(p<r.size()){ size_t q=r.find(',',p); if(q==std::string::npos) q=r.size(); ROOTS.push_back(r.substr(p,q-p)); p=q+1; }
  std::string src=argv[3]; std::vector<std::string> fl; bool on=false; for(int i=4;i<argc;i++){ if(!on){ if(std::string(argv[i])=="--") on=true; continue;} fl.push_back(argv[i]); }
  clang::tooling::FixedCompilationDatabase DB(".",fl);
  clang::tooling::ClangTool T(DB,{src});
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
