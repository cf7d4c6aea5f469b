// Serialization: everything that can be written to an archive comes back as it was.
#include "sysref.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/deque.hpp>
#include <boost/serialization/shared_ptr.hpp>
using namespace ref;
using bertini::EvalMethod; using bertini::DerivMethod;
using bertini::node::Variable; using bertini::node::Function; using bertini::node::Integer; using bertini::node::LinearProduct; using bertini::node::Jacobian;
using bertini::start_system::TotalDegree; using bertini::start_system::MHomogeneous; using bertini::start_system::User; using bertini::start_system::StartSystem;

template<class T> static void trip(T const& in,T& out,bool binary,unsigned load_prec=0)
{
	std::stringstream ss;
	if (binary) { boost::archive::binary_oarchive oa(ss); oa << in; } else { boost::archive::text_oarchive oa(ss); oa << in; }
	unsigned p=DefaultPrecision(); if (load_prec) DefaultPrecision(load_prec);
	try { if (binary) { boost::archive::binary_iarchive ia(ss); ia >> out; } else { boost::archive::text_iarchive ia(ss); ia >> out; } } catch (...) { DefaultPrecision(p); throw; }
	DefaultPrecision(p);
}
static std::vector<R> firstn(size_t n) { auto p=points(NV)[1]; p.resize(n); return p; }
static const char* ar[]={"text","binary"};

// ---------------------------------------------------------------- numbers and matrices
static std::vector<R> numbers() { return {R(0),R(1),R(-1),R(Rr(1)/3,Rr(-2)/7),R(Rr(-1)/2),R(Rr(0),Rr(1)),R(Rr("1e-20")/3,Rr(0)),R(Rr("-7e25")/11,Rr("3e-9")/13),R(boost::math::constants::pi<Rr>(),-exp(Rr(1)))}; }
template<class M> static void matrix_case(mc::Run& r,M const& m,unsigned digits,bool bin,unsigned lp,std::string const& what)
{
	M q; r.where(what); trip(m,q,bin,lp); r.transition();
	bool ok=q.rows()==m.rows()&&q.cols()==m.cols(); for (int i=0;ok&&i<m.rows();i++) for (int j=0;ok&&j<m.cols();j++) ok=q(i,j)==m(i,j)&&bertini::Precision(q(i,j))==bertini::Precision(m(i,j));
	r.check(ok,what,[&]{ return "read back differently"; });
}
static void numbers_case(mc::Run& r,unsigned digits,unsigned lp,bool bin)
{
	DefaultPrecision(digits);
	for (auto const& z:numbers())
	{
		Mp a=toMp(z,digits),b; r.where("complex"); trip(a,b,bin,lp); r.check(a==b&&b.precision()==digits,"number:complex",[&]{ return a.str()+" was read back as "+b.str()+" with "+std::to_string(b.precision())+" digits"; });
		bertini::mpfr_float f=a.real(),g; trip(f,g,bin,lp); r.check(f==g&&g.precision()==digits,"number:real",[&]{ return f.str()+" was read back as "+g.str(); });
		dbl d=toD(z),e; trip(d,e,bin,lp); r.check(d==e,"number:double",[&]{ return "a double was read back differently"; });
		r.transition(3);
	}
	for (long n=-3;n<=3;n++) for (long d=1;d<=4;d++) for (int big=0;big<2;big++)
	{
		bertini::mpq_rational q(n,d),s; bertini::mpz_int z=n,w; if (big) { q*=bertini::mpq_rational("123456789012345678901234567890/98765432109876543211"); z*=bertini::mpz_int("123456789012345678901234567890"); }
		trip(q,s,bin,lp); trip(z,w,bin,lp); r.check(q==s&&z==w,"number:exact",[&]{ return q.str()+" was read back as "+s.str()+", "+z.str()+" as "+w.str(); }); r.transition(2);
	}
	auto ns=numbers();
	for (int rows=0;rows<=3;rows++) for (int cols=0;cols<=3;cols++)
	{
		bertini::Mat<Mp> m(rows,cols); bertini::Mat<dbl> d(rows,cols); for (int i=0;i<rows;i++) for (int j=0;j<cols;j++) { R z=ns[(3*i+j)%ns.size()]; m(i,j)=toMp(z,digits); d(i,j)=toD(z); }
		matrix_case(r,m,digits,bin,lp,"matrix:mp"); matrix_case(r,d,digits,bin,lp,"matrix:dbl");
		if (cols==1) { bertini::Vec<Mp> v=m; bertini::Vec<dbl> w=d; matrix_case(r,v,digits,bin,lp,"vector:mp"); matrix_case(r,w,digits,bin,lp,"vector:dbl"); }
	}
}
// ---------------------------------------------------------------- expressions
static std::vector<Var> mkvars() { Arena A; std::vector<Var> v; for (auto const& n:A.names) v.push_back(Variable::Make(n)); return v; }
static void setvars(std::vector<Var> const& v,std::vector<R> const& p,unsigned digits) { for (size_t i=0;i<v.size();i++) { v[i]->precision(digits); v[i]->set_current_value(toD(p[i])); v[i]->set_current_value(toMp(p[i],digits)); } }
struct Bundle { std::vector<Var> v; Node n; std::shared_ptr<Function> f; std::shared_ptr<Jacobian> J; Node d; template<class A> void serialize(A& a,unsigned) { a & v; a & n; a & f; a & J; a & d; } };
static unsigned count_nodes(Node const& n);
static void term_case(mc::Run& r,Arena const& A,int t,int mode,bool bin,int before,bool deep)
{
	DefaultPrecision(30); auto v=mkvars(); v.resize(3); Builder B; B.vars=v; B.mode=mode; Bundle in,out; in.v=v; in.n=B.build(A,t); in.f=Function::Make(in.n,"f"); in.J=Jacobian::Make(in.n->Differentiate()); in.d=in.n->Differentiate(v[0]);
	auto pts=points(3); in.n->precision(30); setvars(v,pts[0],30);
	if (before==1) { in.n->Reset(); in.n->Eval<dbl>(); in.n->Eval<Mp>(); }
	std::stringstream p1; p1<<*in.n;
	{ Node bare; r.where("bare round trip"); trip(in.n,bare,bin); std::stringstream q,w; q<<*in.n; w<<*bare; r.check(q.str()==w.str(),"bare:print",[&]{ return q.str()+" was read back as "+w.str(); }); r.transition(); }
	r.where("round trip"); trip(in,out,bin,before==1?40:0); r.transition();
	bool shape=out.v.size()==3&&out.n&&out.f&&out.J&&out.d; r.check(shape,"shape",[&]{ return "something is missing after reading back"; }); if (!shape) return;
	std::stringstream p2; p2<<*out.n; r.check(p1.str()==p2.str(),"print",[&]{ return p1.str()+" was read back as "+p2.str(); });
	for (int i=0;i<3;i++) r.check(out.v[i]->name()==v[i]->name()&&out.v[i]!=v[i],"names",[&]{ return "variable "+v[i]->name()+" was read back as "+out.v[i]->name(); });
	r.check(out.f->name()=="f"&&out.f->EntryNode()==out.n,"function",[&]{ return "the function lost its name ("+out.f->name()+") or no longer shares its expression "+std::to_string(out.f->EntryNode()==out.n)+std::to_string(in.f->EntryNode()==in.n); });
	for (int step=0;step<2;step++) for (unsigned digits:{30u,50u})
	{
		if (deep&&digits==50) continue;
		auto const& p=pts[1-step]; Val e=eval(A,t,p); if (!e.ok) { r.outcome("value not compared (undefined or ill-conditioned)"); continue; }
		DefaultPrecision(digits); out.n->precision(digits); out.d->precision(digits); out.J->precision(digits); setvars(out.v,p,digits); out.n->Reset(); out.d->Reset(); out.J->Reset();
		double td=1e3*DEPS*e.amp, tm=std::pow(10.,-(double)digits+5)*e.amp;
		R a=toR(out.n->Eval<dbl>()), b=toR(out.n->Eval<Mp>()); r.check(close(a,e.v,td),"value:dbl",[&]{ return str(a)+" expected "+str(e.v); }); r.check(close(b,e.v,tm),"value:mp",[&]{ return str(b,40)+" expected "+str(e.v,40)+" with "+std::to_string(digits)+" digits"; });
		r.outcome("value compared");
		if (e.dok)
		{
			Tol q=tol<dbl>(e,digits), w=tol<Mp>(e,digits);
			R c=toR(out.d->Eval<dbl>()), d=toR(out.d->Eval<Mp>()); r.check(close(c,e.d[0],q.d)&&close(d,e.d[0],w.d),"derivative",[&]{ return str(c)+" / "+str(d)+" expected "+str(e.d[0]); });
			for (int k=0;k<2;k++) { out.J->Reset(); R g=toR(out.J->EvalJ<dbl>(out.v[k])); r.check(close(g,e.d[k],q.d),"differential",[&]{ return "along "+out.v[k]->name()+": "+str(g)+" expected "+str(e.d[k]); }); }
			Node again=out.n->Differentiate(out.v[1]); again->precision(digits); again->Reset(); R h=toR(again->Eval<Mp>()); r.check(close(h,e.d[1],w.d),"derivative-afterwards",[&]{ return str(h)+" expected "+str(e.d[1]); });
		}
		r.transition(2);
	}
	DefaultPrecision(30);
	// the original is untouched
	setvars(v,pts[0],30); in.n->precision(30); in.n->Reset(); Val e=eval(A,t,pts[0]); if (e.ok) { R a=toR(in.n->Eval<Mp>()); r.check(close(a,e.v,1e-25*e.amp),"original",[&]{ return str(a)+" expected "+str(e.v); }); }
	for (int k=0;k<2;k++) r.check(in.n->Degree(v[k])==out.n->Degree(out.v[k]),"degree",[&]{ return "degree differs"; });
}
// ---------------------------------------------------------------- systems
struct Cfg { int kind; EvalMethod e; DerivMethod d; bool simp; };
static void system_case(mc::Run& r,Arena const& A,std::vector<int> const& fns,Cfg c,int before,int how,int after)
{
	// kind: bit 0 path variable, bit 1 homogenize and patch, bit 2 two groups; bit 3: parameter z
	DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; B.mode=1; System S; S.SetEvalMethod(c.e); S.SetDerivMethod(c.d); S.SetAutoSimplify(c.simp); Arena& M=const_cast<Arena&>(A);
	Model m; bool two=c.kind&4; m.time=c.kind&1;
	if (two) { S.AddVariableGroup({v[VX]}); S.AddVariableGroup({v[VY]}); } else S.AddVariableGroup({v[VX],v[VY]});
	if (m.time) S.AddPathVariable(v[VT]);
	if (c.kind&8) { S.AddImplicitParameter(v[VZ]); S.SetImplicitParameters(convv<dbl>({points(NV)[0][VZ]},30)); S.SetImplicitParameters(convv<Mp>({points(NV)[0][VZ]},30)); }
	std::vector<std::shared_ptr<Function>> F; for (size_t i=0;i<fns.size();i++) { auto f=Function::Make(B.build(A,fns[i]),"f"+std::to_string(i)); S.AddFunction(f); }
	m.fns=fns; m.order={VX,VY};
	auto pts=points(NV); auto pz=[&](int i){ auto p=pts[i]; p[VZ]=pts[0][VZ]; return p; };
	if (c.kind&2) { S.Homogenize(); S.AutoPatch(); }
	S.precision(30);
	size_t n=S.NumVariables(); auto ask=[&](System const& s,int i,unsigned d){ std::vector<R> x; for (size_t k=0;k<n;k++) x.push_back(pts[i][(k*3+1)%NV]); R t=pts[i][VT]; std::vector<std::vector<R>> o(6);
		auto put=[&](std::vector<R>& q,auto const& mm){ for (int a=0;a<mm.rows();a++) for (int b=0;b<mm.cols();b++) q.push_back(toR(mm(a,b))); };
		auto xd=convv<dbl>(x,d); auto xm=convv<Mp>(x,d); dbl td=toD(t); Mp tm=toMp(t,d);
		if (m.time) { put(o[0],s.Eval(xd,td)); put(o[1],s.Jacobian(xd,td)); put(o[2],s.TimeDerivative(xd,td)); put(o[3],s.Eval(xm,tm)); put(o[4],s.Jacobian(xm,tm)); put(o[5],s.TimeDerivative(xm,tm)); }
		else { put(o[0],s.Eval(xd)); put(o[1],s.Jacobian(xd)); put(o[3],s.Eval(xm)); put(o[4],s.Jacobian(xm)); } return o; };
	auto same=[&](std::vector<std::vector<R>> const& a,std::vector<std::vector<R>> const& b,unsigned d,std::string const& tag){ static const char* nm[]={"value","jacobian","time-derivative","mp value","mp jacobian","mp time-derivative"}; for (int k=0;k<6;k++) { bool ok=a[k].size()==b[k].size(); R x,y; for (size_t i=0;ok&&i<a[k].size();i++) { x=a[k][i]; y=b[k][i]; if (!finite(x)&&!finite(y)) continue; ok=close(x,y,(k<3?1e-11:std::pow(10.,-(double)d+7))*(1+mag(x))); } r.check(ok,tag+":"+nm[k],[&]{ return str(y)+" instead of "+str(x); }); r.transition(); } };
	if (before==1) { S.Differentiate(); } if (before==2) { ask(S,0,30); } if (before==3) { DefaultPrecision(50); S.precision(50); ask(S,0,50); DefaultPrecision(30); }
	auto use=[&](System& Q,std::string const& tag){
		if (c.kind&8) { Q.SetImplicitParameters(convv<dbl>({pts[0][VZ]},30)); Q.SetImplicitParameters(convv<Mp>({pts[0][VZ]},30)); }
		if (before!=3) { r.check(Q.precision()==30,tag+":precision",[&]{ return "precision "+std::to_string(Q.precision()); }); }
		else { r.check(Q.precision()==50,tag+":precision",[&]{ return "precision "+std::to_string(Q.precision()); }); Q.precision(30); S.precision(30); }
		r.check(Q.NumVariables()==S.NumVariables()&&Q.NumNaturalFunctions()==S.NumNaturalFunctions()&&Q.NumTotalFunctions()==S.NumTotalFunctions()&&Q.IsPatched()==S.IsPatched()&&Q.HavePathVariable()==S.HavePathVariable()&&Q.NumVariableGroups()==S.NumVariableGroups()&&Q.NumHomVariables()==S.NumHomVariables()&&Q.GetEvalMethod()==c.e&&Q.GetDerivMethod()==c.d,tag+":structure",[&]{ return "counts or settings differ"; });
		auto oa=Q.Variables(), ob=S.Variables(); bool ok=oa.size()==ob.size(); for (size_t i=0;ok&&i<oa.size();i++) ok=oa[i]->name()==ob[i]->name()&&oa[i]!=ob[i]; r.check(ok,tag+":ordering",[&]{ return "variables in another order, or shared with the original"; });
		r.check(Q.Degrees()==S.Degrees(),tag+":degrees",[&]{ return "degrees differ"; });
		if (S.IsPatched()) r.check(Q.GetPatch()==S.GetPatch(),tag+":patch",[&]{ return "the patch differs"; });
		if (!(c.kind&2)) { r.where(tag+" first use"); compare<dbl>(r,A,Q,m,pz(1),30,"fJt",tag); compare<Mp>(r,A,Q,m,pz(1),30,"tJf",tag); }
		auto wa=ask(S,1,30); auto qa=ask(Q,1,30); same(wa,qa,30,tag+":first use");
		r.where(tag+" continue");
		if (after==1) { DefaultPrecision(50); S.precision(50); Q.precision(50); same(ask(S,0,50),ask(Q,0,50),50,tag+":precision raised"); DefaultPrecision(30); S.precision(30); Q.precision(30); }
		if (after==2) { Q.Differentiate(); auto w=ask(S,0,30); same(w,ask(Q,0,30),30,tag+":differentiated"); }
		if (after==3) { for (auto e:{EvalMethod::FunctionTree,EvalMethod::SLP}) { Q.SetEvalMethod(e); Q.precision(30); same(ask(S,0,30),ask(Q,0,30),30,tag+":other method"); } }
		if (after==4 && !(c.kind&2)) { Q.Homogenize(); Q.AutoPatch(); Q.precision(30); System S2=Clone(S); S2.Homogenize(); S2.CopyPatches(Q); S2.precision(30); n=S2.NumVariables(); same(ask(S2,0,30),ask(Q,0,30),30,tag+":homogenized"); r.check(Q.IsHomogeneous()==S2.IsHomogeneous(),tag+":homogeneous",[&]{ return "homogeneity differs"; }); n=S.NumVariables(); compare<Mp>(r,A,S,m,pz(0),30,"fJ",tag+":original"); }
		if (after==5) { System Q2; trip(Q,Q2,false); if (c.kind&8) { Q2.SetImplicitParameters(convv<dbl>({pts[0][VZ]},30)); Q2.SetImplicitParameters(convv<Mp>({pts[0][VZ]},30)); } same(ask(S,0,30),ask(Q2,0,30),30,tag+":twice"); }
	};
	static const char* hn[]={"text object","binary object","text pointer","clone"}; std::string tag=hn[how];
	r.where(tag);
	if (how==0||how==1) { System Q; trip(S,Q,how==1); use(Q,tag); }
	else if (how==2) { std::shared_ptr<System> P(new System(S)),Q; trip(P,Q,false); use(*Q,tag); }
	else { System Q=Clone(S); use(Q,tag); }
	r.check(true,"done",[]{ return ""; });
}
// ---------------------------------------------------------------- start systems
static void start_case(mc::Run& r,int which,int form,int how,int before)
{
	DefaultPrecision(30); auto v=mkvars(); System T; 
	if (which==0||which==1) T.AddVariableGroup({v[VX],v[VY]}); else { T.AddVariableGroup({v[VX]}); T.AddVariableGroup({v[VY]}); }
	T.AddFunction(v[VX]*v[VX]*v[VY]-2); T.AddFunction(v[VX]*v[VY]+v[VY]-3); if (form&1) T.SetEvalMethod(EvalMethod::FunctionTree);
	if (form&2) { T.Homogenize(); T.AutoPatch(); } T.precision(30);
	std::shared_ptr<StartSystem> S,Q;
	if (which==0) S=std::make_shared<TotalDegree>(T); else if (which<=2) S=std::make_shared<MHomogeneous>(T);
	else { size_t n=T.NumVariables(); bertini::SampCont<dbl> a; bertini::SampCont<Mp> b; for (int i=0;i<3;i++) { bertini::Vec<dbl> x(n); bertini::Vec<Mp> y(n); for (size_t k=0;k<n;k++) { R z=points(NV)[i%2][(k+i)%NV]; x(k)=toD(z); y(k)=toMp(z,30); } a.push_back(x); b.push_back(y); } if (which==3) S=std::make_shared<User>(T,a); else S=std::make_shared<User>(T,b); }
	S->precision(30); auto xs=convv<Mp>(firstn(S->NumVariables()),30); auto xd=convv<dbl>(firstn(S->NumVariables()),30);
	if (before&&which<3) { S->Eval(xs); S->Jacobian(xd); }
	r.where("round trip");
	if (how==0) trip(S,Q,false); else if (how==1) trip(S,Q,true);
	r.transition();
	r.check(bool(Q)&&Q->NumStartPoints()==S->NumStartPoints(),"start:count",[&]{ return "number of start points "+std::to_string(Q->NumStartPoints())+" instead of "+std::to_string(S->NumStartPoints()); }); if (Q->NumStartPoints()!=S->NumStartPoints()) return;
	for (unsigned d:{30u,50u,30u})
	{
		DefaultPrecision(d); S->precision(d); Q->precision(d); std::string tag="start at "+std::to_string(d)+" digits";
		for (unsigned long long i=0;i<S->NumStartPoints();i++)
		{
			r.where(tag); auto a=S->StartPoint<Mp>(i), b=Q->StartPoint<Mp>(i); auto c=S->StartPoint<dbl>(i), e=Q->StartPoint<dbl>(i); bool ok=a.size()==b.size()&&c.size()==e.size(); for (int k=0;ok&&k<a.size();k++) ok=close(toR(a(k)),toR(b(k)),std::pow(10.,-(double)d+6)*(1+mag(toR(a(k)))))&&close(toR(c(k)),toR(e(k)),1e-10*(1+mag(toR(c(k)))));
			r.check(ok,tag+":points",[&]{ return "start point "+std::to_string(i)+" differs"; }); r.transition();
		}
		if (which>=3) continue;
		r.where(tag+" eval"); auto x=convv<Mp>(firstn(S->NumVariables()),d);
		auto a=S->Eval(x), b=Q->Eval(x); auto J=S->Jacobian(x), K=Q->Jacobian(x); auto ad=S->Eval(xd), bd=Q->Eval(xd); bool ok=a.size()==b.size()&&J.rows()==K.rows()&&J.cols()==K.cols()&&ad.size()==bd.size();
		double tm=std::pow(10.,-(double)d+7);
		for (int i=0;ok&&i<a.size();i++) { ok=close(toR(a(i)),toR(b(i)),tm*(1+mag(toR(a(i)))))&&close(toR(ad(i)),toR(bd(i)),1e-11*(1+mag(toR(a(i))))); for (int j=0;ok&&j<J.cols();j++) ok=close(toR(J(i,j)),toR(K(i,j)),tm*(1+mag(toR(J(i,j))))); }
		r.check(ok,tag+":values",[&]{ return "values or derivatives differ"; });
		r.check(Q->IsPatched()==S->IsPatched()&&Q->Degrees()==S->Degrees(),tag+":structure",[&]{ return "structure differs"; });
	}
}
static void P12(mc::Run& r)
{
	bool T=r.thorough();
	for (unsigned d:{16u,20u,30u,50u,70u}) for (unsigned lp:{0u,16u,40u,100u}) for (int b=0;b<2;b++) r.test([&]{ return "numbers of "+std::to_string(d)+" digits, "+ar[b]+", read at "+std::to_string(lp); },[&]{ r.state(r.label()); numbers_case(r,d,lp,b); });
	static Arena A; static std::vector<int> two, three; static bool init=false;
	if (!init)
	{
		init=true; Grammar G; G.vars={0,1}; G.csts={C2,CRAT,CE,CFLT}; G.unary={{NEG,0},{IPOW,2},{IPOW,-1},{SQRT,0},{EXP,0},{LOG,0},{SIN,0},{COS,0},{TAN,0},{ASIN,0},{ACOS,0},{ATAN,0}}; G.binary={ADD,SUB,MUL,DIV,POW}; G.generate(A,2);
		for (int s=0;s<=2;s++) for (int t:G.by_size[s]) two.push_back(t);
		Grammar H; H.vars={}; for (int c=0;c<15;c++) H.csts.push_back(c); H.unary={{NEG,0},{EXP,0}}; H.binary={}; H.generate(A,1); for (int s=0;s<=1;s++) for (int t:H.by_size[s]) two.push_back(t);
		if (T) { Grammar K; K.vars={0,1}; K.csts={CRAT}; K.unary={{NEG,0},{IPOW,2},{EXP,0},{SIN,0}}; K.binary={ADD,SUB,MUL,DIV}; K.generate(A,3); three=K.by_size[3]; }
	}
	for (int t:two) for (int mode=0;mode<3;mode++) { int b=(mode==1); r.test([&]{ return std::string("expression ")+Builder::mode_name(mode)+A.show(t)+", "+ar[b]; },[&]{ r.state(r.label()); term_case(r,A,t,mode,b,mode==0?0:1,false); }); }
	for (int t:three) r.test([&]{ return "expression shared "+A.show(t); },[&]{ r.state(r.label()); term_case(r,A,t,1,false,1,true); });
	// systems
	static std::vector<std::vector<int>> fs; static bool init2=false;
	if (!init2)
	{
		init2=true; int x=A.var(VX),y=A.var(VY),t=A.var(VT),z=A.var(VZ),c2=A.cst(C2),cr=A.cst(CRAT);
		int p=A.add(MUL,0,x,y), q=A.add(ADD,0,p,c2), sq=A.add(IPOW,2,x), u=A.add(SUB,0,sq,A.add(MUL,0,cr,y)), w=A.add(MUL,0,t,q);
		fs={{q,u},{w,A.add(SUB,0,u,t)},{A.add(EXP,0,p),A.add(LOG,0,q)},{A.add(ADD,0,A.add(SIN,0,x),y),A.add(DIV,0,x,A.add(ADD,0,y,c2))},{A.add(MUL,0,z,x),A.add(ADD,0,A.add(SQRT,0,q),A.add(POW,0,q,cr))}};
	}
	for (size_t f=0;f<fs.size();f++) for (int kind=0;kind<16;kind++) for (int me=0;me<8;me++)
	{
		if ((f==1)!=(bool)(kind&1)&&f<2) continue; if (f>=2&&(kind&2)) continue; if ((f==4)!=(bool)(kind&8)) continue;
		Cfg c{kind,(me&1)?EvalMethod::FunctionTree:EvalMethod::SLP,(me&2)?DerivMethod::JacobianNode:DerivMethod::Derivatives,bool(me&4)};
		for (int before=0;before<4;before++) for (int how=0;how<4;how++) for (int after=0;after<6;after++)
		{
			if (f>=2 && after==4) continue; if ((kind&8) && before==3) continue;
			if (!T && how%2==1 && after>0 && how!=3) continue; if (!T && me>=4 && after) continue;
			r.test([&]{ static const char* b[]={"fresh","differentiated","evaluated","evaluated at 50 digits"}; static const char* h[]={"text","binary","pointer","clone"}; static const char* a[]={"use","raise precision","differentiate","change method","homogenize","again"}; return "system "+std::to_string(f)+((kind&1)?" time":"")+((kind&2)?" patched":"")+((kind&4)?" two groups":"")+((kind&8)?" parameter":"")+((me&1)?" tree":" slp")+((me&2)?" jacobian-node":"")+((me&4)?" simplify":"")+", "+b[before]+", "+h[how]+", "+a[after]; },[&]{ r.state(r.label()); system_case(r,A,fs[f],c,before,how,after); });
		}
	}
	for (int which=0;which<5;which++) for (int form=0;form<4;form++) for (int how=0;how<1;how++) for (int before=0;before<2;before++)
		r.test([&]{ static const char* w[]={"total degree","one-homogeneous","two-homogeneous","user dbl","user mp"}; static const char* h[]={"text pointer","binary pointer","text object"}; return std::string("start system ")+w[which]+((form&1)?" tree":" slp")+((form&2)?" patched":"")+", "+h[how]+(before?", used before":""); },[&]{ r.state(r.label()); start_case(r,which,form,how,before); });
}
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P12",P12}}); }
