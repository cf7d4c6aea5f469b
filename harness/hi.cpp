// The same guarantees at hundreds of digits: the reference arithmetic of this harness has 340.
#define REF_DIGITS 340
#include "sysref.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
#include "bertini2/io/parsing/function_rules.hpp"
#include "bertini2/io/parsing/number_parsers.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
#include "bertini2/io/generators.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
using namespace ref;
using bertini::EvalMethod; using bertini::DerivMethod;
using bertini::node::Variable; using bertini::node::Function; using bertini::node::Integer; using bertini::node::LinearProduct; using bertini::node::Float;
using bertini::mpfr_float; using bertini::mpfr_complex;
static const unsigned D[]={30,100,160,300};
static double eps(unsigned d,int lost=5) { return std::pow(10.,-(double)d+lost); }
static R third(int k,int s=0) { return R(Rr(2*k+1)/Rr(7+s),Rr(k-3)/Rr(11+2*s)); }
static Rr rr(bertini::mpq_rational const& q) { return Rr(numerator(q))/Rr(denominator(q)); }

// every sequence of precisions up to a length
template<class F> static void sequences(int len,F f) { for (int n=1;n<=len;n++) { std::vector<int> h(n,0); for (;;) { f(h); int i=0; while (i<n && ++h[i]==4) h[i++]=0; if (i==n) break; } } }
static std::string show(std::vector<int> const& h) { std::string s; for (int k:h) s+=" "+std::to_string(D[k]); return s; }
// all steps between two nearby precisions; what comes out is right to the last digit
static bool exact(R const& got,R const& want,unsigned d,int ulps=2) { Rr m=abs(want), e=abs(R(got-want)); return e<=Rr(ulps)*m*pow(Rr(10),-(int)d); }
template<class F> static void steps(bool thorough,F f) { for (unsigned a=20;a<=44;a+=1) for (unsigned b=20;b<=44;b+=1) if (thorough || a%2==0 || b==a+1 || b==a+5) f(a,b); for (unsigned a:{60u,99u,150u,298u}) for (unsigned b=a-6;b<=a+12;b++) f(a,b); }
static Grammar vocabulary(Arena& A,int size)
{
	Grammar G; G.vars={VX,VT}; for (int c=0;c<CBIG;c++) G.csts.push_back(c);
	G.unary={{NEG,0},{IPOW,2},{IPOW,7},{IPOW,0},{IPOW,1},{IPOW,-1},{IPOW,-3},{SQRT,0},{EXP,0},{LOG,0},{SIN,0},{COS,0},{TAN,0},{ASIN,0},{ACOS,0},{ATAN,0}}; G.binary={ADD,SUB,MUL,DIV,POW}; G.generate(A,size); return G;
}
static std::vector<Var> mkvars() { Arena A; std::vector<Var> v; for (auto const& n:A.names) v.push_back(Variable::Make(n)); return v; }
static void set_all(std::vector<Var> const& v,std::vector<R> const& p,unsigned d) { for (size_t i=0;i<v.size();i++) { v[i]->precision(d); v[i]->set_current_value(toD(p[i])); v[i]->set_current_value(toMp(p[i],d)); } }

static void expression(mc::Run& r,Arena const& A,int t,std::vector<int> const& h,int what)
{
	DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; Node n=B.build(A,t); std::vector<Node> d; if (what==2) for (int k:{VX,VT}) d.push_back(n->Differentiate(v[k]));
	auto pts=points(NV); int step=0;
	for (int k:h)
	{
		unsigned dg=D[k]; auto const& p=pts[step++%2]; Val e=eval(A,t,p); DefaultPrecision(dg); n->precision(dg); for (auto& x:d) x->precision(dg); set_all(v,p,dg); n->Reset(); r.transition();
		if (what==1) { if (!e.ok) { r.outcome("not compared (undefined or ill-conditioned there)"); continue; } Mp z=n->Eval<Mp>(); r.check(close(toR(z),e.v,eps(dg)*e.amp)&&z.precision()==dg,"mp",[&]{ return "value differs from the reference by "+str(R(toR(z)-e.v),6)+" at "+std::to_string(dg)+" digits, carries "+std::to_string(z.precision()); }); r.outcome("compared"); }
		else for (int j=0;j<2;j++) { if (!e.dok) { r.outcome("not compared (undefined or ill-conditioned there)"); continue; } d[j]->Reset(); Mp z=d[j]->Eval<Mp>(); R want=e.d[j?VT:VX]; Tol tl=tol<Mp>(e,dg); r.check(close(toR(z),want,tl.d)&&z.precision()==dg,"derivative",[&]{ return "derivative differs from the reference by "+str(R(toR(z)-want),6)+" at "+std::to_string(dg)+" digits, carries "+std::to_string(z.precision()); }); r.outcome("compared"); }
	}
}
static void exprs(mc::Run& r,int what)
{
	Arena A; Grammar G=vocabulary(A,1);
	for (int s=0;s<=1;s++) for (int t:G.by_size[s]) for (auto const& h:std::vector<std::vector<int>>{{3,1,3},{1,2,0,3},{0,3,2}}) r.test([&]{ return A.show(t)+" at"+show(h); },[&]{ r.state(r.label()); expression(r,A,t,h,what); });
	int x=A.var(VX),y=A.var(VT); int f=A.add(ADD,0,A.add(MUL,0,A.cst(CRAT),A.add(IPOW,5,x)),A.add(DIV,0,A.add(SIN,0,A.add(MUL,0,A.cst(CPI),y)),A.add(ADD,0,x,A.cst(CE))));
	sequences(r.thorough()?6:4,[&](std::vector<int> const& h){ r.test([&]{ return A.show(f)+" at"+show(h); },[&]{ r.state(r.label()); expression(r,A,f,h,what); }); });
}
static void P01(mc::Run& r)
{
	exprs(r,1);
	Arena A; for (int c=0;c<CBIG;c++) { int k=A.cst(c); steps(r.thorough(),[&](unsigned a,unsigned b){ r.test([&]{ return "number "+A.show(k)+" at "+std::to_string(a)+" then "+std::to_string(b); },[&]{
		r.state(r.label()); DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; Node n=B.build(A,k); Val e=eval(A,k,points(NV)[0]); for (unsigned d:{a,b,a,b}) { DefaultPrecision(d); n->precision(d); n->Reset(); Mp z=n->Eval<Mp>(); r.transition(); r.check(exact(toR(z),e.v,d)&&z.precision()==d,"number",[&]{ return "off by "+str(R(toR(z)-e.v),6)+" at "+std::to_string(d)+" digits, carries "+std::to_string(z.precision()); }); } }); }); }
}
static void P02(mc::Run& r) { exprs(r,2); }

struct Method { EvalMethod e; DerivMethod d; bool simp; std::string name; };
static std::vector<Method> methods() { std::vector<Method> m; for (auto e:{EvalMethod::SLP,EvalMethod::FunctionTree}) for (auto d:{DerivMethod::Derivatives,DerivMethod::JacobianNode}) for (bool s:{true,false}) m.push_back({e,d,s,std::string(e==EvalMethod::SLP?"slp":"tree")+"/"+(d==DerivMethod::Derivatives?"derivatives":"jacobian-node")+(s?"/simplify":"")}); return m; }
static void system_at(mc::Run& r,Arena& A,int t,std::vector<int> const& h,Method const& me,int wrap)
{
	DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; B.mode=1; System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp); S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]);
	Arena L=A; int g=L.add(ADD,0,L.add(MUL,0,t,L.var(VY)),L.add(IPOW,2,L.var(VT))); Model m; m.fns={t,g}; m.order={VX,VY}; m.time=true; for (int f:m.fns) S.AddFunction(B.build(L,f)); S.precision(30); auto pts=points(NV); int k=0;
	if (wrap==1) S=Clone(S); if (wrap==2) { System C(S); S=C; }
	for (int q:h) { unsigned d=D[q]; DefaultPrecision(d); S.precision(d); r.check(S.precision()==d,me.name+":precision",[&]{ return "the system reports "+std::to_string(S.precision())+" digits"; }); compare<Mp>(r,L,S,m,pts[k%2],d,k%2?"fJt":"tJf",me.name); k++; if (wrap==1 && k==1) { S=Clone(S); } }
	compare<dbl>(r,L,S,m,pts[k%2],D[h.back()],"fJt",me.name);
}
// a system holding all kinds of numbers, stepped between nearby precisions: its Jacobian is those numbers
static void system_steps(mc::Run& r,int wrap)
{
	for (auto const& me:methods()) steps(r.thorough(),[&](unsigned a,unsigned b){ if (!r.thorough() && (a+b)%3) return; r.test([&]{ return me.name+(wrap==1?" cloned":wrap==2?" copied":"")+" numbers at "+std::to_string(a)+" then "+std::to_string(b); },[&]{
		r.state(r.label()); DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; Arena A; System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp); S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]); std::vector<R> c;
		for (int k:{CRAT,CFLT,CPI,CE,C37,CHALF,C9}) { S.AddFunction(B.build(A,A.cst(k))*v[VX]+B.build(A,A.cst(k))*v[VT]); c.push_back(eval(A,A.cst(k),points(NV)[0]).v); }
		S.precision(30); if (wrap==1) S=Clone(S); if (wrap==2) { System C(S); S=C; }
		for (unsigned d:{a,b,a}) { DefaultPrecision(d); S.precision(d); bertini::Vec<Mp> x(2); x<<Mp(3,0,d),Mp(5,0,d); Mp t(0,0,d); auto J=S.Jacobian(x,t); auto T=S.TimeDerivative(x,t); auto f=S.Eval(x,t); r.transition(3);
			for (size_t k=0;k<c.size();k++) r.check(exact(toR(J(k,0)),c[k],d,3)&&exact(toR(T(k)),c[k],d,3)&&exact(toR(f(k)),R(c[k]*R(3)),d,3),me.name+":numbers",[&]{ return "function "+std::to_string(k)+" off by "+str(R(toR(J(k,0))-c[k]),6)+", "+str(R(toR(T(k))-c[k]),6)+", "+str(R(toR(f(k))-c[k]*R(3)),6)+" at "+std::to_string(d)+" digits"; }); }
	}); });
}
static void P06(mc::Run& r)
{
	Arena A; Grammar G=vocabulary(A,1); auto ms=methods();
	for (auto const& me:ms) for (int s=0;s<=1;s++) for (int t:G.by_size[s]) { if (!r.thorough() && !me.simp && t%3) continue; r.test([&]{ return me.name+" "+A.show(t)+" at 300 100 300"; },[&]{ r.state(r.label()); system_at(r,A,t,{3,1,3},me,0); }); }
	int x=A.var(VX),y=A.var(VY),t=A.var(VT); int f=A.add(ADD,0,A.add(MUL,0,A.cst(CRAT),A.add(IPOW,5,x)),A.add(DIV,0,A.add(SIN,0,A.add(MUL,0,A.cst(CPI),y)),A.add(ADD,0,t,A.cst(CE))));
	for (auto const& me:ms) sequences(r.thorough()?5:4,[&](std::vector<int> const& h){ r.test([&]{ return me.name+" "+A.show(f)+" at"+show(h); },[&]{ r.state(r.label()); system_at(r,A,f,h,me,0); }); });
	system_steps(r,0);
}
// copies and clones of systems at high precision
static void P07(mc::Run& r)
{
	Arena A; int x=A.var(VX),y=A.var(VY),t=A.var(VT); int f=A.add(ADD,0,A.add(MUL,0,A.cst(CRAT),A.add(IPOW,5,x)),A.add(DIV,0,A.add(SIN,0,A.add(MUL,0,A.cst(CPI),y)),A.add(ADD,0,t,A.cst(CE)))), g=A.add(SUB,0,A.add(MUL,0,x,y),A.add(MUL,0,t,A.cst(C37)));
	for (auto const& me:methods()) for (int fn:{f,g}) for (int wrap=1;wrap<=2;wrap++) sequences(r.thorough()?4:3,[&](std::vector<int> const& h){ r.test([&]{ return me.name+(wrap==1?" cloned ":" copied ")+A.show(fn)+" at"+show(h); },[&]{ r.state(r.label()); system_at(r,A,fn,h,me,wrap); }); });
	system_steps(r,1); system_steps(r,2);
}
static void P09(mc::Run& r)
{
	for (auto const& sizes:std::vector<std::vector<unsigned>>{{2},{3,2},{1,4,2}}) for (int real=0;real<2;real++) for (int cp=0;cp<3;cp++) sequences(r.thorough()?4:3,[&](std::vector<int> const& h){ r.test([&]{ return "patch "+std::to_string(sizes.size())+" groups"+(real?" real":"")+(cp==1?" copied":cp==2?" serialized":"")+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision(30); auto P= real?bertini::Patch::RandomReal(sizes):bertini::Patch::Random(sizes); unsigned n=0; for (auto s:sizes) n+=s;
		std::vector<R> c; { DefaultPrecision(330); auto Q=P; Q.Precision(331); DefaultPrecision(331); bertini::Vec<Mp> x(n); for (unsigned i=0;i<n;i++) x(i)=Mp(1,0,331); auto J=Q.Jacobian(x); unsigned k=0; for (size_t g=0;g<sizes.size();g++) for (unsigned j=0;j<sizes[g];j++,k++) c.push_back(toR(J(g,k))); DefaultPrecision(30); }
		for (int q:h)
		{
			unsigned d=D[q]; DefaultPrecision(d); P.Precision(d); if (cp==1) { auto Q=P; P=Q; } if (cp==2) { std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa<<P; } bertini::Patch Q; { boost::archive::text_iarchive ia(ss); ia>>Q; } P=Q; }
			bertini::Vec<Mp> x(n); for (unsigned i=0;i<n;i++) x(i)=toMp(third(i),d); auto v=P.Eval(x); auto J=P.Jacobian(x); auto y=P.RescalePoint(x); auto z=P.Eval(y); unsigned k=0; r.transition();
			for (size_t g=0;g<sizes.size();g++) { R w(-1); for (unsigned j=0;j<sizes[g];j++,k++) { w+=c[k]*third(k); r.check(close(toR(J(g,k)),c[k],eps(d,3))&&bertini::Precision(J(g,k))==d,"jacobian",[&]{ return "Jacobian off by "+str(R(toR(J(g,k))-c[k]),6)+" at "+std::to_string(d)+" digits"; }); } r.check(close(toR(v(g)),w,eps(d,3))&&bertini::Precision(v(g))==d,"value",[&]{ return "value off by "+str(R(toR(v(g))-w),6)+" at "+std::to_string(d)+" digits"; }); r.check(mag(toR(z(g)))<eps(d,4)/mag(R(w+R(1))),"rescale",[&]{ return "rescaled point off the patch by "+str(toR(z(g)),6)+" at "+std::to_string(d)+" digits"; }); }
		}
	}); });
	steps(r.thorough(),[&](unsigned a,unsigned b){ for (int real=0;real<2;real++) r.test([&]{ return std::string(real?"real ":"")+"patch at "+std::to_string(a)+" then "+std::to_string(b); },[&]{
		r.state(r.label()); DefaultPrecision(30); std::vector<unsigned> sizes={4,3,5}; auto P= real?bertini::Patch::RandomReal(sizes):bertini::Patch::Random(sizes); unsigned n=12; std::vector<R> c; { DefaultPrecision(330); auto Q=P; Q.Precision(331); DefaultPrecision(331); bertini::Vec<Mp> x(n); for (unsigned i=0;i<n;i++) x(i)=Mp(1,0,331); auto J=Q.Jacobian(x); unsigned k=0; for (size_t g=0;g<3;g++) for (unsigned j=0;j<sizes[g];j++,k++) c.push_back(toR(J(g,k))); DefaultPrecision(30); }
		for (unsigned d:{a,b,a,b}) { DefaultPrecision(d); P.Precision(d); bertini::Vec<Mp> x(n); for (unsigned i=0;i<n;i++) x(i)=Mp(1,0,d); auto J=P.Jacobian(x); unsigned k=0; r.transition(); for (size_t g=0;g<3;g++) for (unsigned j=0;j<sizes[g];j++,k++) r.check(exact(toR(J(g,k)),c[k],d)&&bertini::Precision(J(g,k))==d,"step",[&]{ return "coefficient off by "+str(R(toR(J(g,k))-c[k]),6)+" at "+std::to_string(d)+" digits"; }); }
	}); });
}
static void P10(mc::Run& r)
{
	for (int kind=0;kind<2;kind++) for (int patched=0;patched<2;patched++) for (int n=1;n<=3;n++) for (int tree=0;tree<2;tree++) sequences(3,[&](std::vector<int> const& h){ r.test([&]{ return std::string(kind?"mhom":"total degree")+(patched?" patched ":" ")+std::to_string(n)+(tree?" tree":"")+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision(30); System T; std::vector<Var> v; for (int i=0;i<n;i++) v.push_back(Variable::Make("x"+std::to_string(i))); if (kind) for (auto const& x:v) T.AddVariableGroup({x}); else T.AddVariableGroup(VariableGroup(v.begin(),v.end())); for (int i=0;i<n;i++) { Node f=pow(v[i],i+2); if (n>1) f=f*v[(i+1)%n]; T.AddFunction(f-Integer::Make(3+i)); } if (patched) { T.Homogenize(); T.AutoPatch(); } T.precision(30);
		std::shared_ptr<bertini::start_system::StartSystem> S; if (kind) S=std::make_shared<bertini::start_system::MHomogeneous>(T); else S=std::make_shared<bertini::start_system::TotalDegree>(T); if (tree) S->SetEvalMethod(EvalMethod::FunctionTree);
		for (int q:h) { unsigned d=D[q]; DefaultPrecision(d); S->precision(d); auto N=S->NumStartPoints(); for (auto i:{0ull,(unsigned long long)N-1}) { auto y=S->StartPoint<Mp>(i); auto w=S->Eval(y); double sc=1; for (int k=0;k<y.size();k++) sc=std::max(sc,mag(toR(y(k)))); for (int k=0;k<w.size();k++) r.check(mag(toR(w(k)))<eps(d,9)*std::pow(1+sc,5) && bertini::Precision(y(k))==d,kind?"mhom":"total degree",[&]{ return "start point misses the start system by "+str(toR(w(k)),6)+" at "+std::to_string(d)+" digits"; }); r.transition(); } }
	}); });
}
static void P11(mc::Run& r)
{
	for (int nv=1;nv<=3;nv++) for (int nf=1;nf<=3;nf++) for (int kind=0;kind<2;kind++) sequences(r.thorough()?4:3,[&](std::vector<int> const& h){ r.test([&]{ return "linear product "+std::to_string(nv)+" "+std::to_string(nf)+(kind?" given":" random")+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision(30); VariableGroup g; for (int i=0;i<nv;i++) g.push_back(Variable::Make("x"+std::to_string(i))); std::vector<std::vector<R>> c; std::shared_ptr<LinearProduct> L;
		if (kind) { bertini::Mat<Mp> C(nf,nv+1); for (int f=0;f<nf;f++) { c.emplace_back(); for (int j=0;j<=nv;j++) { C(f,j)=toMp(third(3*f+j,f),320); c.back().push_back(toR(C(f,j))); } } L=LinearProduct::Make(g,C,false); }
		else { L=LinearProduct::Make(g,nf,false); bertini::Mat<bertini::mpq_rational> a,b; L->GetRatCoeffs(a,b); for (int f=0;f<nf;f++) { c.emplace_back(); for (int j=0;j<=nv;j++) c.back().push_back(R(rr(a(f,j)),rr(b(f,j)))); } }
		std::vector<Node> ds; for (auto const& x:g) ds.push_back(L->Differentiate(x));
		for (int q:h) { unsigned d=D[q]; DefaultPrecision(d); L->precision(d); for (auto& n:ds) n->precision(d); for (int i=0;i<nv;i++) { g[i]->precision(d); g[i]->set_current_value(toMp(third(i),d)); } L->Reset(); std::vector<R> s; double sc=1; for (auto const& f:c) { R t=f[nv]; for (int j=0;j<nv;j++) t+=f[j]*third(j); s.push_back(t); } R w(1); for (auto const& t:s) { w*=t; sc*=3+mag(t); }
			Mp z=L->Eval<Mp>(); r.transition(); r.check(close(toR(z),w,eps(d,4)*sc)&&z.precision()==d,"value",[&]{ return "off by "+str(R(toR(z)-w),6)+" at "+std::to_string(d)+" digits"; });
			for (int j=0;j<nv;j++) { R dw(0); for (int f=0;f<nf;f++) { R p=c[f][j]; for (int k=0;k<nf;k++) if (k!=f) p*=s[k]; dw+=p; } ds[j]->Reset(); Mp y=ds[j]->Eval<Mp>(); r.check(close(toR(y),dw,eps(d,4)*sc*5),"derivative",[&]{ return "off by "+str(R(toR(y)-dw),6)+" at "+std::to_string(d)+" digits"; }); } }
	}); });
	for (int nv=1;nv<=4;nv++) for (int dim=1;dim<=nv;dim++) for (int f=0;f<8;f++) sequences(2,[&](std::vector<int> const& h){ r.test([&]{ return "slice "+std::to_string(nv)+" "+std::to_string(dim)+" "+std::to_string(f)+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision((nv+dim+f)%2?335:30); VariableGroup g; for (int i=0;i<nv;i++) g.push_back(Variable::Make("x"+std::to_string(i))); auto S= f&1?bertini::LinearSlice::RandomReal(g,dim,f&2,f&4):bertini::LinearSlice::RandomComplex(g,dim,f&2,f&4);
		std::vector<std::vector<R>> c; std::vector<R> k0; { auto Q=S; DefaultPrecision(335); Q.Precision(335); bertini::Mat<Mp> x(nv,1); for (int i=0;i<nv;i++) x(i,0)=Mp(0,0,335); auto J=Q.Jacobian(x); bertini::Vec<Mp> xv=x; auto v=Q.Eval(xv); for (int i=0;i<dim;i++) { c.emplace_back(); for (int j=0;j<nv;j++) c.back().push_back(toR(J(i,j))); k0.push_back(toR(v(i))); } DefaultPrecision(30); }
		if (f&4) for (int i=0;i<dim;i++) for (int j=0;j<=i;j++) { R s(0); for (int k=0;k<nv;k++) s+=c[i][k]*conj(c[j][k]); r.check(mag(R(s-R(i==j?1:0)))==0 || abs(R(s-R(i==j?1:0)))<Rr("1e-330"),"orthonormal",[&]{ return "rows "+std::to_string(i)+" and "+std::to_string(j)+" have inner product off by "+str(R(s-R(i==j?1:0)),6); }); }
		for (int q:h) { unsigned d=D[q]; DefaultPrecision(d); S.Precision(d); bertini::Vec<Mp> x(nv); for (int i=0;i<nv;i++) x(i)=toMp(third(i),d); auto v=S.Eval(x); r.transition(); for (int i=0;i<dim;i++) { R w=k0[i]; for (int j=0;j<nv;j++) w+=c[i][j]*third(j); r.check(close(toR(v(i)),w,eps(d,4))&&bertini::Precision(v(i))==d,"slice value",[&]{ return "off by "+str(R(toR(v(i))-w),6)+" at "+std::to_string(d)+" digits"; }); } }
	}); });
	steps(r.thorough(),[&](unsigned a,unsigned b){ for (int kind=0;kind<2;kind++) r.test([&]{ return std::string("linear product and slice, ")+(kind?"given":"random")+", at "+std::to_string(a)+" then "+std::to_string(b); },[&]{
		r.state(r.label()); DefaultPrecision(30); int nv=3; VariableGroup g; for (int i=0;i<nv;i++) g.push_back(Variable::Make("x"+std::to_string(i))); std::vector<R> c; std::shared_ptr<LinearProduct> L;
		if (kind) { bertini::Mat<Mp> C(1,nv+1); for (int j=0;j<=nv;j++) { C(0,j)=toMp(third(j,1),320); c.push_back(toR(C(0,j))); } L=LinearProduct::Make(g,C,false); } else { L=LinearProduct::Make(g,1,false); bertini::Mat<bertini::mpq_rational> p,q; L->GetRatCoeffs(p,q); for (int j=0;j<=nv;j++) c.push_back(R(rr(p(0,j)),rr(q(0,j)))); }
		std::vector<Node> ds; for (auto const& x:g) ds.push_back(L->Differentiate(x));
		DefaultPrecision((a+b)%2?335:30); auto S= kind?bertini::LinearSlice::RandomReal(g,2,false,true):bertini::LinearSlice::RandomComplex(g,2,false,false); std::vector<std::vector<R>> sc(2); std::vector<R> k0; { auto Q=S; DefaultPrecision(335); Q.Precision(335); bertini::Mat<Mp> x(nv,1); for (int i=0;i<nv;i++) x(i,0)=Mp(0,0,335); auto J=Q.Jacobian(x); bertini::Vec<Mp> xv=x; auto v=Q.Eval(xv); for (int i=0;i<2;i++) { for (int j=0;j<nv;j++) sc[i].push_back(toR(J(i,j))); k0.push_back(toR(v(i))); } DefaultPrecision(30); }
		for (unsigned d:{a,b,a,b}) { DefaultPrecision(d); L->precision(d); for (auto& n:ds) n->precision(d); for (auto& x:g) { x->precision(d); x->set_current_value(Mp(0,0,d)); } L->Reset(); Mp z=L->Eval<Mp>(); r.transition(2); r.check(exact(toR(z),c[nv],d),"constant term",[&]{ return "off by "+str(R(toR(z)-c[nv]),6)+" at "+std::to_string(d)+" digits"; });
			for (int j=0;j<nv;j++) { ds[j]->Reset(); Mp y=ds[j]->Eval<Mp>(); r.check(exact(toR(y),c[j],d,3),"coefficient",[&]{ return "off by "+str(R(toR(y)-c[j]),6)+" at "+std::to_string(d)+" digits"; }); }
			S.Precision(d); bertini::Vec<Mp> x(nv); for (int i=0;i<nv;i++) x(i)=Mp(0,0,d); auto v=S.Eval(x); bertini::Mat<Mp> xm=x; auto J=S.Jacobian(xm); for (int i=0;i<2;i++) { r.check(exact(toR(v(i)),k0[i],d),"slice constant",[&]{ return "off by "+str(R(toR(v(i))-k0[i]),6)+" at "+std::to_string(d)+" digits"; }); for (int j=0;j<nv;j++) r.check(exact(toR(J(i,j)),sc[i][j],d),"slice coefficient",[&]{ return "off by "+str(R(toR(J(i,j))-sc[i][j]),6)+" at "+std::to_string(d)+" digits"; }); } }
	}); });
}
template<class T> static void trip(T const& in,T& out,bool binary) { std::stringstream ss; if (binary) { boost::archive::binary_oarchive oa(ss); oa<<in; } else { boost::archive::text_oarchive oa(ss); oa<<in; } if (binary) { boost::archive::binary_iarchive ia(ss); ia>>out; } else { boost::archive::text_iarchive ia(ss); ia>>out; } }
static void P12(mc::Run& r)
{
	for (unsigned d:{17u,31u,100u,160u,300u,999u}) for (unsigned lp:{16u,50u,300u,1000u}) for (int bin=0;bin<2;bin++) for (int k=0;k<12;k++) r.test([&]{ return "number "+std::to_string(k)+" of "+std::to_string(d)+" digits read at "+std::to_string(lp)+(bin?" binary":" text"); },[&]{
		r.state(r.label()); DefaultPrecision(d); mpfr_float a=mpfr_float(2*k-5)/mpfr_float(7+k), b=exp(mpfr_float(k*3-20)); mpfr_complex z(a,b), w; bertini::Vec<Mp> v(3), u; v<<z,Mp(b,a),-z; mpfr_float c;
		{ std::stringstream s1,s2,s3; if (bin) { boost::archive::binary_oarchive o1(s1),o2(s2),o3(s3); o1<<z; o2<<a; o3<<v; } else { boost::archive::text_oarchive o1(s1),o2(s2),o3(s3); o1<<z; o2<<a; o3<<v; } DefaultPrecision(lp); if (bin) { boost::archive::binary_iarchive o1(s1),o2(s2),o3(s3); o1>>w; o2>>c; o3>>u; } else { boost::archive::text_iarchive o1(s1),o2(s2),o3(s3); o1>>w; o2>>c; o3>>u; } DefaultPrecision(d); }
		r.transition(3); r.check(w==z && w.precision()==d,"complex",[&]{ return "came back different, with "+std::to_string(w.precision())+" digits"; }); r.check(c==a && c.precision()==d,"real",[&]{ return "came back different, with "+std::to_string(c.precision())+" digits"; });
		bool ok=u.size()==3; for (int i=0;ok&&i<3;i++) ok=u(i)==v(i) && u(i).precision()==d; r.check(ok,"vector",[&]{ return "came back different"; });
	});
	Arena A; int x=A.var(VX),y=A.var(VY),t=A.var(VT); int f=A.add(ADD,0,A.add(MUL,0,A.cst(CRAT),A.add(IPOW,5,x)),A.add(DIV,0,A.add(SIN,0,A.add(MUL,0,A.cst(CPI),y)),A.add(ADD,0,t,A.cst(CE))));
	for (auto const& me:methods()) for (int bin=0;bin<2;bin++) sequences(2,[&](std::vector<int> const& h){ r.test([&]{ return me.name+" system"+(bin?" binary":" text")+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision(30); auto v=mkvars(); Builder B; B.vars=v; System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp); S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]); Model m; m.fns={f}; m.order={VX,VY}; m.time=true; S.AddFunction(B.build(A,f)); unsigned d=D[h[0]]; DefaultPrecision(d); S.precision(d); System Q; trip(S,Q,bin); r.check(Q.precision()==d,"precision",[&]{ return "the copy reports "+std::to_string(Q.precision())+" digits"; }); for (int k:h) { d=D[k]; DefaultPrecision(d); Q.precision(d); compare<Mp>(r,A,Q,m,points(NV)[1],d,"fJt",me.name); } }); });
	// Float nodes of many digits
	for (int bin=0;bin<2;bin++) for (int k=0;k<6;k++) sequences(2,[&](std::vector<int> const& h){ r.test([&]{ return "float node "+std::to_string(k)+(bin?" binary":" text")+" at"+show(h); },[&]{
		r.state(r.label()); DefaultPrecision(320); R val=third(k,k); auto n=std::shared_ptr<Float>(Float::Make(toMp(val,320))); auto fn=Function::Make(Node(n)); std::shared_ptr<bertini::node::Function> q; std::stringstream ss; if (bin) { boost::archive::binary_oarchive oa(ss); oa<<fn; } else { boost::archive::text_oarchive oa(ss); oa<<fn; } DefaultPrecision(40); if (bin) { boost::archive::binary_iarchive ia(ss); ia>>q; } else { boost::archive::text_iarchive ia(ss); ia>>q; }
		for (int i:h) { unsigned d=D[i]; DefaultPrecision(d); q->precision(d); q->Reset(); Mp z=q->Eval<Mp>(); r.transition(); r.check(close(toR(z),val,eps(d,2)),"float node",[&]{ return "off by "+str(R(toR(z)-val),6)+" at "+std::to_string(d)+" digits"; }); } }); });
}
struct Quiet { std::streambuf* old; std::stringstream sink; Quiet() { old=std::cout.rdbuf(sink.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } };
static void P13(mc::Run& r)
{
	typedef std::string::const_iterator It;
	for (int digits:{40,101,150,300}) for (int k=0;k<8;k++) for (int form=0;form<6;form++) r.test([&]{ return "literal of "+std::to_string(digits)+" digits, number "+std::to_string(k)+", form "+std::to_string(form); },[&]{
		std::string ds; { R z=third(k,k); std::string t=Rr(abs(Rr(z.real()))+Rr(1)).str(digits,std::ios::fixed); for (char c:t) if (isdigit((unsigned char)c)) ds+=c; ds=ds.substr(0,digits); }
		int point= form==0?0:form==1?1:form==2?digits/2:form==3?digits:form==4?3:1; int ex= form==4?-7:form==5?12:0; std::string s=ds; s.insert(point,"."); if (point==digits) s=ds; if (point==0) s="0"+s; if (ex) s+="e"+std::to_string(ex);
		R want=R(Rr(s)); unsigned d=digits+5; DefaultPrecision(d); boost::spirit::qi::symbols<char,Node> syms; bertini::parsing::classic::FunctionParser<It> g(&syms); Node n; std::string text=s+"*1"; Quiet q; It a=text.begin(),b=text.end(); bool ok=boost::spirit::qi::phrase_parse(a,b,g,boost::spirit::ascii::space,n) && a==b; r.state(text); r.check(ok,"accepted",[&]{ return text+" is refused"; }); if (!ok) return;
		n->precision(d); n->Reset(); Mp z=n->Eval<Mp>(); double m=mag(want); r.transition(); r.check(abs(R(toR(z)-want))<=abs(want)*Rr("1e-"+std::to_string(digits+1)),"digits",[&]{ return text+" is off by "+str(R(toR(z)-want),6); }); (void)m;
	});
}
static void P16(mc::Run& r)
{
	namespace cl=bertini::parsing::classic; namespace gen=bertini::generators;
	for (unsigned d:{31u,77u,100u,101u,160u,300u}) for (int k=0;k<12;k++) for (int e:{0,5,-5,40,-40,300,-300}) r.test([&]{ return "write "+std::to_string(d)+" digits, number "+std::to_string(k)+", exponent "+std::to_string(e); },[&]{
		r.state(r.label()); DefaultPrecision(d); mpfr_float a=mpfr_float(2*k-5)/mpfr_float(7+k)*pow(mpfr_float(10),e), b=exp(mpfr_float(k*3-20)); mpfr_complex z(a,b), z2; Quiet q; std::string o; gen::Classic::generate(std::back_inserter(o),z); bool ok=cl::parse(o.begin(),o.end(),z2); auto near=[&](mpfr_float const& u,mpfr_float const& v){ return abs(u-v)<=abs(v)*pow(mpfr_float(10),-(int)d+1); }; r.transition(2);
		r.check(ok && near(z2.real(),a) && near(z2.imag(),b),"complex",[&]{ return "'"+o+"' does not read back"; }); o.clear(); gen::Classic::generate(std::back_inserter(o),a); mpfr_float a2; ok=cl::parse(o.begin(),o.end(),a2); r.check(ok && near(a2,a),"real",[&]{ return "'"+o+"' does not read back"; });
	});
	// numbers with more digits than the working precision, in either part
	for (unsigned d:{20u,30u,100u}) for (int la:{1,15,40,119,125,200,320}) for (int lb:{0,1,15,40,119,125,200,320}) for (int neg=0;neg<4;neg++) for (int form=0;form<3;form++) r.test([&]{ return "read "+std::to_string(la)+" and "+std::to_string(lb)+" digits at "+std::to_string(d)+" form "+std::to_string(form)+" signs "+std::to_string(neg); },[&]{
		r.state(r.label()); r.transition(); auto digits=[&](int n,int k,bool minus){ std::string t=Rr(abs(Rr(third(k,k).real()))+Rr(1)).str(n+1,std::ios::fixed), o; for (char ch:t) if (isdigit((unsigned char)ch)) o+=ch; o=o.substr(0,n); if (form==0 && n>1) o.insert(1,"."); if (form==2) o="0."+o+"E+03"; return (minus?"-":"")+o; };
		std::string a=digits(la,1,neg&1), b=lb?digits(lb,4,neg&2):""; auto near=[&](mpfr_float const& u,std::string const& t,int n){ Rr w(t); return abs(Rr(u)-w)<=abs(w)*pow(Rr(10),-std::max(n,(int)d)); }; DefaultPrecision(d); Quiet q;
		if (!lb) { mpfr_float x; bool ok=cl::parse(a.begin(),a.end(),x); r.check(ok && near(x,a,la),"long real",[&]{ return "'"+a+"' is read as "+x.str(); }); }
		else { std::string t=a+" "+b; mpfr_complex z; bool ok=cl::parse(t.begin(),t.end(),z); r.check(ok && near(z.real(),a,la) && near(z.imag(),b,lb),"long complex",[&]{ return "'"+t+"' is read as "+z.str(); }); }
		r.check(bertini::DefaultPrecision()==d,"default precision",[&]{ return "reading changed the default precision"; });
	});
}
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P01",P01},{"P02",P02},{"P06",P06},{"P07",P07},{"P09",P09},{"P10",P10},{"P11",P11},{"P12",P12},{"P13",P13},{"P16",P16}}); }
