// Endgames: the limit of a path at a possibly singular point, on paths whose limit and cycle number are known.
#include "hom.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/endgames.hpp"
using namespace ref;
using namespace bertini::tracking;
using namespace bertini::endgame;
using bertini::SuccessCode; using bertini::mpq_rational; using bertini::TimeCont; using bertini::SampCont; using bertini::ContStart;
using Nd=std::shared_ptr<bertini::node::Node>;
static std::string code(SuccessCode c) { return std::to_string((int)c); }

template<class Tr> struct TT;
template<> struct TT<DoublePrecisionTracker> { static const char* name() { return "double"; } using C=dbl; enum { mp=0, amp=0 }; };
template<> struct TT<MultiplePrecisionTracker> { static const char* name() { return "multiple"; } using C=Mp; enum { mp=1, amp=0 }; };
template<> struct TT<AMPTracker> { static const char* name() { return "adaptive"; } using C=Mp; enum { mp=1, amp=1 }; };
template<class E> struct ET { enum { cauchy=0 }; static const char* name() { return "power series"; } };
template<class P> struct ET<CauchyEndgame<P>> { enum { cauchy=1 }; static const char* name() { return "Cauchy"; } };

// ---------------------------------------------------------------- the paths, in u = t - target
struct Lim { std::string name; unsigned cycle; int nv; std::function<System(Nd const& u,std::vector<Var> const& v)> build; std::function<std::vector<R>(R const&)> path; std::vector<R> limit; };
static R root(R const& z,int c) { return mag(z)==0?R(0):R(exp(log(z)/R(c))); }
static const std::vector<Lim>& LIMS()
{
	static std::vector<Lim> L; if (!L.empty()) return L; using P=std::vector<R>;
	auto one=[](std::function<Nd(Nd const&,Var const&)> f){ return [f](Nd const& u,std::vector<Var> const& v){ System S; S.AddVariableGroup(VariableGroup{v[0]}); S.AddFunction(f(u,v[0])); return S; }; };
	for (int c=1;c<=5;c++) L.push_back({"(x-1-u)^"+std::to_string(c)+"-u(1+u)",(unsigned)c,1,one([c](Nd const& u,Var const& x)->Nd{ return pow(x-1-u,c)-u*(1+u); }),[c](R const& u){ return P{R(1)+u+root(u,c)*root(R(1)+u,c)}; },{R(1)}});
	for (int c=2;c<=3;c++) L.push_back({"x^"+std::to_string(c)+"-u",(unsigned)c,1,one([c](Nd const& u,Var const& x)->Nd{ return pow(x,c)-u; }),[c](R const& u){ return P{root(u,c)}; },{R(0)}});
	L.push_back({"(x-2)^3-u^2(1-u)",3,1,one([](Nd const& u,Var const& x)->Nd{ return pow(x-2,3)-pow(u,2)*(1-u); }),[](R const& u){ return P{R(2)+root(u,3)*root(u,3)*root(R(1)-u,3)}; },{R(2)}});
	L.push_back({"(x+1)^2-u^3(1+u)",2,1,one([](Nd const& u,Var const& x)->Nd{ return pow(x+1,2)-pow(u,3)*(1+u); }),[](R const& u){ return P{R(-1)+u*root(u,2)*root(R(1)+u,2)}; },{R(-1)}});
	L.push_back({"x^2-1",1,1,one([](Nd const& u,Var const& x)->Nd{ return pow(x,2)-1+0*u; }),[](R const&){ return P{R(1)}; },{R(1)}});
	L.push_back({"x^2-(4+3u)",1,1,one([](Nd const& u,Var const& x)->Nd{ return pow(x,2)-(4+3*u); }),[](R const& u){ return P{R(-2)*R(sqrt(R(1)+R(3)*u/R(4)))}; },{R(-2)}});
	L.push_back({"x*exp(u)-3",1,1,one([](Nd const& u,Var const& x)->Nd{ return x*exp(u)-3; }),[](R const& u){ return P{R(3)*R(exp(-u))}; },{R(3)}});
	L.push_back({"{x^2-u(1+u),y-x-2}",2,2,[](Nd const& u,std::vector<Var> const& v){ System S; S.AddVariableGroup(VariableGroup{v[0],v[1]}); S.AddFunction(pow(v[0],2)-u*(1+u)); S.AddFunction(v[1]-v[0]-2); return S; },[](R const& u){ R x=root(u,2)*root(R(1)+u,2); return P{x,x+R(2)}; },{R(0),R(2)}});
	L.push_back({"{(x-1)^2-u(1+u),(y+x)^3-u}",6,2,[](Nd const& u,std::vector<Var> const& v){ System S; S.AddVariableGroup(VariableGroup{v[0],v[1]}); S.AddFunction(pow(v[0]-1,2)-u*(1+u)); S.AddFunction(pow(v[1]+v[0],3)-u); return S; },[](R const& u){ R x=R(1)+root(u,2)*root(R(1)+u,2); return P{x,root(u,3)-x}; },{R(1),R(-1)}});
	L.push_back({"{x^2-(1+3u),xy-(1+u),z-xy^2-u}",1,3,[](Nd const& u,std::vector<Var> const& v){ System S; S.AddVariableGroup(VariableGroup{v[0],v[1],v[2]}); S.AddFunction(pow(v[0],2)-(1+3*u)); S.AddFunction(v[0]*v[1]-(1+u)); S.AddFunction(v[2]-v[0]*pow(v[1],2)-u); return S; },[](R const& u){ R x=R(sqrt(R(1)+R(3)*u)); R y=(R(1)+u)/x; return P{x,y,x*y*y+u}; },{R(1),R(1),R(1)}});
	// many variables, coupled: every function is a combination of all the simple ones below, and the first coordinate carries the winding
	for (auto nc:std::vector<std::pair<int,int>>{{6,2},{8,3},{10,1},{5,4},{17,2}})
	{
		int n=nc.first,c=nc.second; std::vector<R> lim; for (int k=0;k<n;k++) lim.push_back(R(1-k%3));
		L.push_back({std::to_string(n)+" coupled variables, (x0-1)^"+std::to_string(c)+"-u(1+u)",(unsigned)c,n,[n,c](Nd const& u,std::vector<Var> const& v){
			System S; bertini::VariableGroup g(v.begin(),v.begin()+n); S.AddVariableGroup(g); std::vector<Nd> q; q.push_back(c==1?Nd(v[0]-1-u*(1+u)):Nd(pow(v[0]-1,c)-u*(1+u))); for (int k=1;k<n;k++) q.push_back(v[k]-v[k-1]-k*u+(1-k%3==1?-2:1));
			for (int i=0;i<n;i++) { Nd f=q[i]; for (int k=0;k<i;k++) f=f+((i*k)%3-1)*q[k]; S.AddFunction(f); } return S; },
			[n,c](R const& u){ P x={R(1)+root(u,c)*root(R(1)+u,c)}; for (int k=1;k<n;k++) x.push_back(x[k-1]+R(k)*u-R(1-k%3==1?-2:1)); return x; },lim});
	}
	return L;
}
static const size_t WIDE=15; // the first of them; few deviations are tried with these
struct Tgt { const char* name; R t; Nd node() const { return k==0?Nd(bertini::node::Integer::Make(0)):k==1?Nd(bertini::node::Rational::Make("1/2","0")):Nd(bertini::node::Rational::Make("1/4","-3/8")); } int k; };
static const std::vector<Tgt>& TGT() { static std::vector<Tgt> v={{"0",R(0),0},{"1/2",Rq(1,2),1},{"1/4-3i/8",Rc(1,4,-3,8),2}}; return v; }
struct U0 { const char* name; R u; };
static const std::vector<U0>& STARTS() { static std::vector<U0> v={{"1/10",Rq(1,10)},{"-1/8",Rq(-1,8)},{"(3+4i)/100",Rc(3,100,4,100)},{"1/4",Rq(1,4)}}; return v; }
static System mk(Lim const& l,Tgt const& g,unsigned D,int form)
{
	std::vector<Var> v={Variable::Make("x"),Variable::Make("y"),Variable::Make("z")}; for (int k=3;k<l.nv;k++) v.push_back(Variable::Make("w"+std::to_string(k))); auto t=Variable::Make("t"); Nd u=g.k==0?Nd(t):Nd(t-g.node());
	System S=l.build(u,v); S.AddPathVariable(t); if (form&1) S.SetEvalMethod(bertini::EvalMethod::FunctionTree); S.precision(D); return S;
}
struct Cfg { size_t lim,tgt,start; mpq_rational factor; unsigned pts; double tol; unsigned D; int form; };
template<class Tr> static void setup(Tr& t,System const& S) { t.Setup(Predictor::RKF45,1e-6,1e5,SteppingConfig(),NewtonConfig()); }
template<> void setup<AMPTracker>(AMPTracker& t,System const& S) { t.Setup(Predictor::RKF45,1e-6,1e5,SteppingConfig(),NewtonConfig()); t.PrecisionSetup(AMPConfigFrom(S)); }

// every approximation the endgame announces, with what it says about it
struct Approx { double err,dist,prev,latest; };
template<class E,class C> struct Ears : public bertini::Observer<E>
{
	int conv=0,sec=0,mint=0,high=0,fail=0; std::vector<Approx> seq; System const* S=nullptr;
	double size(bertini::Vec<C> const& v) const { return v.size()==(int)S->NumVariables()?static_cast<double>(S->DehomogenizePoint(v).template lpNorm<Eigen::Infinity>()):-1; }
	void Observe(bertini::AnyEvent const& e) override
	{
		if (auto p=dynamic_cast<const ApproximatedRoot<E>*>(&e)) { auto const& g=p->Get(); bertini::Vec<C> a=g.template FinalApproximation<C>(),b=g.template PreviousApproximation<C>(); double d=0; auto x=toRv(a),y=toRv(b); d=x.size()==y.size()?dist(x,y):-1; seq.push_back({g.ApproximateError(),d,size(b),size(a)}); }
		else if (dynamic_cast<const Converged<E>*>(&e)) conv++;
		else if (dynamic_cast<const bertini::endgame::SecurityMaxNormReached<E>*>(&e)) sec++;
		else if (dynamic_cast<const bertini::endgame::MinTrackTimeReached<E>*>(&e)) mint++;
		else if (dynamic_cast<const bertini::endgame::CycleNumTooHigh<E>*>(&e)) high++;
		else if (dynamic_cast<const bertini::endgame::EndgameFailure<E>*>(&e)) fail++;
	}
	void clear() { conv=sec=mint=high=fail=0; seq.clear(); }
};
static std::string show(Cfg const& c) { return LIMS()[c.lim].name+" from u="+STARTS()[c.start].name+" to t="+TGT()[c.tgt].name+", factor "+c.factor.str()+", "+std::to_string(c.pts)+" points, tolerance "+str(R(c.tol),3)+", "+std::to_string(c.D)+" digits, form "+std::to_string(c.form); }

template<class Tr,class E> static EndgameConfig econf(Cfg const& c) { EndgameConfig e; e.sample_factor=c.factor; e.num_sample_points=c.pts; e.final_tolerance=c.tol; return e; }
// the decisions of one run, from the approximations it announced
template<class Tr,class E> static void decisions(mc::Run& r,std::string const& tag,Ears<E,typename TT<Tr>::C> const& e,E const& eg,SuccessCode got,double tol,int level,double max)
{
	auto who=[&](size_t k){ auto const& a=e.seq[k]; return "approximation "+std::to_string(k)+" of "+std::to_string(e.seq.size())+": error "+str(R(a.err),8)+", moved by "+str(R(a.dist),8)+", sizes "+str(R(a.prev),6)+", "+str(R(a.latest),6)+", code "+code(got); };
	for (size_t k=0;k<e.seq.size();k++)
	{
		auto const& a=e.seq[k]; bool last=k+1==e.seq.size(); r.transition(); double slack=1e-9*a.dist+(TT<Tr>::mp?1e-16:1e-15*(1+a.latest));
		r.check(a.dist>=0 && std::abs(a.err-a.dist)<=slack,tag+":error",[&]{ return "the error estimate is not the change of the approximation: "+who(k); });
		bool small=a.err<tol, large=level<=0 && a.prev>max*(1+1e-9) && a.latest>max*(1+1e-9);
		if (!last || (got!=SuccessCode::Success && got!=SuccessCode::SecurityMaxNormReached)) r.check(!small && !large,tag+":decision",[&]{ return std::string(small?"went on after converging: ":"went on although two approximations exceed the norm: ")+who(k); });
		if (last && got==SuccessCode::Success) r.check(a.err<=tol,tag+":decision",[&]{ return "success without having converged: "+who(k); });
		if (last && got==SuccessCode::SecurityMaxNormReached) r.check(level<=0 && a.prev>max*(1-1e-9) && a.latest>max*(1-1e-9),tag+":decision",[&]{ return "gave up on a path that is not large, at level "+std::to_string(level)+": "+who(k); });
	}
	r.check(e.conv==(got==SuccessCode::Success) && e.sec==(got==SuccessCode::SecurityMaxNormReached) && (!e.seq.empty() || (got!=SuccessCode::Success && got!=SuccessCode::SecurityMaxNormReached)),tag+":events",[&]{ return "converged announced "+std::to_string(e.conv)+" times, security "+std::to_string(e.sec)+", approximations "+std::to_string(e.seq.size())+", code "+code(got); });
	if (!e.seq.empty() && (got==SuccessCode::Success || got==SuccessCode::SecurityMaxNormReached)) r.check(eg.ApproximateError()==e.seq.back().err,tag+":error",[&]{ return "the error estimate changed after the last approximation"; });
}
template<class Tr,class E>
static bool judge(mc::Run& r,std::string const& tag,E const& eg,SuccessCode got,Lim const& l,std::vector<R> const& limit,unsigned cycle,double tol,double factor,R const& target,R const& t0)
{
	using C=typename TT<Tr>::C; bool hard=!ET<E>::cauchy && cycle>=5 && (!TT<Tr>::mp || (!TT<Tr>::amp && tol<1e-15)); // the power series of a path that winds five times need not be found in doubles
	if (got!=SuccessCode::Success && hard) { r.outcome("failure reported, cycle number 5 or more and fixed precision"); return false; }
	r.check(got==SuccessCode::Success,tag+":fails",[&]{ return "the endgame failed with code "+code(got); }); if (got!=SuccessCode::Success) return false;
	auto x=toRv(eg.template FinalApproximation<C>()); double d=x.size()==limit.size()?dist(x,limit):-1; double floor=TT<Tr>::mp?1e-13:3e-10; if (TT<Tr>::mp && tol<1e-12) floor=10*tol;
	double rho=ET<E>::cauchy?0:std::pow(factor,1./cycle); double tolerated=10*tol/(1-rho)+floor;
	r.check(d>=0 && d<tolerated,tag+":limit",[&]{ return "the limit is off by "+str(R(d),6)+", tolerance "+str(R(tol),3)+", tolerated "+str(R(tolerated),3); });
	unsigned c=eg.CycleNumber(); bool sharp=l.name.find("u^3")==std::string::npos && (ET<E>::cauchy || cycle<=5); // the power series endgame only estimates; branches that differ by less than the tracking tolerance close early
	r.check(c>=1 && (!sharp || (ET<E>::cauchy?c==cycle:c%cycle==0)),tag+":cycle",[&]{ return "cycle number "+std::to_string(c)+" for "+std::to_string(cycle); });
	R lt=toR(C(eg.LatestTime())); R q=(lt-target)/(t0-target); r.check(std::abs(static_cast<double>(Rr(q.imag())))<1e-12 && Rr(q.real())>0 && Rr(q.real())<1,tag+":time",[&]{ return "the last time "+str(lt,10)+" is not between the start and the target"; });
	return true;
}
template<class Tr,class E>
static void run_case(mc::Run& r,Cfg const& c)
{
	using C=typename TT<Tr>::C; auto const& l=LIMS()[c.lim]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name(); DefaultPrecision(c.D); System S=mk(l,TGT()[c.tgt],c.D,c.form); Tr tr(S); setup(tr,S);
	R T=TGT()[c.tgt].t, u0=STARTS()[c.start].u; C t0=conv<C>(T+u0,c.D), t1=conv<C>(T,c.D); auto x0=convv<C>(l.path(u0),c.D);
	E eg(tr,econf<Tr,E>(c)); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears); r.where(tag+" run"); auto got=eg.Run(t0,x0,t1); r.transition();
	SecurityConfig sc; decisions<Tr,E>(r,tag,ears,eg,got,c.tol,sc.level,sc.max_norm); if (!judge<Tr,E>(r,tag,eg,got,l,l.limit,l.cycle,c.tol,static_cast<double>(c.factor),toR(t1),toR(t0))) return;
	if (TT<Tr>::mp) { auto const& f=eg.template FinalApproximation<C>(); unsigned p=bertini::Precision(f(0)); bool uni=true; for (int i=0;i<f.size();i++) uni=uni&&bertini::Precision(f(i))==p; r.check(uni && (TT<Tr>::amp || p==c.D),tag+":precision",[&]{ return "the result carries "+std::to_string(p)+" digits"; }); }
	r.outcome(std::string(ET<E>::name())+" converged with cycle number "+std::to_string(eg.CycleNumber())); r.state(tag+std::to_string(c.lim)+","+std::to_string(ears.seq.size())+","+std::to_string(eg.CycleNumber()));
}
template<class Tr,class E> static void runs(mc::Run& r)
{
	bool th=r.thorough(); std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+": "; std::vector<mpq_rational> fac={mpq_rational(1,2),mpq_rational(1,3),mpq_rational(2,3),mpq_rational(1,5)};
	for (size_t i=0;i<LIMS().size();i++) for (size_t g=0;g<TGT().size();g++) for (size_t s=0;s<STARTS().size();s++) for (size_t f=0;f<fac.size();f++) for (unsigned p:{3u,4u,6u}) for (double tol:{1e-6,1e-9,1e-11,1e-18}) for (unsigned D:{16u,30u,40u}) for (int form=0;form<2;form++)
	{
		if (!TT<Tr>::mp && (D!=16 || tol<1e-10)) continue; if (TT<Tr>::mp && !TT<Tr>::amp && D==16) continue; if (tol==1e-18 && D==16 && !TT<Tr>::amp) continue;
		int dev=(g!=0)+(s!=0)+(f!=0)+(p!=3)+(tol!=1e-9)+(D!=(TT<Tr>::amp||!TT<Tr>::mp?16u:30u))+form; if (dev>(th?3:2)) continue; if (i>=WIDE && (dev>(th?2:1) || LIMS()[i].nv>8 && dev>(th?1:0))) continue;
		if (!th && TT<Tr>::mp && dev>1 && LIMS()[i].cycle>3) continue;
		Cfg c{i,g,s,fac[f],p,tol,D,form}; r.test([&]{ return n+show(c); },[&]{ run_case<Tr,E>(r,c); });
	}
}

// ---------------------------------------------------------------- paths that go to infinity, and the security settings
// u*x^c - 1, homogenised and patched: the limit is the point at infinity
template<class Tr,class E> static void security_case(mc::Run& r,int path,int level,double max,size_t g,double tol,unsigned D)
{
	using C=typename TT<Tr>::C; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" security"; DefaultPrecision(D); auto x=Variable::Make("x"); auto t=Variable::Make("t"); Tgt const& G=TGT()[g]; Nd u=G.k==0?Nd(t):Nd(t-G.node()); System S; S.AddVariableGroup(VariableGroup{x});
	R u0=Rq(1,10); std::vector<R> st,lim; unsigned cyc=1;
	if (path<3) { S.AddFunction(u*pow(x,path+1)-1); st={root(u0,path+1),R(1)}; lim={R(0),R(1)}; cyc=path+1; }
	else if (path==3) { S.AddFunction(pow(x,2)-(4+u)); st={R(1),R(sqrt(R(4)+u0))}; lim={R(1),R(2)}; }
	else { S.AddFunction(u*pow(x,2)-(1+2*u)*x+1); R A=u0,Bq=-(R(1)+R(2)*u0); st={R(1),(-Bq-R(sqrt(Bq*Bq-R(4)*A)))/(R(2)*A)}; lim={R(1),R(1)}; } // one finite branch beside one that goes to infinity
	S.Homogenize(); S.AutoPatch(); S.AddPathVariable(t); S.precision(D); Tr tr(S); setup(tr,S); R T=G.t; C t0=conv<C>(T+u0,D),t1=conv<C>(T,D);
	auto x0=convv<C>(st,D); S.RescalePointToFitPatchInPlace(x0); auto want=convv<C>(lim,D); S.RescalePointToFitPatchInPlace(want);
	EndgameConfig e; e.final_tolerance=tol; SecurityConfig sc; sc.level=level; sc.max_norm=max; E eg(tr,e,sc); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears); r.where(tag+" run"); auto got=eg.Run(t0,x0,t1); r.transition();
	decisions<Tr,E>(r,tag,ears,eg,got,tol,level,max);
	r.check(got==SuccessCode::Success || (level<=0 && got==SuccessCode::SecurityMaxNormReached),tag+":code",[&]{ return "the endgame ended with code "+code(got); });
	if (path>=3 && max>100) r.check(got==SuccessCode::Success,tag+":finite",[&]{ return "a finite path was given up with code "+code(got); });
	if (got==SuccessCode::Success) { auto f=toRv(eg.template FinalApproximation<C>()); double d=f.size()==2?dist(f,toRv(want)):-1; r.check(d>=0 && d<100*tol+(TT<Tr>::mp?1e-13:3e-10),tag+":limit",[&]{ return "the limit is off by "+str(R(d),6); }); }
	r.outcome(std::string(path<3?"infinite":"finite")+(got==SuccessCode::Success?" path: limit found":" path: given up as too large")); r.state(tag+std::to_string(path)+code(got)+std::to_string(ears.seq.size()));
}
template<class Tr,class E> static void securities(mc::Run& r)
{
	for (int p=0;p<5;p++) for (int level:{0,1,-1,2}) for (double max:{1e4,1e-3,1.,30.,1e8}) for (size_t g=0;g<TGT().size();g++) for (double tol:{1e-9,1e-6}) for (unsigned D:{16u,30u})
	{ if (!TT<Tr>::mp && D!=16) continue; if (TT<Tr>::mp && !TT<Tr>::amp && D==16) continue; r.test([&]{ return std::string(TT<Tr>::name())+" "+ET<E>::name()+" security: path "+std::to_string(p)+", level "+std::to_string(level)+", max norm "+str(R(max),3)+", to t="+TGT()[g].name+", tolerance "+str(R(tol),3)+", "+std::to_string(D)+" digits"; },[&]{ security_case<Tr,E>(r,p,level,max,g,tol,D); }); }
}

// ---------------------------------------------------------------- limits the user sets: least distance to the target, largest cycle number, malformed input
template<class Tr,class E> static void limits_case(mc::Run& r,size_t li,size_t g,double mtt,unsigned pts)
{
	using C=typename TT<Tr>::C; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; auto const& l=LIMS()[li]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" limits"; DefaultPrecision(D); System S=mk(l,TGT()[g],D,0); Tr tr(S); setup(tr,S);
	R T=TGT()[g].t,u0=Rq(1,10); C t0=conv<C>(T+u0,D),t1=conv<C>(T,D); auto x0=convv<C>(l.path(u0),D); EndgameConfig e; e.final_tolerance=1e-9; e.num_sample_points=pts; e.min_track_time=mtt;
	E eg(tr,e); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears); r.where(tag+" run"); auto got=eg.Run(t0,x0,t1); r.transition(); SecurityConfig sc; decisions<Tr,E>(r,tag,ears,eg,got,1e-9,sc.level,sc.max_norm);
	r.check(got==SuccessCode::Success || got==SuccessCode::MinTrackTimeReached,tag+":code",[&]{ return "the endgame ended with code "+code(got); });
	double last=mag(toR(C(eg.LatestTime()))-toR(t1)), first=0.1*std::pow(0.5,pts-1.); r.check(last>=std::min(mtt,first)*(1-1e-9),tag+":too-close",[&]{ return "went to "+str(R(last),6)+" from the target, which is nearer than allowed"; });
	if (got==SuccessCode::MinTrackTimeReached) r.check(last*0.5<=mtt*(1+1e-9) ,tag+":too-early",[&]{ return "gave up at "+str(R(last),6)+" from the target"; });
	if (got==SuccessCode::Success) judge<Tr,E>(r,tag,eg,got,l,l.limit,l.cycle,1e-9,0.5,toR(t1),toR(t0));
	r.outcome(got==SuccessCode::Success?"converged before the least distance":"stopped at the least distance"); r.state(tag+std::to_string(li)+str(R(mtt),3)+code(got));
}
template<class Tr,class E> static void failsafe_case(mc::Run& r,size_t li,size_t g,unsigned m)
{
	using C=typename TT<Tr>::C; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; auto const& l=LIMS()[li]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" fail-safe"; DefaultPrecision(D); System S=mk(l,TGT()[g],D,0); Tr tr(S); setup(tr,S);
	R T=TGT()[g].t,u0=Rq(1,10); C t0=conv<C>(T+u0,D),t1=conv<C>(T,D); auto x0=convv<C>(l.path(u0),D); EndgameConfig e; e.final_tolerance=1e-9; CauchyConfig cc; cc.fail_safe_maximum_cycle_number=m;
	E eg(tr,e,cc); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears); r.where(tag+" run"); auto got=eg.Run(t0,x0,t1); r.transition(); SecurityConfig sc; decisions<Tr,E>(r,tag,ears,eg,got,1e-9,sc.level,sc.max_norm);
	bool sharp=l.name.find("u^3")==std::string::npos;
	if (m>=l.cycle) r.check(got==SuccessCode::Success,tag+":code",[&]{ return "the endgame ended with code "+code(got)+" although "+std::to_string(m)+" cycles are allowed for "+std::to_string(l.cycle); });
	else if (sharp) r.check(got==SuccessCode::CycleNumTooHigh,tag+":code",[&]{ return "the endgame ended with code "+code(got)+" although only "+std::to_string(m)+" cycles are allowed for "+std::to_string(l.cycle); });
	else r.check(got==SuccessCode::Success || got==SuccessCode::CycleNumTooHigh,tag+":code",[&]{ return "the endgame ended with code "+code(got); });
	if (got==SuccessCode::Success) judge<Tr,E>(r,tag,eg,got,l,l.limit,l.cycle,1e-9,0.5,toR(t1),toR(t0));
	r.outcome(got==SuccessCode::Success?"closed within the allowed cycles":"cycle number too high"); r.state(tag+std::to_string(li)+std::to_string(m)+code(got));
}
template<class Tr,class E> static void refuse_case(mc::Run& r,size_t li,int what)
{
	using C=typename TT<Tr>::C; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; auto const& l=LIMS()[li]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" refuse"; DefaultPrecision(D); System S=mk(l,TGT()[0],D,0); Tr tr(S); setup(tr,S); R u0=Rq(1,10); C t0=conv<C>(u0,D),t1=conv<C>(R(0),D); auto p=l.path(u0); EndgameConfig e; e.final_tolerance=1e-9; E eg(tr,e);
	auto q=p; if (what==0) q.push_back(R(1)); else if (what==1) q.pop_back(); else q.insert(q.end(),p.begin(),p.end()); auto x0=convv<C>(q,D); bool threw=false; r.where(tag); try { eg.Run(t0,x0,t1); } catch (std::exception const&) { threw=true; } r.transition(); r.check(threw,tag+":size",[&]{ return "a start point with "+std::to_string(q.size())+" coordinates was accepted"; });
	auto got=eg.Run(t0,convv<C>(p,D),t1); judge<Tr,E>(r,tag+" afterwards",eg,got,l,l.limit,l.cycle,1e-9,0.5,toR(t1),toR(t0)); r.outcome("refused"); r.state(tag+std::to_string(what));
}
template<class Tr,class E> static void limit_cases(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name(); auto L=[&](size_t i){ return LIMS()[i].name; };
	for (size_t i=0;i<LIMS().size();i++) { if (!TT<Tr>::mp && !ET<E>::cauchy && LIMS()[i].cycle>=5) continue; if (i>=WIDE && LIMS()[i].nv>6) continue; for (size_t g=0;g<TGT().size();g++) for (double m:{1e-1,3e-2,1e-2,3e-3,1e-3,1e-4,1e-6}) for (unsigned p:{3u,4u,5u}) if (i<WIDE || p==3) r.test([&]{ return n+" limits: "+L(i)+" to t="+TGT()[g].name+", no nearer than "+str(R(m),3)+", "+std::to_string(p)+" points"; },[&]{ limits_case<Tr,E>(r,i,g,m,p); }); }
	for (size_t i=0;i<LIMS().size();i++) for (int w=0;w<3;w++) if (TT<Tr>::mp || ET<E>::cauchy || LIMS()[i].cycle<5) r.test([&]{ return n+" refuse: "+L(i)+", kind "+std::to_string(w); },[&]{ refuse_case<Tr,E>(r,i,w); });
}
template<class Tr,class E> static void failsafes(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name(); for (size_t i=0;i<LIMS().size();i++) for (size_t g=0;g<TGT().size();g++) for (unsigned m=1;m<8;m++) if (i<WIDE || LIMS()[i].nv<8) r.test([&]{ return n+" fail-safe: "+LIMS()[i].name+" to t="+TGT()[g].name+", at most "+std::to_string(m)+" cycles"; },[&]{ failsafe_case<Tr,E>(r,i,g,m); });
}

// ---------------------------------------------------------------- another branch point near the start: x^2 = M^2 u(u-b)^k; loops around both close early and agree with each other; their samples differ in norm by more than the allowed ratio
static bool outer_loops_uneven(R const& b,int k,double u0,double factor,unsigned pts)
{
	for (double rad=u0;rad>mag(b)*0.999;rad*=factor) { double lo=1e300,hi=0; for (unsigned j=0;j<pts;j++) { double a=2*3.14159265358979*j/pts; R u{Rr(rad*std::cos(a)),Rr(rad*std::sin(a))}; double v=std::pow(mag(u-b),k/2.); lo=std::min(lo,v); hi=std::max(hi,v); } if (lo/hi>0.45) return false; }
	return true;
}
template<class Tr,class E> static void near_case(mc::Run& r,int k,mpq_rational br,mpq_rational bi,mpq_rational factor,unsigned pts,size_t g)
{
	using C=typename TT<Tr>::C; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" two branch points"; DefaultPrecision(D); R b{Rr(br),Rr(bi)}; Rr M=pow(Rr(10),Rr(k+3)/2);
	Lim l{"x^2-M^2u(u-b)^"+std::to_string(k),2,1,[&](Nd const& u,std::vector<Var> const& v){ System S; S.AddVariableGroup(VariableGroup{v[0]}); bertini::mpz_int m=1; for (int i=0;i<k+3;i++) m*=10; Nd c=bertini::node::Integer::Make(m); S.AddFunction(pow(v[0],2)-c*u*pow(u-bertini::node::Rational::Make(br,bi),k)); return S; },[&](R const& u){ R w=R(1); for (int i=0;i<k;i++) w*=(u-b); return std::vector<R>{R(M)*R(sqrt(u))*R(sqrt(w))}; },{R(0)}};
	System S=mk(l,TGT()[g],D,0); Tr tr(S); setup(tr,S); R T=TGT()[g].t,u0=Rq(1,10); C t0=conv<C>(T+u0,D),t1=conv<C>(T,D); auto x0=convv<C>(l.path(u0),D); EndgameConfig e; e.final_tolerance=1e-9; e.sample_factor=factor; e.num_sample_points=pts;
	E eg(tr,e); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears); r.where(tag+" run"); auto got=eg.Run(t0,x0,t1); r.transition(); SecurityConfig sc; decisions<Tr,E>(r,tag,ears,eg,got,1e-9,sc.level,sc.max_norm);
	judge<Tr,E>(r,tag,eg,got,l,l.limit,l.cycle,1e-9,static_cast<double>(factor),toR(t1),toR(t0)); r.outcome("loops around both branch points not believed"); r.state(tag+std::to_string(k)+br.str()+bi.str()+factor.str()+std::to_string(pts));
}
template<class Tr,class E> static void nears(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name(); for (int k:{3,5}) for (int m:{7,10,12,14,17,20,25,30,35,40,50,60,70,80}) for (int d=0;d<4;d++) for (mpq_rational f:{mpq_rational(4,5),mpq_rational(9,10)}) for (unsigned pts:{10u,14u,20u}) for (size_t g=0;g<(r.thorough()?3:1);g++)
	{
		mpq_rational br=mpq_rational(m,50000)*(d<2?0:d==2?-3:-4), bi=mpq_rational(m,50000)*(d==0?5:d==1?-5:d==2?4:-3); double rad=0.1; for (unsigned i=0;i<pts;i++) rad*=static_cast<double>(f); R b{Rr(br),Rr(bi)}; if (!outer_loops_uneven(b,k,rad,static_cast<double>(f),pts)) continue;
		r.test([&]{ return n+" two branch points: exponent "+std::to_string(k)+", the other at "+br.str()+"+"+bi.str()+"i, factor "+f.str()+", "+std::to_string(pts)+" points, to t="+TGT()[g].name; },[&]{ near_case<Tr,E>(r,k,br,bi,f,pts,g); });
	}
}

// ---------------------------------------------------------------- one endgame object used again and again, settings changed in between
static const std::vector<std::string>& OPS() { static std::vector<std::string> v={"run from u=1/10","run from u=(3+4i)/100","run to a regular time","stop early","tolerance 1e-6","tolerance 1e-11","factor 1/3","4 points","level 1, small norm","defaults","malformed start point"}; return v; }
template<class Tr,class E> static void history(mc::Run& r,size_t li,size_t g,std::vector<int> const& ops)
{
	using C=typename TT<Tr>::C; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; auto const& l=LIMS()[li]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" reuse"; DefaultPrecision(D); System S=mk(l,TGT()[g],D,0); Tr tr(S); setup(tr,S); R T=TGT()[g].t; C t1=conv<C>(T,D);
	EndgameConfig e; e.final_tolerance=1e-9; SecurityConfig sc; E eg(tr,e,sc); Ears<E,C> ears; ears.S=&S; eg.AddObserver(ears);
	auto run=[&](R const& u0,R const& u1,unsigned cycle){ DefaultPrecision(D); C t0=conv<C>(T+u0,D),te=conv<C>(T+u1,D); ears.clear(); auto x0=convv<C>(l.path(u0),D); auto got=eg.Run(t0,x0,te); r.transition(); decisions<Tr,E>(r,tag,ears,eg,got,e.final_tolerance,sc.level,sc.max_norm); judge<Tr,E>(r,tag,eg,got,l,mag(u1)==0?l.limit:l.path(toR(te)-T),cycle,e.final_tolerance,static_cast<double>(e.sample_factor),toR(te),toR(t0)); };
	auto step=[&](int o){ switch (o)
	{
		case 0: run(Rq(1,10),R(0),l.cycle); break; case 1: run(Rc(3,100,4,100),R(0),l.cycle); break; case 2: run(Rq(1,10),Rq(1,20),1); break;
		case 3: { auto m=e; m.min_track_time=0.08; eg.Set(m); DefaultPrecision(D); C t0=conv<C>(T+Rq(1,10),D); ears.clear(); auto x0=convv<C>(l.path(Rq(1,10)),D); auto got=eg.Run(t0,x0,t1); r.transition(); r.check(got==SuccessCode::MinTrackTimeReached,tag+":stop",[&]{ return "not stopped: code "+code(got); }); r.check(mag(toR(C(eg.LatestTime()))-T)>=0.0999*std::pow(static_cast<double>(e.sample_factor),e.num_sample_points-1.),tag+":stop",[&]{ return "went on to "+str(toR(C(eg.LatestTime())),8); }); eg.Set(e); break; }
		case 4: e.final_tolerance=1e-6; eg.Set(e); break; case 5: e.final_tolerance=TT<Tr>::mp?1e-11:1e-8; eg.Set(e); break; case 6: e.sample_factor=mpq_rational(1,3); eg.Set(e); break; case 7: e.num_sample_points=4; eg.Set(e); break;
		case 8: sc.level=1; sc.max_norm=0.1; eg.Set(sc); break; case 9: e=EndgameConfig(); e.final_tolerance=1e-9; sc=SecurityConfig(); eg.Set(e); eg.Set(sc); break;
		case 10: { auto p=l.path(Rq(1,10)); p.push_back(R(0)); auto x0=convv<C>(p,D); C t0=conv<C>(T+Rq(1,10),D); bool threw=false; try { eg.Run(t0,x0,t1); } catch (std::exception const&) { threw=true; } r.check(threw,tag+":refuse",[&]{ return std::string("a malformed start point was accepted"); }); break; }
	} };
	for (int o:ops) { r.where(tag+": "+OPS()[o]); step(o); } r.where(tag+": last run"); run(Rq(1,10),R(0),l.cycle); r.state(tag+std::to_string(li)+","+std::to_string(e.final_tolerance<1e-9)+std::to_string(e.num_sample_points)+std::to_string(sc.level)+std::to_string(ears.seq.size())); r.outcome("reused");
}
template<class Tr,class E> static void histories(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+" reuse: "; int A=OPS().size(); int depth=r.thorough()?3:2; std::vector<std::vector<int>> H={{}}; for (size_t k=0;k<H.size();k++) if ((int)H[k].size()<depth) for (int o=0;o<A;o++) { auto h=H[k]; h.push_back(o); H.push_back(h); }
	for (size_t li:{(size_t)1,(size_t)2,(size_t)13}) for (size_t g:{(size_t)0,(size_t)2}) for (auto const& h:H) r.test([&]{ std::string s=n+LIMS()[li].name+" to t="+TGT()[g].name+":"; for (int o:h) s+=" "+OPS()[o]+","; return s; },[&]{ history<Tr,E>(r,li,g,h); });
}

// ---------------------------------------------------------------- interpolation
template<class C> static void hermite_case(mc::Run& r,int n,int nodes,int extra,bool back,unsigned D)
{
	DefaultPrecision(D); std::string ty=D?"mp":"dbl"; unsigned dg=D?D:16; std::vector<R> z; for (int i=0;i<n+extra;i++) z.push_back(nodes==0?R(pow(R(2),-i)):nodes==1?R(pow(Rc(1,2,1,3),i)):nodes==2?R(Rq(i+1,7)-Rc(0,1,i*i,5)):R(pow(R(3),-i)/R(10)));
	std::vector<R> at={R(0),Rc(1,10,1,5),z[back?extra:0],Rq(-1,3)};
	for (int d=0;d<2*n;d++) for (auto const& w:at)
	{
		TimeCont<C> t; SampCont<C> s,q; std::vector<R> zr; for (auto const& zz:z) { C tc=conv<C>(zz,dg); R e=toR(tc); zr.push_back(e); t.push_back(tc); auto p=[&](int k){ R a(1); for (int i=0;i<k;i++) a*=e; return a; }; s.push_back(convv<C>({p(d),R(3)*p(d)-p(d/2)},dg)); q.push_back(convv<C>({d?R(d)*p(d-1):R(0),R(3)*(d?R(d)*p(d-1):R(0))-(d/2?R(d/2)*p(d/2-1):R(0))},dg)); }
		if (!back && extra) {} // the first n are used
		C wc=conv<C>(w,dg); R x=toR(wc); r.where("interpolate"); auto got=toRv(HermiteInterpolateAndSolve<C>(wc,n,t,s,q,back?ContStart::Back:ContStart::Front)); r.transition();
		auto p=[&](int k){ R a(1); for (int i=0;i<k;i++) a*=x; return a; }; std::vector<R> want={p(d),R(3)*p(d)-p(d/2)};
		double scale=1; for (int i=0;i<n+extra;i++) for (int j=0;j<i;j++) scale=std::max(scale,1/mag(zr[i]-zr[j])); double eps=std::pow(10.,-(double)dg+2)*std::pow(scale,std::min(2*n-1,6))*(1+mag(x))*10; if (eps>1e-3) { r.outcome("not compared: interpolation too ill-conditioned"); continue; }
		if (got.size()==2 && dist(got,want)<eps) { r.outcome("reproduced"); continue; }
		// is it the recorded defect?  nodes taken at half their index when the nested form is evaluated
		bool known=false;
		if (n>=2 && d>=3)
		{
			std::vector<R> zz; int last=back?n+extra-1:n-1; for (int i=0;i<n;i++) { zz.push_back(zr[last-i]); zz.push_back(zr[last-i]); }
			std::vector<R> form; for (int comp=0;comp<2;comp++)
			{
				auto f=[&](R const& e){ R a(1),b(1); for (int i=0;i<d;i++) a*=e; for (int i=0;i<d/2;i++) b*=e; return comp?R(3)*a-b:a; }; auto df=[&](R const& e){ R a(0),b(0); if (d) { a=R(d); for (int i=0;i<d-1;i++) a*=e; } if (d/2) { b=R(d/2); for (int i=0;i<d/2-1;i++) b*=e; } return comp?R(3)*a-b:a; };
				std::vector<std::vector<R>> T(2*n,std::vector<R>(2*n)); for (int i=0;i<2*n;i++) T[i][0]=f(zz[i]); for (int j=1;j<2*n;j++) for (int i=j;i<2*n;i++) T[i][j]=(j==1 && i%2==1)?df(zz[i]):(T[i][j-1]-T[i-1][j-1])/(zz[i]-zz[i-j]);
				R res=T[2*n-1][2*n-1]; for (int i=n-1;i>=1;i--) res=(res*(x-zz[i])+T[2*i][2*i])*(x-zz[i-1])+T[2*i-1][2*i-1]; form.push_back(res*(x-zz[0])+T[0][0]);
			}
			double big=1; for (auto const& f:form) big=std::max(big,mag(f)); known=got.size()==2 && dist(got,form)<eps*big;
		}
		r.check(false,known?"hermite:nodes-at-half-index":"hermite:"+ty,[&]{ return "the interpolant through "+std::to_string(n)+" points of a polynomial of degree "+std::to_string(d)+" is off by "+str(R(got.size()==2?dist(got,want):-1.),6); });
	}
	r.state("hermite"+std::to_string(n)+std::to_string(nodes)+std::to_string(back));
}
static void hermites(mc::Run& r)
{
	for (int n=1;n<=5;n++) for (int nodes=0;nodes<4;nodes++) for (int extra=0;extra<3;extra++) for (int back=0;back<2;back++) for (unsigned D:{0u,20u,30u,60u})
		r.test([&]{ return "interpolation with "+std::to_string(n)+" points, nodes "+std::to_string(nodes)+", "+std::to_string(extra)+" more, "+(back?"last":"first")+", "+(D?std::to_string(D)+" digits":std::string("double")); },[&]{ if (D) hermite_case<Mp>(r,n,nodes,extra,back,D); else hermite_case<dbl>(r,n,nodes,extra,back,0); });
}

using DPS=EndgameSelector<DoublePrecisionTracker>::PSEG; using DCA=EndgameSelector<DoublePrecisionTracker>::Cauchy; using MPS=EndgameSelector<MultiplePrecisionTracker>::PSEG; using MCA=EndgameSelector<MultiplePrecisionTracker>::Cauchy; using APS=EndgameSelector<AMPTracker>::PSEG; using ACA=EndgameSelector<AMPTracker>::Cauchy;
template<class Tr,class E> static void all(mc::Run& r) { runs<Tr,E>(r); securities<Tr,E>(r); limit_cases<Tr,E>(r); histories<Tr,E>(r); }
static void P23(mc::Run& r) { hermites(r); all<DoublePrecisionTracker,DPS>(r); all<MultiplePrecisionTracker,MPS>(r); all<AMPTracker,APS>(r); }
static void P24(mc::Run& r) { nears<DoublePrecisionTracker,DCA>(r); nears<MultiplePrecisionTracker,MCA>(r); nears<AMPTracker,ACA>(r); all<DoublePrecisionTracker,DCA>(r); all<MultiplePrecisionTracker,MCA>(r); all<AMPTracker,ACA>(r); failsafes<DoublePrecisionTracker,DCA>(r); failsafes<MultiplePrecisionTracker,MCA>(r); failsafes<AMPTracker,ACA>(r); }
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P23",P23},{"P24",P24}}); }
