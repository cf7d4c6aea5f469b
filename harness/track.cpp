// Predictors and the Newton corrector: one step of each against exact paths and a reference computation.
#include "hom.hpp"
#include "bertini2/trackers/explicit_predictors.hpp"
#include "bertini2/trackers/newton_corrector.hpp"
using namespace ref;
using namespace bertini::tracking;
using bertini::SuccessCode;
using RK=predict::ExplicitRKPredictor;

struct Meth { Predictor p; const char* name; unsigned order; bool est; };
static const std::vector<Meth> METH={{Predictor::Constant,"Constant",0,false},{Predictor::Euler,"Euler",1,false},{Predictor::HeunEuler,"HeunEuler",1,true},{Predictor::RK4,"RK4",4,false},{Predictor::RKF45,"RKF45",4,true},{Predictor::RKCashKarp45,"RKCashKarp45",4,true},{Predictor::RKDormandPrince56,"RKDormandPrince56",5,true},{Predictor::RKVerner67,"RKVerner67",6,true}};

static AdaptiveMultiplePrecisionConfig loose()
{ AdaptiveMultiplePrecisionConfig c; c.epsilon=1; c.Phi=1; c.Psi=1; c.coefficient_bound=1; c.degree_bound=1; c.safety_digits_1=c.safety_digits_2=-100; return c; }

static std::string code(SuccessCode c) { return std::to_string((int)c); }

template<class T> struct Pred { SuccessCode c; std::vector<R> x; double err=-1,prop=-1,nJ=-1,nJi=-1,cond=-1; unsigned prec=0; };

// how: 0 plain, 1 with norms, 2 with error estimate
template<class T>
static Pred<T> predict_(RK& rk,System const& S,std::vector<R> const& x,R const& t,R const& dt,unsigned digits,int how,double tol,AdaptiveMultiplePrecisionConfig const& cfg)
{
	Pred<T> p; bertini::Vec<T> nx; auto cx=convv<T>(x,digits); T ct=conv<T>(t,digits), d=conv<T>(dt,digits); unsigned cnt=1;
	if (how==0) p.c=rk.Predict<T>(nx,S,cx,ct,d,p.cond,cnt,1u,tol);
	else if (how==1) p.c=rk.Predict<T>(nx,p.prop,p.nJ,p.nJi,S,cx,ct,d,p.cond,cnt,1u,tol,cfg);
	else p.c=rk.Predict<T>(nx,p.err,p.prop,p.nJ,p.nJi,S,cx,ct,d,p.cond,cnt,1u,tol,cfg);
	if (nx.size()) { p.x=toRv(nx); p.prec=bertini::Precision(nx(0)); for (int i=0;i<nx.size();i++) if (bertini::Precision(nx(i))!=p.prec) p.prec=9999; }
	return p;
}

static std::vector<R> const& TIMES() { static std::vector<R> t={Rq(1),Rq(1,2),Rc(1,4,1,2)}; return t; }
static std::vector<R> const& DIRS() { static std::vector<R> t={Rq(-1),Rq(1),Rc(3,5,-4,5)}; return t; }

// order of accuracy of a step, observed with steps h and h/2 at high precision
static void order_case(mc::Run& r,Hom const& h,size_t br,Meth const& m,R const& t,R const& dir,int form)
{
	unsigned D=80; DefaultPrecision(D); System S=h.make(form); S.precision(D);
	r.where("predictor construct"); RK rk(m.p,S); rk.ChangePrecision(D);
	r.check(rk.Order()==m.order && predict::Order(m.p)==m.order,"order-reported",[&]{ return "the method reports order "+std::to_string(rk.Order()); });
	r.check(rk.HasErrorEstimate()==m.est && predict::HasErrorEstimate(m.p)==m.est,"estimate-reported",[&]{ return "presence of an error estimate misreported"; });
	r.check(rk.PredictorMethod()==m.p,"method-reported",[&]{ return "method misreported"; });
	auto x=h.paths[br](t); double e[2],est[2],prop[2];
	for (int k=0;k<2;k++)
	{
		R dt=dir/R(k?256:128); r.where("predict"); auto p=predict_<Mp>(rk,S,x,t,dt,D,m.est?2:1,1e-5,loose()); r.transition();
		r.check(p.c==SuccessCode::Success,"mp:refused",[&]{ return "a step from a regular point returned code "+code(p.c); });
		if (p.c!=SuccessCode::Success) return;
		r.check(p.prec==D,"mp:precision",[&]{ return "the predicted point carries "+std::to_string(p.prec)+" digits of "+std::to_string(D); });
		e[k]=std::max(dist(p.x,h.paths[br](t+dt)),1e-75); est[k]=std::max(p.err,1e-75); prop[k]=p.prop;
		auto J=jac(h,x,t); double nJ=frob(J); RM inv; inverse(J,inv); double ni=frob(inv);
		r.check(std::abs(p.nJ-nJ)<1e-12*nJ,"mp:norm-J",[&]{ return "norm of the Jacobian "+std::to_string(p.nJ)+" expected "+std::to_string(nJ); });
		double n=h.nv; r.check(p.nJi<=ni*std::sqrt(n)*(1+1e-12) && p.nJi>=std::sqrt(n)/nJ*(1-1e-12),"mp:norm-J-inverse",[&]{ return "estimate "+std::to_string(p.nJi)+" of the norm of the inverse is outside what a vector of units can give: "+std::to_string(std::sqrt(n)/nJ)+" to "+std::to_string(ni*std::sqrt(n)); });
		r.check(std::abs(p.cond-p.nJ*p.nJi)<1e-10*p.cond,"mp:condition",[&]{ return "condition number "+std::to_string(p.cond)+" is not the product of the norms "+std::to_string(p.nJ*p.nJi); });
	}
	double q=std::log2(e[0]/e[1]);
	bool exact=e[0]<1e-70;
	r.check(exact || q>m.order+1-0.3,"order",[&]{ return "halving the step lowers the error of one step by 2^"+std::to_string(q)+", an order "+std::to_string(m.order)+" method must give 2^"+std::to_string(m.order+1)+"; errors "+str(R(e[0]),6)+" "+str(R(e[1]),6); });
	r.outcome(exact?"step exact":"order observed");
	if (m.est)
	{
		bool z=est[0]<1e-70; double qe=std::log2(est[0]/est[1]);
		r.check(z || qe>m.order+1-0.3,"estimate-order",[&]{ return "halving the step lowers the error estimate by 2^"+std::to_string(qe)+" rather than 2^"+std::to_string(m.order+1); });
		if (!z) for (int k=0;k<2;k++) { double hh=mag(dir)/(k?256:128); r.check(std::abs(prop[k]*std::pow(hh,m.order+1)-est[k])<1e-6*est[k],"size-proportion",[&]{ return "size proportion "+str(R(prop[k]),8)+" times |dt|^(order+1) is not the error estimate "+str(R(est[k]),8); }); }
		// the estimate is the difference to a method one order off: it is not smaller than the error itself by orders of magnitude
		if (!z && !exact) r.check(est[1]>e[1]*1e-2 ,"estimate-honest",[&]{ return "error estimate "+str(R(est[1]),6)+" far below the error "+str(R(e[1]),6); });
	}
	r.state(h.name+m.name);
}

// the number types and precisions agree; later calls and other overloads too
static void types_case(mc::Run& r,Hom const& h,size_t br,Meth const& m,R const& t,R const& dir,int form)
{
	auto x=h.paths[br](t); R dt=dir/R(16); Pred<Mp> best;
	std::vector<unsigned> ds={80,30,20,50,16};
	System S=h.make(form);
	for (unsigned D:ds)
	{
		DefaultPrecision(D); S.precision(D); RK rk(m.p,S); rk.ChangePrecision(D);
		r.where("predict mp"); auto p=predict_<Mp>(rk,S,x,t,dt,D,0,1e-5,loose()); r.transition();
		r.check(p.c==SuccessCode::Success,"mp:refused",[&]{ return "a step from a regular point returned code "+code(p.c)+" at "+std::to_string(D)+" digits"; });
		if (p.c!=SuccessCode::Success) return;
		r.check(p.prec==D,"mp:precision",[&]{ return "the predicted point carries "+std::to_string(p.prec)+" digits of "+std::to_string(D); });
		if (D==80) best=p;
		else r.check(dist(p.x,best.x)<std::pow(10.,-(double)D+4),"mp:accuracy",[&]{ return "at "+std::to_string(D)+" digits the predicted point is off by "+str(R(dist(p.x,best.x)),6); });
		r.where("predict mp, other overloads");
		for (int how=1;how<=(m.est?2:1);how++) { auto q=predict_<Mp>(rk,S,x,t,dt,D,how,1e-5,loose()); r.check(q.c==p.c && q.x==p.x,"mp:overloads",[&]{ return "the overloads of Predict disagree"; }); }
		r.where("predict dbl");
		for (int how=0;how<=(m.est?2:1);how++)
		{
			auto q=predict_<dbl>(rk,S,x,t,dt,16,how,1e-5,loose()); r.transition();
			r.check(q.c==SuccessCode::Success && dist(q.x,best.x)<1e-11,"dbl:accuracy",[&]{ return "in double precision the predicted point is off by "+str(R(q.c==SuccessCode::Success?dist(q.x,best.x):1.),6)+", code "+code(q.c); });
		}
		if (!m.est) { bool threw=false; try { predict_<dbl>(rk,S,x,t,dt,16,2,1e-5,loose()); } catch (std::exception const&) { threw=true; } r.check(threw,"estimate-refused",[&]{ return "an error estimate was produced by a method which has none"; }); }
	}
	r.state(h.name+m.name+"types");
}

// one predictor object taken through changes of method, precision and system behaves like a new one
static void history_case(mc::Run& r,std::vector<int> const& ops)
{
	static const int hs[3]={3,6,(int)homs().size()+1}; // 1, 3, 9 variables
	std::vector<System> sys; DefaultPrecision(30); for (int k=0;k<3;k++) { sys.push_back(homx(hs[k]).make(k&1)); sys.back().precision(30); }
	unsigned D=30; int cur=0; size_t meth=4; RK rk(METH[meth].p,sys[0]); rk.ChangePrecision(30);
	auto use=[&]{
		Hom const& h=homx(hs[cur]); R t=Rq(1,2), dt=Rc(-1,20,1,40); auto x=h.paths[0](t); auto const& m=METH[meth];
		r.where("predict in a history");
		auto a=predict_<Mp>(rk,sys[cur],x,t,dt,D,m.est?2:1,1e-5,loose()); auto b=predict_<dbl>(rk,sys[cur],x,t,dt,16,m.est?2:1,1e-5,loose());
		RK fresh(m.p,sys[cur]); fresh.ChangePrecision(D);
		auto c=predict_<Mp>(fresh,sys[cur],x,t,dt,D,m.est?2:1,1e-5,loose()); auto d=predict_<dbl>(fresh,sys[cur],x,t,dt,16,m.est?2:1,1e-5,loose());
		r.transition(2);
		r.check(rk.precision()==D && rk.Order()==m.order && rk.PredictorMethod()==m.p,"history:reported",[&]{ return "precision, order or method misreported"; });
		r.check(a.c==c.c && a.x==c.x && a.err==c.err && a.nJ==c.nJ && a.prec==c.prec,"history:mp",[&]{ return "the used predictor and a new one differ: "+(a.x.empty()?code(a.c):str(a.x[0],40))+" "+(c.x.empty()?code(c.c):str(c.x[0],40)); });
		r.check(b.c==d.c && b.x==d.x && b.err==d.err && b.nJ==d.nJ,"history:dbl",[&]{ return "the used predictor and a new one differ in double precision"; });
		r.check(a.c==SuccessCode::Success && dist(a.x,h.paths[0](t+dt))<(m.order==0?1e-0:m.order==1?2e-2:1e-2),"history:wrong",[&]{ return "prediction is off"; });
	};
	std::string st;
	for (int o:ops)
	{
		if (o<8) { meth=o; rk.PredictorMethod(METH[meth].p); }
		else if (o<11) { cur=o-8; rk.ChangeSystem(sys[cur]); }
		else { D=o==11?20:o==12?50:30; DefaultPrecision(D); for (auto& s:sys) s.precision(D); rk.ChangePrecision(D); }
		st=std::to_string(meth)+","+std::to_string(cur)+","+std::to_string(D); r.state("hist"+st); r.transition();
	}
	use(); use();
}

// the verdicts: singular first stage, singular later stage, not enough precision
static void verdict_case(mc::Run& r,int which,Meth const& m,unsigned D)
{
	DefaultPrecision(D); auto x=Variable::Make("x"), t=Variable::Make("t"); 
	if (which==0 || which==1)
	{
		System S; S.AddVariableGroup(VariableGroup{x}); S.AddPathVariable(t); S.AddFunction(pow(x,2)-t); S.precision(D); RK rk(m.p,S); rk.ChangePrecision(D);
		// which==0: singular where the step begins
		if (which==0) for (int how=0;how<=(m.est?2:1);how++)
		{
			r.where("predict at a singular point"); auto a=predict_<Mp>(rk,S,{R(0)},R(0),Rq(1,8),D,how,1e-5,loose()); auto b=predict_<dbl>(rk,S,{R(0)},R(0),Rq(1,8),16,how,1e-5,loose()); r.transition(2);
			r.check(a.c==SuccessCode::MatrixSolveFailureFirstPartOfPrediction && b.c==SuccessCode::MatrixSolveFailureFirstPartOfPrediction,"verdict:first",[&]{ return "starting at a singular point gave codes "+code(a.c)+" "+code(b.c); });
		}
		else if (m.p==Predictor::RK4) for (int how=0;how<=1;how++)
		{
			// x=1, t=1, slope 1/2: second stage at x = 1 + dt/4 which is 0 for dt = -4
			auto a=predict_<Mp>(rk,S,{R(1)},R(1),R(-4),D,how,1e-5,loose()); auto b=predict_<dbl>(rk,S,{R(1)},R(1),R(-4),16,how,1e-5,loose()); r.transition(2);
			r.check(a.c==SuccessCode::MatrixSolveFailure && b.c==SuccessCode::MatrixSolveFailure,"verdict:later",[&]{ return "a singular second stage gave codes "+code(a.c)+" "+code(b.c); });
		}
	}
	else
	{
		// the criteria: the answer must be that of the documented inequalities with the norms the call reports
		auto& h=homs()[6]; System S=h.make(); S.precision(D); RK rk(m.p,S); rk.ChangePrecision(D); R tt=Rq(1,2); auto x0=h.paths[0](tt); double nz=0; for (auto const& z:x0) nz+=mag(z)*mag(z); nz=std::sqrt(nz);
		for (double eps:{1.,1e3,1e12}) for (double Phi:{0.,1e2,1e9}) for (double Psi:{0.,1e4,1e10}) for (int s1:{0,2,14}) for (int s2:{0,3,15}) for (double tol:{1e-3,1e-8,1e-14}) for (int how=1;how<=(m.est?2:1);how++)
		{
			AdaptiveMultiplePrecisionConfig c=loose(); c.epsilon=eps; c.Phi=Phi; c.Psi=Psi; c.safety_digits_1=s1; c.safety_digits_2=s2;
			auto judge=[&](SuccessCode got,double nJ,double nJi,unsigned P,std::string const& ty){
				double a=s1+std::log10(nJi*eps*(nJ+Phi)), b=s2-std::log10(tol)+std::log10(nJi*Psi+nz);
				if (std::abs(P-a)<1e-6 || std::abs(P-b)<1e-6) { r.outcome("too close to call"); return; }
				bool ok=P>a && P>b; r.outcome(ok?"enough precision":"not enough precision");
				r.check(got==(ok?SuccessCode::Success:SuccessCode::HigherPrecisionNecessary),"verdict:criteria-"+ty,[&]{ return "criteria A "+std::to_string(a)+" and C "+std::to_string(b)+" at "+std::to_string(P)+" digits, code "+code(got); }); };
			auto a=predict_<Mp>(rk,S,x0,tt,Rq(-1,16),D,how,tol,c); judge(a.c,a.nJ,a.nJi,D,"mp"); auto b=predict_<dbl>(rk,S,x0,tt,Rq(-1,16),16,how,tol,c); judge(b.c,b.nJ,b.nJi,16,"dbl"); r.transition(2);
		}
	}
	r.state("verdict"+std::to_string(which)+m.name+std::to_string(D));
}

static void P18(mc::Run& r)
{
	auto& H=homs(); bool th=r.thorough();
	for (size_t i=0;i<H.size();i++) for (size_t b=0;b<H[i].paths.size();b++) for (auto const& m:METH) for (size_t k=0;k<TIMES().size();k++) for (size_t d=0;d<DIRS().size();d++) for (int form=0;form<(th?4:2);form++)
	{
		if (!th && (form && (k||d))) continue;
		auto lab=[&]{ return H[i].name+" path "+std::to_string(b)+" "+m.name+" t="+str(TIMES()[k],4)+" direction "+str(DIRS()[d],4)+" form "+std::to_string(form); };
		r.test([&]{ return "order: "+lab(); },[&]{ order_case(r,H[i],b,m,TIMES()[k],DIRS()[d],form); });
		r.test([&]{ return "types: "+lab(); },[&]{ types_case(r,H[i],b,m,TIMES()[k],DIRS()[d],form); });
	}
	for (auto const& h:wides()) for (size_t b=0;b<h.paths.size();b++) for (auto const& m:METH) for (size_t k=0;k<TIMES().size();k++) for (int form=0;form<(th?4:2);form++)
	{
		if (!th && (b+k+form>1)) continue;
		auto lab=[&]{ return h.name+" path "+std::to_string(b)+" "+m.name+" t="+str(TIMES()[k],4)+" form "+std::to_string(form); };
		r.test([&]{ return "order: "+lab(); },[&]{ order_case(r,h,b,m,TIMES()[k],DIRS()[2],form); });
		r.test([&]{ return "types: "+lab(); },[&]{ types_case(r,h,b,m,TIMES()[k],DIRS()[0],form); });
	}
	for (auto const& m:METH) for (unsigned D:{20u,30u,50u}) for (int w=0;w<3;w++) r.test([&]{ return std::string("verdict ")+std::to_string(w)+" "+m.name+" "+std::to_string(D)+" digits"; },[&]{ verdict_case(r,w,m,D); });
	int depth=th?4:3; std::vector<int> ops;
	std::function<void(int)> rec=[&](int n){
		r.test([&]{ std::string s="history:"; for (int o:ops) s+=o<8?std::string(" ")+METH[o].name:o<11?" system"+std::to_string(o-8):o==11?" 20digits":o==12?" 50digits":" 30digits"; return s; },[&]{ history_case(r,ops); });
		if (n==0) return;
		for (int o=0;o<14;o++) { if (o<8 && th==false && o!=0 && o!=2 && o!=4 && o!=7) continue; ops.push_back(o); rec(n-1); ops.pop_back(); }
	};
	rec(depth);
}

// ---------------------------------------------------------------- the corrector
struct Corr { SuccessCode c; std::vector<R> x; double dz=-1,nJ=-1,nJi=-1,cond=-1; unsigned prec=0; };
template<class T>
static Corr correct_(correct::NewtonCorrector& nc,System const& S,std::vector<R> const& x,R const& t,unsigned digits,int how,double tol,unsigned mn,unsigned mx,AdaptiveMultiplePrecisionConfig const& cfg)
{
	Corr p; bertini::Vec<T> nx; auto cx=convv<T>(x,digits); T ct=conv<T>(t,digits);
	if (how==0) p.c=nc.Correct<T>(nx,S,cx,ct,tol,mn,mx);
	else if (how==1) p.c=nc.Correct<T>(nx,S,cx,ct,tol,mn,mx,cfg);
	else p.c=nc.Correct<T>(nx,p.dz,p.nJ,p.nJi,p.cond,S,cx,ct,tol,mn,mx,cfg);
	if (nx.size()) { p.x=toRv(nx); p.prec=bertini::Precision(nx(0)); for (int i=0;i<nx.size();i++) if (bertini::Precision(nx(i))!=p.prec) p.prec=9999; }
	return p;
}

// reference Newton: the iterates and the lengths of the steps
struct NRef { std::vector<std::vector<R>> x; std::vector<double> step; std::vector<double> nJ; bool ok=true; };
static NRef newton_ref(Hom const& h,std::vector<R> x,R const& t,unsigned n)
{
	NRef q; q.x.push_back(x);
	for (unsigned i=0;i<n;i++)
	{
		auto f=val(h,x,t); auto J=jac(h,x,t); std::vector<R> d; for (auto& z:f) z=-z; if (!solve(J,f,d)) { q.ok=false; break; }
		double m=0; for (size_t k=0;k<d.size();k++) { x[k]+=d[k]; m=std::max(m,mag(d[k])); } q.x.push_back(x); q.step.push_back(m); q.nJ.push_back(frob(J));
		if (m>1e6) { q.ok=false; break; }
	}
	return q;
}

static void newton_case(mc::Run& r,Hom const& h,size_t br,R const& t,R const& off,unsigned D,int form)
{
	DefaultPrecision(D); System S=h.make(form); S.precision(D); correct::NewtonCorrector nc(S); nc.ChangePrecision(D);
	auto x=h.paths[br](t); for (size_t k=0;k<x.size();k++) x[k]+=off*R((long)k+1);
	auto ref=newton_ref(h,x,t,8);
	for (double tol:{1e-1,1e-3,1e-6,1e-10,1e-13,1e-17,1e-25}) for (unsigned mx=0;mx<=6;mx++) for (unsigned mn=0;mn<=std::min(mx,4u);mn++)
	{
		if (h.nv>4 && (mx==1 || mx>4 || mn>2 || (tol!=1e-3 && tol!=1e-10 && tol!=1e-17))) continue;
		for (int ty=0;ty<2;ty++)
		{
			double eps=ty==0?1e-13:std::pow(10.,-(double)D+3);
			// what must happen
			int stop=-1; bool close_call=false; unsigned n=0;
			for (n=0;n<mx;n++)
			{
				if (n>=ref.step.size()) { close_call=true; break; }
				double s=ref.step[n]; if (s<eps*10 && tol<eps*100) { close_call=true; break; } if (std::abs(s-tol)<1e-2*tol) { close_call=true; break; }
				if (s<tol && n+1>=mn) { stop=n+1; break; }
			}
			if (close_call) { r.outcome("not compared: the size of a step is within rounding of the tolerance"); continue; }
			unsigned iters=stop>0?stop:mx; if (iters>=ref.x.size()) continue; SuccessCode want=stop>0?SuccessCode::Success:SuccessCode::FailedToConverge;
			double grow=1; for (unsigned i=0;i<iters;i++) grow*=1+ref.step[i]*10;
			for (int how=0;how<3;how++)
			{
				r.where(std::string("correct ")+(ty?"mp":"dbl"));
				Corr p = ty==0 ? correct_<dbl>(nc,S,x,t,16,how,tol,mn,mx,loose()) : correct_<Mp>(nc,S,x,t,D,how,tol,mn,mx,loose()); r.transition();
				std::string k=ty==0?"dbl":"mp";
				r.check(p.c==want,k+":code",[&]{ return "code "+code(p.c)+" expected "+code(want)+", tolerance "+std::to_string(tol)+", between "+std::to_string(mn)+" and "+std::to_string(mx)+" iterations, steps "+(ref.step.size()?str(R(ref.step[0]),5):std::string()); });
				r.check(p.x.size()==x.size() && dist(p.x,ref.x[iters])<eps*100*grow,k+":point",[&]{ return "after "+std::to_string(iters)+" iterations "+(p.x.size()?str(p.x[0],30):std::string("nothing"))+" expected "+str(ref.x[iters][0],30); });
				if (ty) r.check(p.prec==D,k+":precision",[&]{ return "corrected point carries "+std::to_string(p.prec)+" digits of "+std::to_string(D); });
				if (how==2 && iters>0)
				{
					double s=ref.step[iters-1]; r.check(std::abs(p.dz-s)<=1e-6*s+eps*100,k+":step-length",[&]{ return "length of the last step "+str(R(p.dz),10)+" expected "+str(R(s),10); });
					r.check(std::abs(p.nJ-ref.nJ[iters-1])<1e-8*ref.nJ[iters-1],k+":norm-J",[&]{ return "norm of the Jacobian "+std::to_string(p.nJ)+" expected "+std::to_string(ref.nJ[iters-1]); });
					RM inv; inverse(jac(h,ref.x[iters-1],t),inv); double ni=frob(inv),nn=h.nv; r.check(p.nJi<=ni*std::sqrt(nn)*(1+1e-6) && p.nJi>=std::sqrt(nn)/p.nJ*(1-1e-6),k+":norm-J-inverse",[&]{ return "estimate "+std::to_string(p.nJi)+" outside "+std::to_string(std::sqrt(nn)/p.nJ)+" to "+std::to_string(ni*std::sqrt(nn)); });
					r.check(std::abs(p.cond-p.nJ*p.nJi)<1e-10*p.cond,k+":condition",[&]{ return "condition number is not the product of the norms"; });
				}
				r.outcome(want==SuccessCode::Success?"converged":"did not converge");
			}
		}
	}
	r.state(h.name+std::to_string(D));
}

// precision criteria in the corrector: the answer is that of the documented inequalities
static void ncrit_case(mc::Run& r,Hom const& h,unsigned D,double eps,double Phi,double Psi,int s1,int s2)
{
	DefaultPrecision(D); System S=h.make(); S.precision(D); correct::NewtonCorrector nc(S); nc.ChangePrecision(D); R t=Rq(1,2); auto x=h.paths[0](t); for (auto& z:x) z+=Rq(1,32);
	auto ref=newton_ref(h,x,t,8);
	for (double tol:{1e-3,1e-8,1e-12}) for (unsigned mx:{1u,2u,3u}) for (int ty=0;ty<2;ty++)
	{
		AdaptiveMultiplePrecisionConfig c=loose(); c.epsilon=eps; c.Phi=Phi; c.Psi=Psi; c.safety_digits_1=s1; c.safety_digits_2=s2; unsigned P=ty?D:16;
		Corr p = ty==0 ? correct_<dbl>(nc,S,x,t,16,2,tol,1,mx,c) : correct_<Mp>(nc,S,x,t,D,2,tol,1,mx,c); r.transition();
		// which iteration did it end after?  find it by the length of its last step
		int n=-1; for (unsigned i=0;i<mx;i++) if (std::abs(p.dz-ref.step[i])<1e-3*ref.step[i]) n=i; if (n<0) { r.outcome("not compared: too close to rounding"); continue; }
		double nz=0; for (auto const& z:ref.x[n+1]) nz+=mag(z)*mag(z); nz=std::sqrt(nz);
		double Dd=std::log10(p.nJi*((2+eps)*p.nJ+eps*Phi)+1); double b=s1+Dd+(-std::log10(tol)+std::log10(p.dz))/(mx-n), cc=s2-std::log10(tol)+std::log10(p.nJi*Psi+nz);
		if (std::abs(b-P)<1e-3 || std::abs(cc-P)<1e-3 || std::abs(p.dz-tol)<1e-2*tol) { r.outcome("too close to call"); continue; }
		bool enough=P>b && P>cc; SuccessCode want = p.dz<tol ? SuccessCode::Success : !enough ? SuccessCode::HigherPrecisionNecessary : SuccessCode::FailedToConverge;
		bool early=want==SuccessCode::FailedToConverge && (unsigned)n+1<mx;
		r.check(p.c==want && !early,std::string(ty?"mp":"dbl")+":criteria",[&]{ return "ended after iteration "+std::to_string(n+1)+" of "+std::to_string(mx)+" with code "+code(p.c)+", criteria B "+std::to_string(b)+" C "+std::to_string(cc)+" at "+std::to_string(P)+" digits, step "+str(R(p.dz),6)+" tolerance "+str(R(tol),3); });
		r.outcome(want==SuccessCode::Success?"criteria: converged":enough?"criteria: ran out of iterations":"criteria: not enough precision");
	}
	r.state("crit"+std::to_string(D));
}

static void nhistory_case(mc::Run& r,std::vector<int> const& ops)
{
	static const int hs[4]={3,6,(int)homs().size()+1,5};
	std::vector<System> sys; DefaultPrecision(30); for (int k=0;k<4;k++) { sys.push_back(homx(hs[k]).make(k&1)); sys.back().precision(30); }
	unsigned D=30; int cur=0; correct::NewtonCorrector nc(sys[0]); nc.ChangePrecision(30);
	for (int o:ops)
	{
		if (o<4) { cur=o; nc.ChangeSystem(sys[cur]); }
		else if (o<7) { D=o==4?20:o==5?50:30; DefaultPrecision(D); for (auto& s:sys) s.precision(D); nc.ChangePrecision(D); }
		else { R t=Rq(1,2); auto x=homx(hs[cur]).paths[0](t); for (auto& z:x) z+=(o==7?Rq(1,32):R(40)); correct_<dbl>(nc,sys[cur],x,t,16,2,1e-5,1,o==7?2:1,loose()); correct_<Mp>(nc,sys[cur],x,t,D,2,1e-5,1,o==7?2:1,loose()); }
		r.state("nh"+std::to_string(cur)+","+std::to_string(D)); r.transition();
	}
	Hom const& h=homx(hs[cur]); R t=Rq(1,2); auto x=h.paths[0](t); for (auto& z:x) z+=Rq(1,64);
	correct::NewtonCorrector fresh(sys[cur]); fresh.ChangePrecision(D);
	for (int how=0;how<3;how++)
	{
		r.where("correct in a history");
		auto a=correct_<Mp>(nc,sys[cur],x,t,D,how,1e-12,1,5,loose()), b=correct_<Mp>(fresh,sys[cur],x,t,D,how,1e-12,1,5,loose()); auto c=correct_<dbl>(nc,sys[cur],x,t,16,how,1e-10,1,5,loose()), d=correct_<dbl>(fresh,sys[cur],x,t,16,how,1e-10,1,5,loose());
		r.check(nc.precision()==D,"history:precision",[&]{ return "precision misreported"; });
		r.check(a.c==b.c && a.x==b.x && a.dz==b.dz && a.nJ==b.nJ && a.prec==D,"history:mp",[&]{ return "the used corrector and a new one differ, precision "+std::to_string(a.prec); });
		r.check(c.c==d.c && c.x==d.x && c.dz==d.dz && c.nJ==d.nJ,"history:dbl",[&]{ return "the used corrector and a new one differ in double precision"; });
		r.check(a.c==SuccessCode::Success && dist(a.x,h.paths[0](t))<1e-15 && c.c==SuccessCode::Success && dist(c.x,h.paths[0](t))<1e-12,"history:wrong",[&]{ return "did not converge to the root"; });
	}
}

static void nverdict_case(mc::Run& r,unsigned D,int how)
{
	DefaultPrecision(D); auto x=Variable::Make("x"), t=Variable::Make("t"); System S; S.AddVariableGroup(VariableGroup{x}); S.AddPathVariable(t); S.AddFunction(pow(x,2)-t); S.precision(D); correct::NewtonCorrector nc(S); nc.ChangePrecision(D);
	for (R tt:{R(0),R(1)}) for (unsigned mx:{1u,3u})
	{
		auto a=correct_<Mp>(nc,S,{R(0)},tt,D,how,1e-5,1,mx,loose()); auto b=correct_<dbl>(nc,S,{R(0)},tt,16,how,1e-5,1,mx,loose()); r.transition(2);
		r.check(a.c==SuccessCode::MatrixSolveFailure && b.c==SuccessCode::MatrixSolveFailure,"verdict:singular",[&]{ return "a singular matrix gave codes "+code(a.c)+" "+code(b.c); });
	}
	// Newton on x^2+1 from 1 goes to 0 exactly: the second iteration meets a singular matrix
	{ System Q; Q.AddVariableGroup(VariableGroup{x}); Q.AddPathVariable(t); Q.AddFunction(pow(x,2)+t); Q.precision(D); correct::NewtonCorrector c2(Q); c2.ChangePrecision(D);
	  auto a=correct_<Mp>(c2,Q,{R(1)},R(1),D,how,1e-5,1,3,loose()); auto b=correct_<dbl>(c2,Q,{R(1)},R(1),16,how,1e-5,1,3,loose()); r.check(a.c==SuccessCode::MatrixSolveFailure && b.c==SuccessCode::MatrixSolveFailure,"verdict:singular-later",[&]{ return "a singular matrix in the second iteration gave codes "+code(a.c)+" "+code(b.c); }); }
	r.state("nv"+std::to_string(D)+std::to_string(how));
}

// the criteria themselves
static void rhs_case(mc::Run& r,double nJ,double nJi,double tol)
{
	for (double eps:{1.,4.,9.,1e5}) for (double Phi:{0.,1.,12.,1e6}) for (double Psi:{0.,1.,12.,1e6}) for (int s1:{0,1,3}) for (int s2:{0,1,4})
	{
		AdaptiveMultiplePrecisionConfig c=loose(); c.epsilon=eps; c.Phi=Phi; c.Psi=Psi; c.safety_digits_1=s1; c.safety_digits_2=s2;
		auto eq=[&](double a,double b){ return std::abs(a-b)<1e-9*(1+std::abs(b)); };
		double A=s1+std::log10(nJi*eps*(nJ+Phi)); r.check(eq(amp::CriterionARHS(nJ,nJi,c),A),"rhs:A",[&]{ return "criterion A bound "+std::to_string(amp::CriterionARHS(nJ,nJi,c))+" expected "+std::to_string(A); });
		for (double res:{1e-12,1e-3,10.}) for (unsigned n:{1u,2u,5u}) { double B=s1+std::log10(nJi*((2+eps)*nJ+eps*Phi)+1)+(-std::log10(tol)+std::log10(res))/n; r.check(eq(amp::CriterionBRHS(nJ,nJi,n,tol,res,c),B),"rhs:B",[&]{ return "criterion B bound "+std::to_string(amp::CriterionBRHS(nJ,nJi,n,tol,res,c))+" expected "+std::to_string(B); });
			for (unsigned D:{16u,20u,40u}) { DefaultPrecision(D); bool w=D>B,w16=16>B; if (std::abs(B-D)>1e-6) r.check(amp::CriterionB<Mp>(nJ,nJi,n,tol,res,c)==w,"rhs:B-verdict",[&]{ return "criterion B misjudged at "+std::to_string(D)+" digits, bound "+std::to_string(B); }); if (std::abs(B-16)>1e-6) r.check(amp::CriterionB<dbl>(nJ,nJi,n,tol,res,c)==w16,"rhs:B-verdict",[&]{ return "criterion B misjudged in double precision, bound "+std::to_string(B); }); } }
		for (unsigned D:{16u,20u,40u}) { DefaultPrecision(D); if (std::abs(A-D)>1e-6) r.check(amp::CriterionA<Mp>(nJ,nJi,c)==(D>A),"rhs:A-verdict",[&]{ return "criterion A misjudged at "+std::to_string(D)+" digits, bound "+std::to_string(A); }); if (std::abs(A-16)>1e-6) r.check(amp::CriterionA<dbl>(nJ,nJi,c)==(16>A),"rhs:A-verdict",[&]{ return "criterion A misjudged in double precision, bound "+std::to_string(A); });
			for (double z:{1e-3,1.,1e6}) { double C=s2-std::log10(tol)+std::log10(nJi*Psi+z); r.check(eq(amp::CriterionCRHS(nJi,z,tol,c),C),"rhs:C",[&]{ return "criterion C bound "+std::to_string(amp::CriterionCRHS(nJi,z,tol,c))+" expected "+std::to_string(C); });
				bertini::Vec<dbl> zd(2); zd<<dbl(z*0.6,0),dbl(0,z*0.8); bertini::Vec<Mp> zm(2); zm<<Mp(bertini::mpfr_float(z*0.6)),Mp(bertini::mpfr_float(0),bertini::mpfr_float(z*0.8));
				if (std::abs(C-D)>1e-6) r.check(amp::CriterionC<Mp>(nJi,zm,tol,c)==(D>C),"rhs:C-verdict",[&]{ return "criterion C misjudged at "+std::to_string(D)+" digits, bound "+std::to_string(C); }); if (std::abs(C-16)>1e-6) r.check(amp::CriterionC<dbl>(nJi,zd,tol,c)==(16>C),"rhs:C-verdict",[&]{ return "criterion C misjudged in double precision, bound "+std::to_string(C); }); } }
		r.transition();
	}
	r.state("rhs");
}

// the settings of adaptive precision made from a system
static void amp_case(mc::Run& r,Hom const& h,int form,int how)
{
	DefaultPrecision(30); System S=h.make(form&1); if (form&2) { S.Homogenize(); S.AutoPatch(); } S.precision(30); bertini::tracking::AdaptiveMultiplePrecisionConfig c; r.where("AMP settings");
	if (how==0) c=bertini::tracking::AMPConfigFrom(S); else if (how==1) c=bertini::tracking::AdaptiveMultiplePrecisionConfig(S); else if (how==2) { c.coefficient_bound=7; c.degree_bound=9; c.SetAMPConfigFrom(S); } else { c.SetBoundsAndEpsilonFrom(S); c.coefficient_bound=11.5; c.degree_bound=7; c.SetPhiPsiFromBounds(); }
	r.transition(); double n=S.NumVariables(),d=c.degree_bound,b=c.coefficient_bound; auto is=[&](double x,double w,const char* k){ r.check(std::abs(x-w)<=1e-12*std::abs(w),std::string("amp:")+k,[&]{ return std::string(k)+" is "+std::to_string(x)+" instead of "+std::to_string(w); }); };
	is(c.epsilon,n*n,"epsilon"); is(c.Phi,d*(d-1)*b,"Phi"); is(c.Psi,d*b,"Psi"); if (how==3) { is(b,11.5,"coefficient bound"); is(d,7,"degree bound"); } else { is(d,S.DegreeBound(),"degree bound"); int w=0; for (auto x:S.Degrees(S.Variables())) w=std::max(w,x); r.check(d==w && w>=0,"amp:degree",[&]{ return "degree bound "+std::to_string(d)+" with a function of degree "+std::to_string(w); }); r.check(b>0 && std::isfinite(b),"amp:coefficients",[&]{ return "coefficient bound "+std::to_string(b); }); }
	r.check(c.safety_digits_1==1 && c.safety_digits_2==1 && c.maximum_precision==300,"amp:others",[&]{ return std::string("other settings changed"); }); r.outcome("AMP settings"); r.state("amp"+h.name+std::to_string(form)+std::to_string(how));
}
static void P19(mc::Run& r)
{
	for (size_t i=0;i<homs().size()+wides().size();i++) for (int form=0;form<4;form++) for (int how=0;how<4;how++) { if (homx(i).name.find("exp")!=std::string::npos) continue; r.test([&]{ return "AMP settings: "+homx(i).name+", form "+std::to_string(form)+", made "+std::to_string(how); },[&]{ amp_case(r,homx(i),form,how); }); }
	auto& H=homs(); bool th=r.thorough(); std::vector<R> offs={R(0),Rq(1,100000),Rq(1,64),Rc(0,1,1,8),Rc(-1,4,1,4)};
	for (size_t i=0;i<H.size();i++) for (size_t b=0;b<H[i].paths.size();b++) for (size_t k=0;k<TIMES().size();k++) for (size_t o=0;o<offs.size();o++) for (unsigned D:{20u,30u,60u}) for (int form=0;form<(th?4:2);form++)
	{
		if (!th && ((k && o!=2) || (form && D!=30))) continue;
		r.test([&]{ return "newton: "+H[i].name+" path "+std::to_string(b)+" t="+str(TIMES()[k],4)+" offset "+str(offs[o],6)+" "+std::to_string(D)+" digits form "+std::to_string(form); },[&]{ newton_case(r,H[i],b,TIMES()[k],offs[o],D,form); });
	}
	for (auto const& h:wides()) for (size_t b=0;b<h.paths.size();b++) for (size_t o=0;o<offs.size();o++) for (unsigned D:{30u,60u}) for (int form=0;form<2;form++)
	{
		if (!th && (b!=o%3 || (o!=2 && form) || (o!=1 && D==60))) continue; R off=offs[o]/R(h.nv);
		r.test([&]{ return "newton: "+h.name+" path "+std::to_string(b)+" offset "+str(off,6)+" "+std::to_string(D)+" digits form "+std::to_string(form); },[&]{ newton_case(r,h,b,TIMES()[1],off,D,form); });
	}
	for (size_t i:{3,6,7}) for (unsigned D:{20u,30u}) for (double eps:{1.,1e3,1e9}) for (double Phi:{0.,1e2,1e9}) for (double Psi:{0.,1e4,1e10}) for (int s1:{-5,1,12}) for (int s2:{-5,1,12}) r.test([&]{ return "criteria: "+H[i].name+" "+std::to_string(D)+" digits "+std::to_string(eps)+" "+std::to_string(Phi)+" "+std::to_string(Psi)+" "+std::to_string(s1)+" "+std::to_string(s2); },[&]{ ncrit_case(r,H[i],D,eps,Phi,Psi,s1,s2); });
	for (unsigned D:{20u,30u,50u}) for (int how=0;how<3;how++) r.test([&]{ return "verdict "+std::to_string(D)+" "+std::to_string(how); },[&]{ nverdict_case(r,D,how); });
	for (double nJ:{1e-6,1.,3e4}) for (double nJi:{1e-3,1.,1e9}) for (double tol:{1e-2,1e-5,1e-11}) r.test([&]{ return "bounds "+std::to_string(nJ)+" "+std::to_string(nJi)+" "+std::to_string(tol); },[&]{ rhs_case(r,nJ,nJi,tol); });
	std::vector<int> ops; int depth=th?5:3;
	std::function<void(int)> rec=[&](int n){ r.test([&]{ std::string s="history:"; for (int o:ops) s+=o<4?" system"+std::to_string(o):o<7?std::string(o==4?" 20":o==5?" 50":" 30")+"digits":o==7?" correct":" fail"; return s; },[&]{ nhistory_case(r,ops); }); if (n==0) return; for (int o=0;o<9;o++) { ops.push_back(o); rec(n-1); ops.pop_back(); } };
	rec(depth);
}

int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P18",P18},{"P19",P19}}); }
