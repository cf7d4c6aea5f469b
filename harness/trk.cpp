// Path trackers, on homotopies whose paths are known exactly; every step watched.
#include "hom.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/trackers/observers.hpp"
using namespace ref;
using namespace bertini::tracking;
using bertini::SuccessCode; using bertini::mpq_rational;

struct Meth { Predictor p; const char* name; unsigned order; };
static const std::vector<Meth> METH={{Predictor::Constant,"Constant",0},{Predictor::Euler,"Euler",1},{Predictor::HeunEuler,"HeunEuler",1},{Predictor::RK4,"RK4",4},{Predictor::RKF45,"RKF45",4},{Predictor::RKCashKarp45,"RKCashKarp45",4},{Predictor::RKDormandPrince56,"RKDormandPrince56",5},{Predictor::RKVerner67,"RKVerner67",6}};
struct Seg { R a,b; const char* name; };
static const std::vector<Seg>& SEGS() { static std::vector<Seg> s={{Rq(1),Rq(1,10),"1 to 1/10"},{Rq(1),Rq(0),"1 to 0"},{Rq(1,10),Rq(1),"1/10 to 1"},{Rq(1),Rc(1,2,1,2),"1 to (1+i)/2"},{Rc(1,4,-1,3),Rc(2,3,1,5),"1/4-i/3 to 2/3+i/5"},{Rq(1,3),Rq(1,3),"1/3 to 1/3"},{Rq(1),Rq(999999,1000000),"1 to 1-1e-6"}}; return s; }
struct Step { const char* name; mpq_rational init,max,fail,succ; unsigned inc,minsteps; };
static const std::vector<Step>& STEPS() { static std::vector<Step> s={{"default",mpq_rational(1,10),mpq_rational(1,10),mpq_rational(1,2),2,5,1},{"quarter",mpq_rational(1,4),mpq_rational(1,4),mpq_rational(1,2),2,5,1},{"tiny start",mpq_rational(1,100),mpq_rational(1,5),mpq_rational(1,3),3,2,1},{"at least 20",mpq_rational(1,10),mpq_rational(1,10),mpq_rational(1,2),2,5,20}}; return s; }
struct Newt { const char* name; unsigned mn,mx; };
static const std::vector<Newt> NEWT={{"newton 1-2",1,2},{"newton 1-1",1,1},{"newton 2-4",2,4}};

template<class T> static T num(R const& z,unsigned d) { return conv<T>(z,d); }
static std::string code(SuccessCode c) { return std::to_string((int)c); }

template<class Tr> struct Traits;
template<> struct Traits<DoublePrecisionTracker> { static const char* name() { return "double"; } using C=dbl; enum { amp=0, mp=0 }; };
template<> struct Traits<MultiplePrecisionTracker> { static const char* name() { return "multiple"; } using C=Mp; enum { amp=0, mp=1 }; };
template<> struct Traits<AMPTracker> { static const char* name() { return "adaptive"; } using C=Mp; enum { amp=1, mp=1 }; };

// watches one tracker through any number of paths
template<class Tr> struct Watch : public bertini::Observer<Tr>
{
	using E=typename TrackerTraits<Tr>::EventEmitterType; using C=typename Traits<Tr>::C;
	mc::Run& r; std::string tag; 
	// expectations for the path being tracked
	std::function<std::vector<R>(R const&)> path; R t0,t1; double tol=0; double maxstep=0; bool onpath=true; System const* sys=nullptr; double eps=1e-12;
	std::function<std::vector<R>(std::vector<R> const&)> view; // how the tracked point becomes a point of the path
	// the rules of stepping and of precision; checked when given
	Hom const* hom=nullptr; AdaptiveMultiplePrecisionConfig amp; SteppingConfig st; bool rules=false; double first=-1;
	double need=0; unsigned stepprec=0, since=0, sincedec=0, decs=0, decnow=0; int why=0; // why a step failed: 1 first stage, 2 no convergence, 3 precision
	int phase=0; // 0 outside, 1 begun, 2 in a step
	unsigned succ=0,fail=0,begun=0,ended=0,trunc=0,steps=0,started=0,singular=0; double minlast=1e300; Rr s=0; unsigned cprec=0; std::vector<std::pair<unsigned,unsigned>> changes; bool sane=true; double laststep=-1; std::vector<double> lens;
	Watch(mc::Run& rr,std::string t):r(rr),tag(t){}
	void reset() { phase=0; minlast=1e300; succ=fail=begun=ended=trunc=steps=started=singular=0; since=sincedec=decs=decnow=0; why=0; s=0; changes.clear(); laststep=-1; lens.clear(); }
	void Observe(bertini::AnyEvent const& e) override
	{
		if (auto p=dynamic_cast<const Initializing<E,C>*>(&e))
		{
			r.check(phase==0,tag+":events",[&]{ return "a path begins inside another"; }); phase=1; begun++; 
			r.check(mag(toR(p->StartTime())-t0)<1e-15 && mag(toR(p->EndTime())-t1)<1e-15,tag+":announced",[&]{ return "wrong times announced"; });
		}
		else if (auto p=dynamic_cast<const NewStep<E>*>(&e))
		{
			r.check(phase==1,tag+":events",[&]{ return "a step begins outside a path or in another step, phase "+std::to_string(phase); }); phase=2; steps++; r.transition();
			auto const& t=p->Get(); double d=mag(toR(C(t.DeltaT()))); double cs=static_cast<double>(t.CurrentStepsize());
			r.check(d<=cs*(1+1e-12),tag+":step-size",[&]{ return "step of length "+std::to_string(d)+" with step size "+std::to_string(cs); });
			r.check(d<=maxstep*(1+1e-9),tag+":step-bound",[&]{ return "step of length "+std::to_string(d)+" above the largest allowed "+std::to_string(maxstep); });
			r.check(t.NumTotalStepsTaken()==succ+fail,tag+":count",[&]{ return "counts "+std::to_string(t.NumTotalStepsTaken())+" steps after "+std::to_string(succ)+"+"+std::to_string(fail); });
			if (rules && steps==1 && first>0) r.check(std::abs(cs-first)<1e-9*first,tag+":first-step",[&]{ return "the first step size is "+std::to_string(cs)+", expected "+std::to_string(first); });
			why=0; decnow=0; stepprec=t.CurrentPrecision(); need=-1e9; if (hom && Traits<Tr>::amp) { auto x=toRv(t.CurrentPoint()); R now=toR(C(t.CurrentTime())); double nJ=frob(jac(*hom,x,now)),nz=0; for (auto const& z:x) nz+=mag(z)*mag(z); double lo=std::sqrt((double)x.size())/nJ; need=std::max(amp.safety_digits_2-std::log10(tol)+std::log10(lo*amp.Psi+std::sqrt(nz)),amp.safety_digits_1+std::log10(lo*amp.epsilon*(nJ+amp.Phi))); }
			laststep=cs; minlast=std::min(minlast,cs); lens.push_back(d); where(t); precision(t);
		}
		else if (auto p=dynamic_cast<const SuccessfulStep<E>*>(&e))
		{
			r.check(phase==2,tag+":events",[&]{ return "the end of a step without a beginning"; }); phase=1; succ++;
			if (hom && Traits<Tr>::amp) r.check(stepprec>need-1e-6,tag+":sufficient",[&]{ return "a step succeeded at "+std::to_string(stepprec)+" digits, criteria A and C ask for at least "+std::to_string(need); });
			if (rules)
			{
				double cs=static_cast<double>(p->Get().CurrentStepsize());
				if (cs>laststep*(1+1e-12)) { r.check(since>=st.consecutive_successful_steps_before_stepsize_increase,tag+":increase-early",[&]{ return "the step size was increased after "+std::to_string(since)+" successful steps, "+std::to_string(st.consecutive_successful_steps_before_stepsize_increase)+" asked for"; }); r.check(cs<=laststep*static_cast<double>(st.step_size_success_factor)*(1+1e-9),tag+":increase-factor",[&]{ return "the step size went from "+std::to_string(laststep)+" to "+std::to_string(cs); }); since=0; } else if (decnow) since=0; else since++;
				if (decnow) { decs++; sincedec=0; } else sincedec++;
			} Rr before=s; where(p->Get()); precision(p->Get());
			if (laststep>1e-14*mag(toR(C(p->Get().CurrentTime())))) r.check(Traits<Tr>::amp ? s>before-Rr(3e-15+1.2e-16*steps)/Rr(mag(t1-t0)+1e-30) : s>before,tag+":progress",[&]{ return "a successful step did not advance: "+str(R(before),30)+" then "+str(R(s),30); });
		}
		else if (auto p=dynamic_cast<const FailedStep<E>*>(&e))
		{
			r.check(phase==2,tag+":events",[&]{ return "the end of a step without a beginning"; }); phase=1; fail++; Rr before=s; where(p->Get());
			if (rules)
			{
				double cs=static_cast<double>(p->Get().CurrentStepsize()), want=laststep*static_cast<double>(st.step_size_fail_factor);
				if (!Traits<Tr>::amp || why==2) r.check(std::abs(cs-want)<=1e-9*want,tag+":fail-factor",[&]{ return "after a failed step the step size went from "+std::to_string(laststep)+" to "+std::to_string(cs)+", expected "+std::to_string(want); });
				else r.check(p->Get().CurrentPrecision()>stepprec,tag+":more-precision",[&]{ return "a step lacked precision at "+std::to_string(stepprec)+" digits and is repeated at "+std::to_string(p->Get().CurrentPrecision()); });
				since=sincedec=0;
			} 
			r.check(s==before,tag+":progress",[&]{ return "a failed step moved the time"; });
			if (!Traits<Tr>::amp) r.check(static_cast<double>(p->Get().CurrentStepsize())<laststep,tag+":shrink",[&]{ return "the step size does not shrink after a failed step"; });
		}
		else if (dynamic_cast<const InfinitePathTruncation<E>*>(&e)) { r.check(phase==2,tag+":events",[&]{ return "truncation outside a step"; }); trunc++; phase=1; }
		else if (dynamic_cast<const SingularStartPoint<E>*>(&e)) singular++;
		else if (dynamic_cast<const TrackingStarted<E>*>(&e)) { started++; r.check(phase==1 && steps==0,tag+":events",[&]{ return "tracking announced as started at a wrong moment"; }); }
		else if (dynamic_cast<const TrackingEnded<E>*>(&e)) { r.check(phase==1,tag+":events",[&]{ return "the end of tracking in phase "+std::to_string(phase); }); ended++; phase=0; }
		else if (dynamic_cast<const FirstStepPredictorMatrixSolveFailure<E>*>(&e)) why=1;
		else if (dynamic_cast<const PredictorMatrixSolveFailure<E>*>(&e) || dynamic_cast<const CorrectorMatrixSolveFailure<E>*>(&e)) why=2;
		else if (dynamic_cast<const PredictorHigherPrecisionNecessary<E>*>(&e) || dynamic_cast<const CorrectorHigherPrecisionNecessary<E>*>(&e)) why=3;
		else if (auto p=dynamic_cast<const PrecisionChanged<E>*>(&e))
		{
			changes.emplace_back(p->Previous(),p->Next());
			if (rules && phase==2 && p->Next()<p->Previous()) { decnow=1; r.check(decs<amp.max_num_precision_decreases && sincedec>=amp.consecutive_successful_steps_before_precision_decrease,tag+":decrease-early",[&]{ return "precision was decreased after "+std::to_string(sincedec)+" successful steps ("+std::to_string(amp.consecutive_successful_steps_before_precision_decrease)+" asked for) and "+std::to_string(decs)+" decreases ("+std::to_string(amp.max_num_precision_decreases)+" allowed)"; }); }
			r.check(p->Previous()==p->Get().CurrentPrecision() && p->Next()!=p->Previous(),tag+":precision-event",[&]{ return "a change of precision from "+std::to_string(p->Previous())+" to "+std::to_string(p->Next())+" announced at precision "+std::to_string(p->Get().CurrentPrecision()); });
		}
	}
	template<class X> void where(X const& t)
	{
		R now=toR(C(t.CurrentTime())); R q = mag(t1-t0)==0 ? R(0) : (now-t0)/(t1-t0);
		s=Rr(q.real()); Rr im=Rr(q.imag()); Rr sl=mag(t1-t0)>0 ? Rr(3e-15+1.2e-16*steps)/Rr(mag(t1-t0)) : Rr(1); // roundings of each addition
		r.check(abs(im)<sl && s>-sl && s<1+sl,tag+":off-segment",[&]{ return "the time "+str(now)+" is not between the start and the end"; });
		if (!onpath) return;
		auto x=toRv(t.CurrentPoint()); if (view) x=view(x); auto w=path(now);
		r.check(x.size()==w.size() && dist(x,w)<2*tol+eps,tag+":off-path",[&]{ return "at time "+str(now)+" the tracked point is "+str(R(x.size()==w.size()?dist(x,w):-1.),6)+" away from the path, tolerance "+str(R(tol),3); });
	}
	template<class X> void precision(X const& t)
	{
		if (!Traits<Tr>::mp) return; unsigned p=t.CurrentPrecision(); auto cp=t.CurrentPoint();
		for (int i=0;i<cp.size();i++) r.check(bertini::Precision(cp(i))==p,tag+":point-precision",[&]{ return "coordinate "+std::to_string(i)+" of the tracked point carries "+std::to_string(bertini::Precision(cp(i)))+" digits, tracker "+std::to_string(p); });
		r.check(DefaultPrecision()==p && t.GetSystem().precision()==p,tag+":precision-sync",[&]{ return "tracker at "+std::to_string(p)+" digits, default "+std::to_string(DefaultPrecision())+", system "+std::to_string(t.GetSystem().precision()); });
	}
};

struct Cfg { size_t hom,br; size_t seg; size_t meth; double tol; size_t step,newt; int form; unsigned D; bool preserve=false; int pd=0; };
static const std::vector<std::pair<unsigned,unsigned>> PD={{10,10},{1,10},{3,1},{2,0}}; // steps before a decrease of precision, number of decreases
template<class Tr> static void setup(Tr& tr,Cfg const& c)
{
	SteppingConfig st; auto const& s=STEPS()[c.step]; st.initial_step_size=s.init; st.max_step_size=s.max; st.step_size_fail_factor=s.fail; st.step_size_success_factor=s.succ; st.consecutive_successful_steps_before_stepsize_increase=s.inc; st.min_num_steps=s.minsteps;
	NewtonConfig nw; nw.min_num_newton_iterations=NEWT[c.newt].mn; nw.max_num_newton_iterations=NEWT[c.newt].mx;
	tr.Setup(METH[c.meth].p,c.tol,1e5,st,nw);
}
static void prec(AMPTracker& t,System const& S,bool keep,int pd=0) { auto c=AMPConfigFrom(S); c.consecutive_successful_steps_before_precision_decrease=PD[pd].first; c.max_num_precision_decreases=PD[pd].second; t.PrecisionSetup(c); t.PrecisionPreservation(keep); }
template<class T> static void prec(T&,System const&,bool,int=0) {}
template<class Tr> struct AmpOf { static AdaptiveMultiplePrecisionConfig get(Tr const&) { return AdaptiveMultiplePrecisionConfig(); } };
template<> struct AmpOf<AMPTracker> { static AdaptiveMultiplePrecisionConfig get(AMPTracker const& t) { return t.Get<AdaptiveMultiplePrecisionConfig>(); } };
static double maxstep(Cfg const& c) { auto const& s=STEPS()[c.step]; return static_cast<double>(s.init>s.max?s.init:s.max); }

template<class Tr>
static void path_case(mc::Run& r,Cfg const& c)
{
	using C=typename Traits<Tr>::C; const Hom& h=homx(c.hom); std::string tag=Traits<Tr>::name();
	DefaultPrecision(c.D); System S=h.make(c.form&3); bool proj=c.form&4; if (proj) { S.Homogenize(); S.AutoPatch(); } S.precision(c.D);
	r.where(tag+" construct"); Tr tr(S); setup(tr,c); prec(tr,S,c.preserve,c.pd);
	Watch<Tr> w(r,tag); w.path=h.paths[c.br]; w.t0=SEGS()[c.seg].a; w.t1=SEGS()[c.seg].b; w.tol=c.tol; w.sys=&S; w.maxstep=maxstep(c); tr.AddObserver(w);
	bertini::Vec<C> end; w.t0=toR(conv<C>(w.t0,c.D)); w.t1=toR(conv<C>(w.t1,c.D)); auto x0=convv<C>(h.paths[c.br](w.t0),c.D);
	w.rules=true; w.st=tr.template Get<SteppingConfig>(); w.amp=AmpOf<Tr>::get(tr); w.first=mag(w.t1-w.t0)>0?std::min(static_cast<double>(w.st.initial_step_size),mag(w.t1-w.t0)/w.st.min_num_steps):-1; if (!proj) w.hom=&h; double wide=1;
	if (proj)
	{
		// groups of one variable each or one group: homogenizing variables are in front of their group
		bool each=c.form&2; std::vector<R> hx; auto a=h.paths[c.br](w.t0); if (!each) hx.push_back(R(1)); for (auto const& z:a) { if (each) hx.push_back(R(1)); hx.push_back(z); }
		x0=S.template RescalePointToFitPatch<C>(convv<C>(hx,c.D));
		w.view=[each](std::vector<R> const& x){ std::vector<R> a; if (each) for (size_t i=0;i+1<x.size();i+=2) a.push_back(x[i+1]/x[i]); else for (size_t i=1;i<x.size();i++) a.push_back(x[i]/x[0]); return a; }; wide=100; w.tol*=wide; w.eps*=wide;
	}
	r.where(tag+" track"); auto got=tr.TrackPath(end,conv<C>(w.t0,c.D),conv<C>(w.t1,c.D),x0);
	r.check(got==SuccessCode::Success,tag+":fails",[&]{ return "a regular path could not be tracked, code "+code(got); });
	r.check(w.begun==1 && w.started==1 && w.ended==1 && w.phase==0 && w.trunc==0,tag+":events",[&]{ return "events: begun "+std::to_string(w.begun)+", ended "+std::to_string(w.ended); });
	r.check(tr.NumTotalStepsTaken()==w.steps && w.succ+w.fail==w.steps,tag+":count",[&]{ return "counts "+std::to_string(tr.NumTotalStepsTaken())+" steps of "+std::to_string(w.steps); });
	if (got!=SuccessCode::Success) return;
	auto e=toRv(end); if (proj) e=w.view(e); auto want=h.paths[c.br](w.t1);
	r.check(e.size()==want.size() && dist(e,want)<2*c.tol*wide+wide*(Traits<Tr>::mp?std::pow(10.,3-(double)bertini::Precision(end(0))):1e-13),tag+":endpoint",[&]{ return "endpoint off by "+str(R(e.size()==want.size()?dist(e,want):-1.),6)+", tolerance "+str(R(c.tol),3); });
	r.check(mag(toR(C(tr.CurrentTime()))-w.t1)<1e-15*(1+mag(w.t1))*2,tag+":end-time",[&]{ return "tracking ended at time "+str(toR(C(tr.CurrentTime())),25); });
	r.check(mag(w.t1-w.t0)==0 || w.succ>=STEPS()[c.step].minsteps,tag+":min-steps",[&]{ return "only "+std::to_string(w.succ)+" steps were taken, at least "+std::to_string(STEPS()[c.step].minsteps)+" asked for"; });
	if (Traits<Tr>::mp)
	{
		unsigned p=bertini::Precision(end(0)); bool uni=true; for (int i=0;i<end.size();i++) uni=uni&&bertini::Precision(end(i))==p;
		unsigned last=c.D; for (auto const& q:w.changes) last=q.second; unsigned before=c.D; for (auto const& q:w.changes) { r.check(q.first==before,tag+":precision-chain",[&]{ return "changes of precision do not follow on each other"; }); before=q.second; }
		r.check(uni && (c.preserve || p==last),tag+":end-precision",[&]{ return "endpoint carries "+std::to_string(p)+" digits, tracker ended at "+std::to_string(last); });
		unsigned now=c.preserve?c.D:last; r.check(tr.CurrentPrecision()==now && DefaultPrecision()==now && S.precision()==now,tag+":after-precision",[&]{ return "after tracking the tracker, default and system are at "+std::to_string(tr.CurrentPrecision())+", "+std::to_string(DefaultPrecision())+", "+std::to_string(S.precision())+" digits, expected "+std::to_string(now); });
		for (auto const& q:w.changes) r.outcome("precision "+std::to_string(q.first)+" to "+std::to_string(q.second));
	}
	if (!proj && (!Traits<Tr>::amp || c.step==1)) // a first step that is the same number in every precision
	{
		auto s1=w.succ,f1=w.fail,d1=w.decs; auto ch=w.changes; w.reset(); w.cprec=0; DefaultPrecision(c.D); r.where(tag+" track again"); bertini::Vec<C> again; auto g2=tr.TrackPath(again,conv<C>(w.t0,c.D),conv<C>(w.t1,c.D),convv<C>(h.paths[c.br](w.t0),c.D));
		if (!Traits<Tr>::amp) r.check(g2==got && w.succ==s1 && w.fail==f1 && w.changes==ch,tag+":again",[&]{ return "the same path tracked again took "+std::to_string(w.succ)+"+"+std::to_string(w.fail)+" steps, code "+code(g2)+"; before "+std::to_string(s1)+"+"+std::to_string(f1); });
		else { r.check(d1>0 || (c.pd!=1 && c.pd!=2),tag+":never-decreased",[&]{ return std::string("precision was never lowered, although less would do and it was allowed"); }); r.check(g2==got && (d1==0 || w.decs>0),tag+":again",[&]{ return "the same path tracked again has code "+code(g2)+" and "+std::to_string(w.decs)+" decreases of precision, before "+std::to_string(d1); }); }
	}
	r.outcome(w.fail?"tracked, with failed steps":"tracked"); r.state(tag+std::to_string(c.hom)+","+std::to_string(c.br)+","+std::to_string(c.seg)+","+std::to_string(w.succ)+","+std::to_string(w.fail));
}

static std::string show(Cfg const& c) { return homx(c.hom).name+" path "+std::to_string(c.br)+", "+SEGS()[c.seg].name+", "+METH[c.meth].name+", tolerance "+str(R(c.tol),3)+", "+STEPS()[c.step].name+", "+NEWT[c.newt].name+", form "+std::to_string(c.form)+", "+std::to_string(c.D)+" digits"+(c.preserve?", preserved":"")+(c.pd?", decreases "+std::to_string(c.pd):std::string()); }

static void enumerate(mc::Run& r,int kind,std::function<void(Cfg const&)> const& f)
{
	bool th=r.thorough(); size_t nh=homs().size();
	auto cost=[&](Cfg const& c){ double e=METH[c.meth].order; double it=NEWT[c.newt].mx; // steps per unit time, roughly
		double pred=std::pow(c.tol,1/std::pow(2.,it-1)); return std::pow(pred,-1/(e+1)); };
	for (size_t hm=0;hm<nh;hm++) for (size_t br=0;br<homs()[hm].paths.size();br++) for (size_t sg=0;sg<SEGS().size();sg++) for (size_t m=0;m<METH.size();m++) for (double tol:{1e-3,1e-5,1e-8,1e-11,1e-20}) for (size_t st=0;st<STEPS().size();st++) for (size_t nw=0;nw<NEWT.size();nw++)
	{
		if (kind==0 && tol<1e-12) continue;
		int dev=(sg!=0)+(m!=4)+(tol!=1e-5)+(st!=0)+(nw!=0); if (dev>(th?3:2)) continue; // at most this many deviations from the defaults
		if (!th && kind && br>1) continue;
		Cfg c{hm,br,sg,m,tol,st,nw,(int)((hm+sg+m)%2),30}; 
		if (cost(c)>(kind==0?3000:kind==1?300:200)) continue;
		if (kind==0) f(c);
		else if (kind==1) for (unsigned D:{30u,50u}) { if (tol==1e-20 ? D<30 : false) continue; if (!th && D==50 && dev>1) continue; c.D=D; f(c); }
		else for (unsigned D:{16u,20u,30u,50u}) for (int keep=0;keep<2;keep++) { if (!th && (dev>1) && (D==20||D==50||keep)) continue; if (keep && -std::log10(tol)>D) continue; c.D=D; c.preserve=keep; f(c); }
	}
	std::vector<unsigned> Ds=kind==0?std::vector<unsigned>{30}:kind==1?std::vector<unsigned>{30,50}:std::vector<unsigned>{16,30,50};
	// on a patch
	for (size_t hm=0;hm<nh;hm++) for (size_t br=0;br<homs()[hm].paths.size();br++) for (size_t sg=0;sg<SEGS().size();sg++) for (size_t m:{1,4,7}) for (double tol:{1e-5,1e-8,1e-11}) for (int form:{4,5,6}) for (unsigned D:Ds)
	{
		Cfg c{hm,br,sg,m,tol,0,0,form,D}; if (cost(c)>200 || (form==6 && homs()[hm].nv==1)) continue; int dev=(sg!=0)+(m!=4)+(tol!=1e-5)+(form!=4)+(D!=30)+(br>0); if (dev>(th?5:kind==0?3:2)) continue; f(c);
	}
	// many variables
	for (size_t hm=nh;hm<nh+wides().size();hm++) for (size_t br=0;br<3;br++) for (size_t sg=0;sg<SEGS().size();sg++) for (size_t m:{1,4,6}) for (double tol:{1e-4,1e-8,1e-18}) for (int form:{0,1,2,4}) for (unsigned D:Ds)
	{
		if ((tol<1e-12 && kind==0) || (m==1 && tol<1e-5) || (tol<1e-12 && m!=6)) continue; Cfg c{hm,br,sg,m,tol,0,0,form,D}; int dev=(sg!=0)+(m!=4)+(tol!=1e-4)+(form!=0)+(D!=30)+(br>0); if (dev>(th?3:1)) continue; if (form==1 && homx(hm).nv>9) continue; f(c);
	}
	if (kind==2) for (size_t hm=0;hm<nh;hm++) for (int pd=1;pd<(int)PD.size();pd++) for (unsigned D:{30u,50u}) for (double tol:{1e-5,1e-8,1e-12}) for (size_t st:{0,1,2,3}) for (size_t m:{3,4,6}) { Cfg c{hm,0,0,m,tol,st,0,0,D}; c.pd=pd; f(c); }
}

// ---------------------------------------------------------------- paths that cannot be tracked to their end
static System make1(int which,std::vector<R>* start,unsigned D)
{
	auto x=Variable::Make("x"), t=Variable::Make("t"); System S; S.AddVariableGroup(VariableGroup{x});
	if (which==0) { S.AddFunction(t*x-1); *start={R(1)}; }             // infinity at t=0
	else if (which==1) { S.AddFunction(pow(x,2)-t); *start={R(1)}; }   // singular end at t=0
	else if (which==2) { S.AddFunction(pow(x,2)-(1-t)); *start={R(0)}; } // singular start at t=1
	else if (which==3) { S.AddFunction(2*pow(x,2)-(2*t-1)); *start={R(sqrt(Rq(1,2)))}; } // singular at t=1/2
	else if (which==4) { S.AddFunction(pow(x,3)-t); *start={R(1)}; }
	else { S.AddFunction(pow(x,2)-pow(t,2)-pow(x,3)); *start={R(-0.75487766624669276)}; }
	S.AddPathVariable(t); S.precision(D); return S;
}
static const std::vector<std::string> FAILN={"infinite end","singular end","singular start","singular in the middle","triple end"};
template<class Tr> static void precfail(Tr&,System const&,unsigned) {}
template<> void precfail<AMPTracker>(AMPTracker& t,System const& S,unsigned mx) { auto c=AMPConfigFrom(S); c.maximum_precision=mx; t.PrecisionSetup(c); }

struct FCfg { int which; size_t meth; double tol,thr; bool trunc; double minstep; unsigned maxsteps; unsigned D; };
template<class Tr>
static void fail_case(mc::Run& r,FCfg const& c)
{
	using C=typename Traits<Tr>::C; std::string tag=std::string(Traits<Tr>::name())+":hard"; DefaultPrecision(c.D); std::vector<R> x0; System S=make1(c.which,&x0,c.D);
	Tr tr(S); SteppingConfig st; st.min_step_size=mpq_rational(c.minstep); st.max_num_steps=c.maxsteps; tr.Setup(METH[c.meth].p,c.tol,c.thr,st,NewtonConfig()); tr.SetInfiniteTruncation(c.trunc); precfail(tr,S,60);
	Watch<Tr> w(r,tag); w.onpath=c.which==0; w.path=[](R const& t){ return std::vector<R>{R(1)/t}; }; w.tol=c.tol; w.maxstep=0.1; w.t0=R(1); w.t1=R(0); w.eps=1e-9; if (c.which==0 && !c.trunc) w.onpath=false; tr.AddObserver(w);
	bertini::Vec<C> end; auto s=convv<C>(x0,c.D); r.where(tag+" track"); auto got=tr.TrackPath(end,conv<C>(R(1),c.D),conv<C>(R(0),c.D),s);
	r.check(w.begun==1 && w.started==1 && w.ended==1 && w.phase==0,tag+":events",[&]{ return "begun "+std::to_string(w.begun)+" ended "+std::to_string(w.ended); });
	r.check(w.trunc==(got==SuccessCode::GoingToInfinity?1u:0u),tag+":truncation-event",[&]{ return std::to_string(w.trunc)+" truncations announced with code "+code(got); });
	r.check(tr.NumTotalStepsTaken()==w.succ+w.fail,tag+":count",[&]{ return "counts "+std::to_string(tr.NumTotalStepsTaken())+" steps after "+std::to_string(w.succ)+"+"+std::to_string(w.fail); });
	r.check(w.succ<=c.maxsteps && (got!=SuccessCode::MaxNumStepsTaken || w.succ==c.maxsteps),tag+":max-steps",[&]{ return std::to_string(w.succ)+" successful steps, allowed "+std::to_string(c.maxsteps)+", code "+code(got); });
	auto x=toRv(tr.CurrentPoint()); double now=mag(toR(C(tr.CurrentTime())));
	if (got==SuccessCode::MinStepSizeReached) r.check(static_cast<double>(tr.CurrentStepsize())<c.minstep,tag+":min-step",[&]{ return "reported that the smallest step size was reached at step size "+std::to_string(static_cast<double>(tr.CurrentStepsize())); });
	r.check(w.minlast>=c.minstep*(1-1e-12),tag+":min-step",[&]{ return "a step was tried with step size "+std::to_string(w.minlast)+" below the smallest allowed "+std::to_string(c.minstep); });
	bool known=got==SuccessCode::Success||got==SuccessCode::GoingToInfinity||got==SuccessCode::MaxNumStepsTaken||got==SuccessCode::MinStepSizeReached||(Traits<Tr>::amp && (got==SuccessCode::MaxPrecisionReached||got==SuccessCode::SingularStartPoint));
	r.check(known,tag+":code",[&]{ return "unexpected code "+code(got); });
	if (c.which==0)
	{
		r.check(got!=SuccessCode::Success,tag+":infinite",[&]{ return "tracking to infinity reported as a success"; });
		if (c.trunc && c.maxsteps>=1000 && c.minstep<1e-9 && c.thr<1e6) r.check(got==SuccessCode::GoingToInfinity && mag(x[0])>c.thr,tag+":truncate",[&]{ return "the path was not cut off beyond "+std::to_string(c.thr)+", at "+str(x[0],8)+" code "+code(got); });
		if (!c.trunc) r.check(got!=SuccessCode::GoingToInfinity,tag+":truncate",[&]{ return "a path was cut off although that is turned off"; });
	}
	else r.check(got!=SuccessCode::GoingToInfinity,tag+":infinite",[&]{ return "a bounded path is reported to go to infinity, at "+str(x[0],8); });
	if (c.which==2 && Traits<Tr>::amp) r.check(got==SuccessCode::SingularStartPoint && w.singular==1,tag+":singular-start",[&]{ return "a singular start point gives code "+code(got); });
	else if (Traits<Tr>::amp) r.check(got!=SuccessCode::SingularStartPoint && w.singular==0,tag+":singular-start",[&]{ return "a regular start point is called singular"; });
	if (got==SuccessCode::Success)
	{
		auto e=toRv(end); R want=c.which==1||c.which==4?R(0):c.which==2?R(1):R(sqrt(R(-0.5))); double d=std::min(mag(e[0]-want),mag(e[0]+want));
		r.check(now<1e-15,tag+":end-time",[&]{ return "success reported at time "+std::to_string(now); });
		r.check(d<(c.which==4?6:4)*c.tol+1e-12,tag+":endpoint",[&]{ return "success reported with an endpoint off by "+str(R(d),6)+", tolerance "+str(R(c.tol),3); });
	}
	if (Traits<Tr>::amp && got==SuccessCode::MaxPrecisionReached) r.check(tr.CurrentPrecision()>60,tag+":max-precision",[&]{ return "reported that the largest precision was reached at "+std::to_string(tr.CurrentPrecision())+" digits"; });
	r.outcome(FAILN[c.which]+": code "+code(got)); r.state(tag+FAILN[c.which]+std::to_string(w.succ)+","+std::to_string(w.fail));
}
template<class Tr> static void fails(mc::Run& r)
{
	bool th=r.thorough(); std::string n=Traits<Tr>::name();
	for (int wh=0;wh<5;wh++) for (size_t m=0;m<METH.size();m++) for (double tol:{1e-3,1e-5,1e-8}) for (double thr:{10.,1e3,1e5,1e8}) for (int tc=1;tc>=0;tc--) for (double ms:{1e-100,1e-12,0.015625}) for (unsigned mx:{100000u,7u,40u}) for (unsigned D:{16u,30u})
	{
		if (METH[m].order<2 && tol<1e-5) continue; 
		if (!Traits<Tr>::mp && D==30) continue; if (Traits<Tr>::mp && !Traits<Tr>::amp && D==16) continue;
		if (wh && (thr!=1e3 || !tc)) continue; if (!tc && thr!=10.) continue;
		if (!th) { int dev=(tol!=1e-5)+(thr!=1e3)+(ms!=1e-12)+(mx!=100000u)+(D!=16u&&Traits<Tr>::amp); if (dev>(Traits<Tr>::mp?1:2)) continue; }
		if (!tc && ms<1e-50 && METH[m].order<2) continue; // thousands of steps
		FCfg c{wh,m,tol,thr,(bool)tc,ms,mx,D};
		r.test([&]{ return n+": "+FAILN[wh]+", "+METH[m].name+", tolerance "+str(R(tol),3)+", threshold "+std::to_string((long)thr)+(tc?"":" off")+", smallest step "+str(R(ms),3)+", at most "+std::to_string(mx)+" steps, "+std::to_string(D)+" digits"; },[&]{ fail_case<Tr>(r,c); });
	}
}
// ---------------------------------------------------------------- a path is cut off when its point, in the user's coordinates, is too large, and not before
// n variables, of which the k-th is 1/t and the others stay near i+1; kind 0 affine, 1 one group on a patch, 2 every variable its own group, on a patch
template<class Tr> struct Norms : public bertini::Observer<Tr>
{
	using E=typename TrackerTraits<Tr>::EventEmitterType; std::function<std::vector<R>(std::vector<R> const&)> view; std::vector<double> after; double cut=-1; int trunc=0;
	template<class P> double norm(P const& p) { double s=0; for (auto const& z:view(toRv(p.Get().CurrentPoint()))) s+=mag(z)*mag(z); return std::sqrt(s); }
	void Observe(bertini::AnyEvent const& e) override { if (auto p=dynamic_cast<const SuccessfulStep<E>*>(&e)) after.push_back(norm(*p)); else if (auto p=dynamic_cast<const InfinitePathTruncation<E>*>(&e)) { trunc++; cut=norm(*p); } }
};
template<class Tr> static void cut_case(mc::Run& r,int n,int k,int kind,double thr,R const& to,unsigned D)
{
	using C=typename Traits<Tr>::C; std::string tag=std::string(Traits<Tr>::name())+":cut-off"; DefaultPrecision(D); std::vector<Var> v; for (int i=0;i<n;i++) v.push_back(Variable::Make("x"+std::to_string(i))); auto t=Variable::Make("t"); System S; if (kind<2) S.AddVariableGroup(VariableGroup(v.begin(),v.end())); else for (auto const& x:v) S.AddVariableGroup(VariableGroup{x});
	for (int i=0;i<n;i++) if (i==k) S.AddFunction(t*v[i]-1); else S.AddFunction(v[i]-(i+1)-t); if (kind) { S.Homogenize(); S.AutoPatch(); } S.AddPathVariable(t); S.precision(D);
	auto path=[&](R const& t){ std::vector<R> x; for (int i=0;i<n;i++) x.push_back(i==k?R(1)/t:R(i+1)+t); return x; };
	auto a=path(R(1)); std::vector<R> hx; if (kind==1) hx.push_back(R(1)); for (auto const& z:a) { if (kind==2) hx.push_back(R(1)); hx.push_back(z); } auto x0=convv<C>(hx,D); if (kind) S.RescalePointToFitPatchInPlace(x0);
	Tr tr(S); tr.Setup(Predictor::RKF45,1e-6,thr,SteppingConfig(),NewtonConfig()); precfail(tr,S,200); Norms<Tr> w; w.view=[&](std::vector<R> const& p){ if (!kind) return p; std::vector<R> q; if (kind==1) for (int i=1;i<=n;i++) q.push_back(p[i]/p[0]); else for (int i=0;i<n;i++) q.push_back(p[2*i+1]/p[2*i]); return q; }; tr.AddObserver(w);
	bertini::Vec<C> end; r.where(tag); auto got=tr.TrackPath(end,conv<C>(R(1),D),conv<C>(to,D),x0); r.transition(); double nd=0; for (auto const& z:path(to)) nd+=mag(z)*mag(z); nd=std::sqrt(nd); bool beyond=nd>thr*1.001, within=nd<thr*0.999;
	for (size_t i=0;i<w.after.size();i++) r.check(w.after[i]<=thr*(1+1e-9),tag+":late",[&]{ return "went on from a point of norm "+str(R(w.after[i]),8)+", to be cut off beyond "+str(R(thr),4); });
	r.check(w.trunc==(got==SuccessCode::GoingToInfinity),tag+":event",[&]{ return std::to_string(w.trunc)+" truncations announced with code "+code(got); }); if (w.trunc) r.check(w.cut>thr*(1-1e-9),tag+":early",[&]{ return "cut off at norm "+str(R(w.cut),8)+", to be cut off beyond "+str(R(thr),4); });
	if (beyond) r.check(got==SuccessCode::GoingToInfinity,tag+":code",[&]{ return "the end has norm "+str(R(nd),6)+", to be cut off beyond "+str(R(thr),4)+", but the code is "+code(got); }); else if (within) r.check(got==SuccessCode::Success,tag+":code",[&]{ return "the end has norm "+str(R(nd),6)+", to be cut off beyond "+str(R(thr),4)+", but the code is "+code(got); });
	r.outcome(w.trunc?"cut off":"not cut off"); r.state(tag+std::to_string(n)+std::to_string(k)+std::to_string(kind)+code(got));
}
template<class Tr> static void cuts(mc::Run& r)
{
	for (int n:{1,2,3,5,8}) for (int k=0;k<n;k++) for (int kind=0;kind<3;kind++) for (double thr:{25.,60.,900.}) for (int e=0;e<4;e++) for (unsigned D:{16u,30u}) { if (Traits<Tr>::mp?(!Traits<Tr>::amp && D==16):D==30) continue; if (!r.thorough() && n>3 && (k%3 || e%2)) continue; static const std::vector<R> T={Rq(1,10),Rq(1,40),Rc(1,100,1,100),Rq(1,2000)}; r.test([&]{ return std::string(Traits<Tr>::name())+": cut off beyond "+str(R(thr),4)+", "+std::to_string(n)+" variables, number "+std::to_string(k)+" grows, kind "+std::to_string(kind)+", to "+str(T[e],5)+", "+std::to_string(D)+" digits"; },[&]{ cut_case<Tr>(r,n,k,kind,thr,T[e],D); }); }
}
// ---------------------------------------------------------------- bounds on the number of steps
template<class Tr> static void limit_case(mc::Run& r,size_t hm,size_t m,unsigned D)
{
	using C=typename Traits<Tr>::C; std::string tag=std::string(Traits<Tr>::name())+":limit"; auto const& h=homs()[hm]; unsigned need=0;
	for (int k=-1;k<14;k++)
	{
		DefaultPrecision(D); System S=h.make(0); S.precision(D); Tr tr(S); SteppingConfig st; if (k>=0) st.max_num_steps=k<11?k:need+k-12; tr.Setup(METH[m].p,1e-5,1e5,st,NewtonConfig()); precfail(tr,S,300);
		Watch<Tr> w(r,tag); w.path=h.paths[0]; w.t0=R(1); w.t1=R(0); w.tol=1e-5; w.maxstep=0.1; tr.AddObserver(w); bertini::Vec<C> end; auto got=tr.TrackPath(end,conv<C>(R(1),D),conv<C>(R(0),D),convv<C>(h.paths[0](R(1)),D)); r.transition();
		if (k<0) { need=w.succ; r.check(got==SuccessCode::Success,tag+":fails",[&]{ return "code "+code(got); }); continue; }
		unsigned mx=st.max_num_steps; 
		if (mx>=need+3 || (mx<need && need>=3 && mx+3<=need) || !Traits<Tr>::amp) // the adaptive tracker depends on random numbers, a little
		{
			bool ok=mx>=need; r.check(got==(ok?SuccessCode::Success:SuccessCode::MaxNumStepsTaken),tag+":code",[&]{ return std::to_string(need)+" steps are needed, "+std::to_string(mx)+" allowed: code "+code(got); });
		}
		r.check(w.succ<=mx && (got==SuccessCode::Success || w.succ==mx),tag+":number",[&]{ return std::to_string(mx)+" steps allowed, "+std::to_string(w.succ)+" taken, code "+code(got); });
		r.outcome(got==SuccessCode::Success?"enough steps":"not enough steps");
	}
	r.state(tag+std::to_string(need));
}
template<class Tr> static void limits(mc::Run& r) { for (size_t hm=0;hm<homs().size();hm++) for (size_t m=1;m<METH.size();m++) for (unsigned D:{16u,30u}) { if (!Traits<Tr>::mp && D==30) continue; if (Traits<Tr>::mp && !Traits<Tr>::amp && D==16) continue; r.test([&]{ return std::string(Traits<Tr>::name())+": number of steps bounded, "+homs()[hm].name+" "+METH[m].name+" "+std::to_string(D)+" digits"; },[&]{ limit_case<Tr>(r,hm,m,D); }); } }

// ---------------------------------------------------------------- start points that are refused
template<class Tr> static void refuse_case(mc::Run& r,size_t hm,int how)
{
	using C=typename Traits<Tr>::C; std::string tag=std::string(Traits<Tr>::name())+":refuse"; auto const& h=homs()[hm]; unsigned D=30; DefaultPrecision(D); System S=h.make(0); S.precision(D); Tr tr(S); Cfg c{hm,0,0,4,1e-5,0,0,0,D}; setup(tr,c); prec(tr,S,false);
	auto good=convv<C>(h.paths[0](R(1)),D); bertini::Vec<C> bad=good,end; bool threw=false;
	if (how==0) bad.conservativeResize(h.nv+1), bad(h.nv)=C(1); else if (how==1) bad.conservativeResize(h.nv-1);
	else if (Traits<Tr>::mp && !Traits<Tr>::amp) { if (how==2) bad=convv<C>(h.paths[0](R(1)),50); else DefaultPrecision(50); } else return;
	try { tr.TrackPath(end,conv<C>(R(1),D),conv<C>(R(0),D),bad); } catch (std::runtime_error const&) { threw=true; }
	r.check(threw,tag,[&]{ return how<2?"a start point of the wrong size was accepted":"a start point or default precision differing from the tracker's was accepted"; });
	DefaultPrecision(D); r.where(tag+" afterwards"); auto got=tr.TrackPath(end,conv<C>(R(1),D),conv<C>(R(0),D),good); r.check(got==SuccessCode::Success && dist(toRv(end),h.paths[0](R(0)))<2e-5,tag+"-after",[&]{ return "after a refusal the tracker does not work, code "+code(got); });
	r.state(tag+std::to_string(how)); r.transition();
}
template<class Tr> static void refusals(mc::Run& r) { for (size_t hm=0;hm<homs().size();hm++) for (int how=0;how<4;how++) r.test([&]{ return std::string(Traits<Tr>::name())+": bad start point "+std::to_string(how)+" "+homs()[hm].name; },[&]{ refuse_case<Tr>(r,hm,how); }); }

// ---------------------------------------------------------------- a used tracker behaves as a new one
static const std::vector<std::string> HOPS={"track","back","one step","other step size","cut off","refine","system 0","system 1","system 2","Euler","RK4","RKF45","tol 1e-8","tol 1e-5","default precision 20","off path","twice setup"};
template<class Tr> static void hist_case(mc::Run& r,std::vector<int> const& ops,unsigned D)
{
	using C=typename Traits<Tr>::C; std::string tag=std::string(Traits<Tr>::name())+":history"; static const int hs[3]={3,6,7}; auto& H=homs(); DefaultPrecision(D);
	std::vector<System> sys; for (int k=0;k<3;k++) { sys.push_back(H[hs[k]].make(k&1)); sys.back().precision(D); }
	int cur=0; size_t meth=5; double tol=1e-5; Tr tr(sys[0]); SteppingConfig st; NewtonConfig nw; tr.Setup(METH[meth].p,tol,1e5,st,nw); precfail(tr,sys[0],300);
	auto go=[&](Tr& t,R const& a,R const& b,bertini::Vec<C>& end){ if (!Traits<Tr>::amp) DefaultPrecision(D); return t.TrackPath(end,conv<C>(a,D),conv<C>(b,D),convv<C>(H[hs[cur]].paths[0](a),D)); };
	bertini::Vec<C> end;
	for (int o:ops)
	{
		r.where(tag+" "+HOPS[o]);
		if (o==0) go(tr,R(1),Rq(1,10),end);
		else if (o==1) go(tr,Rq(1,10),Rc(1,2,1,2),end);
		else if (o==2) { SteppingConfig s1; s1.max_num_steps=1; tr.template Set<SteppingConfig>(s1); go(tr,R(1),R(0),end); tr.template Set<SteppingConfig>(st); }
		else if (o==3) { tr.ReinitializeInitialStepSize(false); tr.SetStepSize(typename TrackerTraits<Tr>::BaseRealType(1)/40); go(tr,R(1),Rq(1,2),end); tr.ReinitializeInitialStepSize(true); }
		else if (o==4) { tr.SetInfiniteTruncationTolerance(1e-3); go(tr,R(1),R(0),end); tr.SetInfiniteTruncationTolerance(1e5); }
		else if (o==5) { bertini::Vec<C> q; if (!Traits<Tr>::amp) DefaultPrecision(D); else { DefaultPrecision(tr.CurrentPrecision()); } unsigned P=Traits<Tr>::amp?tr.CurrentPrecision():D; sys[cur].precision(P); if (P>16 || !Traits<Tr>::mp) { auto z=convv<C>(H[hs[cur]].paths[0](Rq(1,2)),P); tr.template Refine<C>(q,z,conv<C>(Rq(1,2),P)); } }
		else if (o<9) { cur=o-6; tr.SetSystem(sys[cur]); precfail(tr,sys[cur],300); }
		else if (o==9) { meth=1; tr.SetPredictor(METH[meth].p); } else if (o==10) { meth=3; tr.SetPredictor(METH[meth].p); } else if (o==11) { meth=4; tr.SetPredictor(METH[meth].p); }
		else if (o==12) { tol=1e-8; tr.SetTrackingTolerance(tol); } else if (o==13) { tol=1e-5; tr.SetTrackingTolerance(tol); }
		else if (o==14) { if (Traits<Tr>::amp) { DefaultPrecision(20); } }
		else if (o==15) { if (!Traits<Tr>::amp) DefaultPrecision(D); auto z=H[hs[cur]].paths[0](R(1)); for (auto& q:z) q+=R(1000); auto zz=convv<C>(z,D); SteppingConfig s1; s1.max_num_steps=5; s1.min_step_size=mpq_rational(1,1000); tr.template Set<SteppingConfig>(s1); tr.TrackPath(end,conv<C>(R(1),D),conv<C>(R(0),D),zz); tr.template Set<SteppingConfig>(st); }
		else tr.Setup(METH[meth].p,tol,1e5,st,nw);
		r.transition(); r.state(tag+std::to_string(cur)+","+std::to_string(meth)+","+std::to_string(tol)+","+std::to_string(Traits<Tr>::mp?tr.CurrentPrecision():0));
	}
	for (int rep=0;rep<2;rep++)
	{
		r.where(tag+" final"); Watch<Tr> w(r,tag); w.path=H[hs[cur]].paths[0]; w.t0=toR(conv<C>(R(1),D)); w.t1=toR(conv<C>(Rq(1,10),D)); w.tol=tol; w.maxstep=0.1; tr.AddObserver(w); bertini::Vec<C> e1,e2; auto a=go(tr,R(1),Rq(1,10),e1); tr.RemoveObserver(w); unsigned p1=Traits<Tr>::amp?tr.CurrentPrecision():D; size_t s1=w.succ,f1=w.fail;
		DefaultPrecision(D); System F=H[hs[cur]].make(cur&1); F.precision(D); Tr fr(F); fr.Setup(METH[meth].p,tol,1e5,st,nw); precfail(fr,F,300); w.reset(); fr.AddObserver(w); auto b=go(fr,R(1),Rq(1,10),e2); fr.RemoveObserver(w);
		r.check(a==SuccessCode::Success && b==a,tag+":code",[&]{ return "codes "+code(a)+" of the used tracker, "+code(b)+" of a new one"; });
		r.check(dist(toRv(e1),H[hs[cur]].paths[0](w.t1))<2*tol+1e-12,tag+":endpoint",[&]{ return "the endpoint of the used tracker is off by "+str(R(dist(toRv(e1),H[hs[cur]].paths[0](w.t1))),5); });
		if (!Traits<Tr>::amp) r.check(toRv(e1)==toRv(e2) && s1==w.succ && f1==w.fail,tag+":same",[&]{ return "the used tracker took "+std::to_string(s1)+"+"+std::to_string(f1)+" steps, a new one "+std::to_string(w.succ)+"+"+std::to_string(w.fail)+", or another endpoint"; });
		else r.check(bertini::Precision(e1(0))==p1,tag+":end-precision",[&]{ return "endpoint carries "+std::to_string(bertini::Precision(e1(0)))+" digits, tracker "+std::to_string(p1); });
	}
}
template<class Tr> static void histories(mc::Run& r)
{
	std::vector<int> ops; int depth=r.thorough()?4:3;
	std::function<void(int)> rec=[&](int n){ for (unsigned D:{30u,16u}) { if (D==16 && !Traits<Tr>::amp) continue; r.test([&]{ std::string s=std::string(Traits<Tr>::name())+" history at "+std::to_string(D)+" digits:"; for (int o:ops) s+=" "+HOPS[o]+","; return s; },[&]{ hist_case<Tr>(r,ops,D); }); } if (n==0) return; for (size_t o=0;o<HOPS.size();o++) { ops.push_back(o); rec(n-1); ops.pop_back(); } };
	rec(depth);
}

static void P20(mc::Run& r)
{
	enumerate(r,0,[&](Cfg const& c){ r.test([&]{ return "double: "+show(c); },[&]{ path_case<DoublePrecisionTracker>(r,c); }); });
	enumerate(r,1,[&](Cfg const& c){ r.test([&]{ return "multiple: "+show(c); },[&]{ path_case<MultiplePrecisionTracker>(r,c); }); });
	fails<DoublePrecisionTracker>(r); fails<MultiplePrecisionTracker>(r); cuts<DoublePrecisionTracker>(r); cuts<MultiplePrecisionTracker>(r); limits<DoublePrecisionTracker>(r); limits<MultiplePrecisionTracker>(r);
	refusals<DoublePrecisionTracker>(r); refusals<MultiplePrecisionTracker>(r); histories<DoublePrecisionTracker>(r); histories<MultiplePrecisionTracker>(r);
}
static void P21(mc::Run& r) { enumerate(r,2,[&](Cfg const& c){ r.test([&]{ return "adaptive: "+show(c); },[&]{ path_case<AMPTracker>(r,c); }); }); fails<AMPTracker>(r); cuts<AMPTracker>(r); limits<AMPTracker>(r); refusals<AMPTracker>(r); histories<AMPTracker>(r); }


// ---------------------------------------------------------------- observers
struct Emitter : public bertini::Observable { void emit(bertini::AnyEvent const& e) const { NotifyObservers(e); } void emit(bertini::AnyEvent& e) const { NotifyObservers(e); } };
struct Ping : public bertini::AnyEvent {};
struct Actor : public bertini::AnyObserver
{
	Emitter* em=nullptr; std::vector<std::unique_ptr<Actor>>* all=nullptr; int action=0,told=0; std::vector<std::pair<int,bool>>* log=nullptr; bool active=true;
	void Observe(bertini::AnyEvent const&) override
	{
		told++; if (!active || action==0) return; int n=all->size(); int k=(action-1)%n; bool add=action>n;
		if (add) em->AddObserver(*(*all)[k]); else em->RemoveObserver(*(*all)[k]); log->emplace_back(k,add);
	}
};
static void observer_case(mc::Run& r,std::vector<int> const& order,std::vector<int> const& act,int constness)
{
	int n=act.size(); Emitter em; std::vector<std::unique_ptr<Actor>> all; std::vector<std::pair<int,bool>> log; for (int i=0;i<n;i++) { all.emplace_back(new Actor); all[i]->em=&em; all[i]->all=&all; all[i]->action=act[i]; all[i]->log=&log; }
	std::vector<bool> at(n,false); for (int i:order) { em.AddObserver(*all[i]); em.AddObserver(*all[i]); at[i]=true; }
	Ping p; auto emit=[&]{ if (constness) em.emit(static_cast<bertini::AnyEvent const&>(p)); else em.emit(static_cast<bertini::AnyEvent&>(p)); r.transition(); };
	r.where("emit"); emit();
	auto now=at; std::vector<bool> removed(n,false),added(n,false); for (auto const& l:log) { now[l.first]=l.second; (l.second?added:removed)[l.first]=true; }
	auto word=[&]{ std::string s; for (int i=0;i<n;i++) s+=std::to_string(all[i]->told)+" "; return s; };
	for (int i=0;i<n;i++)
	{
		if (at[i] && !removed[i]) r.check(all[i]->told==1,"observers:told",[&]{ return "an observer attached throughout was told "+std::to_string(all[i]->told)+" times; all: "+word(); });
		else if (!at[i] && !added[i]) r.check(all[i]->told==0,"observers:told",[&]{ return "an observer that was not attached was told"; });
		else r.check(all[i]->told<=1,"observers:told",[&]{ return "an observer was told "+std::to_string(all[i]->told)+" times of one event"; });
		if (at[i] && removed[i]) { bool self=false; for (int j=0;j<n;j++) if (j==i && act[i]>=1 && act[i]<=n && act[i]-1==i) self=true; bool others=false; for (int j=0;j<n;j++) if (j!=i && at[j] && act[j]>=1 && act[j]<=n && act[j]-1==i) others=true; if (self && !others) r.check(all[i]->told==1,"observers:told",[&]{ return "an observer that removes itself was told "+std::to_string(all[i]->told)+" times"; }); }
	}
	for (auto& a:all) { a->told=0; a->active=false; }
	emit();
	for (int i=0;i<n;i++) r.check(all[i]->told==(now[i]?1:0),"observers:attached",[&]{ return std::string(now[i]?"an attached":"a removed")+" observer was told "+std::to_string(all[i]->told)+" times of a later event"; });
	std::string st; for (int i=0;i<n;i++) st+=now[i]?'1':'0'; r.state("obs"+st);
}
struct Truth : public bertini::Observer<AMPTracker>
{
	using E=AMPTracker; bool on=false,inc=false; unsigned start=0,next=0,mn=9999,mx=0; R when; std::vector<unsigned> all; std::vector<std::vector<R>> pts; unsigned changes=0;
	void Observe(bertini::AnyEvent const& e) override
	{
		if (auto p=dynamic_cast<const TrackingEvent<E>*>(&e)) all.push_back(p->Get().CurrentPrecision());
		if (auto p=dynamic_cast<const TrackingStarted<E>*>(&e)) { on=true; start=p->Get().CurrentPrecision(); mn=std::min(mn,start); mx=std::max(mx,start); }
		else if (auto p=dynamic_cast<const PrecisionChanged<E>*>(&e)) { mn=std::min(mn,p->Next()); mx=std::max(mx,p->Next()); if (!on) return; changes++; if (p->Next()>p->Previous() && !inc) { inc=true; next=p->Next(); when=toR(Mp(p->Get().CurrentTime())); } }
		else if (auto p=dynamic_cast<const SuccessfulStep<E>*>(&e)) pts.push_back(toRv(p->Get().CurrentPoint()));
	}
};
struct OPath { size_t hom; unsigned D; double tol; bool preserve; unsigned maxsteps; };
static const std::vector<OPath>& OPATHS() { static std::vector<OPath> v={{3,16,1e-5,false,100000},{3,16,1e-20,false,100000},{6,30,1e-8,false,100000},{6,16,1e-14,true,100000},{7,20,1e-25,false,100000},{7,50,1e-5,true,100000},{3,30,1e-5,false,3},{6,16,1e-18,false,4}}; return v; }
static void recorder_case(mc::Run& r,std::vector<int> const& seq,int order)
{
	DefaultPrecision(16); std::map<size_t,System> sys; for (auto const& o:OPATHS()) if (!sys.count(o.hom)) { sys[o.hom]=homs()[o.hom].make(0); sys[o.hom].precision(16); }
	AMPTracker tr(sys[OPATHS()[seq[0]].hom]); FirstPrecisionRecorder<AMPTracker> first; MinMaxPrecisionRecorder<AMPTracker> mm; PrecisionAccumulator<AMPTracker> acc; AMPPathAccumulator<AMPTracker> pa; Truth tr0; std::vector<bertini::AnyObserver*> obs={&first,&mm,&acc,&pa,&tr0};
	std::vector<unsigned> accall; std::vector<std::vector<R>> ptsall; unsigned mn=9999,mx=0;
	r.check(!first.DidPrecisionIncrease(),"recorder:first",[&]{ return "a new recorder claims that precision increased"; });
	for (size_t k=0;k<seq.size();k++)
	{
		auto const& o=OPATHS()[seq[k]]; auto const& h=homs()[o.hom]; tr0=Truth(); SteppingConfig st; st.max_num_steps=o.maxsteps; tr.SetSystem(sys[o.hom]); tr.Setup(Predictor::RKF45,o.tol,1e5,st,NewtonConfig()); prec(tr,sys[o.hom],o.preserve);
		if (o.preserve && -std::log10(o.tol)>o.D) continue;
		for (size_t q=0;q<obs.size();q++) tr.AddObserver(*obs[(q+order)%obs.size()]);
		bertini::Vec<Mp> end; DefaultPrecision(o.D); r.where("recorded path"); tr.TrackPath(end,conv<Mp>(R(1),o.D),conv<Mp>(R(0),o.D),convv<Mp>(h.paths[0](R(1)),o.D)); r.transition();
		mn=std::min(mn,tr0.mn); mx=std::max(mx,tr0.mx); accall.insert(accall.end(),tr0.all.begin(),tr0.all.end()); ptsall.insert(ptsall.end(),tr0.pts.begin(),tr0.pts.end());
		r.check(first.StartPrecision()==o.D && tr0.start==o.D,"recorder:first-start",[&]{ return "started at "+std::to_string(o.D)+" digits, recorded "+std::to_string(first.StartPrecision()); });
		r.check(first.DidPrecisionIncrease()==tr0.inc,"recorder:first",[&]{ return std::string("precision ")+(tr0.inc?"increased":"did not increase")+" but the recorder says otherwise"; });
		if (tr0.inc && first.DidPrecisionIncrease()) r.check(first.NextPrecision()==tr0.next && mag(toR(first.TimeOfIncrease())-tr0.when)<1e-15,"recorder:first-when",[&]{ return "first increase to "+std::to_string(tr0.next)+" at "+str(tr0.when,10)+", recorded "+std::to_string(first.NextPrecision())+" at "+str(toR(first.TimeOfIncrease()),10); });
		r.check(mm.MinPrecision()==mn && mm.MaxPrecision()==mx,"recorder:minmax",[&]{ return "precision between "+std::to_string(mn)+" and "+std::to_string(mx)+", recorded "+std::to_string(mm.MinPrecision())+" and "+std::to_string(mm.MaxPrecision()); });
		r.check(acc.Precisions()==accall,"recorder:accumulator",[&]{ return "recorded "+std::to_string(acc.Precisions().size())+" precisions of "+std::to_string(accall.size()); });
		bool same=pa.Path().size()==ptsall.size(); for (size_t q=0;same && q<ptsall.size();q++) same=toRv(pa.Path()[q])==ptsall[q]; r.check(same,"recorder:path",[&]{ return "recorded path differs: "+std::to_string(pa.Path().size())+" points of "+std::to_string(ptsall.size()); });
		r.outcome(tr0.inc?"precision increased":tr0.changes?"precision only decreased":"precision unchanged"); r.state("rec"+std::to_string(tr0.start)+","+std::to_string(tr0.mx)+","+std::to_string(tr0.changes));
		if (k%2) { mm.MinPrecision(9999); mm.MaxPrecision(0); mn=9999; mx=0; }
	}
}
static void P22(mc::Run& r)
{
	bool th=r.thorough(); for (int n=2;n<=(th?4:3);n++)
	{
		std::vector<std::vector<int>> orders; std::vector<int> cur; std::function<void()> go=[&]{ orders.push_back(cur); for (int i=0;i<n;i++) if (std::find(cur.begin(),cur.end(),i)==cur.end()) { cur.push_back(i); go(); cur.pop_back(); } }; go();
		int na=1+2*n; long tot=1; for (int i=0;i<n;i++) tot*=na;
		for (auto const& o:orders) for (long a=0;a<tot;a++) { std::vector<int> act; long b=a; for (int i=0;i<n;i++) { act.push_back(b%na); b/=na; } 
			r.test([&]{ std::string s="observers attached"; for (int i:o) s+=" "+std::to_string(i); s+="; actions"; for (int x:act) s+=x==0?std::string(" none"):x<=n?" remove"+std::to_string(x-1):" add"+std::to_string(x-1-n); return s; },[&]{ observer_case(r,o,act,a%2); }); }
	}
	// many observers: one of them acts on another, or all of them act
	for (int n:{5,6,8,9,12,17,33}) for (int ord=0;ord<4;ord++)
	{
		std::vector<int> o; for (int i=0;i<n;i++) { int k=ord==0?i:ord==1?n-1-i:ord==2?(2*i<n?2*i:2*(i-(n+1)/2)+1):2*i; if (k>=0 && k<n) o.push_back(k); }
		auto go=[&](std::vector<int> const& act,std::string const& what){ for (int c=0;c<2;c++) r.test([&]{ return std::to_string(n)+" observers, order "+std::to_string(ord)+", "+what+(c?", const":""); },[&]{ observer_case(r,o,act,c); }); };
		for (int i=0;i<n;i++) for (int j=0;j<2*n;j++) { if (n>9 && !th && (i+j)%5) continue; std::vector<int> act(n,0); act[i]=j+1; go(act,std::to_string(i)+(j<n?" removes ":" adds ")+std::to_string(j%n)); }
		for (int kind=0;kind<6;kind++) { std::vector<int> act(n); for (int i=0;i<n;i++) act[i]=1+(kind==0?i:kind==1?(i+1)%n:kind==2?(i+n-1)%n:kind==3?n+(i+1)%n:kind==4?(i%2?i:n+i-1+(i==0)):(i%3?n+(i*2)%n:(i*2+1)%n)); go(act,"all act, kind "+std::to_string(kind)); }
	}
	std::vector<int> seq; int depth=th?4:3; std::function<void(int)> rec=[&](int d){ if (seq.size()) for (int o=0;o<5;o++) { if (!th && seq.size()>2 && o) continue; r.test([&]{ std::string s="recorders, paths"; for (int q:seq) s+=" "+std::to_string(q); return s+" order "+std::to_string(o); },[&]{ recorder_case(r,seq,o); }); } if (!d) return; for (size_t k=0;k<OPATHS().size();k++) { seq.push_back(k); rec(d-1); seq.pop_back(); } }; rec(depth);
}

int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P20",P20},{"P21",P21},{"P22",P22}}); }
