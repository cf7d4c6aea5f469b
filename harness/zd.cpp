// Zero-dimensional solving: every isolated solution of a polynomial system, from systems whose solutions are known.
#include "zdsys.hpp"
// what the endgame announced last, path by path
struct Last { double err=-1,user=-1; unsigned cycle=0; R time; std::vector<R> x; };
template<class E,class C> struct Ears : public bertini::Observer<E>
{
	std::vector<Last> per; Last cur; System const* S=nullptr; int approx=0;
	void Observe(bertini::AnyEvent const& e) override
	{
		if (auto p=dynamic_cast<const ApproximatedRoot<E>*>(&e)) { auto const& g=p->Get(); approx++; cur.err=g.ApproximateError(); cur.cycle=g.CycleNumber(); cur.time=toR(C(g.LatestTime())); cur.x=toRv(g.template FinalApproximation<C>()); bertini::Vec<C> a=g.template FinalApproximation<C>(),b=g.template PreviousApproximation<C>(); cur.user=static_cast<double>((S->DehomogenizePoint(a)-S->DehomogenizePoint(b)).template lpNorm<Eigen::Infinity>()); }
	}
};
template<class Tr,class E,class St> static void prepare(ZeroDim<Tr,E,System,St>& zd,Case const& c)
{
	using C=typename TT<Tr>::C; using ZC=ZeroDimConfig<C>;
	if (c.settings&1) zd.DefaultSetup();
	if (TT<Tr>::mp) { auto q=ZC(); q.initial_ambient_precision=c.D; zd.template Set<ZC>(q); }
	if (c.settings&2) { auto t=zd.template Get<TolerancesConfig>(); t.newton_before_endgame=1e-6; t.newton_during_endgame=1e-7; zd.template Set<TolerancesConfig>(t); }
	if (c.settings&4) { auto q=zd.template Get<ZC>(); q.endgame_boundary=conv<C>(Rq(1,16),c.D); zd.template Set<ZC>(q); }
	if (c.settings&8) zd.GetTracker().SetPredictor(Predictor::RK4);
	auto e=zd.template GetFromEndgame<EndgameConfig>(); e.final_tolerance=c.tol; zd.SetToEndgame(e);
}
template<class Tr,class E,class St> static void solve_case(mc::Run& r,Soft& soft,Case const& c)
{
	using C=typename TT<Tr>::C; using ZD=ZeroDim<Tr,E,System,St>; auto const& z=SYS()[c.s]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" "+SN<St>::name(); DefaultPrecision(c.D); System S=mk(z,c.groups,c.D); 
	ZD zd(S); prepare(zd,c); r.where(tag+" solve"); zd.Solve(); r.transition(); double acc=accuracy(z,c.tol,TT<Tr>::mp); double same=zd.template Get<PostProcessingConfig>().same_point_tolerance;
	judge<Tr>(r,soft,tag,zd,z,c.groups,acc,same);
	r.state(tag+std::to_string(c.s)+std::to_string(zd.FinalSolutions().size())); r.outcome("solved");
}
static bool singular(Zs const& z) { for (auto const& s:z.finite) if (s.mult>1) return true; return false; }
static std::string show(Case const& c) { return SYS()[c.s].name+(c.groups?", separate groups":"")+", tolerance "+str(R(c.tol),3)+", "+std::to_string(c.D)+" digits, settings "+std::to_string(c.settings); }
template<class Tr,class E,class St> static void solves(mc::Run& r)
{
	bool th=r.thorough(); std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+" "+SN<St>::name()+": "; unsigned D0=TT<Tr>::mp&&!TT<Tr>::amp?30:16;
	for (size_t s=0;s<SYS().size();s++) for (int g=0;g<2;g++) for (double tol:{1e-10,1e-8}) for (unsigned D:{16u,30u}) for (int st=0;st<16;st++)
	{
		bool wd=wide(SYS()[s]); if (g!=SN<St>::mhom || !tried<Tr,St>(SYS()[s])) continue; if (!TT<Tr>::mp && D!=16) continue; if (TT<Tr>::mp && !TT<Tr>::amp && D==16) continue; if (!TT<Tr>::mp && (st&2) && singular(SYS()[s])) continue; // too much to ask of doubles
		int dev=(tol!=1e-10)+(D!=D0)+((st&1)!=0)+((st&2)!=0)+((st&4)!=0)+((st&8)!=0); if (dev>(th?2:1)) continue; if (!th && dev && (s+(st?st:tol!=1e-10?3:5))%4) continue; if (!th && TT<Tr>::mp && s%2) continue; if (!th && wd && dev) continue;
		Case c{s,g,tol,D,st}; r.test([&]{ return n+show(c); },[&]{ attempts(r,[&](Soft& s){ solve_case<Tr,E,St>(r,s,c); }); });
	}
}

// ---------------------------------------------------------------- what a solve reports about each path, against what was observed while it ran
template<class Tr,class E,class St> static void metadata_case(mc::Run& r,Soft& soft,Case const& c,int fault)
{
	using C=typename TT<Tr>::C; using ZD=ZeroDim<Tr,E,System,St>; auto const& z=SYS()[c.s]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" metadata"; DefaultPrecision(c.D); System S=mk(z,c.groups,c.D);
	ZD zd(S); prepare(zd,c); Ears<E,C> ears; ears.S=&zd.TargetSystem(); zd.GetEndgame().AddObserver(ears);
	if (fault==1) { auto st=zd.GetTracker().template Get<SteppingConfig>(); st.max_num_steps=1; zd.GetTracker().template Set<SteppingConfig>(st); } // no path arrives
	if (fault==2) { auto e=zd.template GetFromEndgame<EndgameConfig>(); e.min_track_time=0.05; zd.SetToEndgame(e); } // no endgame succeeds, unless it converges at once
	if (fault==3) { auto p=zd.template Get<PostProcessingConfig>(); p.same_point_tolerance=1e12; zd.template Set<PostProcessingConfig>(p); } // everything is the same point
	if (fault==4) zd.SetMidpath([]{ MidPathConfig m; m.same_point_tolerance=1e-30; return m; }()); // nothing crosses
	if (fault==5) zd.SetMidpath([]{ MidPathConfig m; m.same_point_tolerance=1e3; return m; }()); // everything crosses: all paths are tracked again, twice
	r.where(tag+" solve"); zd.Solve(); r.transition(); auto const& M=zd.FinalSolutionMetadata(); auto const& F=zd.FinalSolutions(); size_t n=zd.StartSystem().NumStartPoints(); double same=zd.template Get<PostProcessingConfig>().same_point_tolerance;
	if (fault==0 || fault>=3) judge<Tr>(r,soft,tag,zd,z,c.groups,accuracy(z,c.tol,TT<Tr>::mp),same);
	else { auto all=output::AllSolutions::Extract(zd); auto ns=output::NonsingularSolutions::Extract(zd); size_t ran=0,good=0; for (auto const& m:M) { ran+=m.endgame_success!=SuccessCode::NeverStarted; good+=m.endgame_success==SuccessCode::Success; } r.check(all.size()==ran && ns.size()<=good,tag+":extract",[&]{ return std::to_string(all.size())+" solutions extracted of "+std::to_string(ran); }); }
	r.check(M.size()==n && F.size()==n,tag+":sizes",[&]{ return std::string("not one entry for each path"); }); if (M.size()!=n || F.size()!=n) return;
	size_t succ=0; for (size_t i=0;i<n;i++)
	{
		auto const& m=M[i]; r.check(m.path_index==i && m.solution_index==i,tag+":index",[&]{ return "path "+std::to_string(i)+" is labelled "+std::to_string(m.path_index); });
		if (fault==1) r.check(m.pre_endgame_success==SuccessCode::MaxNumStepsTaken && m.endgame_success==SuccessCode::NeverStarted,tag+":codes",[&]{ return "path "+std::to_string(i)+" could not be tracked, and has codes "+code(m.pre_endgame_success)+", "+code(m.endgame_success); });
		if (fault==2) soft.check(m.pre_endgame_success==SuccessCode::Success && (m.endgame_success==SuccessCode::MinTrackTimeReached || m.endgame_success==SuccessCode::Success),tag+":codes",[&]{ return "path "+std::to_string(i)+" has codes "+code(m.pre_endgame_success)+", "+code(m.endgame_success); });
		if (m.endgame_success!=SuccessCode::Success) { r.check(m.multiplicity==1,tag+":multiplicity",[&]{ return "a failed path has multiplicity "+std::to_string(m.multiplicity); }); continue; } succ++;
		r.check(m.accuracy_estimate>=0 && m.accuracy_estimate<=c.tol,tag+":accuracy",[&]{ return "path "+std::to_string(i)+" succeeded with accuracy "+str(R(m.accuracy_estimate),6); });
		r.check(m.cycle_num>=1,tag+":cycle",[&]{ return "path "+std::to_string(i)+" succeeded with cycle number 0"; });
		R ft=toR(C(m.final_time_used)); R bd=toR(C(zd.template Get<ZeroDimConfig<C>>().endgame_boundary)); r.check(mag(ft)>0 && mag(ft)<mag(bd) && std::abs(static_cast<double>(Rr((ft/bd).imag())))<1e-12,tag+":time",[&]{ return "path "+std::to_string(i)+" used time "+str(ft,8); });
		soft.check(std::isfinite(m.newton_residual) && m.newton_residual>=0 && m.newton_residual<1e-3,tag+":newton",[&]{ return "path "+std::to_string(i)+" has newton residual "+str(R(m.newton_residual),6); });
		r.check(std::isfinite(m.condition_number) && m.condition_number>=0.5,tag+":condition",[&]{ return "path "+std::to_string(i)+" has condition number "+str(R(m.condition_number),6); });
		if (TT<Tr>::amp) { r.check(m.max_precision_used>=16 && m.max_precision_used>=bertini::Precision(F[i]) ,tag+":precision",[&]{ return "path "+std::to_string(i)+" used "+std::to_string(m.max_precision_used)+" digits, the solution has "+std::to_string(bertini::Precision(F[i])); }); r.check(!m.precision_changed || m.max_precision_used>16,tag+":precision",[&]{ return "the precision of path "+std::to_string(i)+" increased, at most 16 digits"; }); }
		if (fault==3) { int k=0; for (auto const& q:M) k+=q.endgame_success==SuccessCode::Success; r.check(m.multiplicity==k,tag+":multiplicity",[&]{ return "multiplicity "+std::to_string(m.multiplicity)+" of "+std::to_string(k); }); }
	}
	// the last endgame run, as it was observed, is the last successful path's
	if (succ && M[n-1].endgame_success==SuccessCode::Success)
	{
		auto const& m=M[n-1]; auto const& L=ears.cur; r.check(m.accuracy_estimate==L.err && m.cycle_num==L.cycle && toR(C(m.final_time_used))==L.time && dist(toRv(bertini::Vec<C>(F[n-1])),L.x)==0,tag+":last",[&]{ return "accuracy "+str(R(m.accuracy_estimate),6)+", observed "+str(R(L.err),6)+"; cycle number "+std::to_string(m.cycle_num)+", observed "+std::to_string(L.cycle); });
		r.check(std::abs(m.accuracy_estimate_user_coords-L.user)<=1e-6*L.user+(TT<Tr>::mp?1e-15:1e-14),tag+":user",[&]{ return "accuracy in user coordinates "+str(R(m.accuracy_estimate_user_coords),6)+", observed "+str(R(L.user),6); });
	}
	r.state(tag+std::to_string(c.s)+std::to_string(fault)+std::to_string(succ)); r.outcome(succ==n?"all paths succeeded":succ?"some paths succeeded":"no path succeeded");
}
template<class Tr,class E,class St> static void metadatas(mc::Run& r)
{
	bool th=r.thorough(); std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+" "+SN<St>::name()+" metadata: "; unsigned D0=TT<Tr>::mp&&!TT<Tr>::amp?30:16; static const char* F[]={"","no path arrives","endgames stopped early","all one point","nothing crosses","everything crosses"};
	for (size_t s=0;s<SYS().size();s++) { if (!th && s%(TT<Tr>::mp?7:3)) continue; if (!tried<Tr,St>(SYS()[s])) continue; for (int f=0;f<6;f++) { if (f==5 && SYS()[s].paths==1) continue; Case c{s,SN<St>::mhom,1e-10,D0,0}; r.test([&]{ return n+SYS()[s].name+", "+F[f]; },[&]{ attempts(r,[&](Soft& s){ metadata_case<Tr,E,St>(r,s,c,f); }); }); } }
}

// ---------------------------------------------------------------- one solver used again and again
static const std::vector<std::string>& OPS() { static std::vector<std::string> v={"solve","set up again","solve with one step","solve, endgames stopped early","tolerances 1e-6, 1e-7","boundary 1/16","loose same-point tolerance","defaults"}; return v; }
template<class Tr,class E,class St> static void history(mc::Run& r,Soft& soft,size_t s,std::vector<int> const& ops)
{
	using C=typename TT<Tr>::C; using ZD=ZeroDim<Tr,E,System,St>; auto const& z=SYS()[s]; std::string tag=std::string(TT<Tr>::name())+" "+ET<E>::name()+" again"; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; DefaultPrecision(D); System S=mk(z,SN<St>::mhom,D); Case c{s,SN<St>::mhom,1e-10,D,0};
	ZD zd(S); prepare(zd,c); double same=1e-10; auto good=[&]{ zd.Solve(); r.transition(); judge<Tr>(r,soft,tag,zd,z,c.groups,accuracy(z,c.tol,TT<Tr>::mp),same); };
	for (int o:ops)
	{
		r.where(tag+": "+OPS()[o]); auto st=zd.GetTracker().template Get<SteppingConfig>(); auto e=zd.template GetFromEndgame<EndgameConfig>(); using ZC=ZeroDimConfig<C>; DefaultPrecision(D);
		if (o==0) good(); else if (o==1) { zd.DefaultSetup(); same=1e-10; prepare(zd,c); }
		else if (o==2) { auto k=st; k.max_num_steps=1; zd.GetTracker().template Set<SteppingConfig>(k); zd.Solve(); r.transition(); for (auto const& m:zd.FinalSolutionMetadata()) r.check(m.pre_endgame_success!=SuccessCode::Success && m.endgame_success==SuccessCode::NeverStarted,tag+":stale",[&]{ return "a path that was not tracked has codes "+code(m.pre_endgame_success)+", "+code(m.endgame_success); }); r.check(output::AllSolutions::Extract(zd).empty() && output::NonsingularSolutions::Extract(zd).empty(),tag+":stale",[&]{ return std::string("solutions extracted from paths that were not tracked"); }); zd.GetTracker().template Set<SteppingConfig>(st); }
		else if (o==3) { auto k=e; k.min_track_time=0.09; zd.SetToEndgame(k); zd.Solve(); r.transition(); for (auto const& m:zd.FinalSolutionMetadata()) soft.check(m.pre_endgame_success==SuccessCode::Success && m.endgame_success==SuccessCode::MinTrackTimeReached && m.multiplicity==1,tag+":stale",[&]{ return "a path whose endgame was stopped has codes "+code(m.pre_endgame_success)+", "+code(m.endgame_success)+", multiplicity "+std::to_string(m.multiplicity); }); zd.SetToEndgame(e); }
		else if (o==4) { auto t=zd.template Get<TolerancesConfig>(); t.newton_before_endgame=1e-6; t.newton_during_endgame=1e-7; zd.template Set<TolerancesConfig>(t); }
		else if (o==5) { auto q=zd.template Get<ZC>(); q.endgame_boundary=conv<C>(Rq(1,16),D); zd.template Set<ZC>(q); }
		else if (o==6) { same=1e-5; auto p=zd.template Get<PostProcessingConfig>(); p.same_point_tolerance=same; zd.template Set<PostProcessingConfig>(p); }
		else { zd.template Set<TolerancesConfig>(TolerancesConfig()); auto q=ZC(); q.initial_ambient_precision=D; zd.template Set<ZC>(q); zd.template Set<PostProcessingConfig>(PostProcessingConfig()); same=1e-10; }
	}
	r.where(tag+": last solve"); good(); r.state(tag+std::to_string(s)+std::to_string(ops.size())+(ops.empty()?"":OPS()[ops.back()])); r.outcome("solved again");
}
template<class Tr,class E,class St> static void histories(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+" "+SN<St>::name()+" again: "; int A=OPS().size(); int depth=r.thorough()?3:2; std::vector<std::vector<int>> H={{}}; for (size_t k=0;k<H.size();k++) if ((int)H[k].size()<depth) for (int o=0;o<A;o++) { auto h=H[k]; h.push_back(o); H.push_back(h); }
	std::vector<std::string> pick={"xy-2, x^2+y^2-5","roots 012","xy-1, x-y"}; if (!TT<Tr>::mp) pick.push_back("xy-1, x^2-1"); for (size_t s=0;s<SYS().size();s++) { if (std::find(pick.begin(),pick.end(),SYS()[s].name)==pick.end()) continue; if (r.thorough() && TT<Tr>::mp && SYS()[s].name!="xy-1, x-y") continue; for (auto const& h:H) r.test([&]{ std::string t=n+SYS()[s].name+":"; for (int o:h) t+=" "+OPS()[o]+","; return t; },[&]{ attempts(r,[&](Soft& f){ history<Tr,E,St>(r,f,s,h); }); }); }
}
// ---------------------------------------------------------------- what cannot be solved is refused
template<class Tr,class E> static void refusals(mc::Run& r)
{
	std::string n=std::string(TT<Tr>::name())+" "+ET<E>::name()+" refuse: "; static const char* K[]={"path variable","underdetermined","not polynomial in the first function","not polynomial in the second function","not polynomial, nested","square after all"};
	for (int k=0;k<6;k++) r.test([&]{ return n+K[k]; },[&]{
		unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; DefaultPrecision(D); auto v=mkvars(); System S; S.AddVariableGroup(VariableGroup{v[0],v[1]}); auto t=Variable::Make("t"); Nd x=v[0],y=v[1];
		if (k==0) { S.AddFunction(x*y-1+0*t); S.AddFunction(x-y); S.AddPathVariable(t); } else if (k==1) S.AddFunction(x*y-1); else if (k==2) { S.AddFunction(exp(x)-1); S.AddFunction(x-y); } else if (k==3) { S.AddFunction(x-y); S.AddFunction(sin(y)+x); } else if (k==4) { S.AddFunction(x-y); S.AddFunction(pow(x,2)+y/x-1); } else { S.AddFunction(x*y-1); S.AddFunction(x-y); }
		S.precision(D); bool threw=false; r.where("construct"); try { ZeroDim<Tr,E,System,bertini::start_system::TotalDegree> zd(S); } catch (std::exception const&) { threw=true; } r.transition(); r.check(threw==(k<5),"refuse:"+std::string(K[k]),[&]{ return std::string(threw?"a system that can be solved was refused":"a system that cannot be solved was accepted"); }); r.outcome(threw?"refused":"accepted"); r.state(n+K[k]); });
}
using TD=bertini::start_system::TotalDegree; using MH=bertini::start_system::MHomogeneous;
using DPS=EndgameSelector<DoublePrecisionTracker>::PSEG; using DCA=EndgameSelector<DoublePrecisionTracker>::Cauchy; using MPS=EndgameSelector<MultiplePrecisionTracker>::PSEG; using MCA=EndgameSelector<MultiplePrecisionTracker>::Cauchy; using APS=EndgameSelector<AMPTracker>::PSEG; using ACA=EndgameSelector<AMPTracker>::Cauchy;
static void P25(mc::Run& r)
{
	solves<DoublePrecisionTracker,DCA,TD>(r); solves<DoublePrecisionTracker,DPS,TD>(r); solves<DoublePrecisionTracker,DCA,MH>(r);
	solves<AMPTracker,ACA,TD>(r); solves<AMPTracker,APS,TD>(r); solves<AMPTracker,ACA,MH>(r);
	solves<MultiplePrecisionTracker,MCA,TD>(r); solves<MultiplePrecisionTracker,MPS,TD>(r);
	refusals<DoublePrecisionTracker,DCA>(r); refusals<AMPTracker,APS>(r);
}
static void P26(mc::Run& r)
{
	metadatas<DoublePrecisionTracker,DCA,TD>(r); metadatas<DoublePrecisionTracker,DPS,TD>(r); metadatas<DoublePrecisionTracker,DCA,MH>(r); metadatas<AMPTracker,ACA,TD>(r); metadatas<AMPTracker,APS,TD>(r); metadatas<MultiplePrecisionTracker,MCA,TD>(r);
	histories<DoublePrecisionTracker,DCA,TD>(r); histories<DoublePrecisionTracker,DPS,TD>(r); histories<DoublePrecisionTracker,DCA,MH>(r); histories<AMPTracker,ACA,TD>(r);
}
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P25",P25},{"P26",P26}}); }
