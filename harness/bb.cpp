// Algorithms chosen at run time, user homotopies, and what is written about a solve.
#include "zdsys.hpp"
#include "bertini2/blackbox/switches_zerodim.hpp"
#include "bertini2/blackbox/user_homotopy.hpp"
using namespace bertini::blackbox;
using TD=bertini::start_system::TotalDegree; using MH=bertini::start_system::MHomogeneous; using US=bertini::start_system::User;
template<class Tr,bool ca> struct EG; template<class Tr> struct EG<Tr,true> { using T=typename EndgameSelector<Tr>::Cauchy; }; template<class Tr> struct EG<Tr,false> { using T=typename EndgameSelector<Tr>::PSEG; };

// ---------------------------------------------------------------- the algorithm asked for, and it runs
static void settings(...) {}
template<class ZD,class Tr> static void tolerances(ZD& zd) { auto e=zd.template GetFromEndgame<EndgameConfig>(); e.final_tolerance=1e-10; zd.SetToEndgame(e); }
template<class ZD,class Tr> static void drive(mc::Run& r,Soft& soft,std::string const& tag,AnyZeroDim* any,Zs const& z,int groups,bool again)
{
	auto p=dynamic_cast<ZD*>(any); r.check(p!=nullptr,tag+":type",[&]{ return std::string("the algorithm made is not the one asked for"); }); if (!p) return; auto& zd=*p; tolerances<ZD,Tr>(zd);
	for (int k=0;k<1+again;k++) { r.where(tag+" run"); any->Run(); r.transition(); r.check(zd.FinalSolutions().size()==zd.StartSystem().NumStartPoints(),tag+":run",[&]{ return "running it gave "+std::to_string(zd.FinalSolutions().size())+" endpoints for "+std::to_string(zd.StartSystem().NumStartPoints())+" paths"; }); judge<Tr>(r,soft,tag,zd,z,groups,accuracy(z,1e-10,TT<Tr>::mp),zd.template Get<PostProcessingConfig>().same_point_tolerance); }
	r.outcome("ran"); r.state(tag+std::to_string(zd.FinalSolutions().size()));
}
template<class Tr,bool ca,class St> static void made(mc::Run& r,Soft& soft,size_t s,bool dflt)
{
	using ZD=ZeroDim<Tr,typename EG<Tr,ca>::T,System,St>; auto const& z=SYS()[s]; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; DefaultPrecision(D); System S=mk(z,SN<St>::mhom,D);
	ZeroDimRT rt; if (!dflt) { rt.start=SN<St>::mhom?type::Start::MHom:type::Start::TotalDegree; rt.tracker=!TT<Tr>::mp?type::Tracker::FixedDouble:TT<Tr>::amp?type::Tracker::Adaptive:type::Tracker::FixedMultiple; rt.endgame=ca?type::Endgame::Cauchy:type::Endgame::PowerSeries; }
	std::string tag=std::string(TT<Tr>::name())+" "+(ca?"Cauchy":"power series")+" "+SN<St>::name()+(dflt?" by default":""); r.where(tag+" make"); auto p=MakeZeroDim(rt,S); r.transition();
	if (auto q=dynamic_cast<ZD*>(p.get())) if (TT<Tr>::mp) { auto c=ZeroDimConfig<typename TT<Tr>::C>(); c.initial_ambient_precision=D; q->template Set<ZeroDimConfig<typename TT<Tr>::C>>(c); }
	drive<ZD,Tr>(r,soft,tag,p.get(),z,SN<St>::mhom,s%5==0); r.check(!S.IsPatched() && S.NumHomVariables()==0 && S.NumVariables()==(size_t)z.nv,tag+":given",[&]{ return std::string("the system given was changed"); });
}
template<class Tr,bool ca,class St> static void makes(mc::Run& r) { for (size_t s=0;s<SYS().size();s++) { if (!tried<Tr,St>(SYS()[s]) || (!r.thorough() && s%(TT<Tr>::mp?9:4)!=0)) continue; r.test([&]{ return std::string("made: ")+TT<Tr>::name()+" "+(ca?"Cauchy":"power series")+" "+SN<St>::name()+": "+SYS()[s].name; },[&]{ attempts(r,[&](Soft& f){ made<Tr,ca,St>(r,f,s,false); }); }); } }
// ---------------------------------------------------------------- user homotopies
// kind 0: affine, start x_i^d_i-1 written by hand, points in doubles; 1: the same, points in multiple precision; 2: homogenised and patched, start points from the total degree start system
template<class Tr,bool ca> static void user(mc::Run& r,Soft& soft,size_t s,int kind,int form)
{
	using C=typename TT<Tr>::C; using ZD=ZeroDim<Tr,typename EG<Tr,ca>::T,System,US,bertini::policy::RefToGiven>; auto const& z=SYS()[s]; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; DefaultPrecision(D); std::string tag=std::string("user ")+TT<Tr>::name()+" "+(ca?"Cauchy":"power series")+", kind "+std::to_string(kind);
	auto v=mkvars(); VariableGroup g(v.begin(),v.begin()+z.nv); System T; T.AddVariableGroup(g); for (auto const& f:z.fns(v)) T.AddFunction(f); auto deg=T.Degrees(); System G; std::vector<std::vector<R>> pts={{}}; auto t=Variable::Make("t"); System H; std::shared_ptr<TD> td;
	if (kind<2) { G.AddVariableGroup(g); for (int i=0;i<z.nv;i++) { G.AddFunction(pow(v[i],deg[i])-1); std::vector<std::vector<R>> q; for (auto const& p:pts) for (int k=0;k<deg[i];k++) { auto w=p; w.push_back(R(exp(R(Rr(0),2*acos(Rr(-1))*k/deg[i])))); q.push_back(w); } pts=q; } }
	else { T.Homogenize(); T.AutoPatch(); td=std::make_shared<TD>(T); pts.clear(); }
	if (form&1) { T.SetEvalMethod(bertini::EvalMethod::FunctionTree); G.SetEvalMethod(bertini::EvalMethod::FunctionTree); }
	bertini::SampCont<dbl> sd; bertini::SampCont<Mp> sm; if (kind==2) for (size_t i=0;i<td->NumStartPoints();i++) sm.push_back(td->StartPoint<Mp>(i)); for (auto const& p:pts) if (kind==0) sd.push_back(convv<dbl>(p,16)); else sm.push_back(convv<Mp>(p,D));
	if (kind<2) H=(1-t)*T+bertini::node::Rational::Make("3/5","4/5")*bertini::node::Rational::Make(bertini::node::Rational::Rand())*t*G; else H=(1-t)*T+bertini::node::Rational::Make(bertini::node::Rational::Rand())*t*(*td); H.AddPathVariable(t); T.precision(D); H.precision(D);
	US U=kind==0?US(kind<2?G:static_cast<System&>(*td),sd):US(kind<2?G:static_cast<System&>(*td),sm);
	ZeroDimRT rt; rt.start=type::Start::User; rt.tracker=!TT<Tr>::mp?type::Tracker::FixedDouble:TT<Tr>::amp?type::Tracker::Adaptive:type::Tracker::FixedMultiple; rt.endgame=ca?type::Endgame::Cauchy:type::Endgame::PowerSeries; r.where(tag+" make"); auto p=MakeUserHom(rt,T,U,H); r.transition();
	if (auto q=dynamic_cast<ZD*>(p.get())) { if (TT<Tr>::mp) { auto c=ZeroDimConfig<C>(); c.initial_ambient_precision=D; q->template Set<ZeroDimConfig<C>>(c); }
		r.check(&q->TargetSystem()==&T && &q->Homotopy()==&H && &q->StartSystem()==&U,tag+":given",[&]{ return std::string("the systems used are not the ones given"); }); }
	drive<ZD,Tr>(r,soft,tag,p.get(),z,0,s%3==0); bool same=T.NumVariables()==(size_t)(z.nv+(kind==2)) && H.NumVariables()==T.NumVariables() && T.IsPatched()==(kind==2); r.check(same,tag+":given",[&]{ return std::string("the system given was changed"); });
	// half of the start points: half of the paths
	if (kind==1 && pts.size()>1) { DefaultPrecision(D); bertini::SampCont<Mp> half(sm.begin(),sm.begin()+1); US V(G,half); auto h=MakeUserHom(rt,T,V,H); if (auto q=dynamic_cast<ZD*>(h.get())) { if (TT<Tr>::mp) { auto c=ZeroDimConfig<C>(); c.initial_ambient_precision=D; q->template Set<ZeroDimConfig<C>>(c); } tolerances<ZD,Tr>(*q); h->Run(); auto full=dynamic_cast<ZD*>(p.get()); bool ok=q->FinalSolutions().size()==1; r.check(ok,tag+":some",[&]{ return "one start point gave "+std::to_string(q->FinalSolutions().size())+" endpoints"; });
		if (ok && full && q->FinalSolutionMetadata()[0].endgame_success==SuccessCode::Success && full->FinalSolutionMetadata()[0].endgame_success==SuccessCode::Success) { auto a=toRv(bertini::Vec<C>(q->FinalSolutions()[0])),b=toRv(bertini::Vec<C>(full->FinalSolutions()[0])); soft.check(dist(a,b)<accuracy(z,1e-10,TT<Tr>::mp)*(1+mag(a[0])),tag+":some",[&]{ return std::string("a path ends elsewhere when tracked alone"); }); } } }
}
static bool allfinite(Zs const& z) { int n=0; for (auto const& s:z.finite) n+=s.mult; return n==z.paths; }
template<class Tr,bool ca> static void users(mc::Run& r)
{
	for (size_t s=0;s<SYS().size();s++) for (int k=0;k<3;k++) for (int f=0;f<2;f++) { if (!r.thorough() && (s+k+3*f)%(TT<Tr>::mp?9:4)!=0) continue; if (!tried<Tr,TD>(SYS()[s]) || (k<2 && !allfinite(SYS()[s]))) continue; if (k==0 && TT<Tr>::mp && !TT<Tr>::amp) continue;
		r.test([&]{ return std::string("user homotopy: ")+TT<Tr>::name()+" "+(ca?"Cauchy":"power series")+", kind "+std::to_string(k)+", form "+std::to_string(f)+": "+SYS()[s].name; },[&]{ attempts(r,[&](Soft& g){ user<Tr,ca>(r,g,s,k,f); }); }); }
}
static void refusals(mc::Run& r)
{
	for (int k=0;k<4;k++) r.test([&]{ return "made: refused, kind "+std::to_string(k); },[&]{ DefaultPrecision(16); auto v=mkvars(); System S; S.AddVariableGroup(VariableGroup{v[0]}); Nd x=v[0]; S.AddFunction(k==2?Nd(exp(x)-1):Nd(pow(x,2)-1)); if (k==1) S.AddPathVariable(Variable::Make("t")); ZeroDimRT rt; if (k==0) rt.start=type::Start::User; if (k==3) rt.start=type::Start::MHom; bool threw=false; try { auto p=MakeZeroDim(rt,S); } catch (std::exception const&) { threw=true; } r.transition(); r.check(threw==(k<3),"refuse",[&]{ return std::string(threw?"refused":"accepted"); }); r.outcome(threw?"refused":"accepted"); r.state("refuse"+std::to_string(k)); });
}
static void P27(mc::Run& r)
{
	r.test([&]{ return std::string("made: by default"); },[&]{ attempts(r,[&](Soft& f){ made<AMPTracker,true,TD>(r,f,5,true); }); });
	makes<DoublePrecisionTracker,true,TD>(r); makes<DoublePrecisionTracker,false,TD>(r); makes<MultiplePrecisionTracker,true,TD>(r); makes<MultiplePrecisionTracker,false,TD>(r); makes<AMPTracker,true,TD>(r); makes<AMPTracker,false,TD>(r);
	makes<DoublePrecisionTracker,true,MH>(r); makes<DoublePrecisionTracker,false,MH>(r); makes<MultiplePrecisionTracker,true,MH>(r); makes<MultiplePrecisionTracker,false,MH>(r); makes<AMPTracker,true,MH>(r); makes<AMPTracker,false,MH>(r);
	users<DoublePrecisionTracker,true>(r); users<DoublePrecisionTracker,false>(r); users<MultiplePrecisionTracker,true>(r); users<MultiplePrecisionTracker,false>(r); users<AMPTracker,true>(r); users<AMPTracker,false>(r); refusals(r);
}

// ---------------------------------------------------------------- what is written about a solve
struct Reader { std::istringstream in; std::string word() { std::string s; in>>s; return s; } };
template<class C> static R number(std::string const& a,std::string const& b) { return R(Rr(a),Rr(b)); }
static bool same6(double a,std::string const& t) { std::ostringstream o; o<<a; if (o.str()==t) return true; char* e=0; double b=std::strtod(t.c_str(),&e); return *e==0 && std::abs(a-b)<=1e-5*std::abs(a); }
template<class Tr,class E,class St> static void written(mc::Run& r,size_t s,int fault)
{
	using C=typename TT<Tr>::C; using ZD=ZeroDim<Tr,E,System,St>; using Out=output::Classic<ZD>; auto const& z=SYS()[s]; unsigned D=TT<Tr>::mp&&!TT<Tr>::amp?30:16; DefaultPrecision(D); System S=mk(z,SN<St>::mhom,D); std::string tag=std::string(TT<Tr>::name())+" output";
	ZD zd(S); if (TT<Tr>::mp) { auto c=ZeroDimConfig<C>(); c.initial_ambient_precision=D; zd.template Set<ZeroDimConfig<C>>(c); } tolerances<ZD,Tr>(zd); if (fault==1) { auto st=zd.GetTracker().template Get<SteppingConfig>(); st.max_num_steps=1; zd.GetTracker().template Set<SteppingConfig>(st); }
	if (fault==2) { auto st=zd.GetTracker().template Get<SteppingConfig>(); st.max_num_steps=9; zd.GetTracker().template Set<SteppingConfig>(st); } // some paths arrive, perhaps
	zd.Solve(); r.transition(); auto const& M=zd.FinalSolutionMetadata(); auto const& F=zd.FinalSolutions(); unsigned before=bertini::DefaultPrecision();
	std::ostringstream md,rd,all; r.where("main data"); Out::MainData(md,zd); r.where("raw data"); Out::RawData(rd,zd); Out::All(all,zd); r.transition();
	auto vec=[&](Reader& q,size_t i,std::string const& k){ auto x=toRv(bertini::Vec<C>(F[i])); for (size_t j=0;j<x.size();j++) { auto a=q.word(),b=q.word(); R w=number<C>(a,b); double tol=std::pow(10.,-(double)(TT<Tr>::mp?bertini::Precision(F[i]):16)+1)*(mag(x[j])+1e-300); r.check(mag(w-x[j])<=tol,tag+":"+k+" point",[&]{ return "coordinate "+std::to_string(j)+" of path "+std::to_string(i)+" is "+str(x[j],20)+", written "+a+" "+b; }); } };
	auto field=[&](Reader& q,double v,std::string const& k,std::string const& f,size_t i){ auto w=q.word(); r.check(same6(v,w),tag+":"+k+" "+f,[&]{ return f+" of path "+std::to_string(i)+" is "+str(R(v),8)+", written "+w; }); };
	auto time=[&](Reader& q,C const& t,std::string const& k,std::string const& f,size_t i){ auto a=q.word(),b=q.word(); R w; try { w=number<C>(a,b); } catch (std::exception const&) { r.check(false,tag+":"+k+" "+f,[&]{ return f+" of path "+std::to_string(i)+" is written "+a+" "+b; }); return; } R x=toR(t); r.check(mag(w-x)<=1e-14*mag(x),tag+":"+k+" "+f,[&]{ return f+" of path "+std::to_string(i)+" is "+str(x,20)+", written "+a+" "+b; }); };
	auto text=[&](Reader& q,auto const& v,std::string const& k,std::string const& f,size_t i){ std::ostringstream o; o<<v; auto w=q.word(); r.check(o.str()==w,tag+":"+k+" "+f,[&]{ return f+" of path "+std::to_string(i)+" is "+o.str()+", written "+w; }); };
	size_t n=0; for (auto const& m:M) n+=m.endgame_success!=SuccessCode::NeverStarted;
	{
		Reader q; q.in.str(md.str()); text(q,zd.TargetSystem().NumVariables(),"main","number of variables",0); for (auto const& v:zd.TargetSystem().VariableOrdering()) text(q,*v,"main","variable",0);
		for (size_t i=0;i<M.size();i++) { auto const& m=M[i]; if (m.endgame_success==SuccessCode::NeverStarted) continue; text(q,i,"main","path",i); text(q,i,"main","solution",i); field(q,m.condition_number,"main","condition number",i); field(q,m.function_residual,"main","function residual",i); field(q,m.newton_residual,"main","newton residual",i); time(q,m.final_time_used,"main","final time",i); text(q,m.max_precision_used,"main","precision",i); if (m.precision_changed) time(q,m.time_of_first_prec_increase,"main","time of first increase",i); else { q.word(); q.word(); } field(q,m.accuracy_estimate,"main","accuracy",i); field(q,m.accuracy_estimate_user_coords,"main","accuracy in user coordinates",i); text(q,m.cycle_num,"main","cycle number",i); text(q,m.multiplicity,"main","multiplicity",i); text(q,m.pre_endgame_success,"main","code",i); text(q,m.endgame_success,"main","endgame code",i); vec(q,i,"main"); }
		std::ostringstream o; o<<zd.TargetSystem(); std::string rest; std::getline(q.in,rest,'\0'); size_t a=rest.find_first_not_of(" \n"); std::string ts=o.str(); r.check(a!=std::string::npos && rest.compare(a,ts.size(),ts)==0,tag+":main target",[&]{ return "what follows the points is not the target system: "+rest.substr(0,60); });
	}
	{
		Reader q; q.in.str(rd.str()); text(q,zd.TargetSystem().NumVariables(),"raw","number of variables",0);
		for (size_t i=0;i<M.size();i++) { auto const& m=M[i]; if (m.endgame_success==SuccessCode::NeverStarted) continue; text(q,i,"raw","path",i); text(q,bertini::Precision(F[i]),"raw","precision",i); vec(q,i,"raw"); field(q,m.function_residual,"raw","function residual",i); field(q,m.condition_number,"raw","condition number",i); field(q,m.newton_residual,"raw","newton residual",i); time(q,m.final_time_used,"raw","final time",i); field(q,m.accuracy_estimate,"raw","accuracy",i); if (m.precision_changed) time(q,m.time_of_first_prec_increase,"raw","time of first increase",i); else { q.word(); q.word(); } text(q,m.cycle_num,"raw","cycle number",i); text(q,m.endgame_success,"raw","endgame code",i); }
		std::ostringstream o; o<<zd.TargetSystem(); std::string rest; std::getline(q.in,rest,'\0'); size_t a=rest.find_first_not_of(" \n"); std::string ts=o.str(); r.check(a!=std::string::npos && rest.compare(a,ts.size(),ts)==0,tag+":raw target",[&]{ return "what follows the points is not the target system: "+rest.substr(0,60); });
	}
	r.check(all.str().find(md.str())!=std::string::npos && all.str().find(rd.str())!=std::string::npos,tag+":all",[&]{ return std::string("main and raw data are not part of everything"); });
	for (size_t i=0;i<M.size();i++) if (M[i].endgame_success!=SuccessCode::NeverStarted) { std::ostringstream o; Out::EndPointDehom(i,o,zd); Reader q; q.in.str(o.str()); auto x=toRv(bertini::Vec<C>(zd.TargetSystem().DehomogenizePoint(F[i]))); for (size_t j=0;j<x.size();j++) { auto a=q.word(),b=q.word(); if (!std::isfinite(mag(x[j]))) break; R w=number<C>(a,b); r.check(mag(w-x[j])<=1e-14*(mag(x[j])+1e-300),tag+":user point",[&]{ return "user coordinate "+std::to_string(j)+" of path "+std::to_string(i)+" is "+str(x[j],20)+", written "+a+" "+b; }); } r.check(q.word().empty(),tag+":user point",[&]{ return std::string("more than the coordinates is written"); }); }
	r.outcome(n==M.size()?"all paths written":n?"some paths written":"no path written"); r.state(tag+std::to_string(n)+","+std::to_string(M.size())+std::to_string(z.nv));
}
template<class Tr,class E,class St> static void writtens(mc::Run& r) { for (size_t s=0;s<SYS().size();s++) for (int f=0;f<3;f++) { if (!tried<Tr,St>(SYS()[s]) || (!r.thorough() && TT<Tr>::mp && s%3)) continue; r.test([&]{ return std::string("output: ")+TT<Tr>::name()+" "+SN<St>::name()+": "+SYS()[s].name+", situation "+std::to_string(f); },[&]{ written<Tr,E,St>(r,s,f); }); } }
static void P28(mc::Run& r) { writtens<DoublePrecisionTracker,EG<DoublePrecisionTracker,true>::T,TD>(r); writtens<AMPTracker,EG<AMPTracker,true>::T,TD>(r); writtens<AMPTracker,EG<AMPTracker,false>::T,MH>(r); writtens<MultiplePrecisionTracker,EG<MultiplePrecisionTracker,true>::T,TD>(r); }
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P27",P27},{"P28",P28}}); }
