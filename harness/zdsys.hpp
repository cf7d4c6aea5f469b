// Polynomial systems whose solutions are known, and the judgement of a zero-dimensional solve of one.
#pragma once
#include "hom.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/endgames.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include "bertini2/nag_algorithms/output.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace ref;
using namespace bertini::tracking;
using namespace bertini::endgame;
using namespace bertini::algorithm;
using bertini::SuccessCode; using bertini::mpq_rational;
using Nd=std::shared_ptr<bertini::node::Node>;
using bertini::node::Rational; using bertini::node::Integer;
static std::string code(SuccessCode c) { return std::to_string((int)c); }
template<class Tr> struct TT;
template<> struct TT<DoublePrecisionTracker> { static const char* name() { return "double"; } using C=dbl; enum { mp=0, amp=0 }; };
template<> struct TT<MultiplePrecisionTracker> { static const char* name() { return "multiple"; } using C=Mp; enum { mp=1, amp=0 }; };
template<> struct TT<AMPTracker> { static const char* name() { return "adaptive"; } using C=Mp; enum { mp=1, amp=1 }; };
template<class E> struct ET { static const char* name() { return "power series"; } };
template<class P> struct ET<CauchyEndgame<P>> { static const char* name() { return "Cauchy"; } };
template<class S> struct SN { static const char* name() { return "total degree"; } enum { mhom=0 }; };
template<> struct SN<bertini::start_system::MHomogeneous> { static const char* name() { return "multihomogeneous"; } enum { mhom=1 }; };

// ---------------------------------------------------------------- systems with known solutions
struct Soln { std::vector<R> x; int mult; };
struct Zs { std::string name; int nv; std::function<std::vector<Nd>(std::vector<Var> const&)> fns; std::vector<Soln> finite; int paths; };
struct Num { const char* re; const char* im; R v; Nd node() const { return Rational::Make(re,im); } };
static const std::vector<Num>& NUMS() { static std::vector<Num> v={{"0","0",R(0)},{"1","0",R(1)},{"-2","0",R(-2)},{"0","1/2",Rc(0,1,1,2)},{"3/2","-1",Rc(3,2,-1,1)}}; return v; }
static std::vector<Soln> count(std::vector<std::vector<R>> v) { std::vector<Soln> s; for (auto const& x:v) { bool f=false; for (auto& y:s) if (dist(x,y.x)==0) { y.mult++; f=true; } if (!f) s.push_back({x,1}); } return s; }
static const std::vector<Zs>& SYS()
{
	static std::vector<Zs> Z; if (!Z.empty()) return Z; using P=std::vector<R>; using N=std::vector<Nd>; using V=std::vector<Var>; auto const& U=NUMS(); int n=U.size();
	// one variable, all multisets of up to three roots, multiplied out or not
	for (int a=0;a<n;a++) Z.push_back({"roots "+std::to_string(a),1,[a](V const& v){ return N{v[0]-NUMS()[a].node()}; },count({{U[a].v}}),1});
	for (int a=0;a<n;a++) for (int b=a;b<n;b++) { Z.push_back({"roots "+std::to_string(a)+std::to_string(b),1,[a,b](V const& v){ return N{(v[0]-NUMS()[a].node())*(v[0]-NUMS()[b].node())}; },count({{U[a].v},{U[b].v}}),2}); Z.push_back({"roots "+std::to_string(a)+std::to_string(b)+" multiplied out",1,[a,b](V const& v){ Nd A=NUMS()[a].node(),B=NUMS()[b].node(); return N{pow(v[0],2)-(A+B)*v[0]+A*B}; },count({{U[a].v},{U[b].v}}),2}); }
	for (int a=0;a<n;a++) for (int b=a;b<n;b++) for (int c=b;c<n;c++) Z.push_back({"roots "+std::to_string(a)+std::to_string(b)+std::to_string(c),1,[a,b,c](V const& v){ Nd A=NUMS()[a].node(),B=NUMS()[b].node(),C=NUMS()[c].node(); return N{pow(v[0],3)-(A+B+C)*pow(v[0],2)+(A*B+A*C+B*C)*v[0]-A*B*C}; },count({{U[a].v},{U[b].v},{U[c].v}}),3});
	// two variables
	for (int a=0;a<n;a++) for (int b=0;b<n;b++) Z.push_back({"linear, solution "+std::to_string(a)+std::to_string(b),2,[a,b](V const& v){ Nd A=NUMS()[a].node(),B=NUMS()[b].node(); return N{v[0]+v[1]-(A+B),2*v[0]-v[1]-(2*A-B)}; },count({{U[a].v,U[b].v}}),1});
	for (int a=0;a<n;a++) for (int b=a;b<n;b++) for (int c=0;c<n;c+=2) for (int d=c;d<n;d+=2) Z.push_back({"grid "+std::to_string(a)+std::to_string(b)+" x "+std::to_string(c)+std::to_string(d),2,[a,b,c,d](V const& v){ Nd A=NUMS()[a].node(),B=NUMS()[b].node(),C=NUMS()[c].node(),D=NUMS()[d].node(); return N{(v[0]-A)*(v[0]-B),(v[1]-C)*(v[1]-D)}; },count({{U[a].v,U[c].v},{U[a].v,U[d].v},{U[b].v,U[c].v},{U[b].v,U[d].v}}),4});
	Z.push_back({"xy-2, x^2+y^2-5",2,[](V const& v){ return N{v[0]*v[1]-2,pow(v[0],2)+pow(v[1],2)-5}; },count({{R(1),R(2)},{R(2),R(1)},{R(-1),R(-2)},{R(-2),R(-1)}}),4});
	{ R w=Rc(-1,2,0,1)+R(Rr(0),sqrt(Rr(3))/2); Z.push_back({"x^2-y, y^2-x",2,[](V const& v){ return N{pow(v[0],2)-v[1],pow(v[1],2)-v[0]}; },count({{R(0),R(0)},{R(1),R(1)},{w,w*w},{w*w,w}}),4}); }
	Z.push_back({"xy-1, x-y",2,[](V const& v){ return N{v[0]*v[1]-1,v[0]-v[1]}; },count({{R(1),R(1)},{R(-1),R(-1)}}),2});
	Z.push_back({"xy-1, x^2-1",2,[](V const& v){ return N{v[0]*v[1]-1,pow(v[0],2)-1}; },count({{R(1),R(1)},{R(-1),R(-1)}}),4});
	Z.push_back({"xy, x+y-1",2,[](V const& v){ return N{v[0]*v[1],v[0]+v[1]-1}; },count({{R(0),R(1)},{R(1),R(0)}}),2});
	Z.push_back({"x^2, y-1",2,[](V const& v){ return N{pow(v[0],2),v[1]-1}; },count({{R(0),R(1)},{R(0),R(1)}}),2});
	Z.push_back({"y-x^2, y",2,[](V const& v){ return N{v[1]-pow(v[0],2),Nd(v[1])}; },count({{R(0),R(0)},{R(0),R(0)}}),2});
	Z.push_back({"y-x^2, y-2x+1",2,[](V const& v){ return N{v[1]-pow(v[0],2),v[1]-2*v[0]+1}; },count({{R(1),R(1)},{R(1),R(1)}}),2});
	Z.push_back({"x^3-1... x^3-x, y-x^2",2,[](V const& v){ return N{pow(v[0],3)-v[0],v[1]-pow(v[0],2)}; },count({{R(0),R(0)},{R(1),R(1)},{R(-1),R(1)}}),6});
	Z.push_back({"(x-1)^3, y+2",2,[](V const& v){ return N{pow(v[0]-1,3),v[1]+2}; },count({{R(1),R(-2)},{R(1),R(-2)},{R(1),R(-2)}}),3});
	Z.push_back({"xy-y, x+y-3",2,[](V const& v){ return N{v[0]*v[1]-v[1],v[0]+v[1]-3}; },count({{R(3),R(0)},{R(1),R(2)}}),2});
	Z.push_back({"x-1, xy-1",2,[](V const& v){ return N{v[0]-1,v[0]*v[1]-1}; },count({{R(1),R(1)}}),2});
	Z.push_back({"xy-1, xy-x",2,[](V const& v){ return N{v[0]*v[1]-1,v[0]*v[1]-v[0]}; },count({{R(1),R(1)}}),4});
	// three variables
	Z.push_back({"linear in three",3,[](V const& v){ return N{v[0]+v[1]+v[2]-6,v[0]-v[1]+1,v[1]+2*v[2]-8}; },count({{R(1),R(2),R(3)}}),1});
	Z.push_back({"x^2-1, xy-1, z-xy-x",3,[](V const& v){ return N{pow(v[0],2)-1,v[0]-v[1],v[2]-v[0]*v[1]-v[0]}; },count({{R(1),R(1),R(2)},{R(-1),R(-1),R(0)}}),4});
	Z.push_back({"x^2-4, y^2-1, x+y+z",3,[](V const& v){ return N{pow(v[0],2)-4,pow(v[1],2)-1,v[0]+v[1]+v[2]}; },count({{R(2),R(1),R(-3)},{R(2),R(-1),R(-1)},{R(-2),R(1),R(1)},{R(-2),R(-1),R(3)}}),4});
	// many paths, many variables
	auto cis=[](int k,int d){ Rr a=Rr(2*k)*boost::math::constants::pi<Rr>()/Rr(d); return R(cos(a),sin(a)); };
	for (int d:{6,11,20}) { std::vector<P> s; for (int k=0;k<d;k++) s.push_back({cis(k,d)}); Z.push_back({"x^"+std::to_string(d)+"-1",1,[d](V const& v){ return N{pow(v[0],d)-1}; },count(s),d}); }
	for (int m:{5,8,12}) { P x; for (int k=0;k<m;k++) x.push_back(U[k%n].v+R(k/n)); Z.push_back({"linear in "+std::to_string(m),m,[m](V const& v){ N f; for (int i=0;i<m;i++) { Nd e=v[i]-(NUMS()[i%NUMS().size()].node()+(int)(i/NUMS().size())); for (int k=0;k<i;k++) e=e+((i*k)%3-1)*(v[k]-(NUMS()[k%NUMS().size()].node()+(int)(k/NUMS().size()))); f.push_back(e); } return f; },count({x}),1}); }
	for (int m:{3,4,5,6}) // squares, every function a combination of several
	{
		std::vector<P> s={{}}; for (int k=0;k<m;k++) { std::vector<P> q; for (auto const& x:s) for (int sg:{1,-1}) { auto y=x; y.push_back(R(sg*(k%3+1))*(k%2?R(Rr(0),Rr(1)):R(1))); q.push_back(y); } s=q; }
		Z.push_back({"mixed squares in "+std::to_string(m),m,[m](V const& v){ N q,f; for (int k=0;k<m;k++) q.push_back(pow(v[k],2)-(k%2?-1:1)*(k%3+1)*(k%3+1)); for (int i=0;i<m;i++) { Nd e=q[i]; for (int k=0;k<i;k++) e=e+((i*k)%3-1)*q[k]; f.push_back(e); } return f; },count(s),1<<m});
	}
	return Z;
}
static const int WIDE_FROM=4; // systems with that many variables are tried with one group and few settings
static bool wide(Zs const& z) { return z.nv>=WIDE_FROM || z.paths>9; }
template<class Tr,class St> static bool tried(Zs const& z) // which systems go with which tracker and start system
{
	if (SN<St>::mhom) return !wide(z) && z.name!="mixed squares in 3"; // a random start system of high degree differs too much in size from the target for the endgame to begin where it does
	return !TT<Tr>::mp || z.paths<=20;
}
struct Case { size_t s; int groups; double tol; unsigned D; int settings; };
static std::vector<Var> mkvars() { std::vector<Var> v={Variable::Make("x"),Variable::Make("y"),Variable::Make("z")}; for (int k=3;k<12;k++) v.push_back(Variable::Make("w"+std::to_string(k))); return v; }
static System mk(Zs const& z,int groups,unsigned D)
{
	auto v=mkvars(); System S; if (groups==0) S.AddVariableGroup(VariableGroup(v.begin(),v.begin()+z.nv)); else for (int i=0;i<z.nv;i++) S.AddVariableGroup(VariableGroup{v[i]});
	for (auto const& f:z.fns(v)) S.AddFunction(f); S.precision(D); return S;
}
// The constants of the homotopy are random, and the solver is only expected to work for generic ones: with unlucky
// constants (two branch points inside the last circle, a nearly singular path) the endgame can be misled.  What
// depends on them is therefore "soft": a case is tried with fresh constants, and only one that fails for TRIES
// independent choices is a violation.  Everything else is checked on every attempt.
static const int TRIES=4;
struct Soft { mc::Run& r; bool last; int bad=0; template<class F> void check(bool ok,std::string const& key,F const& msg) { if (ok) { r.check(true,key,msg); return; } bad++; if (last) r.check(false,key,[&]{ return msg()+" (so it was for "+std::to_string(TRIES)+" choices of the random constants)"; }); } };
template<class F> static void attempts(mc::Run& r,F const& f) { for (int k=0;k<TRIES;k++) { Soft s{r,k+1==TRIES}; f(s); if (!s.bad) { if (k) r.outcome("unlucky random constants, solved with others"); return; } } }
template<class Tr,class ZD> static void judge(mc::Run& r,Soft& soft,std::string const& tag,ZD const& zd,Zs const& z,int groups,double acc,double same)
{
	using C=typename TT<Tr>::C; auto const& S=zd.FinalSolutions(); auto const& M=zd.FinalSolutionMetadata(); auto const& B=zd.EndgameBoundaryData(); size_t n=zd.StartSystem().NumStartPoints();
	if (groups==0) r.check(n==(size_t)z.paths,tag+":paths",[&]{ return std::to_string(n)+" paths for a Bezout number "+std::to_string(z.paths); });
	r.check(S.size()==n && M.size()==n && B.size()==n,tag+":sizes",[&]{ return std::to_string(S.size())+" solutions, "+std::to_string(M.size())+" metadata for "+std::to_string(n)+" paths"; }); if (S.size()!=n || M.size()!=n || B.size()!=n) return;
	std::vector<int> hits(z.finite.size(),0); int failed=0; /* singular solutions may be too hard for doubles, but then the path must say so */ std::vector<int> which(n,-1);
	for (size_t i=0;i<n;i++)
	{
		auto const& m=M[i]; r.transition(); r.check(m.path_index==i && m.solution_index==i,tag+":index",[&]{ return "path "+std::to_string(i)+" is labelled "+std::to_string(m.path_index)+", "+std::to_string(m.solution_index); });
		r.check(B[i].success_code==m.pre_endgame_success,tag+":codes",[&]{ return "path "+std::to_string(i)+": "+code(B[i].success_code)+" at the boundary, "+code(m.pre_endgame_success)+" in the metadata"; });
		r.check((m.pre_endgame_success==SuccessCode::Success)==(m.endgame_success!=SuccessCode::NeverStarted),tag+":codes",[&]{ return "path "+std::to_string(i)+": code "+code(m.pre_endgame_success)+" before, "+code(m.endgame_success)+" for the endgame"; });
		if (m.endgame_success!=SuccessCode::Success) { failed+=m.endgame_success!=SuccessCode::SecurityMaxNormReached; r.outcome("a path ended with code "+code(m.pre_endgame_success==SuccessCode::Success?m.endgame_success:m.pre_endgame_success)); continue; }
		unsigned p=TT<Tr>::mp?bertini::Precision(S[i]):16; DefaultPrecision(p); System T=zd.TargetSystem(); T.precision(p); auto f=T.Eval(bertini::Vec<C>(S[i])); double res=static_cast<double>(f.template lpNorm<Eigen::Infinity>());
		r.check(std::abs(res-m.function_residual)<=1e-6*(res+m.function_residual)+1e-14,tag+":residual",[&]{ return "path "+std::to_string(i)+": the function residual is "+str(R(res),6)+", reported "+str(R(m.function_residual),6); });
		auto d=toRv(bertini::Vec<C>(zd.TargetSystem().DehomogenizePoint(S[i]))); double size=0; for (auto const& c:d) size=std::max(size,mag(c)); if (size>1e4 || !std::isfinite(size)) { r.outcome("a path converged at infinity"); continue; }
		double best=1e9; for (size_t k=0;k<z.finite.size();k++) { double e=dist(d,z.finite[k].x); if (e<best) { best=e; which[i]=k; } }
		soft.check(best<acc,tag+":solution",[&]{ return "path "+std::to_string(i)+" reports a solution that is "+str(R(best),6)+" away from any, "+str(d[0],8); }); if (best<acc) hits[which[i]]++; else which[i]=-1;
	}
	for (size_t k=0;k<z.finite.size();k++) soft.check(hits[k]==z.finite[k].mult || (!TT<Tr>::mp && z.finite[k].mult>1 && hits[k]<z.finite[k].mult && hits[k]+failed>=z.finite[k].mult),tag+":found",[&]{ std::string s="solution "+str(z.finite[k].x[0],6)+" of multiplicity "+std::to_string(z.finite[k].mult)+" was reached by "+std::to_string(hits[k])+" paths; codes"; for (auto const& m:M) s+=" "+code(m.pre_endgame_success)+"/"+code(m.endgame_success); return s; });
	for (size_t i=0;i<n;i++) // multiplicities, by definition
	{
		if (M[i].endgame_success!=SuccessCode::Success) continue; int c=0; bool close=false; for (size_t j=0;j<n;j++) if (M[j].endgame_success==SuccessCode::Success) { double e=j==i?0:static_cast<double>((S[i]-S[j]).norm()); if (std::abs(e-same)<1e-3*same) close=true; c+=e<same; }
		if (!close) r.check(M[i].multiplicity==c,tag+":multiplicity",[&]{ return "path "+std::to_string(i)+": "+std::to_string(c)+" paths end there, multiplicity "+std::to_string(M[i].multiplicity); });
	}
	// the extraction helpers
	auto all=output::AllSolutions::Extract(zd); auto ns=output::NonsingularSolutions::Extract(zd); size_t k=0; size_t ran=0; for (size_t i=0;i<n;i++) ran+=M[i].endgame_success!=SuccessCode::NeverStarted;
	r.check(all.size()==ran,tag+":extract",[&]{ return std::to_string(all.size())+" solutions extracted of "+std::to_string(ran); });
	size_t want=0; for (size_t i=0;i<n;i++) if (M[i].endgame_success==SuccessCode::Success && M[i].multiplicity==1) { bool ok=k<ns.size() && dist(toRv(bertini::Vec<C>(ns[k])),toRv(bertini::Vec<C>(zd.TargetSystem().DehomogenizePoint(S[i]))))<1e-12*(1+mag(toRv(bertini::Vec<C>(ns[k]))[0])); want++; k++; r.check(ok,tag+":extract",[&]{ return "nonsingular solution "+std::to_string(k-1)+" is not that of path "+std::to_string(i); }); }
	r.check(ns.size()==want,tag+":extract",[&]{ return std::to_string(ns.size())+" nonsingular solutions extracted of "+std::to_string(want); });
}
static double accuracy(Zs const& z,double tol,bool mp) { int m=1; for (auto const& s:z.finite) m=std::max(m,s.mult); return m==1?1e3*tol+(mp?1e-13:1e-10):1e4*tol+1e-7; }
