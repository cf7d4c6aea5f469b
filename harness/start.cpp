// Start systems: total degree, multihomogeneous, user-given.
#include "sysref.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace ref;
using bertini::EvalMethod; using bertini::DerivMethod;
using bertini::node::Variable; using bertini::node::Function; using bertini::node::Integer;
using bertini::start_system::TotalDegree; using bertini::start_system::MHomogeneous; using bertini::start_system::User;

template<class T> static R toR_(T const& z) { return toR(z); }
template<class F> static bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }

// the largest modulus of an entry
template<class V> static double norm(V const& v) { double m=0; for (int i=0;i<v.size();i++) m=std::max(m,mag(toR(v(i)))); return m; }

// all the things true of every start system: points are on it, nonsingular, distinct, the same in both number types
template<class SS>
static void check_points(mc::Run& r,SS const& S,System const& target,unsigned long long expected,std::vector<unsigned> const& precs,std::string const& tag,double slack=1,std::vector<unsigned long long> which={})
{
	if (which.empty()) for (unsigned long long i=0;i<expected;i++) which.push_back(i);
	bool td=tag.compare(0,5,"total")==0;
	auto growth=[&](double sc,std::vector<int> const& degs){ double p=1; for (int dd:degs) p=std::max(p,td?dd*std::pow(sc,dd):std::pow(1+sc,dd)); return p; };
	r.check(S.NumStartPoints()==expected,tag+":count",[&]{ return "number of start points "+std::to_string(S.NumStartPoints())+" expected "+std::to_string(expected); });
	if (S.NumStartPoints()!=expected) return;
	size_t n=S.NumVariables();
	std::vector<std::vector<R>> nat; 
	for (size_t pi=0;pi<precs.size();pi++)
	{
		unsigned d=precs[pi]; DefaultPrecision(d); S.precision(d);
		double tm=std::pow(10.,-(double)d+6)*slack;
		for (size_t wi=0;wi<which.size();wi++)
		{
			unsigned long long i=which[wi];
			r.where(tag+" start point dbl"); bertini::Vec<dbl> x=S.template StartPoint<dbl>(i);
			r.where(tag+" start point mp"); bertini::Vec<Mp> y=S.template StartPoint<Mp>(i);
			r.check((size_t)x.size()==n && (size_t)y.size()==n,tag+":length",[&]{ return "a start point has "+std::to_string(x.size())+"/"+std::to_string(y.size())+" coordinates for "+std::to_string(n)+" variables"; });
			if ((size_t)x.size()!=n || (size_t)y.size()!=n) return;
			double sc=1; for (size_t k=0;k<n;k++) sc=std::max(sc,mag(toR(y(k))));
			for (size_t k=0;k<n;k++)
			{
				r.check(close(toR(x(k)),toR(y(k)),1e-9*sc*slack),tag+":types-agree",[&]{ return "coordinate "+std::to_string(k)+" of point "+std::to_string(i)+" is "+str(toR(x(k)))+" in double and "+str(toR(y(k)))+" in multiple precision"; });
				r.check(bertini::Precision(y(k))==d,tag+":point-precision",[&]{ return "start point carries "+std::to_string(bertini::Precision(y(k)))+" digits at working precision "+std::to_string(d); });
			}
			r.where(tag+" evaluate");
			double p=growth(sc,S.Degrees()); if (!(p<1e6)) { r.outcome("ill-conditioned start point, residual not compared"); }
			else
			{
				auto v=S.Eval(x); auto w=S.Eval(y);
				r.check(norm(v)<1e-10*p*slack,tag+":residual-dbl",[&]{ return "start point "+std::to_string(i)+" misses the start system by "+std::to_string(norm(v)); });
				r.check(norm(w)<tm*p,tag+":residual-mp",[&]{ return "start point "+std::to_string(i)+" at "+std::to_string(d)+" digits misses the start system by "+str(R(norm(w)),6); });
				auto J=S.Jacobian(y); for (int row=0;row<J.rows();row++) { Mp top=J(row,0); for (int col=1;col<J.cols();col++) if (abs(J(row,col))>abs(top)) top=J(row,col); if (mag(toR(top))>0 || abs(top)>0) for (int col=0;col<J.cols();col++) J(row,col)/=top; }
				double det=mag(toR(Mp(J.determinant())));
				r.check(det>1e-9,tag+":singular",[&]{ return "the start system is singular at start point "+std::to_string(i)+", determinant "+std::to_string(det); });
				r.outcome("start point compared");
			}
			r.transition(4);
			auto u=S.DehomogenizePoint(y); std::vector<R> uv; for (int k=0;k<u.size();k++) uv.push_back(toR(u(k)));
			if (pi==0) nat.push_back(uv);
			else for (size_t k=0;k<uv.size();k++) r.check(close(uv[k],nat[wi][k],1e-12*(1+mag(uv[k]))*slack),tag+":stable",[&]{ return "start point "+std::to_string(i)+" is another one at "+std::to_string(d)+" digits"; });
		}
	}
	for (size_t i=0;i<nat.size();i++) for (size_t j=i+1;j<nat.size();j++)
	{
		bool same=true; for (size_t k=0;k<nat[i].size();k++) if (!close(nat[i][k],nat[j][k],1e-7)) same=false;
		r.check(!same,tag+":distinct",[&]{ return "start points "+std::to_string(which[i])+" and "+std::to_string(which[j])+" coincide"; });
	}
	for (unsigned long long bad:{expected,expected+1,expected*2+5}) { r.where(tag+" index out of range"); r.check(throws([&]{ S.template StartPoint<dbl>(bad); })&&throws([&]{ S.template StartPoint<Mp>(bad); }),tag+":index",[&]{ return "start point number "+std::to_string(bad)+" of "+std::to_string(expected)+" was produced"; }); }
	// the homotopy
	DefaultPrecision(30); S.precision(30); target.precision(30);
	r.where(tag+" homotopy");
	auto t=Variable::Make("ZERO_DIM_PATH_VARIABLE");
	System H=(1-t)*target + t*S; H.AddPathVariable(t); H.precision(30);
	std::vector<unsigned long long> some={0}; if (expected>1) some.push_back(expected-1);
	for (auto i:some)
	{
		auto y=S.template StartPoint<Mp>(i); double sc=1; for (size_t k=0;k<n;k++) sc=std::max(sc,mag(toR(y(k)))); double p=growth(sc,S.Degrees()); if (!(p<1e6)) continue;
		auto v=H.Eval(y,Mp(1,0,30)); r.check(norm(v)<1e-24*p*slack,tag+":homotopy-start",[&]{ return "the homotopy does not vanish at a start point at t=1"; });
		auto a=H.Eval(y,Mp(0,0,30)); auto b=target.Eval(y); bool ok=a.size()==b.size(); for (int k=0;ok&&k<a.size();k++) ok=close(toR(a(k)),toR(b(k)),1e-22*p); r.check(ok,tag+":homotopy-target",[&]{ return "the homotopy is not the target system at t=0"; });
	}
}

// ---------------------------------------------------------------- total degree
static void TD_case(mc::Run& r,std::vector<int> const& deg,int form,int shape,std::vector<unsigned long long> which={})
{
	DefaultPrecision(30); int n=deg.size(); VariableGroup g; for (int i=0;i<n;i++) g.push_back(Variable::Make("x"+std::to_string(i)));
	System S; if (form&1) S.SetEvalMethod(EvalMethod::FunctionTree);
	S.AddVariableGroup(g);
	for (int i=0;i<n;i++)
	{
		Node f=pow(g[i],deg[i]);
		if (shape==1) { for (int k=0;k<n;k++) f=f+Integer::Make(k+2)*g[k]; f=f-5; } // lower terms
		if (shape==2 && deg[i]>1) f=f+Integer::Make(3)*pow(g[(i+1)%n],deg[i]-1)*g[i]-7; // mixed leading terms
		S.AddFunction(f);
	}
	S.precision(30);
	if (form>=2) { S.Homogenize(); S.AutoPatch(); S.precision(30); }
	unsigned long long want=1; for (int d:deg) want*=d;
	r.where("construct"); TotalDegree T(S);
	std::string tag=form>=2?"total degree, patched":"total degree";
	if (form&1) T.SetEvalMethod(EvalMethod::FunctionTree);
	r.check(T.NumNaturalFunctions()==(size_t)n && T.NumVariables()==S.NumVariables() && T.Variables()==S.Variables() && T.NumTotalFunctions()==S.NumTotalFunctions() && !T.HavePathVariable() && T.IsPatched()==S.IsPatched(),tag+":structure",[&]{ return "variables, functions or patches differ from those of the target"; });
	{ auto d=T.Degrees(); bool ok=d.size()==deg.size(); for (size_t i=0;ok&&i<d.size();i++) ok=d[i]==deg[i]; r.check(ok,tag+":degrees",[&]{ return "degrees of the start functions are not those of the target"; }); }
	if (form>=2) { r.check(T.GetPatch()==S.GetPatch(),tag+":patch",[&]{ return "other patch than the target"; }); r.check(T.IsHomogeneous(),tag+":homogeneous",[&]{ return "not homogeneous"; }); }
	for (int i=0;i<n;i++) for (int j=0;j<i;j++) r.check(!close(toR(T.RandomValue<dbl>(i)),toR(T.RandomValue<dbl>(j)),1e-12),tag+":random",[&]{ return "two random values coincide"; });
	check_points(r,T,S,want,{30,50,20},tag,1,which);
	// scaling the start system leaves its start points
	r.where("scale"); DefaultPrecision(30); T.precision(30); auto before=T.Eval(T.StartPoint<Mp>(0)); 
	bertini::Vec<Mp> x(S.NumVariables()); for (int k=0;k<x.size();k++) x(k)=toMp(points(NV)[0][k%NV]+R(k/NV),30);
	auto u=T.Eval(x); T*=Node(Integer::Make(3)); auto v=T.Eval(x);
	for (int i=0;i<n;i++) r.check(close(toR(u(i))*R(3),toR(v(i)),1e-18*(1+mag(toR(v(i))))),tag+":scaled",[&]{ return "multiplying the start system by 3 gave "+str(toR(v(i)))+" from "+str(toR(u(i))); });
}
static void TD_reject(mc::Run& r,int which)
{
	DefaultPrecision(30); auto x=Variable::Make("x"),y=Variable::Make("y"),t=Variable::Make("t");
	System S; 
	switch (which)
	{
		case 0: S.AddVariableGroup({x,y}); S.AddFunction(x*y-1); break;
		case 1: S.AddVariableGroup({x}); S.AddFunction(x*x-1); S.AddFunction(x-1); break;
		case 2: S.AddVariableGroup({x}); S.AddVariableGroup({y}); S.AddFunction(x*y-1); S.AddFunction(x-y); break;
		case 3: S.AddHomVariableGroup({x,y}); S.AddFunction(x-y); S.AutoPatch(); break;
		case 4: S.AddVariableGroup({x}); S.AddPathVariable(t); S.AddFunction(x-t); break;
		case 5: S.AddVariableGroup({x}); S.AddFunction(exp(x)-1); break;
		case 6: S.AddVariableGroup({x,y}); S.AddFunction(x/y-1); S.AddFunction(x-2); break;
		case 7: S.AddVariableGroup({x,y}); S.AddFunction(x*x-1); S.AddFunction(y-1); S.Homogenize(); break; // homogenized, not patched: not square
	}
	r.check(throws([&]{ TotalDegree T(S); }),"total degree:rejected",[&]{ return "an unsuitable target system was accepted"; });
}

// ---------------------------------------------------------------- multihomogeneous
struct MG { char type; int size; };
static void MH_case(mc::Run& r,std::vector<MG> const& gs,std::vector<std::vector<int>> const& deg,int form)
{
	DefaultPrecision(30); System S; S.SetEvalMethod(EvalMethod::FunctionTree); if (form&2) S.SetEvalMethod(EvalMethod::SLP);
	std::vector<VariableGroup> vg; int c=0; std::vector<int> dim;
	for (auto const& g:gs) { VariableGroup v; for (int i=0;i<g.size;i++) v.push_back(Variable::Make("x"+std::to_string(c++))); vg.push_back(v); if (g.type=='a') S.AddVariableGroup(v); else S.AddHomVariableGroup(v); dim.push_back(g.type=='a'?g.size:g.size-1); }
	size_t nf=deg.size(); bool zero=false;
	for (size_t i=0;i<nf;i++)
	{
		Node f; bool any=false;
		for (size_t k=0;k<gs.size();k++) if (deg[i][k]>0) { any=true; Node l=vg[k][0]; for (size_t m=1;m<vg[k].size();m++) l=l+Integer::Make(m+1+i)*vg[k][m]; if (gs[k].type=='a') l=l+2; if (deg[i][k]>1) l=pow(l,deg[i][k]); f= f? Node(f*l):l; }
		if (!any) { zero=true; f=Integer::Make(1); }
		S.AddFunction(f);
	}
	for (size_t k=0;k<gs.size();k++) { bool any=false; for (size_t i=0;i<nf;i++) any|=deg[i][k]>0; if (!any) zero=true; }
	if (form&1) { S.Homogenize(); S.AutoPatch(); }
	S.precision(30);
	if (zero) { r.check(throws([&]{ MHomogeneous M(S); }),"mhom:rejected",[&]{ return "a degree matrix with a zero row or column was accepted"; }); return; }
	// the number of ways: assign every function a group, each group as often as its dimension
	unsigned long long want=0; std::function<void(size_t,std::vector<int>,unsigned long long)> rec=[&](size_t i,std::vector<int> left,unsigned long long p){ if (!p) return; if (i==nf) { want+=p; return; } for (size_t k=0;k<gs.size();k++) if (left[k]>0) { auto l=left; l[k]--; rec(i+1,l,p*deg[i][k]); } };
	rec(0,dim,1);
	r.where("construct"); MHomogeneous M(S); M.SetEvalMethod(S.GetEvalMethod());
	std::string tag=std::string("mhom")+((form&1)?", patched":"")+((form&2)?", slp":"");
	for (size_t i=0;i<nf;i++) for (size_t k=0;k<gs.size();k++) { size_t col=0; if (gs[k].type=='h') { for (size_t q=0;q<k;q++) col+=gs[q].type=='h'; } else { for (size_t q=0;q<gs.size();q++) col+= gs[q].type=='h' || q<k ; for (size_t q=k+1;q<gs.size();q++) (void)0; size_t cc=0; for (size_t q=0;q<gs.size();q++) cc+=gs[q].type=='h'; for (size_t q=0;q<k;q++) cc+=gs[q].type=='a'; col=cc; }
		r.check(M.degree_matrix_(i,col)==deg[i][k],tag+":degree-matrix",[&]{ return "degree of function "+std::to_string(i)+" in group "+std::to_string(k)+" is "+std::to_string(M.degree_matrix_(i,col)); }); }
	r.check(M.NumVariables()==S.NumVariables() && M.Variables()==S.Variables() && M.NumTotalFunctions()==S.NumTotalFunctions(),tag+":structure",[&]{ return "variables, functions or patches differ from those of the target"; });
	if (want==0) { r.check(M.NumStartPoints()==0,tag+":count",[&]{ return "start points where there are none"; }); return; }
	check_points(r,M,S,want,{30,50,20},tag,1e4);
}
static void MH_enum(mc::Run& r,std::vector<MG> const& gs,int maxdeg,std::vector<int> const& forms)
{
	int nf=0; for (auto const& g:gs) nf+=g.type=='a'?g.size:g.size-1; int cells=nf*gs.size(); long total=1; for (int i=0;i<cells;i++) total*=maxdeg+1;
	for (long code=0;code<total;code++)
	{
		std::vector<std::vector<int>> d(nf,std::vector<int>(gs.size())); long c=code; for (auto& row:d) for (auto& e:row) { e=c%(maxdeg+1); c/=maxdeg+1; }
		for (int form:forms)
		{
			bool hom=false; for (auto const& g:gs) hom|=g.type=='h'; if (hom && !(form&1)) continue;
			r.test([&]{ std::string s="mhom"; for (auto const& g:gs) s+=std::string(" ")+g.type+std::to_string(g.size); s+=" degrees"; for (auto const& row:d) { s+=" ["; for (int e:row) s+=std::to_string(e); s+="]"; } return s+((form&1)?" patched":"")+((form&2)?" slp":" tree"); },[&]{ r.state(r.label()); MH_case(r,gs,d,form); });
		}
	}
}

static void MH_patterns(mc::Run& r,std::vector<MG> const& gs,int nf)
{
	int ng=gs.size(); unsigned long long cap=r.thorough()?800:200;
	for (int pat=0;pat<6;pat++) for (int form:{0,1,2,3})
	{
		bool hom=false; for (auto const& g:gs) hom|=g.type=='h'; if (hom && !(form&1)) continue; if (!r.thorough() && (form+pat+ng)%2) continue;
		std::vector<std::vector<int>> d(nf,std::vector<int>(ng)); for (int i=0;i<nf;i++) for (int k=0;k<ng;k++) d[i][k]= pat==0?1: pat==1?(i+k)%2: pat==2?(k<=i?1:0): pat==3?((i+k)%3==0?2:1): pat==4?((i+2*k)%3==1?0:1) : (k==i%ng?3:(k==(i+1)%ng?1:0));
		// how many start points
		std::vector<int> dim; for (auto const& g:gs) dim.push_back(g.type=='a'?g.size:g.size-1); unsigned long long want=0; std::function<void(int,std::vector<int>,unsigned long long)> rec=[&](int i,std::vector<int> left,unsigned long long p){ if (!p) return; if (i==nf) { want+=p; return; } for (int k=0;k<ng;k++) if (left[k]>0) { auto l=left; l[k]--; rec(i+1,l,p*d[i][k]); } }; rec(0,dim,1);
		if (want>cap) continue;
		r.test([&]{ std::string s="mhom"; for (auto const& g:gs) s+=std::string(" ")+g.type+std::to_string(g.size); s+=" pattern"; for (auto const& row:d) { s+=" ["; for (int e:row) s+=std::to_string(e); s+="]"; } return s+((form&1)?" patched":"")+((form&2)?" slp":" tree"); },[&]{ r.state(r.label()); MH_case(r,gs,d,form); });
	}
}

// ---------------------------------------------------------------- user
static void User_case(mc::Run& r,int n,int k,bool mp)
{
	DefaultPrecision(30); VariableGroup g; for (int i=0;i<n;i++) g.push_back(Variable::Make("x"+std::to_string(i))); auto t=Variable::Make("t");
	System S; S.AddVariableGroup(g); S.AddPathVariable(t); for (int i=0;i<n;i++) S.AddFunction(g[i]*g[i]-t);
	bertini::SampCont<dbl> sd; bertini::SampCont<Mp> sm; auto pts=points(NV);
	auto val=[&](int i,int j){ return pts[(i+j)%2][(2*i+j)%NV]+R(i)+R(j/NV); };
	for (int i=0;i<k;i++) { bertini::Vec<dbl> a(n); bertini::Vec<Mp> b(n); for (int j=0;j<n;j++) { a(j)=toD(val(i,j)); b(j)=toMp(val(i,j),30); } sd.push_back(a); sm.push_back(b); }
	std::unique_ptr<User> U; if (mp) U.reset(new User(S,sm)); else U.reset(new User(S,sd));
	r.check(U->NumStartPoints()==(unsigned)k,"user:count",[&]{ return "wrong number"; });
	for (int i=0;i<k;i++) { auto a=U->StartPoint<dbl>(i); auto b=U->StartPoint<Mp>(i); bool ok=a.size()==n&&b.size()==n; for (int j=0;ok&&j<n;j++) ok=close(toR(a(j)),val(i,j),1e-14*(1+mag(val(i,j))))&&close(toR(b(j)),val(i,j),(mp?1e-28:1e-14)*(1+mag(val(i,j)))); r.check(ok,"user:points",[&]{ return "start point "+std::to_string(i)+" is not the given one"; }); r.transition(2); }
}

static void P10(mc::Run& r)
{
	int lim[]={0,6,4,3,2}; if (r.thorough()) { lim[2]=6; lim[3]=4; lim[4]=2; }
	for (int n=1;n<=(r.thorough()?4:3);n++)
	{
		std::vector<int> d(n,1);
		for (;;)
		{
			for (int form=0;form<4;form++) for (int shape=0;shape<3;shape++)
				r.test([&]{ std::string s="total degree, degrees"; for (int k:d) s+=" "+std::to_string(k); s+= shape==0?" diagonal":shape==1?" lower terms":" mixed"; return s+(form>=2?" patched":"")+((form&1)?" tree":" slp"); },[&]{ r.state(r.label()); TD_case(r,d,form,shape); });
			int i=0; while (i<n && d[i]==lim[n]) d[i++]=1; if (i==n) break; d[i]++;
		}
	}
	// many variables, high degrees: every start point of systems with up to 7 variables, and of up to degree 40 in few
	{
		std::vector<std::vector<int>> big; for (int d=7;d<=(r.thorough()?60:30);d++) big.push_back({d}); for (int d=5;d<=(r.thorough()?12:8);d++) for (int e=1;e<=(r.thorough()?12:4);e++) { big.push_back({d,e}); big.push_back({e,d}); }
		for (int n=4;n<=7;n++) for (int at=0;at<n;at++) for (int d:{2,3,5}) { std::vector<int> v(n,1); v[at]=d; big.push_back(v); if (d<5) { v[(at+1)%n]=2; big.push_back(v); v[(at+2)%n]=2; big.push_back(v); } if (d==2 && at==0) { std::vector<int> two(n,2); big.push_back(two); } }
		for (auto const& d:big) for (int form=0;form<4;form++) { if (!r.thorough() && ((d.size()+form+d.back())%2)) continue; r.test([&]{ std::string s="total degree, wide, degrees"; for (int k:d) s+=" "+std::to_string(k); return s+(form>=2?" patched":"")+((form&1)?" tree":" slp"); },[&]{ r.state(r.label()); TD_case(r,d,form,d.size()%3); }); }
		// more points than can be visited: those at the ends, in the middle, and beside each power of two
		std::vector<std::vector<int>> huge={{256,256},{300,300},{41,41,41},{7,7,7,7,7,7},{10,10,10,10,10,10,10},{100,100,100,100,100},{65536},{70000,2},{2,70000},{16,16,16,16,16,16,16,16,2},{1000,1000,1000,1000}};
		for (auto const& d:huge) for (int form=0;form<4;form++) r.test([&]{ std::string s="total degree, huge, degrees"; for (int k:d) s+=" "+std::to_string(k); return s+(form>=2?" patched":"")+((form&1)?" tree":" slp"); },[&]{ r.state(r.label()); unsigned long long N=1; for (int k:d) N*=k; std::set<unsigned long long> w={0,1,2,N/3,N/2,N-2,N-1}; for (unsigned long long p=4;p<N;p*=2) for (auto q:{p-1,p,p+1}) if (q<N && (r.thorough() || q!=p+1)) w.insert(q); unsigned long long pr=1; for (int k:d) { for (auto q:{pr-1,pr,pr+1,pr*2}) if (q<N) w.insert(q); pr*=k; } TD_case(r,d,form,0,std::vector<unsigned long long>(w.begin(),w.end())); });
	}
	for (int w=0;w<8;w++) r.test([&]{ return "total degree, unsuitable target "+std::to_string(w); },[&]{ r.state(r.label()); TD_reject(r,w); });
	for (int n=1;n<=12;n++) for (int k:{0,1,2,3,4,5,9,17,40}) for (int mp=0;mp<2;mp++) r.test([&]{ return "user: "+std::to_string(k)+" points of "+std::to_string(n)+(mp?" mp":" dbl"); },[&]{ r.state(r.label()); User_case(r,n,k,mp); });
	bool T=r.thorough(); std::vector<int> f={0,1,2,3};
	MH_enum(r,{{'a',1}},4,f); MH_enum(r,{{'a',2}},3,f); MH_enum(r,{{'a',3}},2,f);
	MH_enum(r,{{'a',1},{'a',1}},2,f); MH_enum(r,{{'a',1},{'a',2}},T?2:1,f); MH_enum(r,{{'a',2},{'a',1}},T?2:1,f);
	MH_enum(r,{{'h',2}},4,f); MH_enum(r,{{'h',3}},3,f); MH_enum(r,{{'h',2},{'a',1}},2,f); MH_enum(r,{{'a',1},{'h',2}},2,f); MH_enum(r,{{'h',2},{'h',2}},2,f);
	MH_enum(r,{{'a',2},{'h',2}},1,f); MH_enum(r,{{'h',3},{'a',1}},1,f);
	// many groups and functions: every composition of up to 5 dimensions into groups, degree patterns instead of all degree matrices
	for (int dim=3;dim<=(T?6:5);dim++) { std::vector<int> parts; std::function<void(int)> rec=[&](int left){
		if (left==0) { for (int kinds=0;kinds<3;kinds++) { std::vector<MG> gs; for (size_t k=0;k<parts.size();k++) { bool h= kinds==1 || (kinds==2 && k%2==1); gs.push_back(h?MG{'h',parts[k]+1}:MG{'a',parts[k]}); } if (kinds==2 && parts.size()==1) continue; MH_patterns(r,gs,dim); } return; }
		for (int p=1;p<=left;p++) { parts.push_back(p); rec(left-p); parts.pop_back(); } }; rec(dim); }
	{ std::vector<int> p={0,1,2,3}; std::vector<MG> gs(4,MG{'a',1}); do { for (int extra=0;extra<2;extra++) { std::vector<std::vector<int>> d(4,std::vector<int>(4,0)); for (int i=0;i<4;i++) { d[i][p[i]]=1+i%2; if (extra) d[i][p[(i+1)%4]]=1; } for (int form:{1,2}) r.test([&]{ std::string s="mhom 4 groups, degrees"; for (auto const& row:d) { s+=" ["; for (int e:row) s+=std::to_string(e); s+="]"; } return s+(form&1?" patched":" slp"); },[&]{ r.state(r.label()); MH_case(r,gs,d,form); }); } } while (std::next_permutation(p.begin(),p.end())); }
	if (T) { MH_enum(r,{{'a',1},{'a',1},{'a',1}},1,f); MH_enum(r,{{'a',1},{'h',2},{'a',1}},1,f); MH_enum(r,{{'a',2},{'a',2}},1,f); }
}

int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P10",P10}}); }
