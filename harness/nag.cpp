// Crossed paths, containers, and the numbers and matrices everything is made of.
#include "hom.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/endgames.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include "bertini2/nag_algorithms/midpath_check.hpp"
#include "bertini2/nag_datatypes/witness_set.hpp"
#include "bertini2/pool/system.hpp"
#include "bertini2/system/precon.hpp"
#include "bertini2/io/file_utilities.hpp"
#include <fstream>
using namespace ref; using bertini::SuccessCode; using namespace bertini::algorithm; using Nd=std::shared_ptr<bertini::node::Node>; using bertini::mpfr_float; using bertini::mpq_rational;
template<class C> static const char* ty(); template<> const char* ty<dbl>() { return "double"; } template<> const char* ty<Mp>() { return "multiple"; }

// ---------------------------------------------------------------- crossed paths
template<class C> struct Starts { std::vector<bertini::Vec<C>> p; template<class X> bertini::Vec<X> StartPoint(unsigned long long i) const { return p.at(i); } };
struct Path { int point,start; bool ok; };
static std::vector<R> mpoint(int k,double scale) { R f=k==0?R(1):k==1?R(1)+R(Rr("1e-8")):k==2?R(1)+R(Rr("1e-3")):k==3?R(-3):R(k); R s(scale); return {s*f,s*f*R(Rr(0),Rr(2))}; }
template<class C> struct Mid { using B=EGBoundaryMetaData<C>; using M=MidpathChecker<typename bertini::NumTraits<C>::Real,C,B>; };
template<class C> static std::pair<SolnCont<EGBoundaryMetaData<C>>,Starts<C>> mdata(std::vector<Path> const& P,double scale,unsigned D)
{
	SolnCont<EGBoundaryMetaData<C>> b; Starts<C> s; for (auto const& p:P) { b.push_back(EGBoundaryMetaData<C>(convv<C>(mpoint(p.point,scale),D),p.ok?SuccessCode::Success:SuccessCode::MinStepSizeReached,typename bertini::NumTraits<C>::Real(0.1))); s.p.push_back(convv<C>({R(p.start),R(1-p.start)},D)); } return {b,s};
}
template<class C> static void mcheck(mc::Run& r,std::string const& tag,typename Mid<C>::M& m,std::vector<Path> const& P,double scale,double tol,unsigned D)
{
	auto d=mdata<C>(P,scale,D); r.where(tag); bool got=m.Check(d.first,d.second); r.transition(); std::map<unsigned long long,bool> want; 
	for (size_t i=0;i<P.size();i++) for (size_t j=i+1;j<P.size();j++) { if (!P[i].ok || !P[j].ok) continue; double rel=dist(mpoint(P[i].point,1),mpoint(P[j].point,1))/2; if (!(rel<tol)) continue; bool diff=P[i].start!=P[j].start; want[i]=want[i]||diff; want[j]=want[j]||diff; }
	r.check(got==want.empty() && m.Passed()==got,tag+":passed",[&]{ return std::string(got?"passed":"not passed")+", "+std::to_string(want.size())+" paths are crossed"; });
	std::map<unsigned long long,bool> have; bool twice=false; for (auto const& c:m.GetCrossedPaths()) { twice=twice||have.count(c.index()); have[c.index()]=c.rerun(); }
	r.check(!twice,tag+":twice",[&]{ return std::string("a path is listed twice"); }); bool same=have.size()==want.size(); for (auto const& w:want) same=same&&have.count(w.first); r.check(same,tag+":crossed",[&]{ return std::to_string(have.size())+" paths listed as crossed, "+std::to_string(want.size())+" are"; });
	if (same) r.check(have==want,tag+":rerun",[&]{ return std::string("the paths to rerun are not those that crossed one with another start"); }); r.outcome(want.empty()?"none crossed":"crossed"); r.state(tag+std::to_string(want.size())+std::to_string(P.size()));
}
static std::vector<std::vector<Path>> allpaths(int n,int np) { std::vector<std::vector<Path>> v={{}}; for (int i=0;i<n;i++) { std::vector<std::vector<Path>> w; for (auto const& p:v) for (int k=0;k<np;k++) for (int s=0;s<2;s++) for (int o=1;o>=0;o--) { auto q=p; q.push_back({k,s,o==1}); w.push_back(q); } v=w; } return v; }
static std::string show(std::vector<Path> const& p) { std::string s; for (auto const& x:p) s+=" ("+std::to_string(x.point)+","+std::to_string(x.start)+(x.ok?")":",failed)"); return s; }
template<class C> static void midpaths(mc::Run& r)
{
	unsigned D=std::is_same<C,Mp>::value?30:16; int N=r.thorough()?4:3;
	for (int n=0;n<=N;n++) for (auto const& p:allpaths(n,4)) for (double tol:{1e-5,1e-9,1e-2}) for (double sc:{1.,1e6,1e-6}) { if ((n==4 || (n==3 && std::is_same<C,Mp>::value && !r.thorough())) && (tol!=1e-5 || sc!=1)) continue; r.test([&]{ return std::string("midpath, ")+ty<C>()+", tolerance "+str(R(tol),3)+", scale "+str(R(sc),3)+":"+show(p); },[&]{ DefaultPrecision(D); MidPathConfig c; c.same_point_tolerance=tol; typename Mid<C>::M m(c); r.check(m.SamePointTol()==tol,"tolerance",[&]{ return std::string("the tolerance set is not the one used"); }); mcheck<C>(r,std::string("midpath ")+ty<C>(),m,p,sc,tol,D); }); }
	// the same checker again, after another set of paths, with another tolerance
	auto two=allpaths(2,3); for (size_t a=0;a<two.size();a++) for (size_t b=0;b<two.size();b+=r.thorough()?1:5) for (int t=0;t<2;t++) r.test([&]{ return std::string("midpath again, ")+ty<C>()+":"+show(two[a])+" then"+(t?" with tolerance 1e-2":"")+show(two[b]); },[&]{ DefaultPrecision(D); typename Mid<C>::M m{MidPathConfig()}; mcheck<C>(r,std::string("midpath ")+ty<C>(),m,two[a],1,1e-5,D); MidPathConfig c; c.same_point_tolerance=t?1e-2:1e-5; m.Set(c); mcheck<C>(r,std::string("midpath again ")+ty<C>(),m,two[b],1,t?1e-2:1e-5,D); mcheck<C>(r,std::string("midpath again ")+ty<C>(),m,two[b],1,t?1e-2:1e-5,D); });
	if (r.thorough()) return; auto four=allpaths(4,2); for (auto const& p:four) r.test([&]{ return std::string("midpath, ")+ty<C>()+":"+show(p); },[&]{ DefaultPrecision(D); typename Mid<C>::M m{MidPathConfig()}; mcheck<C>(r,std::string("midpath ")+ty<C>(),m,p,1,1e-5,D); });
}
// many paths, of which few cross, wherever they are in the list
template<class C> static void midmany(mc::Run& r)
{
	unsigned D=std::is_same<C,Mp>::value?30:16; std::vector<int> N={5,6,7,9,12,20}; if (r.thorough()) { N.push_back(33); N.push_back(64); }
	for (int n:N) for (int i=0;i<n;i++) for (int j=i;j<n;j++) for (int kind=0;kind<5;kind++)
	{
		if (n>12 && !r.thorough() && (i*7+j*3+kind)%5) continue; if (i==j && kind) continue; if (n>20 && (i+j+kind)%7) continue;
		r.test([&]{ return std::string("midpath, ")+ty<C>()+", "+std::to_string(n)+" paths, "+std::to_string(i)+" and "+std::to_string(j)+" meet, kind "+std::to_string(kind); },[&]{ DefaultPrecision(D); std::vector<Path> P; for (int k=0;k<n;k++) P.push_back({k+4,k+1,true}); P[j].point=P[i].point; int third=(i+j+n/2)%n; if (kind==1) P[j].start=P[i].start; else if (kind==2) P[third].point=P[i].point; else if (kind==3) { P[third].point=P[i].point; P[third].ok=false; } else if (kind==4) P[j].ok=false; typename Mid<C>::M m{MidPathConfig()}; mcheck<C>(r,std::string("midpath ")+ty<C>(),m,P,1,1e-5,D); });
	}
	for (int dim=1;dim<=9;dim++) for (int at=0;at<dim;at++) for (int e=-9;e<=-1;e++) for (int im=0;im<2;im++) r.test([&]{ return std::string("midpath, ")+ty<C>()+", points of "+std::to_string(dim)+" coordinates that differ by 3e"+std::to_string(e)+" in coordinate "+std::to_string(at)+(im?", imaginary part":""); },[&]{ DefaultPrecision(D);
		SolnCont<EGBoundaryMetaData<C>> b; Starts<C> st; for (int k=0;k<3;k++) { std::vector<R> x; for (int i=0;i<dim;i++) x.push_back(Rc(1,1+i%2,i%3-1,3)); x[0]=R(k==2?-1:1); if (k==1) { R d=R(3)*R(pow(Rr(10),e)); x[at]+=im?d*R(Rr(0),Rr(1)):d; } b.push_back(EGBoundaryMetaData<C>(convv<C>(x,D),SuccessCode::Success,typename bertini::NumTraits<C>::Real(0.1))); st.p.push_back(convv<C>({R(k),R(1)},D)); }
		for (double tol:{1e-5,1e-2,1e-7}) { MidPathConfig c; c.same_point_tolerance=tol; typename Mid<C>::M m(c); bool got=m.Check(b,st); r.transition(); double d=3*std::pow(10.,e); if (d<tol/2.5 || d>3*tol*std::sqrt(dim+1.)) r.check(got==(d>tol) && m.GetCrossedPaths().size()==(d>tol?0u:2u),"midpath coordinates",[&]{ return std::string(got?"passed":"not passed")+" with tolerance "+str(R(tol),3)+", "+std::to_string(m.GetCrossedPaths().size())+" crossed"; }); } r.state("coords"+std::to_string(dim)); r.outcome("coordinates"); });
}
static void P29(mc::Run& r) { midmany<dbl>(r); midmany<Mp>(r); midpaths<dbl>(r); midpaths<Mp>(r); }

// ---------------------------------------------------------------- witness sets
namespace nd=bertini::nag_datatype;
struct Things { std::vector<bertini::LinearSlice> slices; std::vector<System> systems; std::vector<bertini::Vec<Mp>> pts; };
static Things& things() { static Things* t=nullptr; if (!t) { t=new Things; DefaultPrecision(30); auto x=Variable::Make("x"),y=Variable::Make("y"),z=Variable::Make("z"); VariableGroup g{x,y,z}; for (int d=1;d<3;d++) t->slices.push_back(bertini::LinearSlice::RandomComplex(g,d)); for (int f=1;f<3;f++) { System S; S.AddVariableGroup(g); for (int i=0;i<f;i++) S.AddFunction(x+y*(i+2)-z); t->systems.push_back(S); } for (int k=0;k<3;k++) t->pts.push_back(convv<Mp>({R(k),R(2*k+1),Rc(k,3,1,2)},30)); } return *t; }
template<class T> struct HoldC { static T h(T& t) { return t; } }; template<class T> struct HoldR { static std::reference_wrapper<T> h(T& t) { return std::ref(t); } }; template<class T> struct HoldS { static std::shared_ptr<T> h(T& t) { return std::shared_ptr<T>(&t,[](T*){}); } };
template<template<class> class Pol,template<class> class H> static void wset(mc::Run& r,std::string const& name,std::vector<int> const& ops)
{
	using W=nd::WitnessSet<Mp,System,Pol>; auto& T=things(); DefaultPrecision(30); using V=bertini::Vec<Mp>; nd::PointCont<decltype(H<V>::h(T.pts[0]))> none; W w(none,H<bertini::LinearSlice>::h(T.slices[0]),H<System>::h(T.systems[0])); std::vector<int> pts; int sl=0,sy=0; std::string tag="witness set, "+name;
	auto look=[&]{ r.transition(); r.check(w.Degree()==pts.size() && w.GetPoints().size()==pts.size(),tag+":degree",[&]{ return "degree "+std::to_string(w.Degree())+" with "+std::to_string(pts.size())+" points"; }); for (size_t i=0;i<pts.size() && i<w.Degree();i++) { bool ok=w.GetPoint(i)==T.pts[pts[i]] && w[i]==T.pts[pts[i]]; r.check(ok,tag+":point",[&]{ return "point "+std::to_string(i)+" is another one"; }); }
		for (size_t i:{pts.size(),pts.size()+1,pts.size()+100}) { bool threw=false; try { w.GetPoint(i); } catch (std::exception const&) { threw=true; } r.check(threw,tag+":range",[&]{ return "point "+std::to_string(i)+" of "+std::to_string(pts.size())+" was not refused"; }); }
		r.check(w.Dimension()==sl+1u && w.GetSlice().Dimension()==sl+1u,tag+":dimension",[&]{ return "dimension "+std::to_string(w.Dimension()); }); r.check(w.GetSystem().NumNaturalFunctions()==sy+1u,tag+":system",[&]{ return std::string("another system"); }); r.check(w.IsConsistent()==(3-(sy+1)==sl+1),tag+":consistent",[&]{ return "slices of dimension "+std::to_string(sl+1)+" and "+std::to_string(sy+1)+" functions in 3 variables are called "+(w.IsConsistent()?"consistent":"inconsistent"); }); };
	look(); for (int o:ops) { r.where(tag); if (o<3) { w.AddPoint(H<V>::h(T.pts[o])); pts.push_back(o); } else if (o==3) { nd::PointCont<decltype(H<V>::h(T.pts[0]))> q; q.push_back(H<V>::h(T.pts[2])); q.push_back(H<V>::h(T.pts[0])); w.SetPoints(q); pts={2,0}; } else if (o==4) { w.SetPoints(none); pts.clear(); } else if (o<7) { w.SetSlice(H<bertini::LinearSlice>::h(T.slices[o-5])); sl=o-5; } else { w.SetSystem(H<System>::h(T.systems[o-7])); sy=o-7; } look(); }
	r.state(tag+std::to_string(pts.size())+std::to_string(sl)+std::to_string(sy)); r.outcome("witness set");
}
static void wsets(mc::Run& r)
{
	int depth=r.thorough()?5:4; std::vector<std::vector<int>> H={{}}; for (size_t k=0;k<H.size();k++) if ((int)H[k].size()<depth) for (int o=0;o<9;o++) { auto h=H[k]; h.push_back(o); H.push_back(h); }
	for (auto const& h:H) { if ((int)h.size()==depth && h[0]!=0 && h[0]!=3) continue; auto lab=[&](const char* n){ std::string s=std::string("witness set, ")+n+":"; for (int o:h) s+=" "+std::to_string(o); return s; }; r.test([&]{ return lab("copies"); },[&]{ wset<nd::policy::Copy,HoldC>(r,"copies",h); }); if ((int)h.size()<depth) { r.test([&]{ return lab("references"); },[&]{ wset<nd::policy::Reference,HoldR>(r,"references",h); }); r.test([&]{ return lab("shared"); },[&]{ wset<nd::policy::SharedPtr,HoldS>(r,"shared",h); }); } }
}
static void wmany(mc::Run& r)
{
	for (int n:{5,9,17,40,100}) for (int pat=0;pat<6;pat++) { std::vector<int> ops; for (int k=0;k<n;k++) { int h=(k*k+pat*k)/2; ops.push_back(pat==5&&k%7==6?8:pat==4&&k%11==10?3:pat==3&&k%13==12?6:h%3); } auto lab=[&](const char* m){ return std::string("witness set, ")+m+": "+std::to_string(n)+" operations, pattern "+std::to_string(pat); };
		r.test([&]{ return lab("copies"); },[&]{ wset<nd::policy::Copy,HoldC>(r,"copies",ops); }); r.test([&]{ return lab("references"); },[&]{ wset<nd::policy::Reference,HoldR>(r,"references",ops); }); r.test([&]{ return lab("shared"); },[&]{ wset<nd::policy::SharedPtr,HoldS>(r,"shared",ops); }); }
}
// ---------------------------------------------------------------- pools
struct Obj { static int alive,made; int v; Obj(int v=0):v(v) { alive++; made++; } Obj(Obj const& o):v(o.v) { alive++; } Obj(Obj&& o):v(o.v) { alive++; } ~Obj() { alive--; } };
int Obj::alive=0; int Obj::made=0;
static void pools(mc::Run& r)
{
	int depth=r.thorough()?7:6; std::vector<std::vector<int>> H={{}}; for (size_t k=0;k<H.size();k++) if ((int)H[k].size()<depth) for (int o=0;o<6;o++) { auto h=H[k]; h.push_back(o); H.push_back(h); }
	for (int n:{20,50,200}) for (int pat=0;pat<8;pat++) { std::vector<int> h; for (int k=0;k<n;k++) h.push_back(k%(9+pat)==8+pat?5:(k%(3+pat)==2+pat?(k%2?3:4):(k*(pat+1)+k*k/3)%3)); H.push_back(h); }
	for (auto const& h:H) r.test([&]{ std::string s="pool:"; for (int o:h) s+=" "+std::to_string(o); return s; },[&]{
		using Pool=bertini::detail::Pool<Obj>; { Pool::PurgeCache(); Pool::PurgeCache(); } int base=Obj::alive; std::vector<std::shared_ptr<Obj>> held; std::vector<int> val; int inpool=0; int n=0; // inpool: objects only the pool holds
		for (int o:h) { r.where("pool"); r.transition(); int made=Obj::made;
			if (o==0) { auto p=Pool::Make(++n); held.push_back(p); val.push_back(n); r.check(Obj::made==made+1,"pool:make",[&]{ return "making one object made "+std::to_string(Obj::made-made); }); }
			else if (o==1) { Obj x(++n); held.push_back(Pool::NonPtrAdd(x)); val.push_back(n); }
			else if (o==2) { auto q=std::make_shared<Obj>(++n); auto p=Pool::PtrAdd(q); r.check(p==q,"pool:add",[&]{ return std::string("adding a pointer gave another one"); }); held.push_back(p); val.push_back(n); }
			else if (o==3) { if (!held.empty()) { held.erase(held.begin()); val.erase(val.begin()); inpool++; } } else if (o==4) { if (!held.empty()) { held.pop_back(); val.pop_back(); inpool++; } }
			else { Pool::PurgeCache(); inpool=0; }
			int want=base+(int)held.size()+inpool; r.check(Obj::alive==want,o==5?"pool:purge":"pool:alive",[&]{ return std::to_string(Obj::alive-base)+" objects are alive, "+std::to_string(held.size())+" are held and "+std::to_string(inpool)+" kept by the pool"; });
			for (size_t i=0;i<held.size();i++) r.check(held[i] && held[i]->v==val[i],"pool:value",[&]{ return std::string("an object held is another one"); }); }
		r.state("pool"+std::to_string(held.size())+std::to_string(inpool)); r.outcome("pool"); held.clear(); Pool::PurgeCache(); Pool::PurgeCache(); });
}
// ---------------------------------------------------------------- stored settings
struct CA { int a=1; }; struct CB { int b=2; }; struct CC { int c=3; };
static void configs(mc::Run& r)
{
	using Conf=bertini::detail::Configured<CA,CB,CC>; std::vector<std::vector<int>> H={{}}; for (size_t k=0;k<H.size();k++) if (H[k].size()<4) for (int o=0;o<7;o++) { auto h=H[k]; h.push_back(o); H.push_back(h); }
	for (auto const& h:H) r.test([&]{ std::string s="settings:"; for (int o:h) s+=" "+std::to_string(o); return s; },[&]{ Conf c; int a=1,b=2,d=3; auto look=[&]{ r.transition(); r.check(c.Get<CA>().a==a && c.Get<CB>().b==b && c.Get<CC>().c==d,"settings",[&]{ return "stored "+std::to_string(c.Get<CA>().a)+", "+std::to_string(c.Get<CB>().b)+", "+std::to_string(c.Get<CC>().c)+" instead of "+std::to_string(a)+", "+std::to_string(b)+", "+std::to_string(d); }); }; look();
		for (int o:h) { if (o<2) { CA x; x.a=a=10+o; c.Set(x); } else if (o<4) { CB x; x.b=b=10+o; c.Set(x); } else if (o<6) { CC x; x.c=d=10+o; c.Set(x); } else { Conf e=c; CA x; x.a=77; e.Set(x); r.check(e.Get<CB>().b==b && e.Get<CA>().a==77,"settings:copy",[&]{ return std::string("a copy differs"); }); Conf f(CA{a},CB{b},CC{d}); c=f; } look(); } r.state("settings"+std::to_string(a)+std::to_string(b)+std::to_string(d)); r.outcome("settings"); });
	r.test([&]{ return std::string("permuted arguments"); },[&]{ using L=bertini::detail::TypeList<CA,CB,CC>; CA a{10}; CB b{20}; CC c{30}; auto is=[&](std::tuple<CA,CB,CC> const& t,int x,int y,int z,const char* n){ r.transition(); r.check(std::get<0>(t).a==x && std::get<1>(t).b==y && std::get<2>(t).c==z,"permuted",[&]{ return std::string(n)+" gave "+std::to_string(std::get<0>(t).a)+", "+std::to_string(std::get<1>(t).b)+", "+std::to_string(std::get<2>(t).c); }); };
		is(L::Unpermute(),1,2,3,""); is(L::Unpermute(a),10,2,3,"a"); is(L::Unpermute(b),1,20,3,"b"); is(L::Unpermute(c),1,2,30,"c"); is(L::Unpermute(a,b),10,20,3,"ab"); is(L::Unpermute(b,a),10,20,3,"ba"); is(L::Unpermute(a,c),10,2,30,"ac"); is(L::Unpermute(c,a),10,2,30,"ca"); is(L::Unpermute(b,c),1,20,30,"bc"); is(L::Unpermute(c,b),1,20,30,"cb"); is(L::Unpermute(a,b,c),10,20,30,"abc"); is(L::Unpermute(a,c,b),10,20,30,"acb"); is(L::Unpermute(b,a,c),10,20,30,"bac"); is(L::Unpermute(b,c,a),10,20,30,"bca"); is(L::Unpermute(c,a,b),10,20,30,"cab"); is(L::Unpermute(c,b,a),10,20,30,"cba"); r.state("permuted"); r.outcome("permuted"); });
}
// ---------------------------------------------------------------- ready-made systems, files
static void rest(mc::Run& r)
{
	for (int k=0;k<3;k++) for (unsigned D:{0u,20u,50u}) for (int p=0;p<3;p++) r.test([&]{ return "ready-made system "+std::to_string(k)+", "+std::to_string(D)+" digits, point "+std::to_string(p); },[&]{ unsigned d=D?D:16; DefaultPrecision(d); System S=k==0?bertini::system::Precon::GriewankOsborn():k==1?bertini::system::Precon::CrossedPaths():bertini::system::Precon::Sphere(); S.precision(d); int n=k==2?3:2; r.check((int)S.NumVariables()==n && (int)S.NumTotalFunctions()==(k==2?1:2) && S.NumVariableGroups()==1,"ready-made:shape",[&]{ return std::string("shape"); }); std::vector<R> x={Rc(p+1,3,p,5),Rc(-2,7,p,3),Rc(p,2,1,9)}; x.resize(n);
		std::vector<R> got,w; if (D) { auto v=convv<Mp>(x,d); x=toRv(v); got=toRv(S.Eval(v)); } else { auto v=convv<dbl>(x,16); x=toRv(v); got=toRv(S.Eval(v)); } if (k==0) w={Rq(29,16)*x[0]*x[0]*x[0]-R(2)*x[0]*x[1],x[1]-x[0]*x[0]}; else if (k==1) w={x[0]*x[0]*x[0]+R(2),x[1]*x[1]+Rq(1,2)}; else w={x[0]*x[0]+x[1]*x[1]+x[2]*x[2]-R(1)}; r.transition(); r.check(got.size()==w.size() && dist(got,w)<std::pow(10.,2-(double)d),"ready-made:value",[&]{ return "a value is off by "+str(R(dist(got,w)),5); }); r.state("ready"+std::to_string(k)); r.outcome("ready-made"); });
	std::string al="a\n\r%\t ;"; al.push_back('\0'); std::vector<std::string> T={""}; for (size_t k=0;k<T.size();k++) if (T[k].size()<(r.thorough()?4u:3u)) for (char c:al) T.push_back(T[k]+c);
	for (auto const& t:T) r.test([&]{ std::string s="file"; for (unsigned char c:t) s+=" "+std::to_string(c); return s; },[&]{ std::string f="nag."+std::to_string(getpid()); { std::ofstream o(f,std::ios::binary); o.write(t.data(),t.size()); } std::string got=bertini::FileToString(f); ::unlink(f.c_str()); r.transition(); r.check(got==t,"file",[&]{ return "a file of "+std::to_string(t.size())+" characters was read as "+std::to_string(got.size()); }); bool threw=false; try { bertini::FileToString(f); } catch (std::exception const&) { threw=true; } r.check(threw,"file:missing",[&]{ return std::string("a missing file was read"); }); threw=false; try { bertini::FileToString("."); } catch (std::exception const&) { threw=true; } r.check(threw,"file:directory",[&]{ return std::string("a directory was read"); }); r.state("file"+std::to_string(t.size())); r.outcome("file"); });
}
static void P31(mc::Run& r) { wsets(r); wmany(r); pools(r); configs(r); rest(r); }

// ---------------------------------------------------------------- numbers and matrices
template<class C> using Mt=bertini::Mat<C>; template<class C> using Vt=bertini::Vec<C>;
static std::vector<std::vector<int>> alltuples(int n,int k) { std::vector<std::vector<int>> v={{}}; for (int i=0;i<n;i++) { std::vector<std::vector<int>> w; for (auto const& p:v) for (int c=0;c<k;c++) { auto q=p; q.push_back(c); w.push_back(q); } v=w; } return v; }
static long det(std::vector<int> const& a,int n) { if (n==1) return a[0]; if (n==2) return (long)a[0]*a[3]-(long)a[1]*a[2]; return (long)a[0]*(a[4]*a[8]-a[5]*a[7])-(long)a[1]*(a[3]*a[8]-a[5]*a[6])+(long)a[2]*(a[3]*a[7]-a[4]*a[6]); }
template<class C> static void lu(mc::Run& r,std::vector<int> const& a,int n,unsigned D,int rot,long const* known=nullptr)
{
	DefaultPrecision(D); std::string tag=std::string("matrix ")+ty<C>(); Mt<C> A(n,n); R u=rot?Rc(3,5,4,5):R(1); for (int i=0;i<n;i++) for (int j=0;j<n;j++) A(i,j)=conv<C>(R(a[i*n+j])*u,D); r.where(tag+" LU"); auto LU=A.lu(); auto code=bertini::LUPartialPivotDecompositionSuccessful(LU.matrixLU()); r.transition(); long d=known?*known:det(a,n);
	r.check((code==bertini::MatrixSuccessCode::Success)==(d!=0),tag+":singular",[&]{ return "a matrix with determinant "+std::to_string(d)+" gives code "+std::to_string((int)code); });
	if (d!=0) { Vt<C> b(n); for (int i=0;i<n;i++) b(i)=conv<C>(Rc(i+1,3,i,7),D); Vt<C> x=LU.solve(b); Vt<C> y=A*x-b; double e=static_cast<double>(y.template lpNorm<Eigen::Infinity>()); r.check(e<std::pow(10.,-(double)D+(known?5:3)),tag+":solve",[&]{ return "the residual of the solution is "+str(R(e),4); }); if (D>16) r.check(bertini::Precision(x)==D,tag+":precision",[&]{ return "a solution has "+std::to_string(bertini::Precision(x))+" digits"; }); }
	r.outcome(d?"regular":"singular"); r.state(tag+std::to_string(d)+std::to_string(n));
}
template<class C> static void vectors(mc::Run& r,int n,std::vector<int> const& a,std::vector<int> const& b,unsigned D)
{
	DefaultPrecision(D); static const std::vector<R> U={R(0),R(1),Rc(0,1,-2,1),Rc(1,3,5,7),Rc(-4,3,1,9)}; std::string tag=std::string("vector ")+ty<C>(); Vt<C> x(n),y(n); std::vector<R> p(n),q(n); for (int i=0;i<n;i++) { x(i)=conv<C>(U[a[i]],D); y(i)=conv<C>(U[b[i]],D); p[i]=toR(x(i)); q[i]=toR(y(i)); } double eps=std::pow(10.,2-(double)D);
	auto cj=[](R const& z){ return R(Rr(z.real()),-Rr(z.imag())); }; R dot(0),tr(0); Rr inf(0),two(0),one(0); for (int i=0;i<n;i++) { dot+=cj(p[i])*q[i]; tr+=p[i]*q[i]; Rr m=abs(p[i]); inf=std::max(inf,m); two+=m*m; one+=m; } r.transition();
	auto is=[&](R const& got,R const& want,const char* k){ r.check(mag(got-want)<eps*(1+mag(want)),tag+":"+k,[&]{ return std::string(k)+" is "+str(got,15)+" instead of "+str(want,15); }); }; auto real=[&](typename bertini::NumTraits<C>::Real const& g,Rr const& w,const char* k){ is(toR(C(g)),R(w),k); };
	is(toR(C(x.dot(y))),dot,"dot product"); is(toR(C((x.transpose()*y)(0,0))),tr,"product"); is(toR(C((x.adjoint()*y)(0,0))),dot,"adjoint product"); is(toR(C(x.sum())),[&]{ R s(0); for (auto const& v:p) s+=v; return s; }(),"sum"); real(x.template lpNorm<Eigen::Infinity>(),inf,"infinity norm"); real(x.norm(),sqrt(two),"norm"); real(x.squaredNorm(),two,"squared norm"); real(x.template lpNorm<1>(),one,"1-norm");
	Mt<C> M=x*y.adjoint(); R f(0); for (int i=0;i<n;i++) for (int j=0;j<n;j++) { is(toR(M(i,j)),p[i]*cj(q[j]),"outer product"); } Vt<C> z=M*y; Rr q2(0); for (auto const& v:q) { Rr m=abs(v); q2+=m*m; } for (int i=0;i<n;i++) is(toR(z(i)),p[i]*R(q2),"matrix times vector"); real(M.norm(),sqrt(two)*sqrt(q2),"matrix norm"); r.state(tag+std::to_string(n)); r.outcome("vectors");
}
static void numbers(mc::Run& r)
{
	// powers of doubles
	for (int p=-40;p<=70;p++) for (int k=0;k<5;k++) r.test([&]{ return "power "+std::to_string(p)+" of number "+std::to_string(k); },[&]{ static const std::vector<R> U={R(1),R(-2),Rc(0,1,1,2),Rc(1,3,5,7),Rc(-4,3,1,9)}; dbl z=conv<dbl>(U[k],16); dbl g=bertini::pow(z,p); R w(1),zz=toR(z); for (int i=0;i<std::abs(p);i++) w*=zz; if (p<0) w=R(1)/w; r.transition(); r.check(mag(toR(g)-w)<1e-14*(10+std::abs(p))*mag(w),"power",[&]{ return "is "+str(toR(g),17)+" instead of "+str(w,17); }); r.state("power"); r.outcome("power"); });
	// random numbers: range, modulus, precision, all digits used, nothing else disturbed
	std::vector<unsigned> digits; for (unsigned d=16;d<=110;d+=r.thorough()?1:3) digits.push_back(d); for (unsigned d:{200u,201u,400u,500u,800u,801u,1000u}) digits.push_back(d);
	for (unsigned def:{16u,20u,50u,120u}) for (unsigned d:digits) r.test([&]{ return "random numbers of "+std::to_string(d)+" digits while the default is "+std::to_string(def); },[&]{
		namespace mp=bertini::multiprecision; DefaultPrecision(def); std::vector<mpfr_float> seen; auto full=[&](mpfr_float const& x,unsigned dd,const char* n){ mpfr_float y=x; y.precision(dd+20); mpfr_float s=ldexp(y,(int)(dd*3.3219)-40); mpfr_float fr=s-floor(s); r.check(fr!=0 || y==0,std::string("random:")+n+" digits",[&]{ return std::string(n)+": the last digits are zero"; }); };
		auto real=[&](mpfr_float const& x,double lo,double hi,unsigned dd,const char* n){ r.transition(); r.check(x>=lo && x<=hi,std::string("random:")+n+" range",[&]{ return std::string(n)+" is "+x.str(10); }); r.check(bertini::Precision(x)==dd,std::string("random:")+n+" precision",[&]{ return std::string(n)+" has "+std::to_string(bertini::Precision(x))+" digits instead of "+std::to_string(dd); }); for (auto const& s:seen) r.check(x!=s,std::string("random:")+n+" repeated",[&]{ return std::string(n)+" repeats a number"; }); seen.push_back(x); if (bertini::Precision(x)==dd) full(x,dd,n); };
		for (int k=0;k<3;k++) { real(bertini::RandomMp(d),0,1,d,"RandomMp"); mpfr_float a; bertini::RandomMpAssign(a,d); real(a,0,1,d,"RandomMpAssign"); mpfr_float lo(-3),hi(5); lo.precision(d); hi.precision(d); real(bertini::RandomMp(lo,hi,d),-3,5,d,"RandomMp between"); }
		real(bertini::RandomMp(),0,1,def,"RandomMp by default"); real(bertini::RandomMp(mpfr_float(-3),mpfr_float(5)),-3,5,def,"RandomMp between by default");
		auto cplx=[&](Mp const& z,unsigned dd,int kind,const char* n){ r.transition(); r.check(bertini::Precision(z)==dd,std::string("random:")+n+" precision",[&]{ return std::string(n)+" has "+std::to_string(bertini::Precision(z))+" digits instead of "+std::to_string(dd); }); mpfr_float re=z.real(),im=z.imag(); r.check(abs(re)<=1 && abs(im)<=1,std::string("random:")+n+" range",[&]{ return std::string(n)+" is "+z.str(10); }); if (kind==2) r.check(im==0,std::string("random:")+n+" real",[&]{ return std::string("not real"); }); else r.check(im!=0 && re!=0 && re!=im,std::string("random:")+n+" complex",[&]{ return std::string("not generic"); }); if (kind==1) { auto old=bertini::DefaultPrecision(); DefaultPrecision(dd+10); Mp w(z); w.precision(dd+10); mpfr_float m=abs(w)-1; r.check(abs(m)<pow(mpfr_float(10),1-(int)dd),std::string("random:")+n+" modulus",[&]{ return std::string(n)+" differs from modulus one by "+m.str(5); }); DefaultPrecision(old); } for (auto const& s:seen) r.check(re!=s,std::string("random:")+n+" repeated",[&]{ return std::string(n)+" repeats a number"; }); seen.push_back(re); if (kind!=1 && bertini::Precision(re)==dd) full(re,dd,n); };
		for (int k=0;k<2;k++) { cplx(mp::RandomComplex(d),d,0,"RandomComplex"); cplx(mp::RandomReal(d),d,2,"RandomReal"); cplx(mp::RandomUnit(d),d,1,"RandomUnit"); Mp z; mp::RandomRealAssign(z,d); cplx(z,d,2,"RandomRealAssign"); Mp y; mp::rand_assign(y,d); cplx(y,d,0,"rand_assign"); Mp x; mp::RandomUnitAssign(x,d); cplx(x,d,1,"RandomUnitAssign"); }
		cplx(mp::rand(),def,0,"rand"); cplx(mp::rand_unit(),def,1,"rand_unit"); cplx(mp::RandomUnit(),def,1,"RandomUnit by default"); cplx(mp::RandomReal(),def,2,"RandomReal by default"); r.check(bertini::DefaultPrecision()==def,"random:default",[&]{ return "the default precision changed to "+std::to_string(bertini::DefaultPrecision()); }); r.state("random"+std::to_string(d)); r.outcome("random"); });
	r.test([&]{ return std::string("random doubles"); },[&]{ for (int k=0;k<50;k++) { dbl z=bertini::RandomUnit<dbl>(); r.transition(); r.check(std::abs(std::abs(z)-1)<1e-14,"random:double unit",[&]{ return std::string("modulus"); }); double x=bertini::RandReal(); r.check(x>=-1 && x<=1,"random:double",[&]{ return std::string("range"); }); } r.state("random doubles"); r.outcome("random"); });
	// random vectors and matrices of units, Kahan matrices, precision of containers
	for (int n=1;n<=9;n++) for (int m=1;m<=6;m++) for (unsigned D:{16u,30u,60u}) r.test([&]{ return "units "+std::to_string(n)+"x"+std::to_string(m)+", "+std::to_string(D)+" digits"; },[&]{ DefaultPrecision(D); auto A=Mt<Mp>(bertini::RandomOfUnits<Mp>(n,m)); auto B=Mt<dbl>(bertini::RandomOfUnits<dbl>(n,m)); auto v=Vt<Mp>(bertini::RandomOfUnits<Mp>(n)); r.check(A.rows()==n && A.cols()==m && B.rows()==n && B.cols()==m && v.size()==n,"units:size",[&]{ return std::string("size"); }); std::set<std::string> s; for (int i=0;i<n;i++) for (int j=0;j<m;j++) { r.transition(); r.check(static_cast<double>(Rr(abs(Rr(abs(toR(A(i,j))))-1)))<std::pow(10.,1-(double)D) && std::abs(std::abs(B(i,j))-1)<1e-14,"units:modulus",[&]{ return std::string("modulus"); }); s.insert(A(i,j).str(20)); } r.check((int)s.size()==n*m,"units:repeated",[&]{ return std::string("entries repeat"); }); r.check(bertini::PrecisionRequireUniform(A)==D,"units:precision",[&]{ return std::string("precision"); }); r.state("units"); r.outcome("units"); });
	for (int n=1;n<=15;n++) for (int c=0;c<3;c++) for (unsigned D:{0u,20u,40u}) r.test([&]{ return "Kahan matrix "+std::to_string(n)+", "+std::to_string(c)+", "+std::to_string(D)+" digits"; },[&]{ unsigned d=D?D:16; DefaultPrecision(d); static const std::vector<R> cs={Rq(57,200),Rq(3,5),Rq(-1,4)}; R cc=cs[c]; auto judge=[&](auto const& A,R const& ce){ R s=R(sqrt((R(1)-ce)*(R(1)+ce))); for (int i=0;i<n;i++) for (int j=0;j<n;j++) { R w=j<i?R(0):j==i?R(1):R(0)-ce; for (int k=0;k<i;k++) w*=s; w/=R(j+1); r.transition(); r.check(mag(toR(A(i,j))-w)<std::pow(10.,2-(double)d),"Kahan",[&]{ return "entry "+std::to_string(i)+","+std::to_string(j)+" is "+str(toR(A(i,j)),15)+" instead of "+str(w,15); }); } }; if (D) { Mp q=conv<Mp>(cc,d); judge(bertini::KahanMatrix<Mp>(n,q),toR(q)); } else { dbl q=conv<dbl>(cc,16); judge(bertini::KahanMatrix<dbl>(n,q),toR(q)); } r.state("Kahan"); r.outcome("Kahan"); });
	for (int n=1;n<=7;n++) for (int m=1;m<=6;m++) for (int odd=-1;odd<n*m;odd++) r.test([&]{ return "precision of a matrix "+std::to_string(n)+"x"+std::to_string(m)+", entry "+std::to_string(odd)+" different"; },[&]{ DefaultPrecision(30); Mt<Mp> A(n,m); for (int i=0;i<n;i++) for (int j=0;j<m;j++) A(i,j)=conv<Mp>(Rc(i+1,3,j,7),30); if (odd>=0) bertini::Precision(A(odd/m,odd%m),50u); bool threw=false; unsigned p=0; try { p=bertini::PrecisionRequireUniform(A); } catch (std::exception const&) { threw=true; } r.check(threw==(odd>=0 && n*m>1) && (threw || p==(n*m==1&&odd==0?50u:30u)),"matrix:uniform",[&]{ return std::string(threw?"refused":"accepted"); }); for (unsigned d:{20u,70u,16u,40u}) { bertini::Precision(A,d); r.transition(); for (int i=0;i<n;i++) for (int j=0;j<m;j++) r.check(bertini::Precision(A(i,j))==d,"matrix:precision",[&]{ return "entry with "+std::to_string(bertini::Precision(A(i,j)))+" digits"; }); r.check(bertini::Precision(A)==d && bertini::PrecisionRequireUniform(A)==d,"matrix:precision",[&]{ return std::string("precision"); }); } Mt<dbl> B(n,m); B.setOnes(); r.check(bertini::Precision(B)==16,"matrix:double",[&]{ return std::string("precision"); }); bool t2=false; try { bertini::Precision(B,17u); } catch (std::exception const&) { t2=true; } r.check(t2,"matrix:double",[&]{ return std::string("changing the precision of doubles was not refused"); }); bertini::Precision(B,16u); r.state("matrix precision"); r.outcome("precision"); });
	r.test([&]{ return std::string("precision of an empty matrix"); },[&]{ for (int k=0;k<3;k++) { Mt<Mp> A(k==0?0:2,k==1?0:(k==0?2:0)); bool threw=false; try { bertini::Precision(A); } catch (std::exception const&) { threw=true; } r.transition(); r.check(threw && bertini::IsEmpty(A),"matrix:empty",[&]{ return std::string("not refused"); }); } r.state("empty"); r.outcome("precision"); });
	// judging sizes
	for (unsigned D:{0u,20u,50u}) for (int e=-60;e<=20;e++) for (int k=0;k<3;k++) r.test([&]{ return "size of 10^"+std::to_string(e)+", kind "+std::to_string(k)+", "+(D?std::to_string(D)+" digits":std::string("double")); },[&]{ unsigned d=D?D:16; DefaultPrecision(d); R f=k==0?R(3):k==1?R(-3):Rc(0,1,3,1); R v=f*R(pow(Rr(10),e)); double lim=D?2-(double)D:std::log10(2.220446e-14); double l=e+std::log10(3.); bool want=l<=lim; bool got,near=std::abs(l-lim)<0.2; if (D) got=bertini::IsSmallValue(conv<Mp>(v,d)); else got=bertini::IsSmallValue(conv<dbl>(v,16)); r.transition(); if (!near) r.check(got==want,"small",[&]{ return std::string(got?"small":"not small"); });
		double big=D?(double)D-3:12; double q=e+std::log10(3.); bool lc; if (D) lc=bertini::IsLargeChange(conv<Mp>(v,d),conv<Mp>(R(1),d)); else lc=bertini::IsLargeChange(conv<dbl>(v,16),dbl(1)); if (std::abs(q-big)>0.2) r.check(lc==(q>=big),"large change",[&]{ return std::string(lc?"large":"not large"); }); if (D) lc=bertini::IsLargeChange(conv<Mp>(R(1),d),conv<Mp>(v,d)); else lc=bertini::IsLargeChange(dbl(1),conv<dbl>(v,16)); if (std::abs(-q-big)>0.2) r.check(lc==(-q>=big),"large change",[&]{ return std::string(lc?"large":"not large"); });
		R w=v*(R(1)+R(Rr("1e-6"))); for (double t:{1e-5,1e-7}) { bool g; if (D) g=bertini::IsSymmRelDiffSmall(conv<Mp>(v,d),conv<Mp>(w,d),mpfr_float(t)); else g=bertini::IsSymmRelDiffSmall(conv<dbl>(v,16),conv<dbl>(w,16),t); r.check(g==(t>1e-6),"relative difference",[&]{ return std::string(g?"small":"not small"); }); } r.check(bertini::IsSymmRelDiffSmall(dbl(0),dbl(0),1e-5) && !bertini::IsSymmRelDiffSmall(dbl(0),dbl(1),1e-5),"relative difference",[&]{ return std::string("of zeros"); }); r.state("size"); r.outcome("sizes"); });
	// matrices
	for (unsigned D:{16u,20u,30u,60u}) for (int n=1;n<=3;n++) { std::vector<int> vals=n<3?std::vector<int>{-2,-1,0,1,3}:r.thorough()&&D!=60?std::vector<int>{0,1,-1,2}:std::vector<int>{0,1,-1}; if (n==3 && !r.thorough() && D!=16 && D!=30) vals={0,1}; for (auto const& t:alltuples(n*n,vals.size())) { std::vector<int> a; for (int k:t) a.push_back(vals[k]); for (int rot=0;rot<2;rot++) { if (n==3 && D!=16 && !rot) continue; auto lab=[&]{ std::string s="matrix"; for (int x:a) s+=" "+std::to_string(x); return s+(rot?", turned, ":", ")+std::to_string(D)+" digits"; }; if (D==16) r.test(lab,[&]{ lu<dbl>(r,a,n,16,rot); }); else r.test(lab,[&]{ lu<Mp>(r,a,n,D,rot); }); } } }
	// larger ones: a product of triangular matrices, all regular but for one zero on the diagonal, or all but
	for (unsigned D:{16u,20u,30u,60u}) for (int n=4;n<=14;n++) for (int zero=-1;zero<n;zero++) for (int pat=0;pat<4;pat++) for (int rot=0;rot<2;rot++) r.test([&]{ return "matrix of size "+std::to_string(n)+", pattern "+std::to_string(pat)+", zero "+std::to_string(zero)+(rot?", turned, ":", ")+std::to_string(D)+" digits"; },[&]{
		std::vector<int> L(n*n),a(n*n); std::vector<int> Up(n*n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) { L[i*n+j]=i==j?1:i>j?((i*j+pat*i+j)%3-1)*((i+j+pat)%2):0; Up[i*n+j]=i==j?(i==zero?0:(i+pat)%2?1:-2):i<j?((i*j+pat*j+2*i)%3-1)*((i+2*j+pat)%3==0):0; } for (int i=0;i<n;i++) for (int j=0;j<n;j++) for (int k=0;k<n;k++) a[i*n+j]+=L[i*n+k]*Up[k*n+j];
		long d=zero>=0?0:1; if (D==16) lu<dbl>(r,a,n,16,rot,&d); else lu<Mp>(r,a,n,D,rot,&d); });
	for (unsigned D:{16u,20u,50u}) for (int n=3;n<=16;n++) for (int p=0;p<5;p++) for (int q=0;q<5;q++) { std::vector<int> a,b; for (int i=0;i<n;i++) { a.push_back((i*(p+1)+p)%5); b.push_back((i*i+q*i+q)%5); } r.test([&]{ return "vectors of "+std::to_string(n)+", patterns "+std::to_string(p)+" and "+std::to_string(q)+", "+std::to_string(D)+" digits"; },[&]{ if (D==16) vectors<dbl>(r,n,a,b,16); else vectors<Mp>(r,n,a,b,D); }); }
	for (unsigned D:{16u,20u,50u}) for (int n=1;n<=2;n++) for (auto const& a:alltuples(n,5)) for (auto const& b:alltuples(n,5)) r.test([&]{ std::string s="vectors"; for (int x:a) s+=" "+std::to_string(x); s+=" and"; for (int x:b) s+=" "+std::to_string(x); return s+", "+std::to_string(D)+" digits"; },[&]{ if (D==16) vectors<dbl>(r,n,a,b,16); else vectors<Mp>(r,n,a,b,D); });
	for (auto const& p:alltuples(5,4)) r.test([&]{ std::string s="largest of"; for (int x:p) s+=" "+std::to_string(x); return s; },[&]{ double d[5]; for (int i=0;i<5;i++) d[i]=p[i]-1.5; auto mx=[&](int n){ double m=d[0]; for (int i=1;i<n;i++) m=std::max(m,d[i]); return m; }; r.transition(); r.check(bertini::max(d[0],d[1],d[2])==mx(3) && bertini::max(d[0],d[1],d[2],d[3])==mx(4) && bertini::max(d[0],d[1],d[2],d[3],d[4])==mx(5),"largest",[&]{ return std::string("not the largest"); }); r.state("largest"); r.outcome("largest"); });
	// conversions
	for (int a=-7;a<=7;a++) for (int b=1;b<=9;b++) for (unsigned D:{16u,20u,50u,80u}) r.test([&]{ return "rational "+std::to_string(a)+"/"+std::to_string(b)+", "+std::to_string(D)+" digits"; },[&]{ DefaultPrecision(D); mpq_rational q(a,b); R w=Rq(a,b); double eps=std::pow(10.,-(double)D+1); r.transition(); r.check(mag(toR(bertini::NumTraits<Mp>::FromRational(q,D))-w)<eps*10 && bertini::Precision(bertini::NumTraits<Mp>::FromRational(q,D))==D,"rational:mp",[&]{ return std::string("complex"); }); mpfr_float f=bertini::NumTraits<mpfr_float>::FromRational(q,D); r.check(mag(toR(Mp(f))-w)<eps*10 && bertini::Precision(f)==D,"rational:mp",[&]{ return std::string("real"); }); r.check(std::abs(bertini::NumTraits<double>::FromRational(q,D)-double(a)/b)<1e-15*7 && std::abs(bertini::NumTraits<dbl>::FromRational(q,D)-dbl(double(a)/b))<1e-15*7,"rational:double",[&]{ return std::string("double"); }); r.check(bertini::NumTraits<mpfr_float>::NumDigits()==D && bertini::NumTraits<Mp>::NumDigits()==D && bertini::NumTraits<double>::NumDigits()==16 && bertini::NumTraits<dbl>::NumDigits()==16,"digits",[&]{ return std::string("number of digits"); }); r.state("rational"); r.outcome("conversions"); });
	for (int e=1;e<=40;e++) for (int f:{1,3,9}) r.test([&]{ return "digits for "+std::to_string(f)+"e-"+std::to_string(e); },[&]{ DefaultPrecision(50); if (f==1) return; std::string s=std::to_string(f)+"e-"+std::to_string(e); unsigned want=e-0; unsigned a=bertini::NumTraits<double>::TolToDigits(std::stod(s)),b=bertini::NumTraits<mpfr_float>::TolToDigits(mpfr_float(s)); r.transition(); r.check(a==want && b==want,"tolerance digits",[&]{ return std::to_string(a)+" and "+std::to_string(b)+" digits instead of "+std::to_string(want); }); r.state("tol"); r.outcome("conversions"); });
	for (unsigned p:{16u,20u,33u,50u,100u,1000u}) for (unsigned q:{16u,20u,33u,50u,100u,1000u}) r.test([&]{ return "default precision "+std::to_string(p)+" then "+std::to_string(q); },[&]{ DefaultPrecision(p); Mp a(1); mpfr_float b(1); DefaultPrecision(q); Mp c(1); mpfr_float d(1); r.transition(); r.check(bertini::DefaultPrecision()==q && bertini::Precision(a)==p && bertini::Precision(b)==p && bertini::Precision(c)==q && bertini::Precision(d)==q && mpfr_float::default_precision()==q && Mp::default_precision()==q,"default precision",[&]{ return std::string("numbers do not have the precision in force when they were made"); }); bertini::Precision(a,q); bertini::Precision(b,q); r.check(bertini::Precision(a)==q && bertini::Precision(b)==q && a==1 && b==1,"default precision",[&]{ return std::string("changing the precision"); }); r.state("default"+std::to_string(q)); r.outcome("default precision"); });
}
static void P30(mc::Run& r) { numbers(r); }
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P29",P29},{"P30",P30},{"P31",P31}}); }
