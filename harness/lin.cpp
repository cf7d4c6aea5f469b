// Linear products and linear slices.
#include "sysref.hpp"
#include "bertini2/system/slice.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace ref;
using bertini::EvalMethod; using bertini::DerivMethod;
using bertini::node::Variable; using bertini::node::Function; using bertini::node::Integer; using bertini::node::LinearProduct; using bertini::node::Jacobian;
using bertini::LinearSlice;
static R gen(int i,int salt=0) { static const auto b=points(NV); R z=b[(i+salt)%2][(i*3+salt)%NV]; return z+R(Rr(i)/Rr(7),Rr(salt)/Rr(9)); }
static Rr rr(bertini::mpq_rational const& q) { return Rr(numerator(q))/Rr(denominator(q)); }

// ---------------------------------------------------------------- linear products
struct Lin { std::vector<std::vector<R>> c; }; // per factor, coefficients with the constant last
static R lin_val(Lin const& L,std::vector<R> const& x,R const& h) { R p(1); for (auto const& f:L.c) { R s=f.back()*h; for (size_t j=0;j<x.size();j++) s+=f[j]*x[j]; p*=s; } return p; }
static R lin_der(Lin const& L,std::vector<R> const& x,R const& h,size_t k) // k==x.size(): with respect to the homogenizing variable
{
	R t(0); for (size_t a=0;a<L.c.size();a++) { R p=L.c[a][k]; for (size_t f=0;f<L.c.size();f++) if (f!=a) { R s=L.c[f].back()*h; for (size_t j=0;j<x.size();j++) s+=L.c[f][j]*x[j]; p*=s; } t+=p; } return t;
}
static void lp_case(mc::Run& r,int nv,int nf,int kind,std::vector<int> const& acts)
{
	// kind 0: random rational coefficients; 1: given coefficients; +2: homogeneous group
	DefaultPrecision(30);
	std::vector<Var> v; VariableGroup g; for (int i=0;i<nv;i++) { v.push_back(Variable::Make("x"+std::to_string(i))); g.push_back(v[i]); } auto h=Variable::Make("h"), other=Variable::Make("u");
	std::shared_ptr<LinearProduct> L; Lin M; bool homg=kind&2;
	if (kind&1)
	{
		bertini::Mat<Mp> C(nf,nv+1); for (int f=0;f<nf;f++) { std::vector<R> row; for (int j=0;j<=nv;j++) { R z=gen(3*f+j,f); C(f,j)=toMp(z,75); row.push_back(toR(C(f,j))); if (homg&&j==nv) row.back()=R(0); } M.c.push_back(row); }
		L=LinearProduct::Make(g,C,homg);
	}
	else
	{
		L=LinearProduct::Make(g,nf,homg); bertini::Mat<bertini::mpq_rational> a,b; L->GetRatCoeffs(a,b);
		for (int f=0;f<nf;f++) { std::vector<R> row; for (int j=0;j<=nv;j++) row.push_back(R(rr(a(f,j)),rr(b(f,j)))); M.c.push_back(row); }
		for (int f=0;f<nf;f++) for (int j=0;j<=nv-homg+0;j++) { if (homg&&j==nv) continue; r.check(mag(M.c[f][j])>0,"random:zero",[&]{ return "a random coefficient is 0"; }); }
	}
	unsigned digits=30; int salt=0; bool hom=false; Node E=L*other; // used in an expression, too
	auto all_prec=[&](unsigned d){ digits=d; DefaultPrecision(d); E->precision(d); h->precision(d); other->precision(d); for (auto& x:v) x->precision(d); };
	all_prec(30);
	auto point=[&]{ std::vector<R> x; for (int j=0;j<nv;j++) x.push_back(gen(j,salt)); return x; };
	auto hval=[&]{ return hom? gen(5,salt):R(1); };
	auto set=[&]{ auto x=point(); for (int j=0;j<nv;j++) { v[j]->set_current_value(toD(x[j])); v[j]->set_current_value(toMp(x[j],digits)); } R hv=gen(5,salt); h->set_current_value(toD(hv)); h->set_current_value(toMp(hv,digits)); R u=gen(6,salt); other->set_current_value(toD(u)); other->set_current_value(toMp(u,digits)); E->Reset(); };
	double sc=1; 
	auto look=[&](std::string const& tag,bool mp){
		auto x=point(); R want=lin_val(M,x,hval()); double s=1; for (auto const& f:M.c) { double t=0; for (int j=0;j<=nv;j++) t+=mag(f[j])*(j<nv?mag(x[j]):mag(hval())); s*=1+t; } sc=s;
		R u=gen(6,salt); double t= mp? std::pow(10.,-(double)digits+3):1e-13;
		R got= mp? toR(L->Eval<Mp>()):toR(L->Eval<dbl>()); r.check(close(got,want,t*s),tag+(mp?":mp":":dbl")+":value",[&]{ return str(got,40)+" expected "+str(want,40); });
		if (mp) r.check(bertini::Precision(L->Eval<Mp>())==digits,tag+":value-precision",[&]{ return "value carries "+std::to_string(bertini::Precision(L->Eval<Mp>()))+" digits"; });
		R gp= mp? toR(E->Eval<Mp>()):toR(E->Eval<dbl>()); r.check(close(gp,want*u,t*s*(1+mag(u))),tag+(mp?":mp":":dbl")+":in-product",[&]{ return str(gp)+" expected "+str(R(want*u)); });
		r.transition(2);
	};
	auto derive=[&](std::string const& tag){
		auto x=point(); R u=gen(6,salt); look(tag,false);
		for (int k=0;k<=nv+1;k++)
		{
			if (k==nv && !hom) continue;
			Var w= k<nv? v[k] : k==nv? h : other;
			R want = k<=nv? lin_der(M,x,hval(),k) : R(0); if (k==nv && homg) want=R(0);
			Node D=L->Differentiate(w), D2=E->Differentiate(w); D->precision(digits); D2->precision(digits); set(); D->Reset(); D2->Reset();
			R wantE = k<=nv? R(want*u) : lin_val(M,x,hval());
			R a=toR(D->Eval<dbl>()), b=toR(D->Eval<Mp>()), c=toR(D2->Eval<dbl>()), d=toR(D2->Eval<Mp>());
			double tm=std::pow(10.,-(double)digits+3)*sc*10;
			r.check(close(a,want,1e-12*sc)&&close(b,want,tm),tag+":derivative",[&]{ return "derivative in "+w->name()+": "+str(a)+" / "+str(b)+" expected "+str(want); });
			r.check(close(c,wantE,1e-12*sc*(1+mag(u)))&&close(d,wantE,tm*(1+mag(u))),tag+":derivative-of-product",[&]{ return "derivative in "+w->name()+": "+str(c)+" / "+str(d)+" expected "+str(wantE); });
			auto J=Jacobian::Make(L->Differentiate()); J->precision(digits); set(); J->Reset();
			R e=toR(J->EvalJ<dbl>(w)); J->Reset(); R f=toR(J->EvalJ<Mp>(w));
			r.check(close(e,want,1e-12*sc)&&close(f,want,tm),tag+":differential",[&]{ return "differential along "+w->name()+": "+str(e)+" / "+str(f)+" expected "+str(want); });
			r.transition(3);
		}
		set();
	};
	auto degrees=[&](std::string const& tag){
		VariableGroup hg=g; hg.insert(hg.begin(),h);
		for (auto const& w:v) r.check(L->Degree(w)==nf,tag+":degree",[&]{ return "degree in "+w->name()+" is "+std::to_string(L->Degree(w)); });
		r.check(L->Degree(other)==0 && L->Degree(g)==nf && L->Degree(VariableGroup{other})==0 && L->Degree(hg)==nf && L->Degree()==nf,tag+":group-degree",[&]{ return "degree in a group, or total degree, is wrong"; });
		r.check(L->Degree(h)==(hom&&!homg?nf:0),tag+":hom-degree",[&]{ return "degree in the homogenizing variable is "+std::to_string(L->Degree(h)); });
		auto md=L->MultiDegree(g); bool ok=(int)md.size()==nv; for (int d:md) ok&=d==nf; r.check(ok,tag+":multidegree",[&]{ return "wrong multidegree"; });
		{ VariableGroup some={other}; for (auto const& w:v) some.push_back(w); some.push_back(h); auto ms=L->MultiDegree(some); bool mo=(int)ms.size()==nv+2 && ms[0]==0 && ms[nv+1]==(hom&&!homg?nf:0); for (int j=0;mo&&j<nv;j++) mo=ms[j+1]==nf; r.check(mo,tag+":multidegree",[&]{ return "wrong multidegree with other variables present"; }); r.check(L->Degree(VariableGroup{other,v.back()})==nf,tag+":group-degree",[&]{ return "degree in a group with the last variable"; }); r.check(L->IsHomogeneous(VariableGroup{other}) && L->IsHomogeneous(other),tag+":homogeneous-other",[&]{ return "not homogeneous of degree 0 in a variable which does not occur"; }); }
		r.check(L->IsHomogeneous(hom&&!homg? hg:g)==(homg||hom),tag+":homogeneous",[&]{ return "homogeneity misreported"; });
	};
	set(); degrees("fresh");
	std::string last="fresh";
	for (int a:acts)
	{
		static const unsigned pr[]={20,30,50,70};
		if (a<4) { all_prec(pr[a]); set(); last="precision"; }
		else if (a==4) { salt=1-salt; set(); last="new point"; }
		else if (a==5) look("after "+last,false);
		else if (a==6) look("after "+last,true);
		else if (a==7) { L->Homogenize(g,h); if (!homg) hom=true; set(); last="homogenize"; degrees("after "+last); }
		else if (a==8) { derive("after "+last); last="derivative"; }
		else if (a==9) { L->Homogenize(VariableGroup{other},Variable::Make("h2")); set(); last="homogenize in another group"; degrees("after "+last); }
		r.transition();
	}
	look("finally, after "+last,false); look("finally, after "+last,true); derive("finally, after "+last); degrees("finally, after "+last);
}
// ---------------------------------------------------------------- slices
static void slice_case(mc::Run& r,int nv,int dim,bool real,bool homog,bool orth,std::vector<int> const& acts)
{
	unsigned born=(nv+dim+real+orth)%2?85:30; DefaultPrecision(born); VariableGroup g; for (int i=0;i<nv;i++) g.push_back(Variable::Make("x"+std::to_string(i)));
	r.where("construct"); LinearSlice S= real? LinearSlice::RandomReal(g,dim,homog,orth) : LinearSlice::RandomComplex(g,dim,homog,orth);
	r.check(S.NumVariables()==(unsigned)nv && S.Dimension()==(unsigned)dim && S.Precision()==born,"counts",[&]{ return "dimension, variables or precision wrong"; });
	// reference: a copy at high precision
	std::vector<std::vector<R>> c; std::vector<R> k0;
	{ LinearSlice Q=S; DefaultPrecision(85); Q.Precision(85); bertini::Mat<Mp> x(nv,1); for (int i=0;i<nv;i++) x(i,0)=Mp(0,0,85); bertini::Mat<Mp> J=Q.Jacobian(x); bertini::Vec<Mp> xv=x; auto v=Q.Eval(xv); for (int i=0;i<dim;i++) { c.emplace_back(); for (int j=0;j<nv;j++) c.back().push_back(toR(J(i,j))); k0.push_back(toR(v(i))); } DefaultPrecision(30); if (born!=30) S.Precision(30); }
	for (int i=0;i<dim;i++) { r.check((mag(k0[i])==0)==homog,"constants",[&]{ return "constant term "+str(k0[i]); }); for (int j=0;j<nv;j++) { r.check(mag(c[i][j])>0,"coefficients:zero",[&]{ return "a coefficient is 0"; }); if (real) r.check(Rr(c[i][j].imag())==0,"coefficients:real",[&]{ return "coefficient of a real slice: "+str(c[i][j]); }); } }
	if (orth && dim<=nv) for (int i=0;i<dim;i++) for (int j=0;j<=i;j++) { R s(0); for (int k=0;k<nv;k++) s+=c[i][k]*conj(c[j][k]); r.check(close(s,R(i==j?1:0),1e-80),"orthonormal",[&]{ return "rows "+std::to_string(i)+" and "+std::to_string(j)+" have inner product "+str(s); }); }
	unsigned digits=30; std::string last="fresh";
	auto use=[&](bool mp,std::string const& tag){
		std::vector<R> x; for (int j=0;j<nv;j++) x.push_back(gen(j,dim%2));
		auto body=[&](auto one){ typedef decltype(one) T; auto xv=convv<T>(x,digits); double t=mp?std::pow(10.,-(double)digits+3):1e-13;
			auto v=S.Eval(xv); bertini::Vec<T> v2; S.Eval(v2,xv); bertini::Mat<T> xm=xv; auto J=S.Jacobian(xm); bertini::Mat<T> J2; S.Jacobian(J2,xm);
			bool shape=v.size()==dim&&v2.size()==dim&&J.rows()==dim&&J.cols()==nv; r.check(shape,tag+":shape",[&]{ return "wrong size of a result"; }); if (!shape) return;
			for (int i=0;i<dim;i++) { R w=k0[i]; for (int j=0;j<nv;j++) w+=c[i][j]*x[j]; r.check(close(toR(v(i)),w,t*30)&&v2(i)==v(i),tag+":value",[&]{ return "value "+str(toR(v(i)),40)+" expected "+str(w,40); });
				for (int j=0;j<nv;j++) r.check(close(toR(J(i,j)),c[i][j],t)&&J2(i,j)==J(i,j),tag+":jacobian",[&]{ return "Jacobian "+str(toR(J(i,j)),40)+" expected "+str(c[i][j],40); });
				if (mp) r.check(bertini::Precision(v(i))==digits&&bertini::Precision(J(i,0))==digits,tag+":precision",[&]{ return "results carry "+std::to_string(bertini::Precision(v(i)))+"/"+std::to_string(bertini::Precision(J(i,0)))+" digits at working precision "+std::to_string(digits); }); }
			r.transition(2); };
		r.where(tag); if (mp) body(Mp()); else body(dbl());
	};
	for (int a:acts)
	{
		static const unsigned pr[]={20,30,50,70};
		if (a<4) { digits=pr[a]; DefaultPrecision(digits); S.Precision(digits); last="precision"; }
		else if (a==4) { LinearSlice Q(S); S=Q; last="copy"; }
		else if (a==5) { r.where("serialize"); std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << S; } LinearSlice Q; { boost::archive::text_iarchive ia(ss); ia >> Q; } S=Q; last="serialize"; }
		else use(a==7,"use after "+last);
		r.transition();
		r.check(S.Precision()==digits && S.NumVariables()==(unsigned)nv && S.Dimension()==(unsigned)dim,last+":counts",[&]{ return "dimension, variables or precision wrong: "+std::to_string(S.Dimension())+","+std::to_string(S.NumVariables())+","+std::to_string(S.Precision()); });
		if (S.NumVariables()!=(unsigned)nv || S.Dimension()!=(unsigned)dim) return;
	}
	use(false,"after "+last); use(true,"after "+last);
}
static void P11(mc::Run& r)
{
	static const char* nm[]={"20 digits","30 digits","50 digits","70 digits","new point","eval dbl","eval mp","homogenize","differentiate","homogenize in another group"};
	for (int nv=1;nv<=8;nv++) for (int nf=1;nf<=8;nf++) for (int kind=0;kind<4;kind++)
	{
		int lim= (nv==2&&nf==2)? (r.thorough()?4:3) : (nv<=3&&nf<=3)? (r.thorough()?3:2) : r.thorough()? ((nv+nf)%4?1:2) : (nv+nf+kind)%3==0; std::vector<int> acts;
		std::function<void()> rec=[&]{
			r.test([&]{ std::string s="linear product, "+std::to_string(nv)+" variables, "+std::to_string(nf)+" factors"+((kind&1)?", given":", random")+((kind&2)?", homogeneous":"")+":"; for (int a:acts) s+=std::string(" ")+nm[a]+";"; return s; },[&]{ r.state(r.label()); lp_case(r,nv,nf,kind,acts); });
			if ((int)acts.size()==lim) return; for (int a=0;a<10;a++) { acts.push_back(a); rec(); acts.pop_back(); } };
		rec();
	}
	static const char* sn[]={"20 digits","30 digits","50 digits","70 digits","copy","serialize","use dbl","use mp"};
	for (int nv=1;nv<=9;nv++) for (int dim=1;dim<=nv+1;dim++) for (int f=0;f<8;f++)
	{
		int lim= (nv==2&&dim==1)? (r.thorough()?4:3) : nv<=4? (r.thorough()?2:1) : dim>=nv-1? 1 : (nv+dim+f)%3==0; std::vector<int> acts;
		std::function<void()> rec=[&]{
			r.test([&]{ std::string s="slice, "+std::to_string(nv)+" variables, dimension "+std::to_string(dim)+((f&1)?", real":"")+((f&2)?", homogeneous":"")+((f&4)?", orthogonal":"")+":"; for (int a:acts) s+=std::string(" ")+sn[a]+";"; return s; },[&]{ r.state(r.label()); slice_case(r,nv,dim,f&1,f&2,f&4,acts); });
			if ((int)acts.size()==lim) return; for (int a=0;a<8;a++) { acts.push_back(a); rec(); acts.pop_back(); } };
		rec();
	}
}
int main(int argc,char** argv) { return mc::main_loop(argc,argv,{{"P11",P11}}); }
