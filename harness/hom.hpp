// Homotopies whose solution paths are known exactly: terms in x,y,z,t together with the paths as functions of t.
#pragma once
#include "sysref.hpp"
namespace ref {
using bertini::node::Variable; using bertini::node::Function;

struct Hom
{
	std::string name; Arena A; std::vector<int> fns; int nv=1;
	std::vector<std::function<std::vector<R>(R const&)>> paths;
	std::vector<std::vector<long>> L; // a wide one: f_i = sum_k L_ik (x_k^2 - (1+(k+1)t))
	// the library's own system for it
	System make(int form=0,std::vector<Var>* keep=nullptr) const
	{
		if (L.size()) return make_wide(form);
		std::vector<Var> v(NV); for (int i=0;i<NV;i++) v[i]=Variable::Make(A.names[i]);
		Builder B; B.vars=v; System S; if (form&1) S.SetEvalMethod(bertini::EvalMethod::FunctionTree);
		VariableGroup g; for (int i=0;i<nv;i++) g.push_back(v[i]);
		if (form&2) { for (int i=0;i<nv;i++) S.AddVariableGroup(VariableGroup{v[i]}); } else S.AddVariableGroup(g);
		for (int f:fns) { S.AddFunction(B.build(A,f)); }
		S.AddPathVariable(v[VT]);
		if (keep) *keep=v;
		return S;
	}
	System make_wide(int form) const
	{
		std::vector<Var> v; for (int i=0;i<nv;i++) v.push_back(Variable::Make("x"+std::to_string(i))); auto t=Variable::Make("t");
		System S; if (form&1) S.SetEvalMethod(bertini::EvalMethod::FunctionTree);
		if (form&2) { for (auto& w:v) S.AddVariableGroup(VariableGroup{w}); } else { VariableGroup g; for (auto& w:v) g.push_back(w); S.AddVariableGroup(g); }
		using N=std::shared_ptr<bertini::node::Node>; std::vector<N> q; for (int k=0;k<nv;k++) q.push_back(pow(N(v[k]),2)-(1+(k+1)*N(t)));
		for (int i=0;i<nv;i++) { N f; for (int k=0;k<nv;k++) if (L[i][k]) f = f ? N(f+(int)L[i][k]*q[k]) : N((int)L[i][k]*q[k]); S.AddFunction(f); }
		S.AddPathVariable(t); return S;
	}
	Model model() const { Model m; m.fns=fns; m.time=true; for (int i=0;i<nv;i++) m.order.push_back(i); return m; }
	std::vector<R> point(std::vector<R> const& x,R const& t) const { std::vector<R> p(NV,R(0)); for (int i=0;i<nv;i++) p[i]=x[i]; p[VT]=t; return p; }
};

inline R Rq(long a,long b=1) { return R(Rr(a)/Rr(b)); }
inline R Rc(long a,long b,long c,long d) { return R(Rr(a)/Rr(b),Rr(c)/Rr(d)); }

inline std::vector<Hom>& homs()
{
	static std::vector<Hom> H;
	if (!H.empty()) return H;
	using P=std::vector<R>;
	auto sum=[](Arena& A,std::vector<int> t){ int s=t[0]; for (size_t i=1;i<t.size();i++) s=A.add(ADD,0,s,t[i]); return s; };
	auto mul=[](Arena& A,int a,int b){ return A.add(MUL,0,a,b); };
	auto num=[](Arena& A,int k){ int s=A.cst(C1); for (int i=1;i<k;i++) s=A.add(ADD,0,s,A.cst(C1)); return s; };
	auto ipow=[](Arena& A,int a,int k){ return A.add(IPOW,k,a); };
	auto sub=[](Arena& A,int a,int b){ return A.add(SUB,0,a,b); };
	{ Hom h; h.name="x-t"; auto& A=h.A; h.fns={sub(A,A.var(VX),A.var(VT))}; h.paths={[](R const& t){ return P{t}; }}; H.push_back(h); }
	{ Hom h; h.name="x-t^2"; auto& A=h.A; h.fns={sub(A,A.var(VX),ipow(A,A.var(VT),2))}; h.paths={[](R const& t){ return P{t*t}; }}; H.push_back(h); }
	{ Hom h; h.name="x-t^7"; auto& A=h.A; h.fns={sub(A,A.var(VX),ipow(A,A.var(VT),7))}; h.paths={[](R const& t){ return P{R(pow(t,7))}; }}; H.push_back(h); }
	{ Hom h; h.name="x^2-(1+3t)"; auto& A=h.A; h.fns={sub(A,ipow(A,A.var(VX),2),sum(A,{A.cst(C1),mul(A,A.cst(C3),A.var(VT))}))};
	  for (int s:{1,-1}) h.paths.push_back([s](R const& t){ return P{R(s)*R(sqrt(R(1)+R(3)*t))}; }); H.push_back(h); }
	{ Hom h; h.name="x^3-(1+7t)"; auto& A=h.A; h.fns={sub(A,ipow(A,A.var(VX),3),sum(A,{A.cst(C1),mul(A,num(A,7),A.var(VT))}))};
	  for (int k:{0,1,2}) h.paths.push_back([k](R const& t){ Rr a=Rr(2)*boost::math::constants::pi<Rr>()*k/3; return P{R(cos(a),sin(a))*R(exp(log(R(1)+R(7)*t)/R(3)))}; }); H.push_back(h); }
	{ Hom h; h.name="{x^2-(1+3t),xy-(1+t)}"; h.nv=2; auto& A=h.A; h.fns={sub(A,ipow(A,A.var(VX),2),sum(A,{A.cst(C1),mul(A,A.cst(C3),A.var(VT))})), sub(A,mul(A,A.var(VX),A.var(VY)),sum(A,{A.cst(C1),A.var(VT)}))};
	  for (int s:{1,-1}) h.paths.push_back([s](R const& t){ R x=R(s)*R(sqrt(R(1)+R(3)*t)); return P{x,(R(1)+t)/x}; }); H.push_back(h); }
	{ Hom h; h.name="{x^2-(1+3t),xy-(1+t),z-xy^2-t}"; h.nv=3; auto& A=h.A; h.fns={sub(A,ipow(A,A.var(VX),2),sum(A,{A.cst(C1),mul(A,A.cst(C3),A.var(VT))})), sub(A,mul(A,A.var(VX),A.var(VY)),sum(A,{A.cst(C1),A.var(VT)})), sub(A,sub(A,A.var(VZ),mul(A,A.var(VX),ipow(A,A.var(VY),2))),A.var(VT))};
	  for (int s:{1,-1}) h.paths.push_back([s](R const& t){ R x=R(s)*R(sqrt(R(1)+R(3)*t)); R y=(R(1)+t)/x; return P{x,y,x*y*y+t}; }); H.push_back(h); }
	{ // x^2+y^2 = 6+t,  xy = 1+t^2/2:  (x+y)^2 = 8+t+t^2, (x-y)^2 = 4+t-t^2
	  Hom h; h.name="{x^2+y^2-(6+t),xy-(1+t^2/2)}"; h.nv=2; auto& A=h.A;
	  h.fns={sub(A,sum(A,{ipow(A,A.var(VX),2),ipow(A,A.var(VY),2)}),sum(A,{num(A,6),A.var(VT)})), sub(A,mul(A,A.var(VX),A.var(VY)),sum(A,{A.cst(C1),mul(A,A.cst(CHALF),ipow(A,A.var(VT),2))}))};
	  for (int s:{1,-1}) for (int u:{1,-1}) h.paths.push_back([s,u](R const& t){ R a=R(s)*R(sqrt(R(8)+t+t*t)), b=R(u)*R(sqrt(R(4)+t-t*t)); return P{(a+b)/R(2),(a-b)/R(2)}; }); H.push_back(h); }
	{ Hom h; h.name="x*exp(t)-1"; auto& A=h.A; h.fns={sub(A,mul(A,A.var(VX),A.add(EXP,0,A.var(VT))),A.cst(C1))}; h.paths={[](R const& t){ return P{R(exp(-t))}; }}; H.push_back(h); }
	{ Hom h; h.name="{x-(1+t^2)/(2-t)... as x(3-t)-(1+t^2), y-x^2}"; h.nv=2; auto& A=h.A; h.fns={sub(A,mul(A,A.var(VX),sub(A,A.cst(C3),A.var(VT))),sum(A,{A.cst(C1),ipow(A,A.var(VT),2)})), sub(A,A.var(VY),ipow(A,A.var(VX),2))};
	  h.paths={[](R const& t){ R x=(R(1)+t*t)/(R(3)-t); return P{x,x*x}; }}; H.push_back(h); }
	return H;
}

// many variables, every function containing every one
inline std::vector<Hom>& wides()
{
	static std::vector<Hom> H; if (!H.empty()) return H;
	for (int n:{5,9,12,17,20})
	{
		Hom h; h.name=std::to_string(n)+" coupled squares"; h.nv=n; h.L.assign(n,std::vector<long>(n)); for (int i=0;i<n;i++) for (int k=0;k<n;k++) h.L[i][k]=(i*7+k*3+i*k)%5-2+(i==k?2*n:0);
		for (int s:{0,1,2}) h.paths.push_back([n,s](R const& t){ std::vector<R> x; for (int k=0;k<n;k++) x.push_back(R(s==0||(s==1 && k%2==0)||(s==2 && k<n-1)?1:-1)*R(sqrt(R(1)+R(k+1)*t))); return x; });
		H.push_back(h);
	}
	return H;
}
inline Hom const& homx(size_t i) { return i<homs().size()?homs()[i]:wides()[i-homs().size()]; }

// reference linear algebra
using RM=std::vector<std::vector<R>>;
inline bool solve(RM a,std::vector<R> b,std::vector<R>& x)
{
	int n=b.size();
	for (int c=0;c<n;c++)
	{
		int p=c; for (int i=c+1;i<n;i++) if (mag(a[i][c])>mag(a[p][c])) p=i;
		if (mag(a[p][c])<1e-60) return false;
		std::swap(a[p],a[c]); std::swap(b[p],b[c]);
		for (int i=c+1;i<n;i++) { R f=a[i][c]/a[c][c]; for (int j=c;j<n;j++) a[i][j]-=f*a[c][j]; b[i]-=f*b[c]; }
	}
	x.assign(n,R(0));
	for (int i=n-1;i>=0;i--) { R s=b[i]; for (int j=i+1;j<n;j++) s-=a[i][j]*x[j]; x[i]=s/a[i][i]; }
	return true;
}
inline double frob(RM const& a) { double s=0; for (auto const& r:a) for (auto const& z:r) s+=mag(z)*mag(z); return std::sqrt(s); }
inline bool inverse(RM const& a,RM& inv)
{
	int n=a.size(); inv.assign(n,std::vector<R>(n));
	for (int j=0;j<n;j++) { std::vector<R> e(n,R(0)),x; e[j]=R(1); if (!solve(a,e,x)) return false; for (int i=0;i<n;i++) inv[i][j]=x[i]; }
	return true;
}
inline RM jac(Hom const& h,std::vector<R> const& x,R const& t) { RM J; if (h.L.size()) { for (auto const& l:h.L) { std::vector<R> row; for (int k=0;k<h.nv;k++) row.push_back(R(2*l[k])*x[k]); J.push_back(row); } return J; } for (int f:h.fns) { auto e=eval(h.A,f,h.point(x,t)); std::vector<R> row; for (int i=0;i<h.nv;i++) row.push_back(e.d[i]); J.push_back(row); } return J; }
inline std::vector<R> val(Hom const& h,std::vector<R> const& x,R const& t) { std::vector<R> v; if (h.L.size()) { for (auto const& l:h.L) { R s(0); for (int k=0;k<h.nv;k++) s+=R(l[k])*(x[k]*x[k]-R(1)-R(k+1)*t); v.push_back(s); } return v; } for (int f:h.fns) v.push_back(eval(h.A,f,h.point(x,t)).v); return v; }
inline double dist(std::vector<R> const& a,std::vector<R> const& b) { double m=0; for (size_t i=0;i<a.size();i++) m=std::max(m,mag(a[i]-b[i])); return m; }
template<class V> std::vector<R> toRv(V const& v) { std::vector<R> r; for (int i=0;i<v.size();i++) r.push_back(toR(v(i))); return r; }
} // namespace ref
