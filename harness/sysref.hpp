// A reference model of a System: functions as reference terms, an ordering of variables, a path
// variable, a patch; and the comparison of a System against it.
#pragma once
#include "term.hpp"
#include "bertini2/system/system.hpp"

namespace ref {
using bertini::System; using bertini::Vec; using bertini::Mat; using bertini::VariableGroup; using bertini::DefaultPrecision;
static const double DEPS=2.3e-16;

enum { VX, VY, VZ, VW, VT, VH0, VH1, VH2, NV };

struct Model
{
	std::vector<int> fns;          // terms
	std::vector<int> order;        // variables, in the order of the system
	bool time=false;
	std::vector<int> patch_groups; // group number of each variable in the order, when patched (one patch per group)
	std::vector<std::vector<R>> patch; // coefficients per group
};

template<class T> T conv(R const& z,unsigned digits);
template<> inline dbl conv<dbl>(R const& z,unsigned) { return toD(z); }
template<> inline Mp conv<Mp>(R const& z,unsigned d) { return toMp(z,d); }
template<class T> Vec<T> convv(std::vector<R> const& p,unsigned digits) { Vec<T> v(p.size()); for (size_t i=0;i<p.size();i++) v(i)=conv<T>(p[i],digits); return v; }

inline std::vector<R> pick(Model const& m,std::vector<R> const& p) { std::vector<R> q; for (int i:m.order) q.push_back(p[i]); return q; }

struct Tol { double v,d; };
template<class T> Tol tol(Val const& e,unsigned digits)
{
	double eps=std::is_same<T,dbl>::value ? 1e3*DEPS : std::pow(10.,-(double)digits+5);
	return {eps*e.amp, eps*(1+e.big)*(1+e.big)*(1+e.big)*(1+e.amp)};
}

// which of the three things to ask for, in which order: f, J, t
template<class T>
inline void compare(mc::Run& r,Arena const& A,System const& S,Model const& m,std::vector<R> const& p,unsigned digits,std::string const& ask,std::string const& tag)
{
	const char* ty=std::is_same<T,dbl>::value?"dbl":"mp";
	std::string k=tag+":"+ty;
	std::vector<Val> e; for (int f:m.fns) e.push_back(eval(A,f,p));
	auto x=convv<T>(pick(m,p),digits); T tv=conv<T>(p[VT],digits);
	size_t nf=m.fns.size(), np=m.patch.size(), nv=m.order.size();
	r.check(S.NumNaturalFunctions()==nf && S.NumTotalFunctions()==nf+np && S.NumVariables()==nv,tag+":counts",[&]{ return "functions "+std::to_string(S.NumNaturalFunctions())+"+"+std::to_string(S.NumPatches())+", variables "+std::to_string(S.NumVariables())+"; expected "+std::to_string(nf)+"+"+std::to_string(np)+", "+std::to_string(nv); });
	if (S.NumNaturalFunctions()!=nf || S.NumTotalFunctions()!=nf+np || S.NumVariables()!=nv) return;
	r.check(S.HavePathVariable()==m.time,tag+":path-variable",[&]{ return "presence of a path variable is wrong"; });
	if (S.HavePathVariable()!=m.time) return;
	std::vector<R> pv(np,R(-1)); 
	for (size_t c=0,g=0;g<np;g++) for (size_t j=0;j<m.patch[g].size();j++,c++) pv[g]+=m.patch[g][j]*p[m.order[c]];
	double pt=std::is_same<T,dbl>::value? 1e-12 : std::pow(10.,-(double)digits+6);
	auto prec_ok=[&](T const& z){ return bertini::Precision(z)==(std::is_same<T,dbl>::value?16u:digits); };
	for (char c: ask)
	{
		r.transition();
		if (c=='f')
		{
			r.where(tag+" eval "+ty);
			Vec<T> f = m.time ? S.Eval(x,tv) : S.Eval(x);
			for (size_t i=0;i<nf;i++)
			{
				if (!e[i].ok) { r.outcome("value not compared (undefined or ill-conditioned)"); continue; }
				R got=toR(f(i));
				r.check(close(got,e[i].v,tol<T>(e[i],digits).v),k+":value",[&]{ return "function "+std::to_string(i)+" = "+A.show(m.fns[i])+": "+str(got,25)+" expected "+str(e[i].v,25); });
				r.check(prec_ok(f(i)),k+":value-precision",[&]{ return "value carries "+std::to_string(bertini::Precision(f(i)))+" digits, asked for "+std::to_string(digits); });
				r.outcome("value compared");
			}
			for (size_t g=0;g<np;g++) { R got=toR(f(nf+g)); r.check(close(got,pv[g],pt),k+":patch-value",[&]{ return "patch "+std::to_string(g)+": "+str(got,25)+" expected "+str(pv[g],25); }); }
		}
		if (c=='J')
		{
			r.where(tag+" jacobian "+ty);
			Mat<T> J = m.time ? S.Jacobian(x,tv) : S.Jacobian(x);
			for (size_t i=0;i<nf;i++)
			{
				if (!e[i].dok) { r.outcome("derivative not compared (undefined or ill-conditioned)"); continue; }
				for (size_t j=0;j<nv;j++)
				{
					R got=toR(J(i,j)), want=e[i].d[m.order[j]];
					r.check(close(got,want,tol<T>(e[i],digits).d),k+":jacobian",[&]{ return "d/d"+A.names[m.order[j]]+" of function "+std::to_string(i)+" = "+A.show(m.fns[i])+": "+str(got,25)+" expected "+str(want,25); });
					r.check(prec_ok(J(i,j)),k+":jacobian-precision",[&]{ return "Jacobian entry carries "+std::to_string(bertini::Precision(J(i,j)))+" digits, asked for "+std::to_string(digits); });
				}
			}
			for (size_t cc=0,g=0;g<np;g++)
			{
				for (size_t j=0;j<nv;j++)
				{
					R want = (j>=cc && j<cc+m.patch[g].size()) ? m.patch[g][j-cc] : R(0); R got=toR(J(nf+g,j));
					r.check(close(got,want,pt),k+":patch-jacobian",[&]{ return "patch row "+std::to_string(g)+" column "+std::to_string(j)+": "+str(got,25)+" expected "+str(want,25); });
				}
				cc+=m.patch[g].size();
			}
		}
		if (c=='t' && m.time)
		{
			r.where(tag+" time derivative "+ty);
			Vec<T> d=S.TimeDerivative(x,tv);
			for (size_t i=0;i<nf;i++)
			{
				if (!e[i].dok) continue;
				R got=toR(d(i)), want=e[i].d[VT];
				r.check(close(got,want,tol<T>(e[i],digits).d),k+":time-derivative",[&]{ return "d/dt of function "+std::to_string(i)+" = "+A.show(m.fns[i])+": "+str(got,25)+" expected "+str(want,25); });
			}
			for (size_t g=0;g<np;g++) r.check(mag(toR(d(nf+g)))==0,k+":patch-time-derivative",[&]{ return "time derivative of a patch is not 0"; });
		}
	}
}
} // namespace ref
