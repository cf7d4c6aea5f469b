// Terms: the harness's own notion of an expression, its meaning (value, derivative, degree), and the
// translation to the library's expression trees.  The meaning is computed here from first principles,
// with a number type of fixed precision the library does not influence.
#pragma once
#include "mc.hpp"
#include "bertini2/function_tree.hpp"
#include <boost/multiprecision/mpc.hpp>

#ifndef REF_DIGITS
#define REF_DIGITS 90
#endif
namespace ref {

using R  = boost::multiprecision::number<boost::multiprecision::mpc_complex_backend<REF_DIGITS>, boost::multiprecision::et_off>;
using Rr = boost::multiprecision::number<boost::multiprecision::mpfr_float_backend<REF_DIGITS>, boost::multiprecision::et_off>;
using Node = std::shared_ptr<bertini::node::Node>;
using Var = std::shared_ptr<bertini::node::Variable>;
using bertini::dbl;
using Mp = bertini::mpfr_complex;

inline R toR(dbl const& z) { return R(Rr(z.real()),Rr(z.imag())); }
inline R toR(Mp const& z) { return R(Rr(z.real()),Rr(z.imag())); }
inline double mag(R const& z) { return static_cast<double>(Rr(abs(z))); }
inline std::string str(R const& z, int d=17) { std::stringstream s; s.precision(d); s << "(" << Rr(z.real()) << "," << Rr(z.imag()) << ")"; return s.str(); }
inline bool finite(R const& z) { return !(boost::math::isnan)(Rr(z.real())) && !(boost::math::isinf)(Rr(z.real())) && !(boost::math::isnan)(Rr(z.imag())) && !(boost::math::isinf)(Rr(z.imag())); }
inline Mp toMp(R const& z, unsigned digits)
{
	Mp m; m.precision(digits);
	bertini::mpfr_float a(Rr(z.real()).str(digits+10,std::ios::scientific),digits), b(Rr(z.imag()).str(digits+10,std::ios::scientific),digits);
	m = Mp(a,b,digits);
	return m;
}
inline dbl toD(R const& z) { return dbl(static_cast<double>(Rr(z.real())),static_cast<double>(Rr(z.imag()))); }

enum Op : uint8_t { VAR, CST, NEG, IPOW, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, ADD, SUB, MUL, DIV, POW };
inline bool is_unary(Op o) { return o>=NEG && o<=ATAN; }
inline bool is_binary(Op o) { return o>=ADD; }

struct Term { Op op; int16_t n; int32_t a, b; }; // n: variable / constant index, or the integer exponent

// constants
struct Const { std::string name; R value; std::function<Node()> make; };
inline std::vector<Const>& consts()
{
	using namespace bertini::node;
	static std::vector<Const> c = {
		{"2",  R(2), []{ return Node(Integer::Make(2)); }},
		{"0",  R(0), []{ return Node(Integer::Make(0)); }},
		{"1",  R(1), []{ return Node(Integer::Make(1)); }},
		{"-1", R(-1), []{ return Node(Integer::Make(-1)); }},
		{"3/7",R(Rr(3)/Rr(7)), []{ return Node(Rational::Make(bertini::mpq_rational(3,7))); }},
		{"-5/4+i*1/3",R(Rr(-5)/4,Rr(1)/3), []{ return Node(Rational::Make(bertini::mpq_rational(-5,4),bertini::mpq_rational(1,3))); }},
		{"1.5-0.25i",R(Rr(3)/2,Rr(-1)/4), []{ return Node(Float::Make("1.5","-0.25")); }},
		{"pi", R(boost::math::constants::pi<Rr>()), []{ return Pi(); }},
		{"e",  R(exp(Rr(1))), []{ return E(); }},
		{"I",  R(Rr(0),Rr(1)), []{ return I(); }},
		{"1.0f",R(1), []{ return Node(Float::Make("1.0")); }},
		{"0.0f",R(0), []{ return Node(Float::Make("0.0")); }},
		{"3",  R(3), []{ return Node(Integer::Make(3)); }},
		{"1/2",R(Rr(1)/2), []{ return Node(Rational::Make(bertini::mpq_rational(1,2))); }},
		{"-2", R(-2), []{ return Node(Integer::Make(-2)); }},
		{"5",  R(5), []{ return Node(Integer::Make(5)); }},
		{"9",  R(9), []{ return Node(Integer::Make(9)); }},
		{"-3", R(-3), []{ return Node(Integer::Make(-3)); }},
		{"7/2",R(Rr(7)/2), []{ return Node(Rational::Make(bertini::mpq_rational(7,2))); }},
		{"6.0f",R(6), []{ return Node(Float::Make("6.0")); }},
		{"1234567890123456789012",R(Rr("1234567890123456789012")), []{ return Node(Integer::Make("1234567890123456789012")); }},
	};
	return c;
}
enum { C2, C0, C1, CM1, C37, CRAT, CFLT, CPI, CE, CI, CF1, CF0, C3, CHALF, CM2, C5, C9, CM3, C72, CF6, CBIG };

struct Arena
{
	std::vector<Term> t;
	std::vector<std::string> names = {"x","y","z","w","t","h0","h1","h2"};
	int add(Op op,int n=0,int a=-1,int b=-1) { t.push_back({op,(int16_t)n,a,b}); return (int)t.size()-1; }
	int var(int i) { return add(VAR,i); }
	int cst(int i) { return add(CST,i); }

	std::string show(int i) const
	{
		auto const& m=t[i];
		static const char* fn[] = {"","","-","","sqrt","exp","log","sin","cos","tan","asin","acos","atan"};
		switch (m.op)
		{
			case VAR: return names[m.n];
			case CST: return "("+consts()[m.n].name+")";
			case NEG: return "-("+show(m.a)+")";
			case IPOW: return "("+show(m.a)+")^"+std::to_string(m.n);
			case ADD: return "("+show(m.a)+"+"+show(m.b)+")";
			case SUB: return "("+show(m.a)+"-"+show(m.b)+")";
			case MUL: return "("+show(m.a)+"*"+show(m.b)+")";
			case DIV: return "("+show(m.a)+"/"+show(m.b)+")";
			case POW: return "pow("+show(m.a)+","+show(m.b)+")";
			default: return std::string(fn[m.op])+"("+show(m.a)+")";
		}
	}
	int size(int i) const { auto const& m=t[i]; return m.op<=CST ? 0 : 1+size(m.a)+(is_binary(m.op)?size(m.b):0); }
	bool contains(int i,int v) const
	{
		auto const& m=t[i];
		if (m.op==VAR) return m.n==v;
		if (m.op==CST) return false;
		return contains(m.a,v) || (is_binary(m.op) && contains(m.b,v));
	}
};

// value and gradient, with a bound on how much rounding gets amplified; ok=false means "do not compare here":
// undefined (division by ~0, log of ~0), too close to a branch cut, or amplified beyond use.
struct Val { R v; std::vector<R> d; double amp=1; double big=0; bool ok=true; bool dok=true; };

inline bool near_cut(Op op, R const& z)
{
	double re=static_cast<double>(Rr(z.real())), im=static_cast<double>(Rr(z.imag()));
	const double e=1e-6;
	switch (op)
	{
		case SQRT: case LOG: case POW: return std::abs(im)<e && re<e;
		case ASIN: case ACOS: return std::abs(im)<e && std::abs(re)>1-e;
		case ATAN: return std::abs(re)<e && std::abs(im)>1-e;
		default: return false;
	}
}

inline Val eval(Arena const& A,int i,std::vector<R> const& x)
{
	auto const& m=A.t[i];
	const size_t nv=x.size();
	Val r; r.d.assign(nv,R(0));
	auto fin=[&](Val& q){ double g=mag(q.v); if (!(g<1e12)) q.ok=false; if (q.ok) { q.amp += 4*g; q.big=std::max(q.big,g); for (auto& e:q.d) { double h=mag(e); if (!(h<1e12)) q.dok=false; else q.big=std::max(q.big,h);} } if (!(q.amp<1e13)) q.ok=false; q.dok=q.dok&&q.ok; };
	if (m.op==VAR) { r.v=x[m.n]; r.d[m.n]=1; r.amp=mag(r.v)+1e-3; r.big=mag(r.v); return r; }
	if (m.op==CST) { r.v=consts()[m.n].value; r.amp=mag(r.v)+1e-3; r.big=mag(r.v); return r; }
	Val a=eval(A,m.a,x), b;
	if (is_binary(m.op)) b=eval(A,m.b,x);
	r.ok=a.ok&&b.ok; r.dok=a.dok&&b.dok; r.big=std::max(a.big,b.big);
	if (!r.ok) { r.dok=false; return r; }
	R f1; // derivative of unary function
	auto chain=[&]{ double s=mag(f1); if (!(s<1e12)) r.ok=false; r.amp=s*a.amp; for (size_t k=0;k<nv;k++) r.d[k]=f1*a.d[k]; };
	switch (m.op)
	{
		case NEG: r.v=-a.v; f1=R(-1); chain(); break;
		case ADD: r.v=a.v+b.v; r.amp=a.amp+b.amp; for (size_t k=0;k<nv;k++) r.d[k]=a.d[k]+b.d[k]; break;
		case SUB: r.v=a.v-b.v; r.amp=a.amp+b.amp; for (size_t k=0;k<nv;k++) r.d[k]=a.d[k]-b.d[k]; break;
		case MUL: r.v=a.v*b.v; r.amp=a.amp*(mag(b.v)+1e-12)+b.amp*(mag(a.v)+1e-12); for (size_t k=0;k<nv;k++) r.d[k]=a.d[k]*b.v+a.v*b.d[k]; break;
		case DIV: if (mag(b.v)<1e-5) { r.ok=r.dok=false; return r; }
			r.v=a.v/b.v; r.amp=(a.amp+b.amp*mag(r.v))/mag(b.v); for (size_t k=0;k<nv;k++) r.d[k]=(a.d[k]-r.v*b.d[k])/b.v; break;
		case IPOW:
		{
			if (m.n<=0 && mag(a.v)<1e-5) { if (m.n<0) { r.ok=r.dok=false; return r; } }
			R p(1); for (int k=0;k<std::abs(m.n);k++) p*=a.v; if (m.n<0) p=R(1)/p;
			R q(1); int e=m.n-1; for (int k=0;k<std::abs(e);k++) q*=a.v; if (e<0) { if (mag(a.v)<1e-5) q=R(0); else q=R(1)/q; }
			r.v=p; f1=R(m.n)*q; chain(); break;
		}
		case POW:
		{
			// a^b with constant integer exponents is defined everywhere; otherwise principal branch
			double re=static_cast<double>(Rr(b.v.real())), im=static_cast<double>(Rr(b.v.imag()));
			bool integer = A.t[m.b].op==CST && im==0 && re==std::round(re) && std::abs(re)<50;
			if (mag(a.v)<1e-5 || (!integer && near_cut(POW,a.v))) { r.ok=r.dok=false; return r; }
			if (integer) { R p(1); for (int k=0;k<std::abs((int)re);k++) p*=a.v; if (re<0) p=R(1)/p; r.v=p; }
			else r.v=exp(b.v*log(a.v));
			R da=b.v*r.v/a.v; 
			R db=r.v*log(a.v);
			r.amp=mag(da)*a.amp+mag(db)*b.amp+mag(r.v);
			for (size_t k=0;k<nv;k++) r.d[k]=da*a.d[k]+(A.t[m.b].op==CST?R(0):db*b.d[k]);
			if (near_cut(POW,a.v)) { bool bd=false; for (auto& e:b.d) if (mag(e)>0) bd=true; if (bd) r.dok=false; }
			break;
		}
		case SQRT: if (mag(a.v)<1e-5||near_cut(SQRT,a.v)) { r.ok=r.dok=false; return r; } r.v=sqrt(a.v); f1=R(1)/(R(2)*r.v); chain(); break;
		case EXP: if (mag(a.v)>25) { r.ok=r.dok=false; return r; } r.v=exp(a.v); f1=r.v; chain(); break;
		case LOG: if (mag(a.v)<1e-5||near_cut(LOG,a.v)) { r.ok=r.dok=false; return r; } r.v=log(a.v); f1=R(1)/a.v; chain(); break;
		case SIN: if (mag(a.v)>25) { r.ok=r.dok=false; return r; } r.v=sin(a.v); f1=cos(a.v); chain(); break;
		case COS: if (mag(a.v)>25) { r.ok=r.dok=false; return r; } r.v=cos(a.v); f1=-sin(a.v); chain(); break;
		case TAN: { if (mag(a.v)>25||mag(cos(a.v))<1e-4) { r.ok=r.dok=false; return r; } R c=cos(a.v); r.v=sin(a.v)/c; f1=R(1)/(c*c); chain(); break; }
		case ASIN: if (near_cut(ASIN,a.v)) { r.ok=r.dok=false; return r; } r.v=asin(a.v); f1=R(1)/sqrt(R(1)-a.v*a.v); chain(); break;
		case ACOS: if (near_cut(ACOS,a.v)) { r.ok=r.dok=false; return r; } r.v=acos(a.v); f1=R(-1)/sqrt(R(1)-a.v*a.v); chain(); break;
		case ATAN: if (near_cut(ATAN,a.v)||mag(R(1)+a.v*a.v)<1e-4) { r.ok=r.dok=false; return r; } r.v=atan(a.v); f1=R(1)/(R(1)+a.v*a.v); chain(); break;
		default: break;
	}
	fin(r);
	return r;
}

inline std::vector<std::vector<R>> points(int nv)
{
	std::vector<std::vector<R>> p;
	std::vector<std::pair<const char*,const char*>> base = {{"0.71","0.38"},{"-0.33","1.17"},{"1.29","-0.52"},{"0.57","0.83"},{"0.43","0.29"},{"0.88","-0.37"},{"1.07","0.61"},{"-0.76","0.49"}};
	std::vector<std::pair<const char*,const char*>> alt = {{"-1.13","0.47"},{"0.61","-0.94"},{"0.27","0.31"},{"-0.85","-0.66"},{"0.81","-0.23"},{"-0.94","0.41"},{"0.53","0.79"},{"1.19","-0.35"}};
	for (auto* s : {&base,&alt}) { std::vector<R> q; for (int i=0;i<nv;i++) q.push_back(R(Rr((*s)[i].first),Rr((*s)[i].second))); p.push_back(q); }
	return p;
}

// degree of a term in a set of variables (bit mask), as written (no cancellation); -1: not a polynomial there
inline int degree(Arena const& A,int i,unsigned mask)
{
	auto const& m=A.t[i];
	switch (m.op)
	{
		case VAR: return (mask>>m.n)&1;
		case CST: return 0;
		case NEG: return degree(A,m.a,mask);
		case ADD: case SUB: { int a=degree(A,m.a,mask), b=degree(A,m.b,mask); return (a<0||b<0)?-1:std::max(a,b); }
		case MUL: { int a=degree(A,m.a,mask), b=degree(A,m.b,mask); return (a<0||b<0)?-1:a+b; }
		case DIV: { int a=degree(A,m.a,mask), b=degree(A,m.b,mask); return (a<0||b!=0)?-1:a; }
		case IPOW: { int a=degree(A,m.a,mask); if (a<0) return -1; if (m.n<0 && a>0) return -1; return a*m.n; }
		case POW:
		{
			int a=degree(A,m.a,mask), b=degree(A,m.b,mask);
			if (a==0&&b==0) return 0;
			if (a<0||b!=0) return -1;
			Val e=eval(A,m.b,points(8)[0]); // a constant, or free of these variables
			double re=static_cast<double>(Rr(e.v.real())), im=static_cast<double>(Rr(e.v.imag()));
			if (e.ok && std::abs(im)<1e-18 && std::abs(re-std::round(re))<1e-18 && re>-1e-18) return a*(int)std::round(re);
			return -1;
		}
		default: return degree(A,m.a,mask)==0 ? 0 : -1;
	}
}
// exponents for which "is it a polynomial" is a matter of taste or of rounding: those that are not plain constants
inline bool odd_exponent(Arena const& A,int i)
{
	auto const& m=A.t[i];
	if (m.op==VAR||m.op==CST) return false;
	if (m.op==POW)
	{
		auto const& e=A.t[m.b];
		bool plain = e.op==CST || ((e.op==NEG||e.op==IPOW) && A.t[e.a].op==CST) || ((e.op==ADD||e.op==SUB||e.op==MUL||e.op==DIV) && A.t[e.a].op==CST && A.t[e.b].op==CST) || e.op==VAR;
		if (!plain) return true;
	}
	return odd_exponent(A,m.a) || (is_binary(m.op) && odd_exponent(A,m.b));
}
// homogeneous, as written: every summand of every sum has the same degree
inline bool homogeneous(Arena const& A,int i,unsigned mask)
{
	auto const& m=A.t[i];
	switch (m.op)
	{
		case VAR: case CST: return true;
		case NEG: return homogeneous(A,m.a,mask);
		case ADD: case SUB: return homogeneous(A,m.a,mask)&&homogeneous(A,m.b,mask)&&degree(A,m.a,mask)==degree(A,m.b,mask)&&degree(A,m.a,mask)>=0;
		case MUL: return homogeneous(A,m.a,mask)&&homogeneous(A,m.b,mask);
		case DIV: return homogeneous(A,m.a,mask)&&degree(A,m.b,mask)==0;
		case IPOW: return homogeneous(A,m.a,mask) && degree(A,i,mask)>=0;
		case POW: return homogeneous(A,m.a,mask) && degree(A,i,mask)>=0;
		default: return degree(A,m.a,mask)==0;
	}
}

struct Builder
{
	std::vector<Var> vars;
	int mode=0; // 0: every subterm its own node; 1: equal subterms share a node; 2: long sums and products as single nodes
	static std::string mode_name(int m) { return m==0?"plain ":m==1?"shared ":"flat "; }
	std::map<int,Node> memo;
	Node build(Arena const& A,int i)
	{
		if (mode==1) { auto f=memo.find(i); if (f!=memo.end()) return f->second; }
		Node r=build_(A,i);
		if (mode==1) memo[i]=r;
		return r;
	}
	// the operands of a sum (product) with their signs
	void flatten(Arena const& A,int i,bool sum,bool sign,std::vector<std::pair<int,bool>>& out)
	{
		auto const& m=A.t[i];
		if (sum && m.op==NEG && !out.empty()) { flatten(A,m.a,sum,!sign,out); return; }
		if (m.op==(sum?ADD:MUL) || (m.op==(sum?SUB:DIV) && (sum||sign))) { flatten(A,m.a,sum,sign,out); flatten(A,m.b,sum,(m.op==(sum?ADD:MUL))?sign:!sign,out); return; }
		out.emplace_back(i,sign);
	}
	Node build_(Arena const& A,int i)
	{
		using namespace bertini::node;
		auto const& m=A.t[i];
		if (mode==2 && (m.op==ADD||m.op==SUB||m.op==MUL||m.op==DIV))
		{
			bool sum=m.op==ADD||m.op==SUB; std::vector<std::pair<int,bool>> ops; flatten(A,i,sum,true,ops);
			if (ops.size()>(sum?1u:2u) && A.t[ops[0].first].op==CST && A.t[ops[0].first].n==(sum?C0:C1)) ops.erase(ops.begin()); // 0-a, 1/a: a leading negative (inverted) operand
			if (sum && A.t[ops[0].first].op==NEG) { ops[0].first=A.t[ops[0].first].a; ops[0].second=!ops[0].second; }
			if (sum) { auto s=SumOperator::Make(build(A,ops[0].first),ops[0].second); for (size_t k=1;k<ops.size();k++) s->AddOperand(build(A,ops[k].first),ops[k].second); return s; }
			auto s=MultOperator::Make(build(A,ops[0].first),ops[0].second,build(A,ops[1].first),ops[1].second); for (size_t k=2;k<ops.size();k++) s->AddOperand(build(A,ops[k].first),ops[k].second); return s;
		}
		switch (m.op)
		{
			case VAR: return vars[m.n];
			case CST: return consts()[m.n].make();
			default: break;
		}
		Node a=build(A,m.a), b; if (is_binary(m.op)) b=build(A,m.b);
		switch (m.op)
		{
			case NEG: return -a;
			case IPOW: return pow(a,(int)m.n);
			case ADD: return a+b;
			case SUB: return a-b;
			case MUL: return a*b;
			case DIV: return a/b;
			case POW: return pow(a,b);
			case SQRT: return sqrt(a);
			case EXP: return exp(a);
			case LOG: return log(a);
			case SIN: return sin(a);
			case COS: return cos(a);
			case TAN: return tan(a);
			case ASIN: return asin(a);
			case ACOS: return acos(a);
			case ATAN: return atan(a);
			default: return a;
		}
	}
};

// all terms with exactly n operations, over the given leaves and operations
struct Grammar
{
	std::vector<int> vars, csts; std::vector<std::pair<Op,int>> unary; std::vector<Op> binary;
	std::vector<std::vector<int>> by_size; // indices into the arena
	void generate(Arena& A,int maxsize)
	{
		by_size.assign(maxsize+1,{});
		for (int v:vars) by_size[0].push_back(A.var(v));
		for (int c:csts) by_size[0].push_back(A.cst(c));
		for (int s=1;s<=maxsize;s++)
		{
			for (auto const& u:unary) for (size_t k=0;k<by_size[s-1].size();k++) by_size[s].push_back(A.add(u.first,u.second,by_size[s-1][k]));
			for (auto b:binary) for (int l=0;l<s;l++) for (size_t p=0;p<by_size[l].size();p++) for (size_t q=0;q<by_size[s-1-l].size();q++)
				by_size[s].push_back(A.add(b,0,by_size[l][p],by_size[s-1-l][q]));
		}
	}
};

// do two numbers agree, up to an error of rel*scale
inline bool close(R const& a,R const& b,double tol) { if (!finite(a)||!finite(b)) return false; double m=mag(R(a-b)); return m<=tol; }

} // namespace ref
