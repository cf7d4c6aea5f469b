// Expression trees: evaluation, differentiation, degree classification, homogenization, simplification.
#include "term.hpp"
#include "bertini2/function_tree/simplify.hpp"
using namespace ref;
using bertini::DefaultPrecision;
using bertini::VariableGroup;

static const double DEPS=2.3e-16;

static std::vector<Var> mkvars(int n) { static const char* nm[]={"x","y","z","w"}; std::vector<Var> v; for (int i=0;i<n;i++) v.push_back(bertini::node::Variable::Make(std::string(nm[i]))); return v; }
static void setvars(std::vector<Var> const& v,std::vector<R> const& p,unsigned digits)
{
	for (size_t i=0;i<v.size();i++) { v[i]->set_current_value(toD(p[i])); v[i]->precision(digits); v[i]->set_current_value(toMp(p[i],digits)); }
}

struct Space { Arena A; Grammar G; std::vector<int> all; };

static std::vector<std::pair<Op,int>> all_unary() { return {{NEG,0},{IPOW,2},{IPOW,3},{IPOW,0},{IPOW,1},{IPOW,-1},{IPOW,-2},{SQRT,0},{EXP,0},{LOG,0},{SIN,0},{COS,0},{TAN,0},{ASIN,0},{ACOS,0},{ATAN,0}}; }

static void take(Space& s,int upto) { s.all.clear(); for (int k=0;k<=upto && k<(int)s.G.by_size.size();k++) for (int i:s.G.by_size[k]) s.all.push_back(i); }

// general space (everything the tree can express)
static void general(Space& s,bool thorough)
{
	s.G.vars={0,1}; s.G.csts=thorough? std::vector<int>{C2,CRAT,CE,CFLT,C0,CI} : std::vector<int>{C2,CRAT,CE};
	s.G.unary=all_unary();
	s.G.binary={ADD,SUB,MUL,DIV,POW};
	s.G.generate(s.A,2); take(s,2);
}
// three operations over a smaller vocabulary
static void deeper(Space& s,bool thorough)
{
	s.G.vars={0,1}; s.G.csts= thorough? std::vector<int>{C2,CRAT} : std::vector<int>{CRAT};
	s.G.unary= thorough? std::vector<std::pair<Op,int>>{{NEG,0},{IPOW,2},{IPOW,-1},{SQRT,0},{EXP,0},{LOG,0},{SIN,0},{COS,0},{TAN,0},{ASIN,0},{ACOS,0},{ATAN,0}} : std::vector<std::pair<Op,int>>{{NEG,0},{IPOW,2},{EXP,0},{SIN,0},{COS,0}};
	s.G.binary= thorough? std::vector<Op>{ADD,SUB,MUL,DIV,POW} : std::vector<Op>{ADD,SUB,MUL,DIV};
	s.G.generate(s.A,3); s.all=s.G.by_size[3];
}
// polynomials (degree questions), up to maxsize operations
static void polys(Space& s,int maxsize,std::vector<int> csts,std::vector<std::pair<Op,int>> un,std::vector<Op> bin,int nv=2)
{
	for (int i=0;i<nv;i++) s.G.vars.push_back(i);
	s.G.csts=csts; s.G.unary=un; s.G.binary=bin; s.G.generate(s.A,maxsize); take(s,maxsize);
}

// long sums and products with every pattern of signs, high powers, deep nesting, long chains, polynomials of high degree
enum { W_SUM=1, W_POW=2, W_DEEP=4, W_POLY=8, W_NEST=16 };
static void wide(Space& s,unsigned what,bool thorough,std::vector<int> csts={C2,C37})
{
	Arena& A=s.A; s.all.clear(); int x=A.var(0),y=A.var(1); std::vector<int> c; for (int k:csts) c.push_back(A.cst(k));
	std::vector<int> L={x,c[0],y,A.add(MUL,0,x,y),A.add(IPOW,2,x),c[c.size()>1],A.add(ADD,0,x,y),A.add(NEG,0,y),A.add(SUB,0,c[0],x)};
	auto chain=[&](bool sum,int n,unsigned signs,int rot,bool right){ auto op=[&](int k){ return (signs>>k)&1 ? (sum?SUB:DIV) : (sum?ADD:MUL); }; auto at=[&](int k){ return L[(k+rot)%L.size()]; };
		if (right) { int t=at(n-1); for (int k=n-2;k>=0;k--) t=A.add(op(k+1),0,at(k),t); return t; }
		int t=(signs&1)?sum?A.add(NEG,0,at(0)):A.add(DIV,0,A.cst(C1),at(0)):at(0); for (int k=1;k<n;k++) t=A.add(op(k),0,t,at(k)); return t; };
	if (what&W_SUM) for (int n=3;n<=(thorough?9:8);n++) for (unsigned sg=0;sg<(1u<<n);sg++) for (int rot=0;rot<(int)L.size();rot+=(n>6&&!thorough?3:1)) for (int sum=0;sum<2;sum++) { s.all.push_back(chain(sum,n,sg,rot,false)); if (n<6 && !(sg&1)) s.all.push_back(chain(sum,n,sg,rot,true)); }
	if (what&W_NEST) for (int outer=0;outer<2;outer++) for (int n=2;n<=5;n++) for (int k=0;k<n;k++) for (int m=2;m<=5;m++) for (int si=0;si<2;si++) for (unsigned isg=0;isg<(1u<<m);isg++) for (int inv=0;inv<2;inv++) // a long sum or product inside a long sum or product
	{
		if (!thorough && m>4 && (isg&1)) continue; int in=chain(si,m,isg,k+1,false); int t=-1; for (int j=0;j<n;j++) { int o=j==k?in:L[(j+2)%L.size()]; if (t<0) t=(j==k&&inv)?outer?A.add(NEG,0,o):A.add(DIV,0,A.cst(C1),o):o; else t=A.add((j==k&&inv)?(outer?SUB:DIV):(outer?ADD:MUL),0,t,o); } s.all.push_back(t);
	}
	if (what&W_POW) for (int b:{x,A.add(ADD,0,x,y),A.add(NEG,0,y),A.add(MUL,0,c[0],x),A.add(MUL,0,x,y),c[0],A.add(IPOW,3,x),A.add(DIV,0,x,c[0]),A.add(SIN,0,y)}) { for (int n=-12;n<=20;n++) { int t=A.add(IPOW,n,b); s.all.push_back(t); s.all.push_back(A.add(MUL,0,t,y)); s.all.push_back(A.add(SUB,0,y,t)); } for (int e:{C2,C0,C1,CM1,C3,C5,C9,CM3,C72,CF6,CHALF}) { if (e==C0 && A.t[b].op==SIN) continue; int t=A.add(POW,0,b,A.cst(e)); s.all.push_back(t); s.all.push_back(A.add(MUL,0,t,y)); } }
	if (what&W_DEEP) { std::vector<std::pair<Op,int>> U={{NEG,0},{IPOW,2},{SIN,0},{EXP,0},{SQRT,0}}; std::vector<int> f={x}; for (int d=1;d<=(thorough?6:5);d++) { std::vector<int> g; for (int t:f) for (auto u:U) g.push_back(A.add(u.first,u.second,t)); if (d>2) for (int t:g) s.all.push_back(t); f=g; }
		for (Op o:{ADD,SUB,MUL,DIV}) for (int d=4;d<=12;d++) for (int right=0;right<2;right++) for (Op o2:{ADD,SUB,MUL,DIV}) { int t=y; for (int k=0;k<d;k++) { int l=L[(k*2)%L.size()]; Op q=k%2?o:o2; t=right?A.add(q,0,l,t):A.add(q,0,t,l); } s.all.push_back(t); } }
	if (what&W_POLY) { auto mon=[&](int a,int b,int k){ int t=k>=0?A.cst(k):-1; if (a) { int p=a==1?x:A.add(IPOW,a,x); t=t<0?p:A.add(MUL,0,t,p); } if (b) { int p=b==1?y:A.add(IPOW,b,y); t=t<0?p:A.add(MUL,0,t,p); } return t<0?A.cst(C1):t; };
		std::vector<int> E={0,1,2,3,5,8}; for (int a:E) for (int b:E) for (int p:E) for (int q:E) { int t=A.add(ADD,0,mon(a,b,-1),mon(p,q,C2)); s.all.push_back(t); if (thorough || (a+p+b+q)%3==0) { s.all.push_back(A.add(SUB,0,A.add(MUL,0,t,mon(q,a,-1)),y)); s.all.push_back(A.add(ADD,0,A.add(IPOW,2,t),A.add(SUB,0,mon(p,0,-1),A.cst(C3)))); } } }
}
static void P01_term(mc::Run& r,Arena const& A,int t,int share,bool deep)
{
	DefaultPrecision(30);
	auto v=mkvars(2); Builder B; B.vars=v; B.mode=share;
	Node n=B.build(A,t);
	auto pts=points(2);
	// visit the points in an order that returns to the first one
	for (int step=0; step<3; step++)
	{
		auto const& p=pts[step%2];
		Val e=eval(A,t,p);
		for (unsigned digits : {30u,50u})
		{
			if (digits==50u && deep) continue;
			DefaultPrecision(digits);
			n->precision(digits);
			setvars(v,p,digits);
			n->Reset();
			r.transition();
			if (!e.ok) { r.outcome("not compared (undefined or ill-conditioned there)"); continue; }
			r.where("eval");
			R d=toR(n->Eval<dbl>());
			Mp mval=n->Eval<Mp>();
			R m=toR(mval);
			double td=1e3*DEPS*e.amp, tm=e.amp*std::pow(10.,-(double)digits+5);
			r.check(close(d,e.v,td),"dbl",[&]{ return "double value "+str(d)+" expected "+str(e.v); });
			r.check(close(m,e.v,tm),"mp",[&]{ return "multiprecision value "+str(m,40)+" expected "+str(e.v,40)+" at "+std::to_string(digits)+" digits"; });
			r.check(mval.precision()==digits,"mp-precision",[&]{ return "result carries "+std::to_string(mval.precision())+" digits, asked for "+std::to_string(digits); });
			// asking again without a change gives the same
			r.check(n->Eval<dbl>()==toD(d) && n->Eval<Mp>()==mval,"repeat",[&]{ return "second evaluation differs"; });
			r.outcome("compared");
		}
	}
}

namespace ops {
	using bertini::node::operator+; using bertini::node::operator-; using bertini::node::operator*; using bertini::node::operator/;
	using bertini::node::operator+=; using bertini::node::operator-=; using bertini::node::operator*=; using bertini::node::operator/=;
	using bertini::node::pow;
}
// every spelling of an arithmetic operation offered by the API
static void P01_api(mc::Run& r)
{
	using bertini::mpfr_float; using bertini::mpfr_complex; using bertini::mpz_int; using bertini::mpq_rational;
	using bertini::node::SumOperator; using bertini::node::MultOperator; using bertini::node::Integer;
	using namespace ops;
	DefaultPrecision(30);
	struct Form { std::string name; std::function<Node(Node const&,Node const&)> f; std::function<R(R const&,R const&)> g; };
	R cf(Rr(5)/4), cc(Rr(5)/4,Rr(-3)/2), ci(3), cq(Rr(2)/Rr(5));
	auto F=[]{ return mpfr_float("1.25"); }; auto C=[]{ return mpfr_complex("1.25","-1.5"); }; auto Z=[]{ return mpz_int(3); }; auto Q=[]{ return mpq_rational(2,5); };
	std::vector<Form> forms;
#define BIN(OP) \
	forms.push_back({"a" #OP "b",[](Node const& a,Node const& b){ return a OP b; },[](R const& a,R const& b){ return R(a OP b); }}); \
	forms.push_back({"a" #OP "=b",[](Node const& a,Node const& b){ Node c=a; c OP##= b; return c; },[](R const& a,R const& b){ return R(a OP b); }}); \
	forms.push_back({"a" #OP "float",[=](Node const& a,Node const&){ return a OP F(); },[=](R const& a,R const&){ return R(a OP cf); }}); \
	forms.push_back({"float" #OP "a",[=](Node const& a,Node const&){ return F() OP a; },[=](R const& a,R const&){ return R(cf OP a); }}); \
	forms.push_back({"a" #OP "complex",[=](Node const& a,Node const&){ return a OP C(); },[=](R const& a,R const&){ return R(a OP cc); }}); \
	forms.push_back({"complex" #OP "a",[=](Node const& a,Node const&){ return C() OP a; },[=](R const& a,R const&){ return R(cc OP a); }}); \
	forms.push_back({"a" #OP "int",[=](Node const& a,Node const&){ return a OP 3; },[=](R const& a,R const&){ return R(a OP ci); }}); \
	forms.push_back({"int" #OP "a",[=](Node const& a,Node const&){ return 3 OP a; },[=](R const& a,R const&){ return R(ci OP a); }}); \
	forms.push_back({"a" #OP "mpz",[=](Node const& a,Node const&){ return a OP Z(); },[=](R const& a,R const&){ return R(a OP ci); }}); \
	forms.push_back({"mpz" #OP "a",[=](Node const& a,Node const&){ return Z() OP a; },[=](R const& a,R const&){ return R(ci OP a); }}); \
	forms.push_back({"a" #OP "mpq",[=](Node const& a,Node const&){ return a OP Q(); },[=](R const& a,R const&){ return R(a OP cq); }}); \
	forms.push_back({"mpq" #OP "a",[=](Node const& a,Node const&){ return Q() OP a; },[=](R const& a,R const&){ return R(cq OP a); }});
	BIN(+) BIN(-) BIN(*) BIN(/)
#undef BIN
	forms.push_back({"-a",[](Node const& a,Node const&){ return -a; },[](R const& a,R const&){ return R(-a); }});
	forms.push_back({"pow(a,2)",[](Node const& a,Node const&){ return pow(a,2); },[](R const& a,R const&){ return R(a*a); }});
	forms.push_back({"pow(a,3)",[](Node const& a,Node const&){ return pow(a,3); },[](R const& a,R const&){ return R(a*a*a); }});
	forms.push_back({"pow(a,float)",[=](Node const& a,Node const&){ return pow(a,F()); },[=](R const& a,R const&){ return R(exp(cf*log(a))); }});
	forms.push_back({"pow(a,complex)",[=](Node const& a,Node const&){ return pow(a,C()); },[=](R const& a,R const&){ return R(exp(cc*log(a))); }});
	forms.push_back({"pow(a,mpq)",[=](Node const& a,Node const&){ return pow(a,Q()); },[=](R const& a,R const&){ return R(exp(cq*log(a))); }});
	forms.push_back({"sum4",[](Node const& a,Node const& b){ auto s=SumOperator::Make(a,b); s->AddOperand(a,false); s->AddOperand(b,true); return Node(s); },[](R const& a,R const& b){ return R(b+b); }});
	forms.push_back({"mult4",[](Node const& a,Node const& b){ auto s=MultOperator::Make(a,b); s->AddOperand(a,false); s->AddOperand(b,true); return Node(s); },[](R const& a,R const& b){ return R(b*b); }});
	forms.push_back({"mult/=",[](Node const& a,Node const& b){ auto s=MultOperator::Make(a,b); s/=b; s*=a; return Node(s); },[](R const& a,R const&){ return R(a*a); }});
	// the same form applied to the result of another: all pairs, on all argument kinds
	struct Arg { std::string name; std::function<std::pair<Node,std::function<R(std::vector<R> const&)>>(std::vector<Var> const&)> mk; };
	std::vector<Arg> args = {
		{"x",[](auto const& v){ return std::make_pair(Node(v[0]),std::function<R(std::vector<R> const&)>([](auto const& p){ return p[0]; })); }},
		{"y",[](auto const& v){ return std::make_pair(Node(v[1]),std::function<R(std::vector<R> const&)>([](auto const& p){ return p[1]; })); }},
		{"x*y",[](auto const& v){ return std::make_pair(Node(v[0])*Node(v[1]),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(p[0]*p[1]); })); }},
		{"x^2",[](auto const& v){ return std::make_pair(bertini::node::pow(Node(v[0]),2),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(p[0]*p[0]); })); }},
		{"x^3",[](auto const& v){ return std::make_pair(bertini::node::pow(Node(v[0]),3),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(p[0]*p[0]*p[0]); })); }},
		{"x^-2",[](auto const& v){ return std::make_pair(bertini::node::pow(Node(v[0]),-2),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(R(1)/(p[0]*p[0])); })); }},
		{"y^2",[](auto const& v){ return std::make_pair(bertini::node::pow(Node(v[1]),2),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(p[1]*p[1]); })); }},
		{"x-y",[](auto const& v){ return std::make_pair(Node(v[0])-Node(v[1]),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(p[0]-p[1]); })); }},
		{"5",[](auto const& v){ return std::make_pair(Node(Integer::Make(5)),std::function<R(std::vector<R> const&)>([](auto const& p){ return R(5); })); }},
	};
	auto pts=points(2);
	for (size_t f1=0;f1<forms.size();f1++) for (size_t f2=0;f2<=forms.size();f2++) for (size_t a=0;a<args.size();a++) for (size_t b=0;b<args.size();b++)
	{
		if (!r.thorough() && f2<forms.size() && (a>3 || b>2)) continue;
		r.test([&]{ return "api "+forms[f1].name+(f2<forms.size()?" then "+forms[f2].name:"")+" on a="+args[a].name+", b="+args[b].name; },[&]{
			DefaultPrecision(30);
			auto v=mkvars(2); auto A1=args[a].mk(v), B1=args[b].mk(v);
			Node n=forms[f1].f(A1.first,B1.first), n2;
			if (f2<forms.size()) n2=forms[f2].f(n,A1.first);
			for (auto const& p:pts)
			{
				setvars(v,p,30);
				auto ev=[&](Node const& q,R const& want,std::string what){ q->Reset(); R d=toR(q->Eval<dbl>()), m=toR(q->Eval<Mp>()); double s=1+mag(want);
					r.check(close(d,want,1e-9*s),"api-dbl",[&]{ return what+": double value "+str(d)+" expected "+str(want); });
					r.check(close(m,want,1e-22*s),"api-mp",[&]{ return what+": multiprecision value "+str(m,35)+" expected "+str(want,35); }); };
				R ra=A1.second(p), rb=B1.second(p), r1=forms[f1].g(ra,rb);
				if (f2<forms.size()) { R base=r1; if (mag(base)<1e-3) continue; ev(n2,forms[f2].g(r1,ra),"second"); }
				ev(n,r1,"first"); ev(A1.first,ra,"operand a afterwards"); ev(B1.first,rb,"operand b afterwards");
				r.transition();
			}
			r.outcome("api form compared");
		});
	}
}

static void P01(mc::Run& r)
{
	Space g; general(g,r.thorough());
	for (int t:g.all) for (int share=0;share<3;share++)
		r.test([&]{ return std::string(Builder::mode_name(share))+g.A.show(t); },[&]{ r.state(g.A.show(t)); P01_term(r,g.A,t,share,false); });
	Space d; deeper(d,r.thorough());
	for (int t:d.all)
		for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+d.A.show(t); },[&]{ r.state(d.A.show(t)); P01_term(r,d.A,t,mode,true); });
	Space c; c.G.csts={C2,C0,C1,CM1,C37,CRAT,CFLT,CPI,CE,CI,CF1,CF0,C3,CHALF,CM2}; c.G.vars={0}; c.G.unary=all_unary(); c.G.unary.push_back({IPOW,7}); c.G.unary.push_back({IPOW,-5}); c.G.binary={ADD,SUB,MUL,DIV,POW}; c.G.generate(c.A,1); take(c,1);
	for (int t:c.all)
		r.test([&]{ return "constants "+c.A.show(t); },[&]{ r.state(c.A.show(t)); P01_term(r,c.A,t,true,false); });
	Space w; wide(w,W_SUM|W_POW|W_DEEP|W_NEST,r.thorough());
	for (int t:w.all) for (int mode=(r.thorough()?0:1);mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+w.A.show(t); },[&]{ r.state(w.A.show(t)); P01_term(r,w.A,t,mode,true); });
	P01_api(r);
}

// ---------------- derivatives
static void P02_term(mc::Run& r,Arena const& A,int t,int share)
{
	const unsigned D=40; DefaultPrecision(D);
	auto v=mkvars(3); Builder B; B.vars=v; B.mode=share;
	Node n=B.build(A,t);
	auto pts=points(3);
	bool any=false;
	std::vector<Val> e; for (auto const& p:pts) { e.push_back(eval(A,t,p)); any=any||e.back().dok; }
	if (!any) { r.outcome("not compared (undefined or ill-conditioned there)"); return; }
	std::vector<Node> dn; for (int k=0;k<3;k++) { r.where("differentiate"); dn.push_back(n->Differentiate(v[k])); }
	r.where("differentiate-total");
	auto J=bertini::node::Jacobian::Make(n->Differentiate());
	r.where("");
	for (int round=0;round<3;round++)
	{
		auto const& p=pts[round%2]; auto const& q=e[round%2];
		if (!q.dok) continue;
		setvars(v,p,D);
		double sc=(1+q.big)*(1+q.amp), tm=1e-24*sc*sc, td=1e-9*sc;
		if (tm>1e-10) { r.outcome("not compared (undefined or ill-conditioned there)"); continue; }
		for (int k=0;k<3;k++)
		{
			dn[k]->Reset();
			R m=toR(dn[k]->Eval<Mp>()), d=toR(dn[k]->Eval<dbl>());
			r.transition();
			r.check(close(m,q.d[k],tm),"diff-mp",[&]{ return "derivative in "+v[k]->name()+" is "+str(m)+" expected "+str(q.d[k]); });
			if (td<1e-3) r.check(close(d,q.d[k],td),"diff-dbl",[&]{ return "derivative in "+v[k]->name()+" in double is "+str(d)+" expected "+str(q.d[k]); });
			J->Reset();
			R jm=toR(J->EvalJ<Mp>(v[k])); R jd=toR(J->EvalJ<dbl>(v[k]));
			r.check(close(jm,q.d[k],tm),"jac-mp",[&]{ return "total differential along "+v[k]->name()+" is "+str(jm)+" expected "+str(q.d[k]); });
			if (td<1e-3) r.check(close(jd,q.d[k],td),"jac-dbl",[&]{ return "total differential along "+v[k]->name()+" in double is "+str(jd)+" expected "+str(q.d[k]); });
		}
		n->Reset(); R nv=toR(n->Eval<Mp>());
		r.check(close(nv,q.v,1e-24*sc),"value-after",[&]{ return "the value of the expression itself changed to "+str(nv)+" expected "+str(q.v); });
		r.outcome("compared");
	}
}
static void P02(mc::Run& r)
{
	Space g; general(g,r.thorough());
	for (int t:g.all) for (int share=0;share<3;share++)
		r.test([&]{ return std::string(Builder::mode_name(share))+g.A.show(t); },[&]{ r.state(g.A.show(t)); P02_term(r,g.A,t,share); });
	Space d; deeper(d,r.thorough());
	for (int t:d.all)
		for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+d.A.show(t); },[&]{ r.state(d.A.show(t)); P02_term(r,d.A,t,mode); });
	// products of constants and variables whose derivatives are 0 and 1 (shortcuts in the product rule)
	Space c; polys(c,r.thorough()?3:2,{C0,C1,CM1,CF1,CF0},{{NEG,0},{IPOW,2},{IPOW,1}},{ADD,SUB,MUL,DIV});
	for (int t:c.all) if (c.A.size(t)>0)
		for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+c.A.show(t); },[&]{ r.state(c.A.show(t)); P02_term(r,c.A,t,mode); });
	Space w; wide(w,W_SUM|W_POW|W_DEEP|W_NEST,r.thorough(),{C2,C1});
	for (int t:w.all) for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+w.A.show(t); },[&]{ r.state(w.A.show(t)); P02_term(r,w.A,t,mode); });
}

// ---------------- degree and homogeneity
static unsigned masks[]={1,2,3,4,7,6};
static VariableGroup group(std::vector<Var> const& v,unsigned m,bool rev=false) { VariableGroup g; for (size_t i=0;i<v.size();i++) { size_t k=rev?v.size()-1-i:i; if ((m>>k)&1) g.push_back(v[k]); } return g; }

static void P03_term(mc::Run& r,Arena const& A,int t,int mode)
{
	DefaultPrecision(30);
	if (odd_exponent(A,t)) { r.outcome("not compared (exponent is an expression)"); return; }
	auto v=mkvars(3); Builder B; B.vars=v; B.mode=mode;
	Node n=B.build(A,t);
	setvars(v,points(3)[0],30); n->Reset();
	for (int k=0;k<3;k++)
	{
		int want=degree(A,t,1u<<k), got=n->Degree(v[k]);
		r.transition();
		r.check((want<0)==(got<0) && (want<0||want==got),"degree-var",[&]{ return "degree in "+v[k]->name()+" is "+std::to_string(got)+" expected "+std::to_string(want); });
		r.check(n->IsPolynomial(v[k])==(want>=0),"ispoly-var",[&]{ return std::string("IsPolynomial in ")+v[k]->name(); });
		if (want>=0) { bool wh=homogeneous(A,t,1u<<k); r.check(n->IsHomogeneous(v[k])==wh,"ishom-var",[&]{ return "IsHomogeneous in "+v[k]->name()+" expected "+std::to_string(wh); }); }
	}
	for (unsigned m:masks) for (int rev=0;rev<2;rev++)
	{
		VariableGroup g=group(v,m,rev);
		int want=degree(A,t,m), got=n->Degree(g);
		r.transition();
		r.check((want<0)==(got<0) && (want<0||want==got),"degree-group",[&]{ std::string s; for (auto& q:g) s+=q->name(); return "degree in group "+s+" is "+std::to_string(got)+" expected "+std::to_string(want); });
		r.check(n->IsPolynomial(g)==(want>=0),"ispoly-group",[&]{ std::string s; for (auto& q:g) s+=q->name(); return "IsPolynomial in group "+s; });
		if (want>=0) { bool wh=homogeneous(A,t,m); r.check(n->IsHomogeneous(g)==wh,"ishom-group",[&]{ std::string s; for (auto& q:g) s+=q->name(); return "IsHomogeneous in group "+s+" expected "+std::to_string(wh); }); }
		auto md=n->MultiDegree(g);
		bool same=md.size()==g.size();
		for (size_t i=0;same&&i<g.size();i++) { int k=g[i]->name()=="x"?0:g[i]->name()=="y"?1:2; int w=degree(A,t,1u<<k); if ((w<0)!=(md[i]<0)||(w>=0&&w!=md[i])) same=false; }
		r.check(same,"multidegree",[&]{ std::string s; for (auto q:md) s+=std::to_string(q)+" "; return "MultiDegree is "+s; });
	}
	r.outcome("degree "+std::to_string(degree(A,t,7)));
}
static void P03(mc::Run& r)
{
	Space g; general(g,r.thorough());
	for (int t:g.all) for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+g.A.show(t); },[&]{ r.state(g.A.show(t)); P03_term(r,g.A,t,mode); });
	Space d; polys(d,3,{C2},{{NEG,0},{IPOW,2},{SIN,0},{SQRT,0}},r.thorough()?std::vector<Op>{ADD,SUB,MUL,DIV,POW}:std::vector<Op>{ADD,SUB,MUL,DIV},3);
	for (int t:d.all) if (d.A.size(t)==3) for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+d.A.show(t); },[&]{ r.state(d.A.show(t)); P03_term(r,d.A,t,mode); });
	Space w; wide(w,W_SUM|W_POW|W_DEEP|W_POLY|W_NEST,r.thorough());
	for (int t:w.all) for (int mode=1;mode<3;mode++) r.test([&]{ return Builder::mode_name(mode)+w.A.show(t); },[&]{ r.state(w.A.show(t)); P03_term(r,w.A,t,mode); });
}

// ---------------- homogenization
static void P04_term(mc::Run& r,Arena const& A,int t,int share,unsigned m1,unsigned m2)
{
	const unsigned D=40; DefaultPrecision(D);
	if (odd_exponent(A,t)) { r.outcome("not compared (exponent is an expression)"); return; }
	int d1=degree(A,t,m1), d2=m2?degree(A,t,m2):0;
	if (d1<0||d2<0) { // not polynomial: must be refused, or left alone if it does not involve the group
		r.outcome("not a polynomial in the group"); return; }
	auto v=mkvars(3); Builder B; B.vars=v; B.mode=share;
	Var h1=bertini::node::Variable::Make("h1"), h2=bertini::node::Variable::Make("h2");
	Node n=B.build(A,t);
	VariableGroup g1=group(v,m1), g2=group(v,m2);
	r.where("homogenize");
	n->Homogenize(g1,h1); if (m2) n->Homogenize(g2,h2);
	r.where("");
	r.transition();
	std::vector<Var> all={v[0],v[1],v[2],h1,h2};
	auto p=points(3)[0];
	auto at=[&](std::vector<R> const& q){ setvars(all,q,D); n->Reset(); return toR(n->Eval<Mp>()); };
	R one(1), l(Rr("0.83"),Rr("-0.61")), mu(Rr("-1.21"),Rr("0.35")), a(Rr("0.45"),Rr("0.92")), b(Rr("1.17"),Rr("-0.28"));
	Val e=eval(A,t,p); if (!e.ok) return;
	R f1=at({p[0],p[1],p[2],one,one});
	r.check(close(f1,e.v,1e-24*(1+e.amp)),"dehom",[&]{ return "at homogenizing variables 1 the value is "+str(f1)+" expected "+str(e.v); });
	R base=at({p[0],p[1],p[2],a,b});
	auto pw=[&](R const& z,int k){ R q(1); for (int i=0;i<k;i++) q*=z; return q; };
	std::vector<R> q1={p[0],p[1],p[2],R(l*a),b}; for (int k=0;k<3;k++) if ((m1>>k)&1) q1[k]=l*q1[k];
	R s1=at(q1);
	r.check(close(s1,R(base*pw(l,d1)),1e-20*(1+mag(base)+e.amp)),"scale",[&]{ return "f(l x, l h)="+str(s1)+" but l^"+std::to_string(d1)+" f(x,h)="+str(R(base*pw(l,d1))); });
	if (m2)
	{
		std::vector<R> q2={p[0],p[1],p[2],a,R(mu*b)}; for (int k=0;k<3;k++) if ((m2>>k)&1) q2[k]=mu*q2[k];
		R s2=at(q2);
		r.check(close(s2,R(base*pw(mu,d2)),1e-20*(1+mag(base)+e.amp)),"scale2",[&]{ return "second group: got "+str(s2)+" expected degree "+std::to_string(d2); });
	}
	VariableGroup gh=g1; gh.push_back(h1);
	r.check(n->IsHomogeneous(gh),"ishom-after",[&]{ return std::string("IsHomogeneous is false after homogenization"); });
	r.check(n->Degree(gh)==d1,"deg-after",[&]{ return "degree after homogenization "+std::to_string(n->Degree(gh))+" expected "+std::to_string(d1); });
	// twice is the same as once
	n->Homogenize(g1,h1);
	R again=at({p[0],p[1],p[2],a,b});
	r.check(close(again,base,1e-24*(1+mag(base)+e.amp)),"twice",[&]{ return "homogenizing again changed the value at ("+str(a)+") from "+str(base)+" to "+str(again); });
	r.outcome("homogenized");
}
static void P04(mc::Run& r)
{
	std::vector<std::pair<unsigned,unsigned>> gs={{1,0},{3,0},{7,0},{1,2},{2,1},{3,4},{4,3}};
	auto run=[&](Space& s,int lo){ for (int t:s.all) if (s.A.size(t)>=lo) for (int share=0;share<3;share++) for (auto const& g:gs)
		r.test([&]{ return std::string(Builder::mode_name(share))+s.A.show(t)+" groups "+std::to_string(g.first)+","+std::to_string(g.second); },[&]{ r.state(s.A.show(t)); P04_term(r,s.A,t,share,g.first,g.second); }); };
	Space s; polys(s,2,{C2,CRAT,C0,C1},{{NEG,0},{IPOW,2},{IPOW,3},{IPOW,0},{IPOW,1},{SQRT,0},{SIN,0},{EXP,0}},{ADD,SUB,MUL,DIV,POW},3);
	run(s,0);
	Space d; polys(d,r.thorough()?4:3,{C2},{{NEG,0},{IPOW,2}},{ADD,SUB,MUL},2);
	if (r.thorough()) { for (int t:d.all) if (d.A.size(t)==4) r.test([&]{ return "shared "+d.A.show(t)+" groups 3,0"; },[&]{ r.state(d.A.show(t)); P04_term(r,d.A,t,true,3,0); }); }
	Space d3; polys(d3,3,{C2},{{NEG,0},{IPOW,2}},{ADD,SUB,MUL},r.thorough()?3:2);
	run(d3,3);
	Space w; wide(w,W_SUM|W_POW|W_POLY|W_NEST,r.thorough()); size_t k=0;
	for (int t:w.all) { k++; for (int mode=0;mode<3;mode++) for (size_t g=0;g<gs.size();g++) { if (!r.thorough() && g!=1 && (g+k+mode)%gs.size()) continue; r.test([&]{ return Builder::mode_name(mode)+w.A.show(t)+" groups "+std::to_string(gs[g].first)+","+std::to_string(gs[g].second); },[&]{ r.state(w.A.show(t)); P04_term(r,w.A,t,mode,gs[g].first,gs[g].second); }); } }
}

// ---------------- simplification
static void P05_term(mc::Run& r,Arena const& A,int t,int share,int which,int atpoint)
{
	const unsigned D=40; DefaultPrecision(D);
	auto v=mkvars(2); Builder B; B.vars=v; B.mode=share;
	Node n0=B.build(A,t);
	Node n=n0; // derivatives are stored by systems as plain trees
	auto pts=points(2);
	// the values the variables hold when the simplification runs
	if (atpoint==1) { setvars(v,pts[0],D); n->Reset(); }
	else if (atpoint==2) { setvars(v,{pts[0][0],pts[0][1]},D); n->Reset(); n->Eval<dbl>(); n->Eval<Mp>(); }
	r.where("simplify");
	switch (which)
	{
		case 0: bertini::Simplify(n); break;
		case 1: n->EliminateZeros(); break;
		case 2: n->EliminateOnes(); break;
		case 3: n->ReduceDepth(); break;
	}
	r.where("");
	for (int k=0;k<2;k++)
	{
		Val e=eval(A,t,pts[k]); if (!e.ok) { r.outcome("not compared (undefined there)"); continue; }
		setvars(v,pts[k],D); n->Reset();
		R m=toR(n->Eval<Mp>()); R d=toR(n->Eval<dbl>());
		r.transition();
		r.check(close(m,e.v,e.amp*1e-32),"value-mp",[&]{ return "value after simplification "+str(m)+" expected "+str(e.v); });
		r.check(close(d,e.v,e.amp*1e-11),"value-dbl",[&]{ return "double value after simplification "+str(d)+" expected "+str(e.v); });
		r.outcome("compared");
	}
}
static void P05(mc::Run& r)
{
	Space s; polys(s,2,{C0,C1,CM1,C2,CF1,CF0},{{NEG,0},{IPOW,2},{IPOW,0},{IPOW,1},{SIN,0},{COS,0},{EXP,0}},{ADD,SUB,MUL,DIV,POW},2);
	for (int t:s.all) if (s.A.size(t)) for (int share=0;share<3;share++) for (int w=0;w<4;w++) for (int ap=1;ap<3;ap++)
		r.test([&]{ return std::string(Builder::mode_name(share))+s.A.show(t)+" op "+std::to_string(w)+" at "+std::to_string(ap); },[&]{ r.state(s.A.show(t)); P05_term(r,s.A,t,share,w,ap); });
	Space d; polys(d,3,{C0,C1},{{NEG,0},{IPOW,2}},r.thorough()?std::vector<Op>{ADD,SUB,MUL,DIV}:std::vector<Op>{ADD,SUB,MUL,DIV},r.thorough()?2:1);
	for (int t:d.all) if (d.A.size(t)==3) for (int w=0;w<4;w++) for (int mode=1;mode<3;mode++)
		r.test([&]{ return Builder::mode_name(mode)+d.A.show(t)+" op "+std::to_string(w); },[&]{ r.state(d.A.show(t)); P05_term(r,d.A,t,mode,w,2); });
	for (auto cs:{std::vector<int>{C0,C1},std::vector<int>{C1,C0},std::vector<int>{CF1,C2}}) { Space q; wide(q,W_SUM|W_POW|W_NEST,r.thorough(),cs);
	for (int t:q.all) for (int w=0;w<4;w++) for (int mode=1;mode<3;mode++)
		r.test([&]{ return Builder::mode_name(mode)+q.A.show(t)+" op "+std::to_string(w); },[&]{ r.state(q.A.show(t)); P05_term(r,q.A,t,mode,w,1); }); }
}

int main(int argc,char** argv)
{
	return mc::main_loop(argc,argv,{{"P01",P01},{"P02",P02},{"P03",P03},{"P04",P04},{"P05",P05}});
}
