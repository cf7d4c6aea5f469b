// Systems: evaluation methods, operation histories, variable structure, patches.
#include "sysref.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace ref;
using bertini::EvalMethod; using bertini::DerivMethod;
using bertini::node::Variable; using bertini::node::Function; using bertini::node::Integer;

static std::vector<Var> mkvars() { Arena A; std::vector<Var> v; for (auto const& n:A.names) v.push_back(Variable::Make(n)); return v; }

struct Method { EvalMethod e; DerivMethod d; bool simp; std::string name; };
static std::vector<Method> methods()
{
	std::vector<Method> m;
	for (auto e:{EvalMethod::SLP,EvalMethod::FunctionTree}) for (auto d:{DerivMethod::Derivatives,DerivMethod::JacobianNode}) for (bool s:{true,false})
		m.push_back({e,d,s,std::string(e==EvalMethod::SLP?"slp":"tree")+"/"+(d==DerivMethod::Derivatives?"derivatives":"jacobian-node")+(s?"/simplify":"")});
	return m;
}

// ---------------------------------------------------------------- P06: all evaluation methods compute the same, right, thing
struct Shape { std::string name; std::function<void(System&,Builder&,Arena const&,std::vector<int> const&)> build; };

static std::string show_fns(Arena const& A,std::vector<int> const& f) { std::string s; for (int i:f) s+=(s.empty()?"":"; ")+A.show(i); return s; }
static const char* shape_name[]={"plain","shared","functions-in-functions","subfunctions"};

// values set first, asked for later, in both number types, in any order
static void P06_setget(mc::Run& r,Arena const& A,std::vector<int> const& fns,Method const& me,std::vector<int> const& ask)
{
	DefaultPrecision(30);
	auto v=mkvars(); Builder B; B.vars=v; B.mode=1;
	System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp);
	S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]);
	for (int f:fns) S.AddFunction(B.build(A,f));
	S.precision(30);
	auto pts=points(NV);
	std::vector<std::vector<R>> at={pts[0],pts[1]}; // the double point, the multiprecision point
	auto set=[&](int ty){ auto const& p=at[ty];
		if (ty==0) { bertini::Vec<dbl> x(2); x<<toD(p[VX]),toD(p[VY]); S.SetAndReset<dbl>(x,toD(p[VT])); }
		else { bertini::Vec<Mp> x(2); x<<toMp(p[VX],30),toMp(p[VY],30); S.SetAndReset<Mp>(x,toMp(p[VT],30)); } };
	set(0); set(1);
	for (int a:ask)
	{
		int ty=a%2, what=a/2; r.transition();
		if (what==3) { at[ty]= at[ty]==pts[0]?pts[1]:pts[0]; set(ty); continue; }
		auto const& p=at[ty];
		std::string k=me.name+":set-then-get:"+(ty?"mp":"dbl");
		bertini::Vec<dbl> fd; bertini::Vec<Mp> fm; bertini::Mat<dbl> Jd; bertini::Mat<Mp> Jm;
		r.where(k);
		if (ty==0) { if (what==0) fd=S.Eval<dbl>(); else if (what==1) Jd=S.Jacobian<dbl>(); else fd=S.TimeDerivative<dbl>(); }
		else { if (what==0) fm=S.Eval<Mp>(); else if (what==1) Jm=S.Jacobian<Mp>(); else fm=S.TimeDerivative<Mp>(); }
		for (size_t i=0;i<fns.size();i++)
		{
			Val e=eval(A,fns[i],p); Tol tl= ty? tol<Mp>(e,30):tol<dbl>(e,30);
			auto one=[&](R got,R want,double t){ r.check(close(got,want,t),k,[&]{ static const char* nm[]={"value","Jacobian","time derivative"}; return std::string(nm[what])+" of "+A.show(fns[i])+": "+str(got)+" expected "+str(want); }); };
			if (what==0) one(ty?toR(fm(i)):toR(fd(i)),e.v,tl.v);
			if (what==2) one(ty?toR(fm(i)):toR(fd(i)),e.d[VT],tl.d);
			if (what==1) for (int j=0;j<2;j++) one(ty?toR(Jm(i,j)):toR(Jd(i,j)),e.d[j],tl.d);
		}
	}
}

static void P06_system(mc::Run& r,Arena const& A,std::vector<int> const& fns,Method const& me,int shape,bool deep)
{
	r.state(std::string(shape_name[shape])+me.name+show_fns(A,fns));
	DefaultPrecision(30);
	auto v=mkvars(); Builder B; B.vars=v; B.mode= shape==0?0:1;
	System S;
	S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp);
	S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]);
	if (shape<=1) for (int f:fns) S.AddFunction(B.build(A,f));
	else
	{
		// shapes 2,3: the functions are Function nodes, and wherever one occurs inside another the Function itself is used
		std::vector<int> ord; for (size_t i=0;i<fns.size();i++) ord.push_back(i);
		std::sort(ord.begin(),ord.end(),[&](int a,int b){ return A.size(fns[a])<A.size(fns[b]); });
		std::map<int,std::shared_ptr<Function>> F;
		for (int i:ord)
		{
			auto it=B.memo.find(fns[i]);
			std::shared_ptr<Function> fn;
			if (it!=B.memo.end()) fn=std::dynamic_pointer_cast<Function>(it->second);
			if (!fn) { Node n=B.build(A,fns[i]); fn=Function::Make(n,"f"+std::to_string(i)); B.memo[fns[i]]=fn; }
			F[i]=fn;
		}
		for (size_t i=0;i<fns.size();i++) { if (shape==3 && i+1<fns.size()) S.AddSubfunction(F[i]); else S.AddFunction(F[i]); }
	}
	Model m; m.fns = shape==3 ? std::vector<int>{fns.back()} : fns; m.order={VX,VY}; m.time=true;
	auto pts=points(NV); auto q=pts[0]; q[VT]=pts[1][VT]; // same place, other time
	S.precision(30);
	std::string g=me.name;
	compare<dbl>(r,A,S,m,pts[0],30,"fJt",g);
	compare<Mp>(r,A,S,m,pts[0],30,"fJt",g);
	compare<dbl>(r,A,S,m,pts[1],30,"Jf",g);
	if (deep) return;
	compare<Mp>(r,A,S,m,q,30,"tfJ",g);
	DefaultPrecision(50); S.precision(50);
	compare<Mp>(r,A,S,m,pts[1],50,"fJt",g);
	compare<dbl>(r,A,S,m,q,50,"tJ",g);
	DefaultPrecision(30); S.precision(30);
	compare<Mp>(r,A,S,m,pts[1],30,"Jf",g);
	compare<dbl>(r,A,S,m,pts[0],30,"f",g);
}

// a variable which is a parameter of the system, not one of its coordinates
static void P06_param(mc::Run& r,Arena const& A,int f,Method const& me)
{
	DefaultPrecision(30);
	auto v=mkvars(); Builder B; B.vars=v; B.mode=0;
	System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp);
	S.AddVariableGroup({v[VX],v[VY]}); S.AddPathVariable(v[VT]); S.AddImplicitParameter(v[VW]);
	S.AddFunction(B.build(A,f)); S.precision(30);
	Model m; m.fns={f}; m.order={VX,VY}; m.time=true;
	auto pts=points(NV);
	for (int i=0;i<3;i++)
	{
		auto p=pts[i%2]; if (i==2) p[VX]=pts[1][VX];
		bertini::Vec<dbl> wd(1); wd<<toD(p[VW]); bertini::Vec<Mp> wm(1); wm<<toMp(p[VW],30);
		S.SetImplicitParameters(wd); compare<dbl>(r,A,S,m,p,30,"fJt",me.name+":parameter");
		S.SetImplicitParameters(wm); compare<Mp>(r,A,S,m,p,30,"fJt",me.name+":parameter");
	}
	DefaultPrecision(50); S.precision(50);
	bertini::Vec<Mp> wm(1); wm<<toMp(pts[0][VW],50); S.SetImplicitParameters(wm); compare<Mp>(r,A,S,m,pts[0],50,"Jtf",me.name+":parameter");
}

// many variables, many functions, long functions
static int wide_fn(Arena& A,int nv,int i,int pattern)
{
	static const int vs[]={VX,VY,VZ,VW,VH0,VH1,VH2}; auto x=[&](int k){ return A.var(vs[k%nv]); }; int t=A.var(VT); auto c=[&](int k){ static const int cs[]={C2,CRAT,C37,CM2,CFLT,CE,C5,CPI,CHALF,CI,CM3}; return A.cst(cs[k%11]); };
	auto mono=[&](int k){ int e=1+(2*i+3*k)%9; int m=e==1?x(k+i):A.add(IPOW,e,x(k+i)); m=A.add(MUL,0,c(i+k),m); return k%2?A.add(MUL,0,m,x(k+2*i+1)):m; };
	int f=-1;
	if (pattern==0) { for (int k=0;k<nv+2;k++) f=f<0?mono(0):A.add((i+k)%3==0?SUB:ADD,0,f,mono(k)); return A.add(i%2?ADD:SUB,0,f,A.add(MUL,0,A.add(IPOW,i%4+1,t),x(i))); }
	if (pattern==1) { for (int k=0;k<4;k++) { int l=x(i+k); for (int j=1;j<3;j++) l=A.add(j%2?ADD:SUB,0,l,A.add(MUL,0,c(i+j),x(i+k+j))); l=A.add(ADD,0,l,c(k+i+4)); f=f<0?l:A.add((i+k)%4==3?DIV:MUL,0,f,l); } return A.add(MUL,0,f,A.add(SUB,0,c(0),t)); }
	f=A.add(IPOW,-1-i%3,A.add(ADD,0,x(i),c(4))); f=A.add(MUL,0,f,A.add(EXP,0,A.add(MUL,0,c(2),x(i+1)))); f=A.add(ADD,0,f,A.add(SIN,0,A.add(MUL,0,t,x(i+2)))); return A.add(SUB,0,f,A.add(POW,0,A.add(ADD,0,x(i),A.cst(C3)),c(i)));
}
static void P06_wide(mc::Run& r,int nv,int nf,int pattern,int mode,int layout,Method const& me)
{
	static const int vs[]={VX,VY,VZ,VW,VH0,VH1,VH2}; DefaultPrecision(30); Arena A; auto v=mkvars(); Builder B; B.vars=v; B.mode=mode; System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp); S.AddPathVariable(v[VT]);
	Model m; m.time=true; if (layout==0) { VariableGroup g; for (int i=0;i<nv;i++) g.push_back(v[vs[i]]); S.AddVariableGroup(g); } else for (int i=0;i<nv;i++) S.AddVariableGroup({v[vs[i]]}); for (int i=0;i<nv;i++) m.order.push_back(vs[i]);
	for (int i=0;i<nf;i++) { int f=wide_fn(A,nv,i,pattern); m.fns.push_back(f); S.AddFunction(B.build(A,f)); } S.precision(30); r.state(std::to_string(nv)+" "+std::to_string(nf)+" "+std::to_string(pattern)+std::to_string(layout)); auto pts=points(NV);
	compare<dbl>(r,A,S,m,pts[0],30,"fJt",me.name); compare<Mp>(r,A,S,m,pts[0],30,"Jtf",me.name); compare<Mp>(r,A,S,m,pts[1],30,"tfJ",me.name); DefaultPrecision(45); S.precision(45); compare<Mp>(r,A,S,m,pts[0],45,"fJt",me.name); compare<dbl>(r,A,S,m,pts[1],45,"fJt",me.name);
}
// every sequence of precisions, evaluating at each or not
static void P06_precisions(mc::Run& r,std::vector<int> const& h,int pattern,Method const& me)
{
	static const unsigned D[]={16,20,30,50,80}; DefaultPrecision(30); Arena A; auto v=mkvars(); Builder B; B.vars=v; B.mode=1; System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); S.SetAutoSimplify(me.simp); S.AddPathVariable(v[VT]); S.AddVariableGroup({v[VX],v[VY]}); Model m; m.time=true; m.order={VX,VY};
	for (int i=0;i<2;i++) { int f=wide_fn(A,2,i,pattern); m.fns.push_back(f); S.AddFunction(B.build(A,f)); } S.precision(30); auto pts=points(NV); int k=0; unsigned d=30;
	for (int o:h) { d=D[o/2]; DefaultPrecision(d); S.precision(d); r.transition(); r.check(S.precision()==d,me.name+":precision",[&]{ return "the system reports "+std::to_string(S.precision())+" digits after being set to "+std::to_string(d); }); if (o%2) compare<Mp>(r,A,S,m,pts[k++%2],d,k%2?"fJt":"tJf",me.name+":precisions"); }
	compare<Mp>(r,A,S,m,pts[k%2],d,"fJt",me.name+":precisions"); compare<dbl>(r,A,S,m,pts[k%2],d,"Jft",me.name+":precisions");
}

static void P06(mc::Run& r)
{
	auto ms=methods();
	for (size_t k=0;k<ms.size();k++) for (int nv=1;nv<=7;nv++) for (int nf=1;nf<=7;nf++) for (int pat=0;pat<3;pat++) for (int mode=0;mode<3;mode++) for (int lay=0;lay<2;lay++) { if (!r.thorough() && ((nv+nf+pat+mode)%3 || (lay && mode))) continue; r.test([&]{ return ms[k].name+" "+std::to_string(nf)+" functions of kind "+std::to_string(pat)+" in "+std::to_string(nv)+" variables, "+Builder::mode_name(mode)+(lay?"one group each":"one group"); },[&]{ P06_wide(r,nv,nf,pat,mode,lay,ms[k]); }); }
	for (size_t k=0;k<ms.size();k++) for (int n=1;n<=(r.thorough()?4:3);n++) { std::vector<int> h(n,0); for (;;) { for (int pat=0;pat<(r.thorough()&&n<4?3:1);pat++) r.test([&]{ std::string l=ms[k].name+" precisions"; for (int o:h) l+=" "+std::to_string(o); return l; },[&]{ P06_precisions(r,h,pat,ms[k]); }); int i=0; while (i<n && ++h[i]==10) h[i++]=0; if (i==n) break; } }
	auto unary=std::vector<std::pair<Op,int>>{{NEG,0},{IPOW,2},{IPOW,3},{IPOW,0},{IPOW,1},{IPOW,-1},{IPOW,-2},{SQRT,0},{EXP,0},{LOG,0},{SIN,0},{COS,0},{TAN,0},{ASIN,0},{ACOS,0},{ATAN,0}};
	{ // one function
		Arena A; Grammar G; G.vars={VX,VT}; G.csts= r.thorough()? std::vector<int>{C2,CRAT,CPI,CE,CFLT,CI} : std::vector<int>{C2,CRAT}; G.unary=unary; G.binary={ADD,SUB,MUL,DIV,POW}; G.generate(A,2);
		for (int s=0;s<=2;s++) for (int t:G.by_size[s]) for (size_t k=0;k<ms.size();k++)
		{
			if (!r.thorough() && s==2 && ms[k].e==EvalMethod::FunctionTree && !ms[k].simp) continue;
			r.test([&]{ return ms[k].name+" one function: "+A.show(t); },[&]{ P06_system(r,A,{t},ms[k],0,s==2 && !r.thorough()); });
		}
	}
	{ // every constant in every argument position
		Arena A; Grammar G; G.vars={VX}; for (int c=0;c<CBIG;c++) G.csts.push_back(c); G.unary=unary; G.binary={ADD,SUB,MUL,DIV,POW}; G.generate(A,1);
		for (int s=0;s<=1;s++) for (int t:G.by_size[s]) for (size_t k=0;k<ms.size();k++)
			r.test([&]{ return ms[k].name+" constants: "+A.show(t); },[&]{ P06_system(r,A,{t},ms[k],0,false); });
	}
	{ // parameters
		Arena A; Grammar G; G.vars={VX,VW,VT}; G.csts={C2}; G.unary={{NEG,0},{IPOW,2},{EXP,0}}; G.binary={ADD,MUL,DIV}; G.generate(A,2);
		for (int s=0;s<=2;s++) for (int t:G.by_size[s]) if (A.contains(t,VW)) for (size_t k=0;k<ms.size();k++) if (ms[k].simp || r.thorough())
			r.test([&]{ return ms[k].name+" with parameter w: "+A.show(t); },[&]{ P06_param(r,A,t,ms[k]); });
	}
	{ // values set, then asked for: all sequences of requests
		Arena A; int x=A.var(VX),y=A.var(VY),t=A.var(VT); int f=A.add(ADD,0,A.add(MUL,0,x,y),A.add(IPOW,2,t)), g=A.add(SUB,0,A.add(IPOW,3,x),A.add(MUL,0,t,y));
		static const char* nm[]={"f/d","f/mp","J/d","J/mp","t/d","t/mp","set/d","set/mp"};
		for (size_t k=0;k<ms.size();k++) { std::vector<int> ask; std::function<void(int)> rec=[&](int depth){
			if (!ask.empty()) r.test([&]{ std::string s=ms[k].name+" set both, then"; for (int a:ask) s+=std::string(" ")+nm[a]; return s; },[&]{ P06_setget(r,A,{f,g},ms[k],ask); });
			if (depth==0) return; for (int a=0;a<8;a++) { ask.push_back(a); rec(depth-1); ask.pop_back(); } };
			rec(r.thorough()?4:3); }
	}
	{ // two functions which share and use each other, in both orders; three functions
		Arena A; Grammar G; G.vars={VX,VY,VT}; G.csts={CRAT}; G.unary={{NEG,0},{IPOW,2},{EXP,0}}; G.binary={ADD,SUB,MUL,DIV}; G.generate(A,2);
		std::vector<int> small=G.by_size[0]; small.insert(small.end(),G.by_size[1].begin(),G.by_size[1].end());
		auto both=[&](int a,int b,int shape,size_t k){
			r.test([&]{ return ms[k].name+" "+shape_name[shape]+" "+show_fns(A,{a,b}); },[&]{ P06_system(r,A,{a,b},ms[k],shape,false); });
			if (shape==2) r.test([&]{ return ms[k].name+" "+shape_name[shape]+" "+show_fns(A,{b,a}); },[&]{ P06_system(r,A,{b,a},ms[k],shape,false); });
		};
		auto uses=[&](int big,int sub){ std::function<bool(int)> f=[&](int i){ if (i==sub) return true; auto const& m=A.t[i]; if (m.op<=CST) return false; return f(m.a)||(is_binary(m.op)&&f(m.b)); }; return f(big); };
		for (size_t k=0;k<ms.size();k++)
		{
			if (!ms[k].simp && !r.thorough()) continue;
			for (int b:G.by_size[2]) { for (int a:small) if (A.size(a)>0 && uses(b,a)) for (int shape=1;shape<=3;shape++) both(a,b,shape,k); }
			for (int a:G.by_size[1]) for (int b:G.by_size[1]) if (r.thorough() || (a%3==0)) both(a,b,1,k);
		}
		// chains: f2 uses f1, f3 uses f2 (or both), all orders of declaration
		for (size_t k=0;k<ms.size();k++) for (int a:G.by_size[1])
		{
			if (!ms[k].simp) continue;
			if (!r.thorough() && A.t[a].op!=MUL && A.t[a].op!=IPOW) continue;
			int b=A.add(ADD,0,a,G.by_size[0][1]), c=A.add(MUL,0,b,a), d=A.add(IPOW,2,b);
			for (auto last:{c,d})
			{
				std::vector<int> p={0,1,2}; std::vector<int> t={a,b,last};
				do { std::vector<int> f={t[p[0]],t[p[1]],t[p[2]]};
					for (int shape=1;shape<=2;shape++) r.test([&]{ return ms[k].name+" "+shape_name[shape]+" "+show_fns(A,f); },[&]{ P06_system(r,A,f,ms[k],shape,false); });
				} while (std::next_permutation(p.begin(),p.end()));
			}
			// the same function listed twice
			for (int shape=1;shape<=2;shape++) r.test([&]{ return ms[k].name+" "+shape_name[shape]+" twice "+show_fns(A,{a,b,a}); },[&]{ P06_system(r,A,{a,b,a},ms[k],shape,false); });
		}
	}
}


// ---------------------------------------------------------------- P07: histories of operations on systems
// reference homogenization of a term
static int homog(Arena& A,int i,unsigned mask,int h)
{
	Term m=A.t[i];
	switch (m.op)
	{
		case VAR: case CST: return i;
		case ADD: case SUB:
		{
			int da=degree(A,m.a,mask), db=degree(A,m.b,mask);
			int a=homog(A,m.a,mask,h), b=homog(A,m.b,mask,h); int d=std::max(da,db);
			if (da<d) a=A.add(MUL,0,a,A.add(IPOW,d-da,A.var(h)));
			if (db<d) b=A.add(MUL,0,b,A.add(IPOW,d-db,A.var(h)));
			return A.add(m.op,0,a,b);
		}
		case MUL: case DIV: { int a=homog(A,m.a,mask,h), b=homog(A,m.b,mask,h); return A.add(m.op,0,a,b); }
		default: { int a=homog(A,m.a,mask,h); return A.add(m.op,m.n,a); }
	}
}
struct Group { char type; std::vector<int> vars; }; // 'a' affine, 'h' homogeneous, 'u' ungrouped
struct SysModel
{
	Model m; std::vector<Group> groups; std::vector<int> hom; // homogenizing variables, per affine group
	std::vector<int> ids; // identity of the actual variables, per reference variable
	EvalMethod e=EvalMethod::SLP; DerivMethod d=DerivMethod::Derivatives; size_t nconst=0,nparam=0,nimpl=0;
	void reorder() { m.order.clear(); size_t a=0; for (auto const& g:groups) { if (g.type=='a') { if (!hom.empty()) m.order.push_back(hom[a]); a++; } for (int v:g.vars) m.order.push_back(v); } }
};
static void read_patch(System const& S,SysModel& M)
{
	M.m.patch.clear();
	if (!S.IsPatched()) return;
	auto keep=DefaultPrecision();
	DefaultPrecision(60); auto P=S.GetPatch(); P.Precision(61); DefaultPrecision(61);
	Vec<Mp> x(S.NumVariables()); for (int i=0;i<x.size();i++) x(i)=Mp(1,0,61);
	bertini::Mat<Mp> J=P.Jacobian(x);
	size_t c=0,a=0,row=0;
	for (auto const& g:M.groups)
	{
		if (g.type=='u') { c++; continue; }
		size_t n=g.vars.size()+(g.type=='a'&&!M.hom.empty()?1:0); std::vector<R> co;
		for (size_t j=0;j<n;j++,c++) co.push_back(toR(J(row,c)));
		M.m.patch.push_back(co); row++; (void)a;
	}
	DefaultPrecision(keep);
}
struct World
{
	Arena A; std::vector<Var> v; System S[2]; SysModel M[2]; bool shared=false; unsigned digits=30; int nextf=4, nextid=100; std::vector<int> pool; bool full=false; size_t limit=4;
	std::map<std::pair<int,int>,Node> nodes;
};
static int mask_of(std::vector<int> const& v) { unsigned m=0; for (int i:v) m|=1u<<i; return m; }

enum HOp { H_ADDF, H_ADDF_B, H_EVAL_D, H_EVAL_MP, H_EVAL_B, H_COPY_BA, H_COPY_AB, H_COPYCTOR, H_MOVE, H_SWAP, H_CLONE, H_PLUSEQ, H_PLUS, H_TIMES_T, H_TIMESEQ, H_CONCAT, H_DEC, H_INC, H_HOM, H_PATCH, H_COPYPATCH, H_EMETH, H_DMETH, H_PREC, H_SIMPLIFY, H_ADDGROUP, H_SELFADD, H_COPYVARS, H_N };
static const char* hname[]={"A.AddFunction","B.AddFunction","eval A (dbl)","eval A (mp)","eval B","B=A","A=B","copy-construct A, use the copy","move A out and in","swap(A,B)","A=Clone(A)","A+=B","A=A+B","A=t*A","A*=(1-t)","A=Concatenate(A,B)","A.ReorderDecreasing","A.ReorderIncreasing","A.Homogenize","A.AutoPatch","B.CopyPatches(A)","A: other eval method","A: other derivative method","change precision","A.Simplify","A.AddVariableGroup","A=A+A","A gets B's variables"};

static bool same_vars(SysModel const& a,SysModel const& b)
{
	if (a.m.order!=b.m.order) return false;
	for (int i:a.m.order) if (a.ids[i]!=b.ids[i]) return false;
	return a.ids[VT]==b.ids[VT] && a.m.time==b.m.time;
}
// compare system k of the world, its implicit parameters set first
template<class T> static void compare_w(mc::Run& r,World& W,System const& S,SysModel const& M,int pt,std::string const& ask,std::string const& tag)
{
	auto p=points(NV)[pt]; r.check(S.NumConstants()==M.nconst && S.NumParameters()==M.nparam && S.NumImplicitParameters()==M.nimpl,tag+":parameter-counts",[&]{ return "constants, parameters, implicit parameters: "+std::to_string(S.NumConstants())+", "+std::to_string(S.NumParameters())+", "+std::to_string(S.NumImplicitParameters())+"; expected "+std::to_string(M.nconst)+", "+std::to_string(M.nparam)+", "+std::to_string(M.nimpl); });
	if (S.NumImplicitParameters()!=M.nimpl) return;
	if (M.nimpl) { bertini::Vec<T> w(1); w(0)=conv<T>(p[VW],W.digits); S.SetImplicitParameters(w); }
	compare<T>(r,W.A,S,M.m,p,W.digits,ask,tag);
}
static void observe(mc::Run& r,World& W,int k,std::string const& tag,bool dblfirst,int pt)
{
	if (dblfirst) compare_w<dbl>(r,W,W.S[k],W.M[k],pt,"fJt",tag);
	compare_w<Mp>(r,W,W.S[k],W.M[k],pt,"fJt",tag);
	if (!dblfirst) compare_w<dbl>(r,W,W.S[k],W.M[k],1-pt,"tJf",tag);
}
// the system's own node for reference variable i
static Var sysvar(World& W,int k,int i) { auto const& o=W.M[k].m.order; for (size_t j=0;j<o.size();j++) if (o[j]==i) return W.S[k].Variables()[j]; if (i==VT && W.M[k].m.time) return W.S[k].GetPathVariable(); return W.v[i]; }

// false: not possible in this state
static bool apply(mc::Run& r,World& W,HOp op)
{
	auto& A=W.A; auto& S=W.S[0]; auto& B=W.S[1]; auto& M=W.M[0]; auto& N=W.M[1];
	r.where(hname[op]);
	auto add=[&](int k){
		int f=W.pool[W.nextf++ % W.pool.size()];
		// over the system's own variables
		Builder b; for (int i=0;i<NV;i++) b.vars.push_back(sysvar(W,k,i)); b.mode=0;
		if (!W.M[k].hom.empty()) { for (auto const& g:W.M[k].groups) (void)g; size_t a=0; for (auto const& g:W.M[k].groups) if (g.type=='a') { f=homog(A,f,mask_of(g.vars),W.M[k].hom[a]); a++; } }
		W.S[k].AddFunction(b.build(A,f)); W.M[k].m.fns.push_back(f);
	};
	switch (op)
	{
		case H_ADDF: if (M.m.fns.size()>W.limit) return false; add(0); break;
		case H_ADDF_B: if (N.m.fns.size()>W.limit) return false; add(1); break;
		case H_EVAL_D: compare_w<dbl>(r,W,S,M,1,"fJt","eval A"); break;
		case H_EVAL_MP: compare_w<Mp>(r,W,S,M,1,"fJt","eval A"); break;
		case H_EVAL_B: compare_w<dbl>(r,W,B,N,0,"Jft","eval B"); break;
		case H_COPY_BA: B=S; N=M; W.shared=true; break;
		case H_COPY_AB: S=B; M=N; W.shared=true; break;
		case H_COPYCTOR: { System C(S); compare_w<dbl>(r,W,C,M,0,"fJt","copy"); compare_w<Mp>(r,W,C,M,1,"Jtf","copy"); r.check(C.GetEvalMethod()==M.e && C.GetDerivMethod()==M.d,"copy:method",[&]{ return "evaluation or differentiation method not copied"; }); break; }
		case H_MOVE: { System C(std::move(S)); compare_w<dbl>(r,W,C,M,0,"fJt","moved"); r.check(C.GetEvalMethod()==M.e && C.GetDerivMethod()==M.d,"moved:method",[&]{ return "evaluation or differentiation method not moved"; }); S=std::move(C); break; }
		case H_SWAP: swap(S,B); std::swap(M,N); break;
		case H_CLONE: { S=Clone(S); for (int i=0;i<NV;i++) M.ids[i]=W.nextid++; W.shared=false; break; }
		case H_PLUSEQ: case H_PLUS:
		{
			if (M.m.fns.size()!=N.m.fns.size() || !same_vars(M,N)) return false;
			if (!M.m.patch.empty() && !N.m.patch.empty() && S.GetPatch()!=B.GetPatch()) return false;
			if (op==H_PLUSEQ) S+=B; else S=S+B;
			for (size_t i=0;i<M.m.fns.size();i++) M.m.fns[i]=A.add(ADD,0,M.m.fns[i],N.m.fns[i]);
			if (M.m.patch.empty()) M.m.patch=N.m.patch;
			W.shared=true; break;
		}
		case H_SELFADD: { S=S+S; for (auto& f:M.m.fns) f=A.add(ADD,0,f,f); break; }
		case H_TIMES_T: { Node t=sysvar(W,0,VT); S=t*S; for (auto& f:M.m.fns) f=A.add(MUL,0,A.var(VT),f); break; }
		case H_TIMESEQ: { Node t=sysvar(W,0,VT); S*=Node(1-t); for (auto& f:M.m.fns) f=A.add(MUL,0,A.add(SUB,0,A.cst(C1),A.var(VT)),f); break; }
		case H_CONCAT:
		{
			if (!same_vars(M,N) || M.m.fns.size()+N.m.fns.size()>W.limit+W.limit) return false;
			if (!M.m.patch.empty() && !N.m.patch.empty() && S.GetPatch()!=B.GetPatch()) return false;
			S=Concatenate(S,B); M.m.fns.insert(M.m.fns.end(),N.m.fns.begin(),N.m.fns.end());
			if (M.m.patch.empty()) M.m.patch=N.m.patch;
			W.shared=true; break;
		}
		case H_DEC: case H_INC:
		{
			std::vector<std::shared_ptr<Function>> before; for (size_t i=0;i<S.NumNaturalFunctions();i++) before.push_back(S.Function(i));
			if (op==H_DEC) S.ReorderFunctionsByDegreeDecreasing(); else S.ReorderFunctionsByDegreeIncreasing();
			std::vector<int> nf; std::vector<bool> used(before.size(),false); bool ok=S.NumNaturalFunctions()==before.size();
			for (size_t i=0;ok && i<before.size();i++) { bool f=false; for (size_t j=0;j<before.size();j++) if (!used[j] && before[j]==S.Function(i)) { used[j]=f=true; nf.push_back(M.m.fns[j]); break; } ok=ok&&f; }
			r.check(ok,"reorder:permutation",[&]{ return "reordering lost or changed functions"; });
			if (!ok) throw mc::Abandon();
			unsigned mk=mask_of(M.m.order);
			for (size_t i=0;i+1<nf.size();i++) { int a=degree(A,nf[i],mk), b=degree(A,nf[i+1],mk); r.check(op==H_DEC? a>=b : a<=b,"reorder:sorted",[&]{ return "degrees "+std::to_string(a)+", "+std::to_string(b)+" are out of order"; }); }
			M.m.fns=nf; break;
		}
		case H_HOM:
		{
			if (W.shared || M.m.order.empty()) return false;
			if (M.hom.empty()) { int h=VH0; for (auto const& g:M.groups) if (g.type=='a') { M.ids[h]=W.nextid++; M.hom.push_back(h++); } 
				size_t a=0; for (auto const& g:M.groups) if (g.type=='a') { for (auto& f:M.m.fns) f=homog(A,f,mask_of(g.vars),M.hom[a]); a++; } }
			S.Homogenize(); M.reorder();
			r.check(S.IsHomogeneous(),"homogenize:homogeneous",[&]{ return "not homogeneous after homogenizing"; });
			break;
		}
		case H_PATCH: if (M.hom.empty()) return false; S.AutoPatch(); read_patch(S,M); break;
		case H_COPYPATCH: if (M.m.patch.empty() || M.m.order!=N.m.order) return false; B.CopyPatches(S); N.m.patch=M.m.patch; break;
		case H_EMETH: M.e = M.e==EvalMethod::SLP?EvalMethod::FunctionTree:EvalMethod::SLP; S.SetEvalMethod(M.e); break;
		case H_DMETH: M.d = M.d==DerivMethod::Derivatives?DerivMethod::JacobianNode:DerivMethod::Derivatives; S.SetDerivMethod(M.d); break;
		case H_PREC: W.digits= W.digits==30?50:30; DefaultPrecision(W.digits); S.precision(W.digits); B.precision(W.digits); break;
		case H_SIMPLIFY: S.Simplify(); break;
		case H_ADDGROUP:
		{
			if (!M.hom.empty()) return false; bool have=false; for (int i:M.m.order) if (i==VZ) have=true; if (have) return false;
			M.ids[VZ]= M.ids[VX]==N.ids[VX]?VZ:W.nextid++; // the same z when the systems share their variables
			W.v[VZ]->precision(W.digits); S.AddVariableGroup({W.v[VZ]}); M.ids[VZ]=VZ; M.groups.push_back({'a',{VZ}}); M.reorder(); M.m.patch.clear(); break;
		}
		case H_COPYVARS:
		{
			// only sensible when A's functions are written in B's variables already
			if (!M.hom.empty() || !N.hom.empty() || !M.m.patch.empty() || M.ids[VX]!=N.ids[VX] || M.ids[VY]!=N.ids[VY] || M.ids[VT]!=N.ids[VT]) return false;
			for (int f:M.m.fns) if (A.contains(f,VZ)) return false;
			S.CopyVariableStructure(B); M.groups=N.groups; M.ids=N.ids; M.m.time=N.m.time; M.reorder(); break;
		}
		default: return false;
	}
	return true;
}
static void P07_history(mc::Run& r,std::vector<HOp> const& h,int start)
{
	DefaultPrecision(30);
	World W; auto& A=W.A; W.v=mkvars();
	int x=A.var(VX),y=A.var(VY),t=A.var(VT);
	auto c=[&](int k){ return A.cst(k); };
	int xy=A.add(MUL,0,x,y);
	W.pool={ A.add(ADD,0,xy,c(C37)), A.add(SUB,0,A.add(IPOW,3,x),A.add(MUL,0,t,y)), A.add(SUB,0,A.add(MUL,0,c(CRAT),y),c(C1)), A.add(ADD,0,A.add(MUL,0,A.add(IPOW,2,y),x),A.add(ADD,0,x,c(C2))), A.add(SUB,0,A.add(IPOW,2,x),c(C2)), A.add(ADD,0,A.add(MUL,0,xy,xy),A.add(MUL,0,t,x)), A.add(ADD,0,y,c(CRAT)) };
	Builder BB; W.full=start>=4; if (W.full) W.limit=12; 
	for (int k=0;k<2;k++)
	{
		if (!W.full) BB=Builder();
		auto& M=W.M[k]; M.ids.resize(NV); for (int i=0;i<NV;i++) M.ids[i]=i;
		M.groups={{'a',{VX,VY}}}; M.reorder(); M.m.time=true;
		Builder& b=BB; b.vars=W.v; b.mode= W.full?1:start&1;
		W.S[k].AddVariableGroup({W.v[VX],W.v[VY]}); W.S[k].AddPathVariable(W.v[VT]);
		if (start&1) { M.e=EvalMethod::FunctionTree; }
		M.d= (start&2)? DerivMethod::JacobianNode : DerivMethod::Derivatives;
		W.S[k].SetEvalMethod(M.e); W.S[k].SetDerivMethod(M.d);
		if (!W.full) for (int i=0;i<2;i++) { W.S[k].AddFunction(b.build(A,W.pool[2*k+i])); M.m.fns.push_back(W.pool[2*k+i]); }
		else
		{
			auto named=[&](int t,std::string const& n){ auto it=b.memo.find(t); if (it!=b.memo.end()) if (auto f=std::dynamic_pointer_cast<Function>(it->second)) return f; auto f=Function::Make(b.build(A,t),n); b.memo[t]=f; return f; };
			int w=A.var(VW), co=A.add(MUL,0,c(CRAT),c(CPI)), pa=A.add(ADD,0,A.add(IPOW,2,t),c(CRAT)), su=A.add(SUB,0,xy,pa), s2=A.add(MUL,0,A.add(ADD,0,x,w),co);
			W.S[k].AddConstant(named(co,"co")); M.nconst=1; W.S[k].AddParameter(named(pa,"pa")); M.nparam=1; W.S[k].AddImplicitParameter(W.v[VW]); M.nimpl=1; W.S[k].AddSubfunction(named(su,"su")); W.S[k].AddSubfunction(named(s2,"s2"));
			std::vector<int> fs= k==0 ? std::vector<int>{ A.add(MUL,0,su,co), A.add(ADD,0,s2,A.add(MUL,0,pa,y)), A.add(IPOW,2,su), A.add(SUB,0,A.add(IPOW,5,x),w), A.add(MUL,0,s2,A.add(IPOW,3,su)), A.add(ADD,0,A.add(MUL,0,A.add(IPOW,3,y),x),su) }
				: std::vector<int>{ A.add(ADD,0,A.add(MUL,0,co,x),y), A.add(SUB,0,su,s2), A.add(ADD,0,A.add(IPOW,4,y),pa), A.add(MUL,0,A.add(ADD,0,w,pa),x), A.add(ADD,0,A.add(IPOW,6,x),A.add(MUL,0,w,su)), A.add(MUL,0,A.add(MUL,0,s2,x),co) };
			for (int f:fs) { W.S[k].AddFunction(b.build(A,f)); M.m.fns.push_back(f); }
		}
		W.S[k].precision(30);
	}
	for (auto op:h)
	{
		if (!apply(r,W,op)) { r.outcome("history cut: operation not possible there"); return; }
		r.transition();
		if (r.failed_here()) return;
	}
	std::string last=hname[h.back()];
	std::string tag="after "+last;
	// the state reached, as far as a user can see it
	{ std::string s; for (int k=0;k<2;k++) { s+= W.M[k].e==EvalMethod::SLP?"S":"T"; s+=W.M[k].d==DerivMethod::Derivatives?"D":"J"; for (int f:W.M[k].m.fns) s+=A.show(f)+";"; for (int o:W.M[k].m.order) s+=A.names[o]; s+=std::to_string(W.M[k].m.patch.size())+"|"; } r.state(s+std::to_string(W.digits)+(W.shared?"sh":"")); }
	observe(r,W,1,tag+": B",true,0);
	observe(r,W,0,tag+": A",false,0);
	observe(r,W,1,tag+": B again",false,1);
	for (int k=0;k<2;k++)
	{
		auto& M=W.M[k]; auto& S=W.S[k];
		r.where("degrees");
		auto d=S.Degrees(S.Variables()); unsigned mk=mask_of(M.m.order);
		for (size_t i=0;i<M.m.fns.size();i++) r.check(d.size()==M.m.fns.size() && d[i]==degree(A,M.m.fns[i],mk),tag+":degrees",[&]{ return "degree of "+A.show(M.m.fns[i])+" reported as "+std::to_string(d[i]); });
		{ int top=0; for (int f:M.m.fns) top=std::max(top,degree(A,f,mk)); r.check(S.DegreeBound()==top,tag+":degree-bound",[&]{ return "degree bound "+std::to_string(S.DegreeBound())+" where the highest degree is "+std::to_string(top); }); }
		r.check(S.IsPolynomial(),tag+":polynomial",[&]{ return "reported as not polynomial"; });
		r.check(S.GetEvalMethod()==M.e && S.GetDerivMethod()==M.d,tag+":method",[&]{ return "evaluation or differentiation method changed"; });
		r.check(S.IsPatched()==!M.m.patch.empty(),tag+":patched",[&]{ return "IsPatched is wrong"; });
		if (!S.IsPatched()) continue;
		SysModel Q=M; read_patch(S,Q);
		bool eq=Q.m.patch.size()==M.m.patch.size(); for (size_t g=0;eq&&g<Q.m.patch.size();g++) for (size_t j=0;j<Q.m.patch[g].size();j++) if (!close(Q.m.patch[g][j],M.m.patch[g][j],1e-55)) eq=false;
		r.check(eq,tag+":patch",[&]{ return "the patch changed"; });
	}
	r.outcome("history compared");
}
static void P07_enum(mc::Run& r,std::vector<HOp> const& ops,int depth,int mindepth,int start)
{
	std::vector<HOp> h;
	std::function<void()> rec=[&]{
		if ((int)h.size()>=mindepth) r.test([&]{ std::string s=start==0?"slp: ":start==1?"tree: ":start==2?"slp/jacobian: ":start==3?"tree/jacobian: ":start==4?"full slp: ":start==5?"full tree: ":start==6?"full slp/jacobian: ":"full tree/jacobian: "; for (auto o:h) s+=std::string(hname[o])+"; "; return s; },[&]{ P07_history(r,h,start); });
		if ((int)h.size()==depth) return;
		for (auto o:ops) { h.push_back(o); rec(); h.pop_back(); }
	};
	rec();
}
// the bounds used by adaptive precision: affine-linear functions, one of whose coefficients is large
static void P07_bounds(mc::Run& r,int nv,int nf,int row,int col,int evals,bool time,Method const& me)
{
	DefaultPrecision(30); System S; S.SetEvalMethod(me.e); S.SetDerivMethod(me.d); VariableGroup g; for (int i=0;i<nv;i++) g.push_back(Variable::Make("x"+std::to_string(i))); S.AddVariableGroup(g); auto t=Variable::Make("t"); if (time) S.AddPathVariable(t);
	double top=0,upper=0; 
	for (int i=0;i<nf;i++) { Node f=Integer::Make(i==row&&col==nv?1000:1); double sum=i==row&&col==nv?1000:1; if (time) f=f*t; for (int j=0;j<nv;j++) { int c= i==row&&j==col?-777:1+(i+j)%3; f=f+Integer::Make(c)*g[j]; sum+=std::abs(c); top=std::max(top,(double)std::abs(c)); } upper=std::max(upper,sum); S.AddFunction(f); }
	if (col==nv) top=1000-3*nv; S.precision(30);
	r.where("coefficient bound"); double d=S.CoefficientBound<dbl>(evals); double m=(double)S.CoefficientBound<Mp>(evals); r.transition(2);
	r.check(d>=top*(1-1e-9) && d<=upper*(1+1e-9) && m>=top*(1-1e-9) && m<=upper*(1+1e-9),me.name+":coefficient-bound",[&]{ return "coefficient bound "+std::to_string(d)+" / "+std::to_string(m)+", the largest value or derivative at points of modulus one is between "+std::to_string(top)+" and "+std::to_string(upper); });
	r.check(S.DegreeBound()==1,me.name+":degree-bound",[&]{ return "degree bound "+std::to_string(S.DegreeBound())+" of linear functions"; });
	S.AddFunction(pow(g[col%nv],row+2)); r.check(S.DegreeBound()==row+2,me.name+":degree-bound",[&]{ return "degree bound "+std::to_string(S.DegreeBound())+" instead of "+std::to_string(row+2); });
}
static void P07(mc::Run& r)
{
	for (auto const& me:methods()) if (me.simp) for (int nv=1;nv<=6;nv++) for (int nf=1;nf<=6;nf++) for (int row=0;row<nf;row++) for (int col=0;col<=nv;col++) for (int ev=1;ev<=(r.thorough()?3:1);ev++) for (int tm=0;tm<(r.thorough()?2:1);tm++) { bool time=r.thorough()?tm:(nv+nf)%2; r.test([&]{ return me.name+" bounds: "+std::to_string(nf)+" functions, "+std::to_string(nv)+" variables, large at "+std::to_string(row)+","+std::to_string(col)+", "+std::to_string(ev)+" evaluations"+(time?" with time":""); },[&]{ r.state(r.label()); P07_bounds(r,nv,nf,row,col,ev,time,me); }); }
	std::vector<HOp> all; for (int i=0;i<H_N;i++) all.push_back((HOp)i);
	std::vector<HOp> core={H_EVAL_D,H_EVAL_MP,H_COPY_BA,H_MOVE,H_CLONE,H_PLUS,H_TIMES_T,H_DEC,H_HOM,H_PATCH,H_EMETH,H_PREC};
	if (!r.thorough())
	{
		P07_enum(r,all,3,1,0); P07_enum(r,all,2,1,1); P07_enum(r,all,2,1,2); P07_enum(r,all,2,1,3);
		P07_enum(r,core,4,4,0); P07_enum(r,core,3,3,1);
		for (int s=4;s<8;s++) P07_enum(r,all,2,1,s);
		P07_enum(r,core,3,3,4);
	}
	else
	{
		for (int s=0;s<4;s++) P07_enum(r,all,3,1,s);
		P07_enum(r,core,5,4,0); P07_enum(r,core,4,4,1);
		for (int s=4;s<8;s++) P07_enum(r,all,3,1,s);
	}
}


// ---------------------------------------------------------------- P08: variable structure, homogenization and dehomogenization of points
static R gen(int i,int salt=0) { static const auto b=points(NV); R z=b[(i+salt)%2][(i*3+salt)%NV]; return z+R(Rr(i)/Rr(7),Rr(salt)/Rr(9)); }

static void P08_case(mc::Run& r,std::vector<int> const& decl,bool ask_between,int mode)
{
	// declarations: 0,1,2: affine group of 1,2,3; 3,4: homogeneous group of 2,3; 5: one ungrouped variable; 6: two ungrouped at once; 7: affine group of 7; 8: homogeneous group of 6; 9: five ungrouped at once
	DefaultPrecision(30);
	System S; if (mode&8) S.SetEvalMethod(EvalMethod::FunctionTree);
	struct G { char type; std::vector<Var> v; Var hom; }; std::vector<G> gs; int nv=0;
	auto fresh=[&]{ return Variable::Make("v"+std::to_string(nv++)); };
	auto expect=[&](bool hom){ VariableGroup o; for (auto const& g:gs) { if (g.type=='a'&&hom) o.push_back(g.hom); for (auto const& v:g.v) o.push_back(v); } return o; };
	auto check_counts=[&](bool hom,std::string const& tag){
		size_t na=0,nh=0,nu=0,nn=0; std::vector<unsigned> sizes; for (auto const& g:gs) { nn+=g.v.size(); if (g.type=='a') { na++; sizes.push_back(g.v.size()+(hom?1:0)); } if (g.type=='h') { nh++; sizes.push_back(g.v.size()); } if (g.type=='u') nu+=g.v.size(); }
		r.check(S.NumNaturalVariables()==nn && S.NumHomVariables()==(hom?na:0) && S.NumVariables()==nn+(hom?na:0),tag+":variable-counts",[&]{ return "natural "+std::to_string(S.NumNaturalVariables())+" homogenizing "+std::to_string(S.NumHomVariables())+" all "+std::to_string(S.NumVariables()); });
		r.check(S.NumVariableGroups()==na && S.NumHomVariableGroups()==nh && S.NumUngroupedVariables()==nu && S.NumTotalVariableGroups()==na+nh,tag+":group-counts",[&]{ return "groups miscounted"; });
		r.check(S.VariableGroupSizes()==sizes,tag+":group-sizes",[&]{ return "wrong group sizes"; });
		auto o=expect(hom);
		r.check(S.Variables()==o && S.VariableOrdering()==o,tag+":ordering",[&]{ std::string s="ordering is"; for (auto const& v:S.VariableOrdering()) s+=" "+v->name(); return s; });
	};
	for (int d:decl)
	{
		if (d>=7) { G g{d==7?'a':d==8?'h':'u',{},nullptr}; for (int k=0;k<(d==7?7:d==8?6:5);k++) g.v.push_back(fresh()); VariableGroup v(g.v.begin(),g.v.end()); if (d==7) S.AddVariableGroup(v); else if (d==8) S.AddHomVariableGroup(v); else S.AddUngroupedVariables(v); gs.push_back(g); }
		else if (d<=2) { G g{'a',{},nullptr}; for (int k=0;k<=d;k++) g.v.push_back(fresh()); S.AddVariableGroup(VariableGroup(g.v.begin(),g.v.end())); gs.push_back(g); }
		else if (d<=4) { G g{'h',{},nullptr}; for (int k=0;k<d-1;k++) g.v.push_back(fresh()); S.AddHomVariableGroup(VariableGroup(g.v.begin(),g.v.end())); gs.push_back(g); }
		else if (d==5) { G g{'u',{fresh()},nullptr}; S.AddUngroupedVariable(g.v[0]); gs.push_back(g); }
		else { G g{'u',{fresh(),fresh()},nullptr}; S.AddUngroupedVariables(VariableGroup(g.v.begin(),g.v.end())); gs.push_back(g); }
		if (ask_between) check_counts(false,"declaring");
		r.transition();
	}
	// function 0: product over groups of (2*first + the others [+ 3 in affine groups]); function 1: square of the same; function 2: another product
	Node f; Node q;
	for (auto const& g:gs)
	{
		Node l=2*g.v[0]; for (size_t k=1;k<g.v.size();k++) l=l+g.v[k]; Node l2=g.v.back()-Node(g.v[0]*Integer::Make(3)); if (g.type=='a') { l=l+3; l2=l2-1; }
		if (g.type=='u') { for (auto const& v:g.v) { f= f? Node(f*v):Node(v); } continue; }
		f= f? Node(f*l):l; q = q? Node(q*l2) : l2;
	}
	if (!q) q=Node(Integer::Make(1))*gs[0].v[0];
	S.AddFunction(f,"f"); S.AddFunction(pow(f,2),"ff"); S.AddFunction(q,"q");
	S.precision(30);
	bool any_affine=false, any_group=false, any_ung=false; for (auto const& g:gs) { any_affine|=g.type=='a'; any_group|=g.type!='u'; any_ung|=g.type=='u'; }
	auto fvals=[&](std::vector<R> const& x,bool hom){ R a(1),b(1); bool bq=false; size_t c=0; for (auto const& g:gs) { R h(1); if (g.type=='a'&&hom) h=x[c++]; 
		if (g.type=='u') { for (size_t k=0;k<g.v.size();k++) a*=x[c++]; continue; }
		size_t c0=c; R l=R(2)*x[c++]; for (size_t k=1;k<g.v.size();k++) l+=x[c++]; R l2=x[c-1]-R(3)*x[c0]; if (g.type=='a') { l+=R(3)*h; l2-=h; } a*=l; b*=l2; bq=true; }
		if (!bq) b=x[0]; return std::vector<R>{a,R(a*a),b}; };
	auto pts=[&](size_t n,int salt){ std::vector<R> p; for (size_t i=0;i<n;i++) p.push_back(gen(i,salt)); return p; };
	auto check_values=[&](bool hom,std::string const& tag,size_t npatch){
		size_t n=0; for (auto const& g:gs) n+=g.v.size()+(g.type=='a'&&hom?1:0);
		for (int salt=0;salt<2;salt++)
		{
			auto p=pts(n,salt); auto want=fvals(p,hom);
			auto vd=S.Eval(convv<dbl>(p,16)); auto vm=S.Eval(convv<Mp>(p,30));
			r.check((size_t)vd.size()==3+npatch && (size_t)vm.size()==3+npatch,tag+":length",[&]{ return "number of values "+std::to_string(vd.size()); });
			if ((size_t)vd.size()!=3+npatch) return;
			for (int k=0;k<3;k++) { double sc=1+mag(want[k]); r.check(close(toR(vd(k)),want[k],1e-11*sc)&&close(toR(vm(k)),want[k],1e-25*sc),tag+":values",[&]{ return "function "+std::to_string(k)+": "+str(toR(vd(k)))+" / "+str(toR(vm(k)))+" expected "+str(want[k]); }); }
			r.transition(2);
		}
	};
	auto dehom=[&](std::vector<R> const& x,bool hom){ std::vector<R> o; size_t c=0; for (auto const& g:gs) { R h(1); if (g.type=='a'&&hom) h=x[c++]; for (size_t k=0;k<g.v.size();k++) o.push_back(g.type=='a'&&hom? R(x[c]/h):x[c]), c++; } return o; };
	auto check_dehom=[&](bool hom,std::string const& tag){
		size_t n=0; for (auto const& g:gs) n+=g.v.size()+(g.type=='a'&&hom?1:0);
		for (int salt=0;salt<2;salt++)
		{
			r.where(tag+" dehomogenize");
			auto p=pts(n,salt); auto want=dehom(p,hom); auto d=S.DehomogenizePoint(convv<dbl>(p,16)); auto m=S.DehomogenizePoint(convv<Mp>(p,30));
			bool ok=(size_t)d.size()==want.size() && (size_t)m.size()==want.size();
			for (size_t k=0;ok&&k<want.size();k++) ok=close(toR(d(k)),want[k],1e-12*(1+mag(want[k])))&&close(toR(m(k)),want[k],1e-26*(1+mag(want[k])));
			r.check(ok,tag+":dehomogenize",[&]{ std::string s="dehomogenized point is"; for (int k=0;k<d.size();k++) s+=" "+str(toR(d(k)),5); s+=" expected"; for (auto const& w:want) s+=" "+str(w,5); return s; });
		}
		bool threw=false; try { S.DehomogenizePoint(convv<dbl>(pts(n+1,0),16)); } catch (std::exception const&) { threw=true; }
		r.check(threw,tag+":dehomogenize-length",[&]{ return "a point of the wrong length was accepted"; });
	};
	check_counts(false,"declared"); check_values(false,"declared",0); check_dehom(false,"declared");
	if ((mode&7)==0) return;
	r.where("homogenize");
	S.Homogenize();
	{ size_t a=0; auto o=S.VariableOrdering(); size_t c=0; for (auto& g:gs) { if (g.type=='a') { g.hom=o[c++]; a++; } c+=g.v.size(); } }
	check_counts(any_affine,"homogenized"); check_values(any_affine,"homogenized",0); check_dehom(any_affine,"homogenized");
	r.check(S.IsHomogeneous()||any_ung,"homogenized:homogeneous",[&]{ return "not homogeneous"; });
	if (!any_ung) for (auto const& g:gs) { System C(S); C.AddFunction(pow(g.v.back(),2)+g.v[0],"mixed"); r.check(!C.IsHomogeneous(),"homogenized:not-homogeneous",[&]{ return "a function which is not homogeneous in one of the groups is not noticed"; }); r.check(C.NumNaturalFunctions()==4 && S.NumNaturalFunctions()==3,"homogenized:copy",[&]{ return "adding a function to a copy changed the original"; }); }
	if (mode&2) { S.Homogenize(); check_counts(any_affine,"homogenized twice"); check_values(any_affine,"homogenized twice",0); check_dehom(any_affine,"homogenized twice"); }
	if (!(mode&4) || any_ung || !any_group) return;
	r.where("patch");
	S.AutoPatch(); size_t ng=0; for (auto const& g:gs) if (g.type!='u') ng++;
	r.check(S.NumPatches()==ng && S.NumTotalFunctions()==3+ng && S.IsPatched(),"patched:counts",[&]{ return "patches "+std::to_string(S.NumPatches()); });
	check_counts(any_affine,"patched"); check_values(any_affine,"patched",ng); check_dehom(any_affine,"patched");
	size_t n=S.NumVariables();
	for (int salt=0;salt<2;salt++)
	{
		auto p=pts(n,salt); auto x=convv<dbl>(p,16); auto m=convv<Mp>(p,30);
		auto y=S.RescalePointToFitPatch(x); auto ym=S.RescalePointToFitPatch(m);
		auto z=x; S.RescalePointToFitPatchInPlace(z); r.check(z==y,"rescale:in-place",[&]{ return "in-place rescaling differs"; });
		auto v=S.Eval(y); auto vm=S.Eval(ym);
		double sc=1; for (int k=0;k<y.size();k++) sc=std::max(sc,std::abs(y(k)));
		for (size_t k=0;k<ng;k++) r.check(std::abs(v(3+k))<1e-11*sc && mag(toR(vm(3+k)))<1e-24*sc,"rescale:on-patch",[&]{ return "rescaled point misses patch "+std::to_string(k)+" by "+str(toR(v(3+k))); });
		// same point: coordinates within each group are proportional
		size_t c=0; for (auto const& g:gs) { size_t len=g.v.size()+(g.type=='a'&&any_affine?1:0); for (size_t k=1;k<len;k++) { R e=toR(y(c))*p[c+k]-toR(y(c+k))*p[c]; r.check(mag(e)<1e-10*sc*20,"rescale:proportional",[&]{ return "rescaling moved the point"; }); } c+=len; }
	}
}
static void P08(mc::Run& r)
{
	int maxlen= r.thorough()?5:4, lim=7; std::vector<int> d, only;
	static const char* nm[]={"a1","a2","a3","h2","h3","u","uu","a7","h6","uuuuu"};
	std::function<void()> rec=[&]{
		if (!d.empty()) for (int ask=0;ask<2;ask++) for (int mode: {0,1,3,5,7,8|5}) {
			if (!r.thorough() && d.size()==4 && (ask==1 || (mode!=5 && mode!=0))) continue;
			r.test([&]{ std::string s; for (int k:d) s+=std::string(nm[k])+" "; s+=ask?"asking in between, ":""; s+= mode==0?"as declared":mode==1?"homogenized":mode==3?"homogenized twice":mode==5?"patched":mode==7?"homogenized twice, patched":"patched, tree"; return s; },[&]{ r.state(r.label()); P08_case(r,d,ask,mode); });
		}
		if ((int)d.size()==maxlen) return;
		for (int k=0;k<lim;k++) { d.push_back(k); rec(); d.pop_back(); }
	};
	lim=7; rec(); maxlen=r.thorough()?3:2; lim=10; rec();
	// many groups: every one of the kinds a1, h2, u at every place in up to 7 declarations
	only={0,3,5}; maxlen=r.thorough()?8:6; 
	std::function<void()> many=[&]{ if (d.size()>=5) for (int mode:{5,8|5}) r.test([&]{ std::string s="many "; for (int k:d) s+=std::string(nm[k])+" "; return s+(mode==5?"patched":"patched, tree"); },[&]{ r.state(r.label()); P08_case(r,d,false,mode); }); if ((int)d.size()==maxlen) return; for (int k:only) { d.push_back(k); many(); d.pop_back(); } }; many();
}

// ---------------------------------------------------------------- P09: patches
static void P09_case(mc::Run& r,std::vector<unsigned> const& sizes,std::vector<int> const& acts,bool real)
{
	// acts: 0..3 change precision to 20, 30, 50, 70; 4 copy-construct; 5 assign to a default patch; 6 serialize; 7 use (double), 8 use (mp)
	DefaultPrecision(30);
	typedef bertini::Patch Patch;
	Patch P = real? Patch::RandomReal(sizes) : Patch::Random(sizes);
	unsigned n=0; for (auto s:sizes) n+=s;
	// reference coefficients, from a copy at high precision
	std::vector<R> c;
	{ DefaultPrecision(80); Patch Q=P; Q.Precision(81); DefaultPrecision(81); Vec<Mp> x(n); for (unsigned i=0;i<n;i++) x(i)=Mp(1,0,81); auto J=Q.Jacobian(x); unsigned k=0; for (size_t g=0;g<sizes.size();g++) for (unsigned j=0;j<sizes[g];j++,k++) { c.push_back(toR(J(g,k))); } DefaultPrecision(30); }
	for (auto const& z:c) { r.check(mag(z)>0 && mag(z)<=2,"coefficients",[&]{ return "patch coefficient "+str(z); }); if (real) r.check(mag(R(Rr(0),Rr(z.imag())))==0,"real",[&]{ return "a real patch has a coefficient "+str(z); }); }
	for (size_t i=0;i<c.size();i++) for (size_t j=i+1;j<c.size();j++) r.check(!close(c[i],c[j],1e-12),"coefficients:distinct",[&]{ return "two random coefficients coincide: "+str(c[i]); });
	Patch O=P; unsigned digits=30; Patch other=Patch::Random(sizes);
	r.check(P!=other,"equality",[&]{ return "two random patches are equal"; });
	r.check(P.NumVariables()==n && P.NumVariableGroups()==sizes.size(),"counts",[&]{ return "miscounted"; });
	auto use=[&](std::string const& tag,bool mp){
		std::vector<R> x; for (unsigned i=0;i<n;i++) x.push_back(gen(i,sizes.size()%2));
		std::vector<R> val(sizes.size(),R(-1)), lin(sizes.size(),R(0)); { unsigned k=0; for (size_t g=0;g<sizes.size();g++) for (unsigned j=0;j<sizes[g];j++,k++) { val[g]+=c[k]*x[k]; lin[g]+=c[k]*x[k]; } }
		double t= mp? std::pow(10.,-(double)digits+4):1e-12;
		auto body=[&](auto one){
			typedef decltype(one) T; auto xv=convv<T>(x,digits);
			auto v=P.Eval(xv); auto J=P.Jacobian(xv); auto y=P.RescalePoint(xv); auto res=P.Eval(y);
			unsigned k=0; 
			for (size_t g=0;g<sizes.size();g++)
			{
				r.check(close(toR(v(g)),val[g],t),tag+":value",[&]{ return "value "+str(toR(v(g)),40)+" expected "+str(val[g],40); });
				r.check(close(toR(res(g)),R(0),t*(1+10/mag(lin[g]))),tag+":rescale",[&]{ return "rescaled point evaluates to "+str(toR(res(g))); });
				for (unsigned j=0;j<n;j++) { bool in=j>=k&&j<k+sizes[g]; R w= in?c[j]:R(0); r.check(close(toR(J(g,j)),w,t),tag+":jacobian",[&]{ return "Jacobian "+str(toR(J(g,j)),40)+" expected "+str(w,40); });
					if (in) { R wy=x[j]/lin[g]; r.check(close(toR(y(j)),wy,t*(1+mag(wy))*(1+10/mag(lin[g]))),tag+":rescaled",[&]{ return "rescaled coordinate "+str(toR(y(j)))+" expected "+str(wy); }); } }
				k+=sizes[g];
				if (mp) r.check(bertini::Precision(v(g))==digits && bertini::Precision(J(g,0))==digits && bertini::Precision(y(0))==digits,tag+":result-precision",[&]{ return "results carry "+std::to_string(bertini::Precision(v(g)))+"/"+std::to_string(bertini::Precision(J(g,0)))+"/"+std::to_string(bertini::Precision(y(0)))+" digits at working precision "+std::to_string(digits); });
			}
			r.transition();
		};
		r.where(tag+(mp?" mp":" dbl"));
		if (mp) body(Mp()); else body(dbl());
	};
	std::string last="fresh";
	for (int a:acts)
	{
		static const unsigned pr[]={20,30,50,70};
		if (a<4) { digits=pr[a]; DefaultPrecision(digits); P.Precision(digits); last="precision"; }
		else if (a==4) { Patch Q(P); P=Q; r.check(P==O,"copy:equal",[&]{ return "a copy differs"; }); last="copy"; }
		else if (a==5) { Patch Q; Q=P; P=std::move(Q); last="assign"; }
		else if (a==6) { std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << P; } Patch Q; { boost::archive::text_iarchive ia(ss); ia >> Q; } P=Q; last="serialize"; }
		else if (a==7) use("use after "+last,false);
		else use("use after "+last,true);
		r.transition();
		r.check(P.Precision()==digits,last+":precision",[&]{ return "reports precision "+std::to_string(P.Precision())+" instead of "+std::to_string(digits); });
	}
	use("after "+last,false); use("after "+last,true);
	r.check(P==O && !(P!=O),"after "+last+":equal",[&]{ return "not equal to the original patch"; });
	r.check(P!=other,"after "+last+":unequal",[&]{ return "equal to another patch"; });
}
static void P09(mc::Run& r)
{
	std::vector<std::vector<unsigned>> sz; for (unsigned a=1;a<=4;a++) { sz.push_back({a}); for (unsigned b=1;b<=3;b++) { sz.push_back({a,b}); if (a<=3) for (unsigned c=2;c<=3;c++) sz.push_back({a,b,c}); } }
	for (unsigned a=5;a<=14;a+=3) { sz.push_back({a}); sz.push_back({a,2}); sz.push_back({2,a,3}); } sz.push_back({2,2,2,2}); sz.push_back({3,1,2,4,2}); sz.push_back({2,3,2,3,2,3}); sz.push_back({1,1,1,1,1,1,1,1});
	int maxlen=r.thorough()?4:3; static const char* nm[]={"20 digits","30 digits","50 digits","70 digits","copy","assign","serialize","use dbl","use mp"};
	for (auto const& s:sz) for (int real=0;real<2;real++)
	{
		std::vector<int> acts; std::function<void()> rec=[&]{
			r.test([&]{ std::string l=real?"real":"complex"; for (auto k:s) l+=" "+std::to_string(k); l+=":"; for (int a:acts) l+=std::string(" ")+nm[a]+";"; return l; },[&]{ r.state(r.label()); P09_case(r,s,acts,real); });
			int lim = (s.size()==2 && s[0]==2 && s[1]==3 && !real) ? maxlen : (r.thorough()?2:1);
			if ((int)acts.size()==lim) return;
			for (int a=0;a<9;a++) { acts.push_back(a); rec(); acts.pop_back(); } };
		rec();
	}
	// patches of different shapes or of different coefficients differ; equal ones stay equal in both directions
	for (size_t a=0;a<sz.size();a++) r.test([&]{ std::string l="compare with all:"; for (auto k:sz[a]) l+=" "+std::to_string(k); return l; },[&]{
		r.state(r.label()); DefaultPrecision(30); bertini::Patch P(sz[a]); bertini::Patch C(P); C.Precision(50); r.check(P==C&&C==P&&!(P!=C),"equality",[&]{ return "a copy at another precision is different"; });
		for (size_t b=0;b<sz.size();b++) { unsigned na=0,nb=0; for (auto k:sz[a]) na+=k; for (auto k:sz[b]) nb+=k; if (na!=nb && (a+b)%4) continue; bertini::Patch Q(sz[b]); r.transition(); r.check(P!=Q&&Q!=P&&!(P==Q),"equality",[&]{ return "different patches are equal"; }); }
		auto perm=sz[a]; std::sort(perm.begin(),perm.end()); do if (perm!=sz[a]) { bertini::Patch Q(perm); r.check(P!=Q&&Q!=P,"equality",[&]{ return "patches of different shapes are equal"; }); } while (sz[a].size()<=4 && std::next_permutation(perm.begin(),perm.end()));
	});
}

int main(int argc,char** argv)
{
	return mc::main_loop(argc,argv,{{"P06",P06},{"P07",P07},{"P08",P08},{"P09",P09}});
}
