// Text in and out: the expression language, system files, input files, numbers and settings.
#include "term.hpp"
#include "bertini2/system/system.hpp"
#include "bertini2/io/parsing/function_rules.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
#include "bertini2/io/parsing/number_parsers.hpp"
#include "bertini2/io/generators.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include "bertini2/io/parsing/settings_parsers.hpp"
#include <fstream>
using namespace ref;
using bertini::System;
typedef std::string::const_iterator It;

struct Quiet // the parsers report errors on standard output
{
	std::streambuf* old; std::stringstream sink;
	Quiet() { old=std::cout.rdbuf(sink.rdbuf()); }
	~Quiet() { std::cout.rdbuf(old); }
};

// ---------------------------------------------------------------- the expression language, as it should be
struct Bad {};
struct Lexeme { char kind; std::string text; }; // 'n' number, 'w' word, otherwise the character itself
inline std::vector<Lexeme> lex(std::string const& s)
{
	std::vector<Lexeme> out; size_t i=0;
	auto digit=[&](size_t k){ return k<s.size() && isdigit((unsigned char)s[k]); };
	while (i<s.size())
	{
		char c=s[i];
		if (isspace((unsigned char)c)) { i++; continue; }
		if (digit(i) || (c=='.' && digit(i+1)))
		{
			size_t b=i; while (digit(i)) i++;
			if (i<s.size() && s[i]=='.') { i++; while (digit(i)) i++; }
			if (i<s.size() && (s[i]=='e'||s[i]=='E'))
			{ size_t k=i+1; if (k<s.size() && (s[k]=='-'||s[k]=='+')) k++; if (digit(k)) { i=k; while (digit(i)) i++; } }
			out.push_back({'n',s.substr(b,i-b)}); continue;
		}
		if (isalpha((unsigned char)c))
		{
			size_t b=i; while (i<s.size() && (isalnum((unsigned char)s[i])||s[i]=='_'||s[i]=='['||s[i]==']')) i++;
			out.push_back({'w',s.substr(b,i-b)}); continue;
		}
		out.push_back({c,std::string(1,c)}); i++;
	}
	return out;
}
inline R number_value(std::string s) { for (auto& c:s) if (c=='E') c='e'; if (s[0]=='.') s="0"+s; return R(Rr(s)); }
inline R pi_() { return R(boost::math::constants::pi<Rr>()); }

typedef std::map<std::string,R> Env;
struct Reader // the meaning of an expression: ordinary precedence, powers grouped from the left, signs bind like a factor
{
	std::vector<Lexeme> const& t; size_t& p; Env const& env; bool wild=false; // wild: the value is not comparable (singular, huge, on a branch cut)
	Reader(std::vector<Lexeme> const& t_,size_t& p_,Env const& e):t(t_),p(p_),env(e){}
	bool is(char k) const { return p<t.size() && t[p].kind==k; }
	void need(char k) { if (!is(k)) throw Bad(); p++; }
	R note(R v) { if (!finite(v) || mag(v)>1e6) { wild=true; return R(1); } return v; }
	R expr() { R v=term(); while (is('+')||is('-')) { bool plus=is('+'); p++; R w=term(); v=note(plus?R(v+w):R(v-w)); } return v; }
	R term() { R v=factor(); while (is('*')||is('/')) { bool times=is('*'); p++; R w=factor(); if (!times && mag(w)<1e-9) { wild=true; w=R(1); } v=note(times?R(v*w):R(v/w)); } return v; }
	R factor() { R v=elem(); while (is('^')) { p++; R w=elem(); v=power(v,w); } return v; }
	R power(R b,R e)
	{
		if (mag(b)<1e-9) { wild=true; return R(1); }
		// an integer power is repeated multiplication, anything else the principal value
		Rr er(e.real()); if (mag(R(Rr(e.imag())))==0 && er==floor(er) && abs(er)<64) { int n=static_cast<int>(er); R v(1); for (int k=0;k<(n<0?-n:n);k++) v=note(R(v*b)); return n<0?note(R(R(1)/v)):v; }
		if (Rr(b.real())<0 && abs(Rr(b.imag()))<1e-9) { wild=true; return R(1); }
		if (mag(e)>1e3) { wild=true; return R(1); }
		return note(pow(b,e));
	}
	R elem()
	{
		if (p>=t.size()) throw Bad();
		if (is('-')) { p++; return R(-factor()); }
		if (is('+')) { p++; return factor(); }
		if (is('(')) { p++; R v=expr(); need(')'); return v; }
		if (is('n')) { return number_value(t[p++].text); }
		if (is('w'))
		{
			std::string w=t[p++].text;
			auto f=env.find(w); if (f!=env.end()) return f->second;
			if (w=="pi"||w=="Pi") return pi_();
			if (w=="e"||w=="E") return R(exp(Rr(1)));
			if (w=="i"||w=="I") return R(Rr(0),Rr(1));
			static const std::set<std::string> fn={"sin","cos","tan","exp","log","sqrt"};
			if (!fn.count(w)) throw Bad();
			need('('); R a=expr(); need(')');
			if (w=="exp") return note(exp(a));
			if (w=="sin") return note(sin(a));
			if (w=="cos") return note(cos(a));
			if (w=="tan") { if (mag(R(cos(a)))<1e-6) { wild=true; return R(1);} return note(tan(a)); }
			if (mag(a)<1e-9 || (Rr(a.real())<0 && abs(Rr(a.imag()))<1e-9)) { wild=true; return R(1); }
			return w=="log"?note(log(a)):note(sqrt(a));
		}
		throw Bad();
	}
};
inline bool meaning(std::string const& s,Env const& env,R& v,bool& wild)
{
	auto t=lex(s); size_t p=0; Reader rd(t,p,env);
	try { v=rd.expr(); } catch (Bad const&) { return false; }
	wild=rd.wild; return p==t.size();
}

// ---------------------------------------------------------------- P13
struct ExprSubject
{
	boost::spirit::qi::symbols<char,Node> syms; bertini::parsing::classic::FunctionParser<It> g; std::vector<Var> vars; std::vector<std::string> names;
	ExprSubject(std::vector<std::string> n) : g(&syms), names(n)
	{
		for (auto const& s:names) { vars.push_back(bertini::node::Variable::Make(s)); syms.add(s,vars.back()); }
		auto pi=bertini::node::Pi(), e=bertini::node::E(), i=bertini::node::I();
		syms.add("pi",pi)("Pi",pi)("e",e)("E",e)("i",i)("I",i);
	}
	Node parse(std::string const& s)
	{
		Quiet q; It a=s.begin(), b=s.end(); Node n;
		bool ok=boost::spirit::qi::phrase_parse(a,b,g,boost::spirit::ascii::space,n);
		return ok && a==b ? n : Node();
	}
};
static std::vector<std::vector<R>> const& exprpoints()
{
	static std::vector<std::vector<R>> p={{R(Rr("0.75"),Rr("0.5")),R(Rr("1.25"),Rr("-0.875"))},{R(Rr("-0.3125"),Rr("0.1875")),R(Rr("0.625"),Rr("1.5"))}};
	return p;
}
static R pt(size_t q,size_t k) { R v=exprpoints()[q][k%2]; return R(v+R(Rr(int(k/2))/Rr(64),Rr(int(k/2))/Rr(-128))); }
static void expr_case(mc::Run& r,ExprSubject& S,std::string const& s,std::string const& cls,unsigned digits=30)
{
	bertini::DefaultPrecision(digits);
	Node n; std::string thrown;
	r.where("parse");
	try { n=S.parse(s); } catch (std::exception const& e) { thrown=e.what(); }
	R v; bool wild=false; Env env;
	for (size_t k=0;k<S.names.size();k++) env[S.names[k]]=pt(0,k);
	bool should=meaning(s,env,v,wild);
	r.transition();
	r.check(thrown.empty(),"parsing "+cls+" throws",[&]{ return "parsing '"+s+"' throws: "+thrown; });
	if (!thrown.empty()) return;
	r.check(should==(n!=nullptr),should?cls+" is refused":cls+" is accepted",[&]{ return "'"+s+"' is "+(should?"a well-formed expression, but is refused":"not an expression, but is accepted as "+[&]{ std::stringstream t; t<<*n; return t.str(); }()); });
	r.outcome(should?(wild?"singular":"accepted"):"refused");
	if (!should || !n) return;
	for (size_t q=0;q<exprpoints().size();q++)
	{
		for (size_t k=0;k<S.names.size();k++) { env[S.names[k]]=pt(q,k); S.vars[k]->precision(digits); S.vars[k]->set_current_value(toMp(pt(q,k),digits)); }
		meaning(s,env,v,wild);
		if (wild) continue;
		n->Reset(); n->precision(digits);
		R got=toR(n->Eval<Mp>());
		double tol=std::pow(10.,-(double)digits+11)*(1+mag(v));
		r.state(s+"|"+str(v,8));
		bool complex_constant=false; for (auto const& t:lex(s)) if ((t.text=="i"||t.text=="I") && !env.count(t.text)) complex_constant=true; // these are printed as a pair of numbers
		if (q==0 && !complex_constant && digits==30)
		{
			std::stringstream out; out.precision(40); out<<*std::dynamic_pointer_cast<bertini::node::Function>(n)->EntryNode();
			Node again=S.parse(out.str());
			r.check(again!=nullptr,"what is printed for "+cls+" is refused",[&]{ return "'"+s+"' is printed as '"+out.str()+"' which the parser refuses"; });
			if (again) { again->precision(digits); R g2=toR(again->Eval<Mp>()); r.check(close(g2,v,tol),"what is printed for "+cls+" means something else",[&]{ return "'"+s+"' is printed as '"+out.str()+"' which evaluates to "+str(g2)+" and not "+str(v); }); }
		}
		r.check(close(got,v,tol),"value of "+cls,[&]{ return "'"+s+"' means "+str(v)+" but evaluates to "+str(got)+" (at point "+std::to_string(q)+")"; });
	}
}
void P13(mc::Run& r)
{
	{ // every string of lexemes
		ExprSubject S({"x","y"});
		std::vector<std::string> al={"x","y","2","+","-","*","/","^","(",")"};
		int L=r.thorough()?7:6;
		for (int len=1;len<=L;len++)
		{
			std::vector<int> ix(len,0);
			while (true)
			{
				r.test([&]{ std::string s; for (int k:ix) s+=al[k]; return "string: "+s; },
					[&]{ std::string s; for (int k:ix) s+=al[k]; expr_case(r,S,s,"an expression"); });
				int k=len-1; while (k>=0 && ++ix[k]==(int)al.size()) ix[k--]=0;
				if (k<0) break;
			}
		}
	}
	{ // functions and special numbers
		ExprSubject S({"x","y"});
		std::vector<std::string> al={"x","2","+","-","*","^","(",")","sin","cos","tan","exp","log","sqrt","pi","e","I","E"," "};
		int L=r.thorough()?5:4;
		for (int len=1;len<=L;len++)
		{
			std::vector<int> ix(len,0);
			while (true)
			{
				auto txt=[&]{ std::string s; for (int k:ix) s+=al[k]; return s; };
				r.test([&]{ return "functions: "+txt(); },[&]{ expr_case(r,S,txt(),"an expression with functions"); });
				int k=len-1; while (k>=0 && ++ix[k]==(int)al.size()) ix[k--]=0;
				if (k<0) break;
			}
		}
		std::vector<std::string> f={"sin","cos","tan","exp","log","sqrt"}, in={"x","x+y","-x","2","f(x)","x^2","(x)"}, post={"","^2","*y","+y","-y","/y"}, pre={"","-","2*","y-","x^","2^-"};
		for (auto const& a:pre) for (auto const& g:f) for (auto const& b:in) for (auto const& c:post) for (int sp=0;sp<2;sp++)
		{
			std::string inner=b; if (b[0]=='f') inner=(g=="sin"?"cos":"sin")+std::string("(x*y)");
			std::string s=a+g+(sp?" ( ":"(")+inner+(sp?" )":")")+c;
			r.test([&]{ return "functions: "+s; },[&]{ expr_case(r,S,s,"an expression with functions"); });
		}
	}
	{ // number literals, in context
		ExprSubject S({"x","y"});
		std::vector<std::string> al={"0","1","7",".","e","E","-","+","x"," "};
		int L=r.thorough()?6:5;
		for (int len=1;len<=L;len++)
		{
			std::vector<int> ix(len,0);
			while (true)
			{
				auto txt=[&]{ std::string s; for (int k:ix) s+=al[k]; return s; };
				r.test([&]{ return "literal: "+txt(); },[&]{ expr_case(r,S,txt(),"an expression with literals"); });
				int k=len-1; while (k>=0 && ++ix[k]==(int)al.size()) ix[k--]=0;
				if (k<0) break;
			}
		}
		// literals keep all their digits at higher precision
		std::string d="1234567890123456789012345678901234567890";
		for (auto const& s : std::vector<std::string>{d+"/10^39","1."+d,"0.3333333333333333333333333333333333333333333","x*0.1","x/10","1.0e-3*x",d.substr(0,22)+"*10^(-21)",".1234567890123456789012345678901234567890+y"})
			r.test([&]{ return "digits: "+s; },[&]{ expr_case(r,S,s,"a long literal",50); });
	}
	{ // names: one a prefix of another, or of a function or special number
		std::vector<std::string> names={"x","x1","x10","xx","s","si","sine","ex","exp1","e1","pie","p","i2","Ia","x_1","x[1]","x]","lo","logx","l"};
		for (size_t a=0;a<names.size();a++) for (size_t b=0;b<names.size();b++) if (a!=b)
			r.test([&]{ return "names: "+names[a]+" "+names[b]; },[&]{
				ExprSubject S({names[a],names[b]});
				for (auto const& other:names) for (auto const& e:std::vector<std::string>{other,names[a]+"*"+names[b]+"+"+other,"sin("+names[a]+")*log("+other+")",names[a]+"^2-"+names[b]+"*e+pi*i","2"+other,other+"2",other+" "+names[a],"-"+other+"-"+names[b],other+"_1"})
					expr_case(r,S,e,"an expression over declared names");
			});
	}
	{ // blanks anywhere between lexemes
		ExprSubject S({"x","y"});
		std::vector<std::vector<std::string>> toks={{"x","^","2","-","y","*","(","x","+","1.5",")"},{"-","x","+","y"},{"sin","(","x",")","/","2"},{"2e-3","*","x","-","-","y"}};
		std::vector<std::string> bl={""," ","\t","\n"};
		for (auto const& t:toks) for (unsigned m=0;m<(1u<<(t.size()+1));m++) for (size_t w=1;w<bl.size();w++)
		{
			std::string s; for (size_t k=0;k<t.size();k++) { if (m>>k&1) s+=bl[w]; s+=t[k]; } if (m>>t.size()&1) s+=bl[w];
			r.test([&]{ return "blanks: "+s; },[&]{ expr_case(r,S,s,"an expression with blanks"); });
		}
	}
	{ // long and deep expressions: chains of every operator, every depth of parentheses, signs and functions, many and long names
		ExprSubject S({"x","y"}); std::string cls="a long expression";
		auto go=[&](std::string const& s){ r.test([&]{ return "long: "+s; },[&]{ expr_case(r,S,s,cls); }); };
		std::vector<std::string> opd={"x","y","2","1.5","(x-y)","0.5e1"}, ops={"+","-","*","/"};
		int L=r.thorough()?120:48;
		for (int n=2;n<=L;n++)
		{
			for (auto const& o:ops) for (size_t sh=0;sh<3;sh++) { std::string s=opd[sh]; for (int k=1;k<n;k++) s+=o+opd[(k*(sh+1)+sh)%opd.size()]; go(s); }
			for (size_t a=0;a<4;a++) for (size_t b=0;b<4;b++) if (a!=b) { std::string s="x"; for (int k=1;k<n;k++) s+=(k%2?ops[a]:ops[b])+opd[(k*5+a)%opd.size()]; go(s); }
			{ std::string s="x"; for (int k=1;k<n;k++) s=k%3==0?"("+s+"-y)":k%3==1?"("+s+")":"(1+"+s+")"; if (n<=24||n%4==0) go(s); }
			if (n<=12) { std::string s; for (int k=0;k<n;k++) s+=k%2?"-":"+"; go(s+"x"); go(std::string(n,'-')+"x"); go("y*"+std::string(n,'-')+"x^2"); go(std::string(n,'(')+"x"+std::string(n,')')); go(std::string(n,'(')+"x"+std::string(n-1,')')); go(std::string(n,'(')+"x"+std::string(n+1,')')); }
			if (n<=10) { static const char* fn[]={"sin","cos","exp","sqrt","log","tan"}; for (int st=0;st<6;st++) { std::string s="x/3"; for (int k=0;k<n;k++) s=std::string(fn[(k+st)%6])+"("+s+(k%2?"/2)":")"); go(s); } }
			if (n<=8) { std::string s="x"; for (int k=1;k<n;k++) s+=k%2?"^2":"^0.5"; go(s); s="x"; for (int k=1;k<n;k++) s+="^1"; go(s); }
			go("x^"+std::to_string(n)); go("x^-"+std::to_string(n)); go("(x/2)^"+std::to_string(n)+"*y"); go(std::string(n,'0')+"7*x"); go("x-"+std::string(n,'0')+"10"); go("y+"+std::string(n,'0')+"189"); go(std::string(n,'0')+"12.5*x"); go("x*1."+std::string(n,'0')+"1"); go("1e"+std::to_string(n)+"*1e-"+std::to_string(n)+"*y"); go("x+1e-00"+std::to_string(n));
		}
		for (int n=1;n<=(r.thorough()?100:64);n++) r.test([&]{ return "many names: "+std::to_string(n); },[&]{
			std::vector<std::string> nm; for (int k=0;k<n;k++) nm.push_back("x"+std::to_string(k+1)); ExprSubject T(nm);
			std::string a=nm[0],b=nm[0]; for (int k=1;k<n;k++) { a+=(k%2?"-":"+")+nm[k]; b+=(k%2?"/":"*")+nm[n-1-k]; } expr_case(r,T,a,"an expression in many names"); expr_case(r,T,b,"an expression in many names"); expr_case(r,T,nm[n-1]+"^2-x"+std::to_string(n+1),"an expression in many names"); expr_case(r,T,"2*"+nm[n/2]+"-"+nm[n-1],"an expression in many names"); });
		for (int n=1;n<=40;n++) for (char c:{'a','Z','_',']','1'}) r.test([&]{ return "name of length "+std::to_string(n)+" ending in "+c; },[&]{
			std::string a="q"+std::string(n,'b'), b=a+c; ExprSubject T({a,b}); for (auto const& e:{a+"-2*"+b,b+"^2/"+a,a+"b",b+"*"+a.substr(1),"sin("+b+")-"+a}) expr_case(r,T,e,"an expression in long names"); });
	}
}


// ---------------------------------------------------------------- P14: system files
struct SysModel
{
	std::vector<std::vector<std::string>> groups, hom; std::vector<std::string> ungrouped, implicit, functions, constants, parameters, subs, path;
	std::set<std::string> known, fnames; std::map<std::string,std::vector<Lexeme>> defs;
};
static const std::set<std::string> special={"pi","Pi","e","E","i","I"}, keywords={"variable_group","hom_variable_group","variable","function","constant","parameter","implicit_parameter","pathvariable","random","random_real"};
static bool read_system(std::string const& text,SysModel& m)
{
	auto t=lex(text); size_t p=0;
	auto is=[&](char k){ return p<t.size() && t[p].kind==k; };
	try
	{
		while (p<t.size())
		{
			if (!is('w')) throw Bad();
			std::string w=t[p].text;
			if (keywords.count(w))
			{
				if (w=="random"||w=="random_real") throw Bad();
				p++; std::vector<std::string> names;
				while (true)
				{
					if (!is('w')) throw Bad();
					std::string n=t[p++].text;
					if (keywords.count(n)||special.count(n)||m.known.count(n)) throw Bad();
					m.known.insert(n); names.push_back(n);
					if (w=="pathvariable" || !is(',')) break;
					p++;
				}
				if (!is(';')) throw Bad();
				p++;
				auto app=[&](std::vector<std::string>& v){ v.insert(v.end(),names.begin(),names.end()); };
				if (w=="variable_group") m.groups.push_back(names);
				else if (w=="hom_variable_group") m.hom.push_back(names);
				else if (w=="variable") app(m.ungrouped);
				else if (w=="implicit_parameter") app(m.implicit);
				else if (w=="pathvariable") app(m.path);
				else { m.fnames.insert(names.begin(),names.end()); app(w=="function"?m.functions:w=="constant"?m.constants:m.parameters); }
			}
			else
			{
				p++;
				if (special.count(w)) throw Bad();
				if (!m.known.count(w)) { m.known.insert(w); m.fnames.insert(w); m.subs.push_back(w); }
				else if (!m.fnames.count(w)) throw Bad();
				if (!is('=')) throw Bad();
				p++;
				size_t b=p; Env env; for (auto const& n:m.known) env[n]=R(1);
				Reader rd(t,p,env); rd.expr();
				if (!is(';')) throw Bad();
				m.defs[w]=std::vector<Lexeme>(t.begin()+b,t.begin()+p);
				p++;
			}
		}
	}
	catch (Bad const&) { return false; }
	return true;
}
// value of a declared name; throws Bad if it is undefined or defined by way of itself
static R name_value(SysModel const& m,std::string const& n,Env& env,bool& wild,std::set<std::string>& busy)
{
	auto f=env.find(n); if (f!=env.end()) return f->second;
	auto d=m.defs.find(n); if (d==m.defs.end() || !busy.insert(n).second) throw Bad();
	for (auto const& l:d->second) if (l.kind=='w' && m.known.count(l.text)) env[l.text]=name_value(m,l.text,env,wild,busy);
	size_t p=0; Reader rd(d->second,p,env); R v=rd.expr(); wild=wild||rd.wild;
	busy.erase(n); env[n]=v; return v;
}
template<class C> static std::string names_of(C const& c) { std::string s; for (auto const& v:c) s+=v->name()+" "; return s; }
static std::string joined(std::vector<std::string> const& v) { std::string s; for (auto const& n:v) s+=n+" "; return s; }

static void system_case(mc::Run& r,std::string const& text,std::string const& cls,unsigned digits=30)
{
	bertini::DefaultPrecision(digits);
	SysModel m; bool should=read_system(text,m);
	std::shared_ptr<System> S; std::string what;
	r.where("parse");
	{ Quiet q; try { S=std::make_shared<System>(text); } catch (std::exception const& e) { what=e.what(); } }
	r.transition();
	r.check(should==(S!=nullptr),should?cls+" is refused":cls+" is accepted",[&]{ return (should?"well-formed, but refused ("+what+"): ":"not well-formed, but accepted: ")+text; });
	{ Quiet q; System other; bool ok=false; try { ok=bertini::parsing::classic::parse(text.begin(),text.end(),other); } catch (std::exception const&) {}
	  r.check(ok==should,should?cls+" is refused by parse()":cls+" is accepted by parse()",[&]{ return text; });
	  if (ok) r.check(other.NumVariables()==(S?S->NumVariables():0),"parse() and the constructor differ",[&]{ return text; });
	  if (!ok) r.check(other.NumVariables()==0 && other.NumNaturalFunctions()==0,"a refused text changes the system",[&]{ return text; }); }
	r.outcome(should?"accepted":"refused");
	if (!should || !S) return;
	r.where("structure");
	std::string g,h; for (auto const& k:m.groups) g+=joined(k)+"| "; for (auto const& k:m.hom) h+=joined(k)+"| ";
	std::string gg,hh; for (auto const& k:S->VariableGroups()) gg+=names_of(k)+"| "; for (auto const& k:S->HomVariableGroups()) hh+=names_of(k)+"| ";
	auto eq=[&](std::string const& a,std::string const& b,char const* what){ r.check(a==b,std::string(what)+" of "+cls,[&]{ return std::string(what)+": should be '"+a+"', is '"+b+"' for "+text; }); };
	eq(g,gg,"variable groups"); eq(h,hh,"homogeneous variable groups");
	eq(std::to_string(m.ungrouped.size()),std::to_string(S->NumUngroupedVariables()),"ungrouped variables");
	eq(std::to_string(m.constants.size()),std::to_string(S->NumConstants()),"constants");
	eq(std::to_string(m.parameters.size()),std::to_string(S->NumParameters()),"parameters");
	eq(std::to_string(m.implicit.size()),std::to_string(S->NumImplicitParameters()),"implicit parameters");
	eq(joined(m.functions),[&]{ std::string s; for (size_t k=0;k<S->NumNaturalFunctions();k++) s+=S->Function(k)->name()+" "; return s; }(),"functions");
	eq(m.path.empty()?"0":"1",S->HavePathVariable()?"1":"0","path variable");
	std::multiset<std::string> vn,vn2; for (auto const& k:m.groups) vn.insert(k.begin(),k.end()); for (auto const& k:m.hom) vn.insert(k.begin(),k.end()); vn.insert(m.ungrouped.begin(),m.ungrouped.end());
	for (auto const& v:S->Variables()) vn2.insert(v->name());
	r.check(vn==vn2,"variables of "+cls,[&]{ return "variables are "+names_of(S->Variables())+" for "+text; });
	r.state(g+"/"+h+"/"+joined(m.ungrouped)+"/"+joined(m.functions)+"/"+joined(m.subs)+"/"+joined(m.path));
	if (vn!=vn2 || m.functions.empty() || vn.empty() || m.path.size()>1) return;
	// values
	std::vector<R> pool={R(Rr("0.75"),Rr("0.5")),R(Rr("1.25"),Rr("-0.875")),R(Rr("-0.3125"),Rr("0.1875")),R(Rr("0.625"),Rr("1.5")),R(Rr("1.125"),Rr("0.25")),R(Rr("0.375"),Rr("-0.75")),R(Rr("-1.5"),Rr("0.0625"))};
	Env base; int at=0; std::vector<std::string> order; for (auto const& v:S->Variables()) order.push_back(v->name());
	for (auto const& n:vn) base[n]=pool[at++%7];
	for (auto const& n:m.implicit) base[n]=pool[at++%7];
	for (auto const& n:m.path) base[n]=pool[at++%7];
	auto all=[&](Env e,bool& wild){ std::vector<R> f; std::set<std::string> busy; Env full=e; for (auto const& n:m.functions) f.push_back(name_value(m,n,full,wild,busy)); return f; };
	std::vector<R> f; bool wild=false;
	try { f=all(base,wild); } catch (Bad const&) { r.outcome("undefined or circular"); return; }
	if (wild) return;
	r.where("values");
	S->precision(digits);
	bertini::Vec<Mp> x(order.size()); for (size_t k=0;k<order.size();k++) x(k)=toMp(base[order[k]],digits);
	if (!m.implicit.empty()) { bertini::Vec<Mp> ip(m.implicit.size()); for (size_t k=0;k<m.implicit.size();k++) ip(k)=toMp(base[m.implicit[k]],digits); S->SetImplicitParameters(ip); }
	bertini::Vec<Mp> v; bertini::Mat<Mp> J;
	if (m.path.empty()) { v=S->Eval(x); J=S->Jacobian(x); } else { v=S->Eval(x,toMp(base[m.path[0]],digits)); J=S->Jacobian(x,toMp(base[m.path[0]],digits)); }
	double tol=std::pow(10.,-(double)digits+12);
	for (size_t k=0;k<f.size();k++) r.check(close(toR(v(k)),f[k],tol*(1+mag(f[k]))),"values of "+cls,[&]{ return m.functions[k]+" should be "+str(f[k])+", is "+str(toR(v(k)))+" for "+text; });
	R hstep(Rr("1e-30"));
	auto diff=[&](std::string const& n){ Env e=base; e[n]=R(e[n]+hstep); bool w=false; auto fp=all(e,w); e[n]=R(base[n]-hstep); auto fm=all(e,w); std::vector<R> d; for (size_t k=0;k<fp.size();k++) d.push_back(R((fp[k]-fm[k])/(R(2)*hstep))); return d; };
	for (size_t c=0;c<order.size();c++)
	{
		auto d=diff(order[c]);
		for (size_t k=0;k<d.size();k++) r.check(close(toR(J(k,c)),d[k],tol*10*(1+mag(d[k]))),"derivatives of "+cls,[&]{ return "d "+m.functions[k]+" / d "+order[c]+" should be "+str(d[k])+", is "+str(toR(J(k,c)))+" for "+text; });
	}
	if (!m.path.empty())
	{
		auto d=diff(m.path[0]); bertini::Vec<Mp> td=S->TimeDerivative(x,toMp(base[m.path[0]],digits));
		for (size_t k=0;k<d.size();k++) r.check(close(toR(td(k)),d[k],tol*10*(1+mag(d[k]))),"time derivatives of "+cls,[&]{ return "d "+m.functions[k]+" / dt should be "+str(d[k])+", is "+str(toR(td(k)))+" for "+text; });
	}
}
void P14(mc::Run& r)
{
	// every sequence of statements
	std::vector<std::string> st={"variable_group x, y;","variable_group z;","hom_variable_group u, v;","variable w;","function f;","function g, h;","constant c;","c = 2.5;","pathvariable t;","parameter s;","s = t^2;","k = x - c;","f = x^2 - y;","f = k*x + s;","g = u + w;","h = g - 1;","implicit_parameter q;","g = q*x;"};
	int L=r.thorough()?5:4;
	std::vector<std::string> pre={"","variable_group x, y; function f, g; ","variable_group x; hom_variable_group u,v; pathvariable t; constant c; c = 3; function f, g; "};
	for (size_t b=0;b<pre.size();b++) for (int len=b==0?1:0;len<=(b==0?L:L-1);len++)
	{
		std::vector<int> ix(len,0);
		while (true)
		{
			auto txt=[&]{ std::string s=pre[b]; for (int k:ix) s+=st[k]+"\n"; return s; };
			r.test([&]{ return "statements: "+txt(); },[&]{ system_case(r,txt(),"a system"); });
			int k=len-1; while (k>=0 && ++ix[k]==(int)st.size()) ix[k--]=0;
			if (k<0) break;
		}
	}
	// names
	std::vector<std::string> names={"x","x1","x10","xy","y","f","f1","s","sine","e1","Ex","pi2","pie","i2","I_","variable1","function_a","functional","constants","parameter2","pathvariables","random1","hom_variable_groups","variable_groups","x_1","x[1]","x[10]","x]","f]","variable]","implicit_parameter0","e","pi","function","cosx"};
	for (auto const& a:names) for (auto const& b:names) for (auto const& c:names)
	{
		if (!r.thorough() && &a!=&names[0] && &b!=&names[1] && &c!=&names[5] && &b!=&names[19]) continue;
		r.test([&]{ return "names: "+a+" "+b+" "+c; },[&]{
			system_case(r,"variable_group "+a+", "+b+"; function "+c+"; "+c+" = "+a+"^2 - 3*"+b+";","a system with these names");
			system_case(r,"variable "+a+"; function "+b+"; "+c+" = "+a+"^2 - 3; "+b+" = "+c+"*"+a+";","a system with these names");
			system_case(r,"hom_variable_group "+a+"; parameter "+b+"; pathvariable "+c+"; function ff; "+b+"="+c+"+1; ff = "+a+"*"+b+";","a system with these names");
		});
	}
	// every edit of one lexeme, or exchange of two neighbours
	std::vector<std::string> texts={"variable_group x , y ; function f , g ; f = x ^ 2 - y ; g = - x + y * ( 2 - x ) ;",
		"hom_variable_group u , v ; constant c ; c = 1.5 ; pathvariable t ; parameter s ; s = t ^ 2 ; function f ; k = c * u ; f = s * k - v ;",
		"variable x ; implicit_parameter q ; function f1 , f ; f1 = q * x ; f = sin ( f1 ) + 1 ;"};
	std::vector<std::string> repl={";",",","=","x","f","variable","function","variable_group","2","+","-","^","(",")","zz","e","t","random",":","@"};
	for (size_t k=0;k<texts.size();k++)
	{
		std::vector<std::string> t; { std::stringstream ss(texts[k]); std::string w; while (ss>>w) t.push_back(w); }
		auto text=[&](std::vector<std::string> const& v){ std::string s; for (auto const& w:v) s+=w+" "; return s; };
		auto go=[&](std::vector<std::string> const& v){ r.test([&]{ return "edit: "+text(v); },[&]{ system_case(r,text(v),"an edited system"); }); };
		go(t);
		for (size_t i=0;i<t.size();i++)
		{
			auto v=t; v.erase(v.begin()+i); go(v);
			v=t; v.insert(v.begin()+i,t[i]); go(v);
			if (i+1<t.size()) { v=t; std::swap(v[i],v[i+1]); go(v); }
			for (auto const& w:repl) { v=t; v[i]=w; go(v); v=t; v.insert(v.begin()+i,w); go(v); }
			if (r.thorough()) for (size_t j=i+1;j<t.size();j++) { v=t; v.erase(v.begin()+j); v.erase(v.begin()+i); go(v); v=t; std::swap(v[i],v[j]); go(v); for (auto const& w:repl) { v=t; v[i]=w; v.erase(v.begin()+j); go(v); } }
		}
		// blanks
		for (char const* bl:{"","\n","\t\n "}) { std::string s; for (auto const& w:t) s+=w+(bl[0]?bl:(keywords.count(w)?" ":"")); r.test([&]{ return "blanks: "+s; },[&]{ system_case(r,s,"a system with other blanks"); }); }
	}
	// many of everything: declared in one list, one by one, and in two lists; defined forwards and backwards
	int W=r.thorough()?40:24;
	auto nth=[](char const* b,int k){ return b+std::to_string(k+1); };
	for (int n=1;n<=W;n++) for (int kind=0;kind<9;kind++) for (int lists=0;lists<3;lists++) for (int back=0;back<2;back++)
	{
		static const char* kws[]={"variable_group","hom_variable_group","variable","implicit_parameter","constant","parameter","function","subfunctions","mixed groups"};
		r.test([&]{ return "many: "+std::to_string(n)+" of "+kws[kind]+", "+(lists==0?"one list":lists==1?"one by one":"two lists")+(back?", backwards":""); },[&]{
			std::string s; auto decl=[&](std::string const& kw,std::string const& base){ for (int k=0;k<n;k++) { bool first= k==0||lists==1||(lists==2&&k==n/2); bool last= k==n-1||lists==1||(lists==2&&k==n/2-1); s+=(first?kw+" ":std::string())+nth(base.c_str(),k)+(last?";\n":", "); } };
			auto seq=[&](int k){ return back?n-1-k:k; };
			if (kind<=3)
			{
				decl(kws[kind],"x"); if (kind==3) s+="variable_group y; "; s+="function f, g; ";
				s+="f = 0"; for (int k=0;k<n;k++) s+=(k%2?" - ":" + ")+std::to_string(k+1)+"*"+nth("x",seq(k)); if (kind==3) s+="+ y"; s+=";\n g = 1"; for (int k=0;k<n;k++) s+="*("+nth("x",seq(k))+" + "+std::to_string(k)+"/7)/2"; if (kind==3) s+="*y"; s+=";";
			}
			else if (kind<=5)
			{
				s="variable_group x, y; pathvariable t; function f, g;\n"; decl(kws[kind],"c"); for (int k=0;k<n;k++) { int j=seq(k); s+=nth("c",j)+" = "+std::to_string(j+2)+"/5"+(kind==5?"*t":"")+";\n"; }
				s+="f = x*y"; for (int k=0;k<n;k++) s+=" - "+nth("c",k)+"*x"; s+="; g = y"; for (int k=0;k<n;k++) s+="*("+nth("c",seq(k))+"-x)/2"; s+=";";
			}
			else if (kind==6) { s="variable_group x, y; pathvariable t;\n"; decl("function","f"); for (int k=0;k<n;k++) { int j=seq(k); s+=nth("f",j)+" = x^"+std::to_string(j%3+1)+" - "+std::to_string(j+1)+"*y"+(j%2?"*t":"")+";\n"; } }
			else if (kind==7) { s="variable_group x, y; function f, g;\n s1 = x - y/3;\n"; for (int k=1;k<n;k++) s+=nth("s",k)+" = "+nth("s",back?0:k-1)+"*y/2 + "+(k%2?"x":nth("s",k/2))+"/3;\n"; s+="f = "+nth("s",n-1)+"; g = "+nth("s",n/2)+"*x - "+nth("s",0)+";"; }
			else { s=""; std::string f="0"; for (int k=0;k<n;k++) { int j=seq(k); int q=j%4; std::string a=nth("a",j), b=nth("b",j); s+=std::string(q==0?"variable_group ":q==1?"hom_variable_group ":q==2?"variable ":"variable_group ")+a+(lists?", "+b:std::string())+";\n"; f+=std::string(k%2?" - ":" + ")+std::to_string(k+2)+"*"+a+(lists?"*"+b:std::string()); } s+="function f; f = "+f+";"; }
			system_case(r,s,"a large system");
			if (kind!=7 && kind!=8 && !back && n>1) { std::string t=s; auto at=t.find(kind==6?"f2":kind>3?"c2":"x2"); t.replace(at,2,kind==6?"f1":kind>3?"c1":"x1"); system_case(r,t,"a large system with a name declared twice"); t=s; at=t.rfind(';'); t.erase(at,1); system_case(r,t,"a large system without its end"); }
		});
	}
	for (int n=1;n<=48;n+=(n<12?1:6)) r.test([&]{ return "long names: "+std::to_string(n); },[&]{ std::string a="v"+std::string(n,'x'), b=a+"x", f="f"+std::string(n,'_'), g=f+"1"; system_case(r,"variable_group "+b+", "+a+"; function "+g+", "+f+"; "+f+" = "+a+"^2 - "+b+"; "+g+" = "+f+"*"+b+" - "+a+";","a system with long names"); system_case(r,"variable_group "+a+"; function "+f+"; "+f+" = "+b+";","a system with long names"); });
}

// ---------------------------------------------------------------- P15: splitting an input file
static std::string squeeze(std::string const& s) { std::string o; for (char c:s) { if (isspace((unsigned char)c)) { if (!o.empty() && o.back()!=' ') o+=' '; } else o+=c; } while (!o.empty()&&o.back()==' ') o.pop_back(); return o; }
void P15(mc::Run& r)
{
	std::vector<std::vector<std::string>> kw={{"CONFIG","config","Config"},{"END;","end;","End;"},{"INPUT","input","Input"},{"END;","end;","eNd;"}};
	std::vector<std::string> cbody={"","tracktype: 1;","tracktype: 1;\n  maxstepsize: 0.1; \n\nmptype: 2;"}, ibody={"variable_group x, y;\nfunction f;\nf = x^2 + y^2 - 1;","variable x; function f, g;\n\nf = x;\ng = x - 2.0;"};
	std::vector<std::string> comments={""," % END; of comments","% CONFIG","%"," % 50% INPUT of it %%"};
	std::vector<std::string> head={"","title\n"}, tail={"","\n","\ntrailing words\n","\nno newline"}, nl={"\n","\r\n"};
	for (int have=0;have<16;have++) for (size_t c=0;c<cbody.size();c++) for (size_t i=0;i<ibody.size();i++) for (size_t cm=0;cm<comments.size();cm++) for (size_t cs=0;cs<3;cs++) for (size_t hd=0;hd<head.size();hd++) for (size_t tl=0;tl<tail.size();tl++) for (size_t e=0;e<nl.size();e++)
	{
		bool C=have&8, E1=have&4, I=have&2, E2=have&1;
		if (!C && E1 && !I && !E2) continue;           // indistinguishable from the two END; cases below
		if (!C && c>0) continue;
		if (C && !E1 && !I && E2) continue;            // the same file as "CONFIG ... END; ..."
		std::string text;
		auto put=[&](std::string s){ std::string o; for (char ch:s) { if (ch=='\n') o+=comments[cm]+nl[e]; else o+=ch; } text+=o; };
		put(head[hd]);
		if (C) put(kw[0][cs]+"\n"); if (C) put(cbody[c]+"\n");
		if (!C && E1) put("junk;\n");
		if (E1) put(kw[1][cs]+"\n");
		if (E1 && I) put("between\n");
		if (I) put(kw[2][cs]+"\n");
		put(ibody[i]+"\n");
		if (E2) put(kw[3][cs]+(tail[tl].empty()?"\n":tail[tl])); else if (tl>1) continue; else put(tail[tl]);
		r.test([&]{ return "file "+std::to_string(have)+": "+text; },[&]{
			r.transition();
			Quiet q;
			bertini::parsing::classic::SplitInputFile out;
			r.where("split");
			out=bertini::parsing::classic::ParseInputFile(text);
			bool readable=C?(E1||I):!E1;
			r.outcome(readable?"readable":"not readable"); r.state(text);
			r.check(out.Readable()==readable,readable?"a readable file is called unreadable":"an unreadable file is called readable",[&]{ return text; });
			if (!readable) return;
			std::string wantc=C?squeeze(cbody[c]):"", wanti=squeeze(ibody[i]);
			if (!C && !I && hd) wanti=squeeze(head[hd])+" "+wanti;
			r.check(squeeze(out.Config())==wantc,"config section",[&]{ return "the config section should be '"+wantc+"', is '"+squeeze(out.Config())+"' for "+text; });
			r.check(squeeze(out.Input())==wanti,"input section",[&]{ return "the input section should be '"+wanti+"', is '"+squeeze(out.Input())+"' for "+text; });
			if (cs==0 && e==0)
			{
				std::string fn="in."+std::to_string(r.index())+".txt"; { std::ofstream o(fn); o<<text; }
				std::string a,b; bertini::parsing::classic::SplitIntoConfigAndInput(a,b,fn);
				unlink(fn.c_str());
				r.check(squeeze(a)==wantc,"config section of a file",[&]{ return "the config section should be '"+wantc+"', is '"+squeeze(a)+"' for "+text; });
				r.check(squeeze(b)==wanti,"input section of a file",[&]{ return "the input section should be '"+wanti+"', is '"+squeeze(b)+"' for "+text; });
			}
		});
	}
	// longer files: n lines in each section, a comment at any one line or on a line of its own, blank lines anywhere
	std::vector<std::string> notes={"% plain","%% END;","%INPUT"," \t% CONFIG: 1; END; INPUT","%","% a % b % c;","%%%%%%%% END; %%%","%\t\"quoted\" 'x' // /* # $ & ~ \\n"};
	int N=r.thorough()?30:14;
	for (int n=1;n<=N;n++) for (int at=-1;at<2*n+3;at++) for (size_t nt=0;nt<notes.size();nt++) for (int own=0;own<2;own++) for (int gap=0;gap<3;gap++) for (int end=0;end<2;end++)
	{
		if (at<0 && (nt||own)) continue;
		auto build=[&](std::string& c,std::string& i){
			std::string t; int line=0; auto put=[&](std::string const& w,bool last=false){ bool here=line==at; if (here && own) t+=notes[nt]+"\n"; t+=w; if (here && !own) t+=notes[nt]; if (!(last&&end)) t+="\n"; if (gap==1 && line%3==0) t+="\n"; if (gap==2) t+=" \t\n"; line++; };
			put("CONFIG"); for (int k=0;k<n;k++) { std::string w="Setting"+std::to_string(k)+": "+std::to_string(k*k)+";"; put(w); c+=w+" "; } put("END;"); put("INPUT");
			for (int k=0;k<n;k++) { std::string w=k==0?"variable_group x;":"f"+std::to_string(k)+" = x^"+std::to_string(k)+" - "+std::to_string(k)+";"; put(w,k==n-1); i+=w+" "; } return t; };
		r.test([&]{ std::string c,i; return "long file: "+build(c,i); },[&]{ std::string c,i,t=build(c,i); Quiet q; r.transition(); r.state(t); r.where("split"); auto out=bertini::parsing::classic::ParseInputFile(t); r.check(out.Readable(),"a readable file is called unreadable",[&]{ return t; }); r.check(squeeze(out.Config())==squeeze(c),"config section",[&]{ return "the config section is '"+squeeze(out.Config())+"' for "+t; }); r.check(squeeze(out.Input())==squeeze(i),"input section",[&]{ return "the input section is '"+squeeze(out.Input())+"' for "+t; }); });
	}
	for (int n:{50,200,1000,5000}) r.test([&]{ return "file of "+std::to_string(n)+" lines"; },[&]{ std::string t="CONFIG\n",c,i; for (int k=0;k<n;k++) { std::string w="S"+std::to_string(k)+": "+std::to_string(k)+";"; t+=w+" % "+std::to_string(k)+"\n"; c+=w+" "; } t+="END;\nINPUT\n"; for (int k=0;k<n;k++) { std::string w="f"+std::to_string(k)+" = x;"; t+=w+"\n"; i+=w+" "; } t+="END;\n rest"; Quiet q; auto out=bertini::parsing::classic::ParseInputFile(t); r.transition(); r.state(r.label()); r.check(out.Readable()&&squeeze(out.Config())==squeeze(c)&&squeeze(out.Input())==squeeze(i),"a large file",[&]{ return "a file of "+std::to_string(n)+" lines is split wrongly"; }); });
}


// ---------------------------------------------------------------- P16: numbers
struct NumText { bool ok; std::string text; };
// [sign] digits [. digits] [exponent], at position p
static bool read_number(std::string const& s,size_t& p,std::string& out)
{
	size_t q=p; out.clear();
	if (q<s.size() && s[q]=='-') out+=s[q++];
	size_t b=q; auto digit=[&](size_t k){ return k<s.size() && isdigit((unsigned char)s[k]); };
	while (digit(q)) q++;
	size_t nd=q-b; if (q<s.size() && s[q]=='.') { q++; while (digit(q)) { q++; nd++; } }
	if (!nd) return false;
	if (q<s.size() && (s[q]=='e'||s[q]=='E')) { size_t k=q+1; if (k<s.size()&&(s[k]=='-'||s[k]=='+')) k++; if (digit(k)) { q=k; while (digit(q)) q++; } }
	out+=s.substr(b,q-b); p=q; return true;
}
static void blanks(std::string const& s,size_t& p) { while (p<s.size() && isspace((unsigned char)s[p])) p++; }
static R literal(std::string s) { bool neg=s[0]=='-'; if (neg) s=s.substr(1); R v=number_value(s); return neg?R(-v):v; }
void P16(mc::Run& r)
{
	using namespace bertini; namespace cl=bertini::parsing::classic; namespace cpp=bertini::parsing::cplusplus;
	auto agree=[](R const& a,R const& b,double tol){ return mag(R(a-b))<=tol*mag(b); };
	// reading
	std::vector<std::string> al={"0","1","7",".","e","E","-","+"," ","25"};
	int L=r.thorough()?7:6;
	for (int len=1;len<=L;len++)
	{
		std::vector<int> ix(len,0);
		while (true)
		{
			auto txt=[&]{ std::string s; for (int k:ix) s+=al[k]; return s; };
			r.test([&]{ return "read: "+txt(); },[&]{
				Quiet q; std::string s=txt(), a, b; r.transition(); DefaultPrecision(20);
				size_t p=0; blanks(s,p); bool plus=p<s.size()&&s[p]=='+';
				bool one=read_number(s,p,a); blanks(s,p); bool real=one && p==s.size();
				bool plus2=one && p<s.size() && s[p]=='+';
				bool cx=false; if (one && !real) { cx=read_number(s,p,b); blanks(s,p); cx=cx && p==s.size(); }
				if (plus||plus2) { r.outcome("leading plus"); return; } // whether a number may begin with + is not at issue
				mpfr_float f(99); bool ok=cl::parse(s.begin(),s.end(),f);
				r.check(ok==real,real?"a real number is refused":"something else is read as a real number",[&]{ return "'"+s+"'"; });
				if (!ok) r.check(f==99,"a refused number changes its target",[&]{ return "'"+s+"'"; });
				if (real&&ok) { r.state(s); r.check(agree(R(Rr(f)),literal(a),1e-19),"value of a real number",[&]{ return "'"+s+"' is read as "+f.str(); }); }
				mpfr_complex z(99); ok=cl::parse(s.begin(),s.end(),z);
				r.check(ok==cx,cx?"a complex number is refused":"something else is read as a complex number",[&]{ return "'"+s+"'"; });
				if (cx&&ok) r.check(agree(R(Rr(z.real())),literal(a),1e-19)&&agree(R(Rr(z.imag())),literal(b),1e-19),"value of a complex number",[&]{ return "'"+s+"' is read as "+z.str(); });
				auto far=[](std::string const& t){ auto k=t.find_first_of("eE"); return k!=std::string::npos && std::abs(std::atof(t.c_str()+k+1))>290; };
				if (far(a) || (cx && far(b))) { r.outcome("beyond double"); return; }
				double d=99; ok=cl::parse(s.begin(),s.end(),d);
				r.check(ok==real,real?"a real number is refused as a double":"something else is read as a double",[&]{ return "'"+s+"'"; });
				auto small=[&](R const& v){ double m=mag(v); return m==0||(m>1e-290&&m<1e290); };
				if (real&&ok&&small(literal(a))) r.check(agree(R(Rr(d)),literal(a),1e-15),"value of a double",[&]{ return "'"+s+"' is read as "+std::to_string(d); });
				std::complex<double> c(99,99); ok=cl::parse(s.begin(),s.end(),c);
				r.check(ok==(real||cx),(real||cx)?"a complex double is refused":"something else is read as a complex double",[&]{ return "'"+s+"'"; });
				if (ok&&(real||cx)&&small(literal(a))&&(real||small(literal(b)))) r.check(agree(R(Rr(c.real())),literal(a),1e-15)&&agree(R(Rr(c.imag())),real?R(0):literal(b),1e-15),"value of a complex double",[&]{ return "'"+s+"' is read as "+std::to_string(c.real())+","+std::to_string(c.imag()); });
				r.outcome(real?"real":cx?"complex":"refused");
				if (real||cx) for (int form=0;form<4;form++)
				{
					// the C++ way of writing it
					std::string t=form==0?a:form==1?"("+a+")":form==2?"( "+a+" ,"+(cx?b:a)+")":"("+a+","+(cx?b:a)+" )";
					R im=form<2?R(0):literal(cx?b:a); std::complex<double> w(99,99);
					if (!small(literal(a))||!small(im)) continue;
					bool k=cpp::parse(t.begin(),t.end(),w);
					r.check(k && agree(R(Rr(w.real())),literal(a),1e-15)&&agree(R(Rr(w.imag())),im,1e-15),"C++ notation",[&]{ return "'"+t+"'"; });
				}
			});
			int k=len-1; while (k>=0 && ++ix[k]==(int)al.size()) ix[k--]=0;
			if (k<0) break;
		}
	}
	// writing and reading back: mantissas, exponents, signs, precisions
	std::vector<std::string> man={"0","1","3","7","1.5","1.0000000000000002","0.99999999999999989","3.3333333333333333333333333333333333333333333333333333333","2.7182818284590452353602874713526624977572470936999595749","9.9999999999999999999999999999999999999999999999999","1.23456789","6.02214076"};
	std::vector<int> ex={0,1,-1,2,-2,5,-5,8,-8,15,16,17,-17,22,23,50,-50,100,-100,290,-290};
	for (auto const& m:man) for (int e:ex) for (int sg=0;sg<4;sg++) for (unsigned dg : std::vector<unsigned>{16,20,30,50,80})
		r.test([&]{ return "write: "+std::string(sg&1?"-":"")+m+"e"+std::to_string(e)+" digits "+std::to_string(dg)+" imag "+std::to_string(sg/2); },[&]{
			DefaultPrecision(dg); r.transition();
			std::string t=(sg&1?"-":"")+m+"e"+std::to_string(e), u=sg&2?"-4.25e-3":"0";
			mpfr_float a(t), b(u); mpfr_complex z(a,b); double tol=std::pow(10.,-(double)dg+1); if (dg==16) tol=1e-15;
			std::string o; generators::Classic::generate(std::back_inserter(o),z);
			mpfr_complex z2; Quiet q; bool ok=cl::parse(o.begin(),o.end(),z2);
			r.check(ok && agree(R(Rr(z2.real())),R(Rr(a)),tol) && agree(R(Rr(z2.imag())),R(Rr(b)),tol),"a complex number written and read back",[&]{ return "'"+o+"' for "+a.str()+" "+b.str(); });
			o.clear(); generators::Classic::generate(std::back_inserter(o),a); mpfr_float a2; ok=cl::parse(o.begin(),o.end(),a2);
			r.check(ok && agree(R(Rr(a2)),R(Rr(a)),tol),"a real number written and read back",[&]{ return "'"+o+"' for "+a.str(); });
			r.state(o);
			if (dg!=16) return;
			double d(a), im(b); std::complex<double> c(d,im), c2;
			o.clear(); generators::Classic::generate(std::back_inserter(o),c); ok=cl::parse(o.begin(),o.end(),c2);
			r.check(ok && agree(toR(c2),toR(c),1e-15),"a complex double written and read back",[&]{ return "'"+o+"' for "+t; });
			o.clear(); generators::CPlusPlus::generate(std::back_inserter(o),c); ok=cpp::parse(o.begin(),o.end(),c2);
			r.check(ok && agree(toR(c2),toR(c),1e-15),"a complex double written and read back, C++ notation",[&]{ return "'"+o+"' for "+t; });
			o.clear(); generators::Classic::generate(std::back_inserter(o),d); ok=cl::parse(o.begin(),o.end(),c2);
			r.check(ok && agree(toR(c2),toR(dbl(d)),1e-15),"a double written and read back",[&]{ return "'"+o+"' for "+t; });
			// vectors: one line per coordinate
			o.clear(); bertini::Vec<dbl> v(3); v<<c,dbl(1,2),-c; generators::Classic::generate(std::back_inserter(o),v);
			std::stringstream ss(o); std::string line; int n=0; bool good=true; while (std::getline(ss,line)) { if (n>=3) { good=false; break; } dbl w; good=good&&cl::parse(line.begin(),line.end(),w)&&agree(toR(w),toR(v(n)),1e-15); n++; }
			r.check(good&&n==3,"a vector written and read back",[&]{ return o; });
		});
}

// ---------------------------------------------------------------- P17: settings
struct Setting { std::string name; std::vector<std::string> values; };
typedef std::map<std::string,std::string> Fields; // setting name -> value as canonical text
static std::string canon(double d) { std::stringstream s; s.precision(15); s<<d; return s.str(); }
static double value_of(std::string const& t) { auto k=t.find('/'); return k==std::string::npos?std::stod(t):std::stod(t.substr(0,k))/std::stod(t.substr(k+1)); }
struct Family
{
	std::string name; std::vector<Setting> settings; std::function<Fields(std::string const&)> parse; // parse a config section, report all fields
	Fields defaults;
};
template<class C> static C fill(std::string const& s) { return bertini::parsing::classic::FillConfigStruct<C>(s); }
static std::vector<Family> families()
{
	using namespace bertini; using namespace bertini::tracking; using namespace bertini::endgame; using namespace bertini::algorithm;
	std::vector<std::string> num={"0.25","1e-5","2","3.5e2","1e+2"}, rat={"0.25","3","1/2","5/4","1e-1"}, un={"1","7","12"}, in={"2","-3","0"}, bo={"0","1"};
	auto D=[](auto const& v){ return canon(static_cast<double>(v)); };
	std::vector<Family> f;
	f.push_back({"stepping",{{"MaxStepSize",rat},{"StepSuccessFactor",rat},{"StepFailFactor",rat},{"StepsForIncrease",un},{"MaxNumberSteps",un}},
		[=](std::string const& s){ auto c=fill<SteppingConfig>(s); return Fields{{"MaxStepSize",D(c.max_step_size)},{"StepSuccessFactor",D(c.step_size_success_factor)},{"StepFailFactor",D(c.step_size_fail_factor)},{"StepsForIncrease",D(c.consecutive_successful_steps_before_stepsize_increase)},{"MaxNumberSteps",D(c.max_num_steps)},{"initial",D(c.initial_step_size)},{"min",D(c.min_num_steps)}}; }});
	f.push_back({"newton",{{"MaxNewtonIts",un}},[=](std::string const& s){ auto c=fill<NewtonConfig>(s); return Fields{{"MaxNewtonIts",D(c.max_num_newton_iterations)},{"min",D(c.min_num_newton_iterations)}}; }});
	f.push_back({"amp",{{"CoefficientBound",num},{"DegreeBound",num},{"Epsilon",num},{"Phi",num},{"Psi",num},{"AMPSafetyDigits1",in},{"AMPSafetyDigits2",in},{"AMPMaxPrec",un},{"MaxStepsPrecisionDecrease",un},{"MaxNumPrecDecreases",un}},
		[=](std::string const& s){ auto c=fill<AdaptiveMultiplePrecisionConfig>(s); return Fields{{"CoefficientBound",D(c.coefficient_bound)},{"DegreeBound",D(c.degree_bound)},{"?Epsilon",D(c.epsilon)},{"?Phi",D(c.Phi)},{"?Psi",D(c.Psi)},{"AMPSafetyDigits1",D(c.safety_digits_1)},{"AMPSafetyDigits2",D(c.safety_digits_2)},{"AMPMaxPrec",D(c.maximum_precision)},{"MaxStepsPrecisionDecrease",D(c.consecutive_successful_steps_before_precision_decrease)},{"MaxNumPrecDecreases",D(c.max_num_precision_decreases)}}; }});
	f.push_back({"security",{{"SecurityLevel",in},{"SecurityMaxNorm",num}},[=](std::string const& s){ auto c=fill<SecurityConfig>(s); return Fields{{"SecurityLevel",D(c.level)},{"SecurityMaxNorm",D(c.max_norm)}}; }});
	f.push_back({"endgame",{{"SampleFactor",rat},{"NumSamplePoints",un},{"NbhdRadius",num}},[=](std::string const& s){ auto c=fill<EndgameConfig>(s); return Fields{{"SampleFactor",D(c.sample_factor)},{"NumSamplePoints",D(c.num_sample_points)},{"NbhdRadius",D(c.min_track_time)}}; }});
	f.push_back({"power series",{{"MaxCycleNum",un}},[=](std::string const& s){ auto c=fill<PowerSeriesConfig>(s); return Fields{{"MaxCycleNum",D(c.max_cycle_number)}}; }});
	f.push_back({"cauchy",{{"CycleTimeCutoff",num},{"RatioTimeCutoff",num}},[=](std::string const& s){ auto c=fill<CauchyConfig>(s); return Fields{{"CycleTimeCutoff",D(c.cycle_cutoff_time)},{"RatioTimeCutoff",D(c.ratio_cutoff_time)}}; }});
	f.push_back({"trackback",{{"MinCycleTrackback",un},{"JunkRemovalTrackback",bo},{"MaxLDTDepth",un}},[=](std::string const& s){ auto c=fill<TrackBackConfig>(s); return Fields{{"MinCycleTrackback",D(c.minimum_cycle)},{"JunkRemovalTrackback",D(c.junk_removal_test)},{"MaxLDTDepth",D(c.max_depth_LDT)}}; }});
	f.push_back({"tolerances",{{"TrackTolBeforeEG",num},{"TrackTolDuringEG",num},{"FinalTol",num},{"PathTruncationThreshold",num}},[=](std::string const& s){ auto c=fill<TolerancesConfig>(s); return Fields{{"TrackTolBeforeEG",D(c.newton_before_endgame)},{"TrackTolDuringEG",D(c.newton_during_endgame)},{"FinalTol",D(c.final_tolerance)},{"PathTruncationThreshold",D(c.path_truncation_threshold)}}; }});
	f.push_back({"zero dim (double)",{{"InitialPrec",un},{"MaxCrossedPathResolves",un},{"StartTime",num},{"EndgameBdry",num},{"TargetTime",num},{"PathVarName",{"=t","=T1","=my_path[2]"}}},
		[=](std::string const& s){ auto c=fill<ZeroDimConfig<dbl>>(s); return Fields{{"InitialPrec",D(c.initial_ambient_precision)},{"MaxCrossedPathResolves",D(c.max_num_crossed_path_resolve_attempts)},{"StartTime",D(c.start_time.real())},{"EndgameBdry",D(c.endgame_boundary.real())},{"TargetTime",D(c.target_time.real())},{"PathVarName","="+c.path_variable_name}}; }});
	f.push_back({"zero dim (mp)",{{"InitialPrec",un},{"MaxCrossedPathResolves",un},{"StartTime",num},{"EndgameBdry",num},{"TargetTime",num},{"PathVarName",{"=t","=T1","=my_path[2]"}}},
		[=](std::string const& s){ auto c=fill<ZeroDimConfig<Mp>>(s); return Fields{{"InitialPrec",D(c.initial_ambient_precision)},{"MaxCrossedPathResolves",D(c.max_num_crossed_path_resolve_attempts)},{"StartTime",D(c.start_time.real())},{"EndgameBdry",D(c.endgame_boundary.real())},{"TargetTime",D(c.target_time.real())},{"PathVarName","="+c.path_variable_name}}; }});
	f.push_back({"midpath",{{"MidpathTol",num}},[=](std::string const& s){ auto c=fill<MidPathConfig>(s); return Fields{{"MidpathTol",D(c.same_point_tolerance)}}; }});
	f.push_back({"retrack",{{"RetrackTolFactor",num}},[=](std::string const& s){ auto c=fill<AutoRetrackConfig>(s); return Fields{{"RetrackTolFactor",D(c.midpath_decrease_tolerance_factor)}}; }});
	f.push_back({"sharpening",{{"SharpenDigits",un},{"FunctionTolerance",num},{"RatioTolerance",num}},[=](std::string const& s){ auto c=fill<SharpeningConfig>(s); return Fields{{"?SharpenDigits",D(c.sharpendigits)},{"FunctionTolerance",D(c.function_residual_tolerance)},{"RatioTolerance",D(c.ratio_tolerance)}}; }});
	f.push_back({"regeneration",{{"RegenRemoveInf",bo},{"RegenHigherDimTest",bo},{"RegenStartLevel",un},{"SliceTolBeforeEG",num},{"SliceTolDuringEG",num},{"SliceFinalTol",num}},[=](std::string const& s){ auto c=fill<RegenerationConfig>(s); return Fields{{"RegenRemoveInf",D(c.remove_infinite_endpoints)},{"RegenHigherDimTest",D(c.higher_dimension_check)},{"RegenStartLevel",D(c.start_level)},{"?SliceTolBeforeEG",D(c.newton_before_endgame)},{"?SliceTolDuringEG",D(c.newton_during_endgame)},{"?SliceFinalTol",D(c.final_tolerance)}}; }});
	f.push_back({"post-processing",{{"ImagThreshold",num},{"EndpointFiniteThreshold",num},{"EndpointSameThreshold",num}},[=](std::string const& s){ auto c=fill<PostProcessingConfig>(s); return Fields{{"ImagThreshold",D(c.real_threshold)},{"EndpointFiniteThreshold",D(c.endpoint_finite_threshold)},{"EndpointSameThreshold",D(c.same_point_tolerance)}}; }});
	f.push_back({"precision type",{{"MPType",{"#0=0","#1=1","#2=1"}}},[=](std::string const& s){ auto c=fill<PrecisionType>(s); return Fields{{"MPType","="+std::to_string((int)c)}}; }});
	{ std::vector<std::string> v; std::vector<Predictor> w={Predictor::Constant,Predictor::Euler,Predictor::Heun,Predictor::RK4,Predictor::HeunEuler,Predictor::RKNorsett34,Predictor::RKF45,Predictor::RKCashKarp45,Predictor::RKDormandPrince56,Predictor::RKVerner67};
	  for (size_t k=0;k<w.size();k++) v.push_back("#"+std::to_string((int)k-1)+"="+std::to_string((int)w[k]));
	  f.push_back({"predictor",{{"ODEPredictor",v}},[=](std::string const& s){ auto c=fill<Predictor>(s); return Fields{{"ODEPredictor","="+std::to_string((int)c)}}; }}); }
	{ using A=algorithm::classic::AlgoChoice; std::vector<std::string> v; std::vector<A> w={A::EvalFunctions,A::EvalFunctionJacobian,A::NewtonIteration,A::NewtonIterationCondNum,A::ZeroDim,A::NID,A::SampleComponent,A::MembershipTest,A::ExtractWitnessSet,A::WitnessSetProjection,A::IsosingularStab};
	  for (size_t k=0;k<w.size();k++) v.push_back("#"+std::to_string((int)k-4)+"="+std::to_string((int)w[k]));
	  f.push_back({"algorithm",{{"TrackType",v}},[=](std::string const& s){ auto c=fill<A>(s); return Fields{{"TrackType","="+std::to_string((int)c)}}; }}); }
	return f;
}
// what is written in the file for a value, and what it should become
static std::string written(std::string const& v) { if (v[0]=='#') return v.substr(1,v.find('=')-1); if (v[0]=='=') return v.substr(1); return v; }
static std::string becomes(std::string const& v) { if (v[0]=='#') return v.substr(v.find('=')); if (v[0]=='=') return v; return canon(value_of(v)); }
void P17(mc::Run& r)
{
	bertini::DefaultPrecision(20);
	auto fam=families();
	for (auto& f:fam) f.defaults=f.parse("");
	// settings of other families, to be passed over
	std::vector<std::string> other={"","% \n","TrackType: 1;","MaxNewtonIts: 3;","FinalTol: 1e-9;","MPType: 2;","SecurityLevel: 1; SampleFactor: 0.1;","Unknown: 4; Other: abc;"};
	int maxn=r.thorough()?4:3;
	for (size_t fi=0;fi<fam.size();fi++)
	{
		Family const& f=fam[fi]; int n=f.settings.size();
		auto one=[&](std::vector<std::pair<int,int>> const& pick,int style,size_t oth,int place)
		{
			auto build=[&]{
				std::string s; auto put=[&](std::string const& t){ s+=t; };
				auto others=[&]{ std::string o=other[oth]; if (o=="% \n") o=""; return o.empty()?std::string():o+(style==1?"\n":" "); };
				if (place==0) put(others());
				for (size_t k=0;k<pick.size();k++)
				{
					std::string nm=f.settings[pick[k].first].name, v=written(f.settings[pick[k].first].values[pick[k].second]);
					if (style==1) for (auto& c:nm) c=tolower(c); if (style==2) for (auto& c:nm) c=toupper(c);
					put(style==0?nm+": "+v+";\n":style==1?nm+":"+v+";":nm+" :\t"+v+" ;\r\n");
					if (place==1 && k==0) put(others());
				}
				if (place==2) put(others());
				return s;
			};
			for (auto const& p:pick) { std::string nm=f.settings[p.first].name; for (auto& c:nm) c=tolower(c); std::string o=other[oth]; for (auto& c:o) c=tolower(c); if (o.find(nm+":")!=std::string::npos) return; }
			{ std::string o=other[oth]; for (auto const& st:f.settings) if (o.find(st.name+":")!=std::string::npos) return; }
			r.test([&]{ return f.name+": "+build(); },[&]{
				Quiet q; std::string s=build(); r.transition(); r.state(s); r.where(f.name);
				Fields want=f.defaults, got;
				for (auto const& p:pick) want[f.settings[p.first].name]=becomes(f.settings[p.first].values[p.second]);
				try { got=f.parse(s); } catch (std::exception const& e) { r.check(false,f.name+" settings are refused",[&]{ return std::string(e.what())+" for "+s; }); return; }
				for (auto const& g:got) // '?' marks fields with no default
				{
					std::string nm=g.first[0]=='?'?g.first.substr(1):g.first;
					bool set=false; for (auto const& p:pick) set=set||f.settings[p.first].name==nm;
					if (g.first[0]=='?' && !set) continue;
					r.check(g.second==want[nm],f.name+": "+nm,[&]{ return nm+" should be "+want[nm]+", is "+g.second+" after reading "+s; });
				}
			});
		};
		// every ordered choice of up to maxn settings; values: all for one or two, the first for more
		std::function<void(std::vector<std::pair<int,int>>)> rec=[&](std::vector<std::pair<int,int>> pick)
		{
			for (int style=0;style<3;style++) for (size_t oth=0;oth<other.size();oth++) for (int place=0;place<3;place++)
			{
				if (oth<2 && place) continue;
				if (oth==1) continue;
				if (pick.size()>1 && style && oth) continue;
				one(pick,style,oth,place);
			}
			if ((int)pick.size()>=maxn) return;
			for (int k=0;k<n;k++)
			{
				bool used=false; for (auto const& p:pick) used=used||p.first==k; if (used) continue;
				int nv=pick.size()<2?f.settings[k].values.size():1;
				for (int v=0;v<nv;v++) { auto q=pick; q.push_back({k,v}); rec(q); }
			}
		};
		rec({});
		// all of them, forwards and backwards
		for (int dir=0;dir<2;dir++) for (int style=0;style<3;style++) for (size_t oth=2;oth<other.size();oth++) for (int place=0;place<3;place++)
		{ std::vector<std::pair<int,int>> all; for (int k=0;k<n;k++) { int j=dir?n-1-k:k; all.push_back({j,(int)(k%f.settings[j].values.size())}); } one(all,style,oth,place); }
	}
	// one config section with all settings of all families, rotated, in both directions and every choice of values, read by every family
	struct Item { size_t f; int s; }; std::vector<Item> items; std::set<std::string> seen;
	for (size_t fi=0;fi<fam.size();fi++) for (size_t k=0;k<fam[fi].settings.size();k++) if (seen.insert(fam[fi].settings[k].name).second) items.push_back({fi,(int)k});
	for (size_t fi=0;fi<fam.size();fi++) for (size_t rot=0;rot<items.size();rot+=(r.thorough()?1:3)) for (int dir=0;dir<2;dir++) for (int val=0;val<5;val++) for (int style=0;style<3;style++)
		r.test([&]{ return fam[fi].name+" out of all settings, rotated by "+std::to_string(rot)+(dir?" backwards":"")+" values "+std::to_string(val)+" style "+std::to_string(style); },[&]{
			Family const& f=fam[fi]; std::string s; Fields want=f.defaults; std::set<std::string> set;
			for (size_t k=0;k<items.size();k++)
			{
				auto const& it=items[((dir?items.size()-1-k:k)+rot)%items.size()]; Setting const& st=fam[it.f].settings[it.s]; std::string v=st.values[(val+k)%st.values.size()], nm=st.name;
				for (auto const& own:f.settings) if (own.name==nm) { want[nm]=becomes(v); set.insert(nm); }
				if (style==1) for (auto& c:nm) c=tolower(c); if (style==2) for (auto& c:nm) c=toupper(c);
				s+=style==0?nm+": "+written(v)+";\n":style==1?nm+":"+written(v)+";":nm+" :\t"+written(v)+" ;\r\n";
			}
			Quiet q; r.transition(); r.state(s); r.where(f.name); Fields got;
			try { got=f.parse(s); } catch (std::exception const& e) { r.check(false,f.name+" settings are refused",[&]{ return std::string(e.what())+" for "+s; }); return; }
			for (auto const& g:got) { std::string nm=g.first[0]=='?'?g.first.substr(1):g.first; if (g.first[0]=='?' && !set.count(nm)) continue; r.check(g.second==want[nm],f.name+": "+nm,[&]{ return nm+" should be "+want[nm]+", is "+g.second+" after reading "+s; }); }
		});
}

int main(int argc,char** argv)
{
	return mc::main_loop(argc,argv,{{"P13",P13},{"P14",P14},{"P15",P15},{"P16",P16},{"P17",P17}});
}
