// Tiny exhaustive-exploration framework.
//
// A harness enumerates, deterministically, every case of a bounded space.  The enumeration is
// walked by several worker processes; worker w executes the cases whose index is w modulo the number
// of workers.  A case is executed on the real code; it reports mismatches through Run::fail().  A
// crash (assertion, abort, segfault, uncaught exception) or a hang inside a case is itself recorded
// as a failure of that case, and the walk goes on after it.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <chrono>
#include <exception>
#include <algorithm>

namespace mc {

inline uint64_t hash_str(std::string const& s, uint64_t h = 1469598103934665603ULL)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return h;
}

inline std::string json_escape(std::string const& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c=='"' || c=='\\') { r += '\\'; r += c; }
		else if (c=='\n') r += "\\n";
		else if (c=='\t') r += "\\t";
		else if (c<32 || c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
		else r += c;
	}
	return r;
}

struct Slot // one per worker, in shared memory
{
	volatile int64_t current;     // index of the case being executed, or -1
	volatile int64_t total;       // cases enumerated, set at the end
	char label[4096];
	char where[512];
};

struct Abandon {}; // thrown to leave a case early (after a failure has been recorded)

class Run
{
public:
	std::string tier = "quick";
	int jobs = 8, me = 0;
	int64_t only = -1, resume_after = -1;
	unsigned case_seconds = 120;
	bool verbose = false;
	int max_per_key = 4;
	std::string filter; // only cases whose label starts with this

	bool thorough() const { return tier=="thorough"; }

	// --- used by harnesses ---
	template<class L, class B>
	void test(L const& label, B const& body)
	{
		int64_t ix = counter_++;
		if (only>=0) { if (ix!=only) return; }
		else if (ix%jobs != me || ix<=resume_after) return;
		std::string lab = label();
		if (!filter.empty() && lab.compare(0,filter.size(),filter)!=0) return;
		current_ix_ = ix; current_label_ = lab; failed_here_ = 0;
		if (slot_)
		{
			snprintf(slot_->label,sizeof slot_->label,"%s",lab.c_str());
			slot_->where[0]=0;
			slot_->current = ix;
		}
		if (only<0) alarm(case_seconds);
		++evaluations_;
		if (evaluations_==1 || evaluations_==257) samples_.push_back(lab);
		try { body(); }
		catch (Abandon const&) {}
		catch (std::exception const& e) { fail("exception", std::string("uncaught exception: ")+e.what()); }
		catch (...) { fail("exception","uncaught exception of unknown type"); }
		alarm(0);
		if (slot_) slot_->current = -1;
		if ((evaluations_ & 1023)==0) flush();
	}

	void fail(std::string const& key, std::string const& msg)
	{
		++violations_; ++failed_here_;
		int& n = per_key_[key];
		if (n++ < max_per_key) { emit("V\t"+std::to_string(current_ix_)+"\t"+one_line(key)+"\t"+one_line(current_label_)+"\t"+one_line(msg)); flush(); }
		if (only>=0) std::cout << "  MISMATCH [" << key << "] " << msg << "\n";
	}
	void check(bool ok, std::string const& key, std::function<std::string()> const& msg)
	{
		++checks_;
		if (!ok) fail(key,msg());
	}
	bool failed_here() const { return failed_here_>0; }
	// a state (canonical text) reached by the exploration
	void state(std::string const& s) { states_.insert(hash_str(s)); }
	void state(uint64_t h) { states_.insert(h); }
	void transition(uint64_t n=1) { transitions_ += n; }
	void outcome(std::string const& s) { ++outcomes_[s]; }
	void where(std::string const& s) { if (slot_) snprintf(slot_->where,sizeof slot_->where,"%s",s.c_str()); }
	void sample(std::string const& s) { if (samples_.size()<6) samples_.push_back(s); }
	int64_t index() const { return current_ix_; }
	std::string const& label() const { return current_label_; }

	// --- plumbing ---
	static std::string one_line(std::string s)
	{
		for (auto& c : s) if (c=='\n'||c=='\t'||c=='\r') c=' ';
		if (s.size()>1500) s = s.substr(0,1500)+"...";
		return s;
	}
	void emit(std::string const& l) { if (out_) { fputs(l.c_str(),out_); fputc('\n',out_);} }
	void flush() { if (out_) fflush(out_); }
	void finish()
	{
		emit("N\t"+std::to_string(evaluations_)+"\t"+std::to_string(checks_)+"\t"+std::to_string(transitions_)+"\t"+std::to_string(violations_));
		for (auto const& o : outcomes_) emit("O\t"+one_line(o.first)+"\t"+std::to_string(o.second));
		for (auto h : states_) emit("S\t"+std::to_string(h));
		for (auto const& s : samples_) emit("X\t"+one_line(s));
		for (auto const& k : per_key_) emit("K\t"+one_line(k.first)+"\t"+std::to_string(k.second));
		if (slot_) slot_->total = counter_;
		flush();
	}
	Slot* slot_ = nullptr;
	FILE* out_ = nullptr;
	int64_t counter_ = 0;
	int64_t checks_ = 0;
private:
	int64_t current_ix_ = -1;
	std::string current_label_;
	int failed_here_ = 0;
	int64_t evaluations_ = 0, transitions_ = 0, violations_ = 0;
	std::map<std::string,int> per_key_;
	std::map<std::string,int64_t> outcomes_;
	std::unordered_set<uint64_t> states_;
	std::vector<std::string> samples_;
};

typedef void (*EnumFn)(Run&);

inline int main_loop(int argc, char** argv, std::map<std::string,EnumFn> const& props)
{
	std::string prop, tier="quick", outfile, filter;
	int jobs=8; int64_t only=-1; unsigned case_seconds=120; int max_crashes=60; bool list=false; int max_per_key=4; double budget=700;
	for (int i=1;i<argc;i++)
	{
		std::string a=argv[i];
		auto next=[&]{ return std::string(argv[++i]); };
		if (a=="--prop") prop=next(); else if (a=="--tier") tier=next(); else if (a=="--jobs") jobs=std::stoi(next());
		else if (a=="--out") outfile=next(); else if (a=="--case") only=std::stoll(next());
		else if (a=="--case-seconds") case_seconds=std::stoul(next());
		else if (a=="--filter") filter=next();
		else if (a=="--max-per-key") max_per_key=std::stoi(next());
		else if (a=="--budget") budget=std::stod(next());
		else if (a=="--list") list=true;
	}
	auto it = props.find(prop);
	if (it==props.end()) { std::cerr << "unknown property " << prop << "\n"; return 2; }
	auto t0 = std::chrono::steady_clock::now();
	if (only>=0)
	{
		Run r; r.tier=tier; r.jobs=1; r.only=only;
		r.out_=stdout;
		it->second(r);
		r.finish();
		return 0;
	}
	Slot* slots = (Slot*)mmap(0,sizeof(Slot)*jobs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	std::vector<std::string> files; std::vector<pid_t> pid(jobs); std::vector<int> crashes(jobs,0);
	std::vector<std::string> extra; // violations recorded by the parent
	int nfile=0;
	auto start=[&](int w,int64_t resume)
	{
		std::string f = outfile+".w"+std::to_string(w)+"."+std::to_string(nfile++);
		files.push_back(f);
		fflush(stdout); fflush(stderr);
		pid_t p=fork();
		if (p==0)
		{
			struct rlimit rl; rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
			rl.rlim_cur=rl.rlim_max=3ULL<<30; setrlimit(RLIMIT_AS,&rl);
			Run r; r.tier=tier; r.jobs=jobs; r.me=w; r.resume_after=resume; r.case_seconds=case_seconds; r.filter=filter; r.max_per_key=max_per_key;
			r.slot_=&slots[w]; r.slot_->current=-1;
			r.out_=fopen(f.c_str(),"w");
			if (!freopen((f+".log").c_str(),"w",stderr)) {}
			if (!freopen("/dev/null","w",stdout)) {}
			it->second(r);
			r.finish();
			fclose(r.out_);
			_exit(0);
		}
		pid[w]=p;
	};
	for (int w=0;w<jobs;w++) { slots[w].total=-1; start(w,-1); }
	int alive=jobs; int total_crashes=0, total_hangs=0; bool stopping=false;
	while (alive>0)
	{
		int st; pid_t p=waitpid(-1,&st,WNOHANG);
		if (p==0)
		{
			double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
			if (el>budget && !stopping) { stopping=true; extra.push_back("T\tstopped: out of time"); for (int i=0;i<jobs;i++) kill(pid[i],SIGKILL); }
			usleep(20000); continue;
		}
		if (p<0) break;
		if (stopping) { alive--; continue; }
		int w=-1; for (int i=0;i<jobs;i++) if (pid[i]==p) w=i; if (w<0) continue;
		if (WIFEXITED(st) && WEXITSTATUS(st)==0) { alive--; continue; }
		std::string how = WIFSIGNALED(st) ? (WTERMSIG(st)==SIGALRM ? std::string("hang") : "signal "+std::to_string(WTERMSIG(st))) : "exit "+std::to_string(WEXITSTATUS(st));
		std::string log; { std::ifstream in(files.empty()?"":"" ); }
		// last line of that worker's stderr
		for (auto const& f : files) if (f.find(".w"+std::to_string(w)+".")!=std::string::npos) { std::ifstream in(f+".log"); std::string l; log=""; while (std::getline(in,l)) if (!l.empty()) log=l; }
		if (slots[w].current<0)
		{
			extra.push_back("E\t"+how+" outside any case (worker "+std::to_string(w)+"): "+Run::one_line(log));
			alive--; continue;
		}
		std::string key = (how=="hang") ? "hang" : "crash";
		if (slots[w].where[0]) key += std::string(":")+slots[w].where;
		extra.push_back("V\t"+std::to_string(slots[w].current)+"\t"+Run::one_line(key)+"\t"+Run::one_line(slots[w].label)+"\t"+how+": "+Run::one_line(log));
		crashes[w]++; total_crashes++;
		if (key.compare(0,4,"hang")==0) total_hangs++;
		if (total_crashes>max_crashes || total_hangs>8) { extra.push_back("T\tstopped after too many crashes"); alive--; continue; }
		start(w,slots[w].current);
	}
	std::ofstream out(outfile);
	for (auto const& f : files) { std::ifstream in(f); if (in.peek()!=EOF) out << in.rdbuf(); unlink(f.c_str()); unlink((f+".log").c_str()); }
	for (auto const& e : extra) out << e << "\n";
	int64_t total=-1; for (int w=0;w<jobs;w++) total=std::max(total,(int64_t)slots[w].total);
	out << "C\t" << total << "\n";
	double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
	out << "W\t" << wall << "\n";
	return 0;
}

} // namespace mc
