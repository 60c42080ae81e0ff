// Command line shared by the simulated worlds: gen | replay | run
#pragma once
#include "core.hpp"
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#ifndef SIM_COORD
#define SIM_COORD std::int32_t
#define SIM_INDEX std::size_t
#endif
using namespace sim;
using Coord = SIM_COORD;
using Index = SIM_INDEX;

struct Collector : VSink {
    std::vector<Violation> v;
    std::mutex m;
    void viol(const char *p,const std::string &k,const std::string &msg) override {
        User u;
        std::lock_guard<std::mutex> l(m);
        if(v.size() < 8) v.push_back({p,k,msg});
    }
};

struct Result { std::vector<Violation> v; u64 hash = 0; u64 nontrivial = 0; u64 sched = 0; };

inline void on_alarm(int) { fatal(99,"hang","CPU time limit of one simulated run exceeded"); }
inline void arm_cpu(int sec) {
    struct itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL,&it,nullptr);
}


// supplied by each world
Result run_plan(const Plan &p,std::set<std::string> *want,Stats &st,bool verbose=false);
Plan plan_for(const std::string &prop,u64 seed,u64 index);

inline std::string prop_of(const Plan &p) { char b[16]; std::snprintf(b,sizeof b,"C%02d",(int)p.get("prop",0)); return b; }

inline void term_handler() {
    const char *w = "std::terminate";
    char buf[256];
    std::snprintf(buf,sizeof buf,"%s",w);
    if(auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch(const std::bad_alloc&) { std::snprintf(buf,sizeof buf,"std::terminate with std::bad_alloc in flight"); }
        catch(const Injected&) { std::snprintf(buf,sizeof buf,"std::terminate with the caller's exception in flight"); }
        catch(const AssertFailed &a) { std::snprintf(buf,sizeof buf,"std::terminate after failed internal check %s",a.what.c_str()); }
        catch(const StepCap&) { std::snprintf(buf,sizeof buf,"std::terminate with step bound in flight"); }
        catch(const std::exception &x) { std::snprintf(buf,sizeof buf,"std::terminate with %s in flight",x.what()); }
        catch(...) {}
    }
    fatal(97,"terminate",buf);
}

inline int driver_main(int argc,char **argv) {
    std::set_terminate(term_handler);
    signal(SIGVTALRM,on_alarm);
    std::map<std::string,std::string> o;
    std::vector<std::string> pos;
    for(int i=1; i<argc; ++i) {
        std::string a = argv[i];
        if(a.rfind("--",0) == 0) { std::string v = i+1 < argc ? argv[i+1] : ""; o[a.substr(2)] = v; ++i; }
        else pos.push_back(a);
    }
    if(pos.empty()) return 2;
    auto num = [&](const char *k,u64 d) { return o.count(k) ? std::stoull(o[k]) : d; };
    std::set<std::string> want;
    if(pos[0] == "gen") {
        std::cout << plan_for(o["prop"],num("seed",1),num("index",0)).text();
        return 0;
    }
    if(pos[0] == "replay") {
        std::ifstream f(pos.at(1));
        Plan p;
        if(!Plan::parse(f,p)) { std::cerr << "bad plan\n"; return 2; }
        want.insert(prop_of(p));
        bool all = o.count("all");
        Stats st;
        Result r = run_plan(p,all ? nullptr : &want,st,o.count("verbose"));
        std::printf("HASH %016llx\n",(unsigned long long)r.hash);
        for(auto &v : r.v) std::printf("VIOL %s kind=%s msg=%s\n",v.prop.c_str(),v.kind.c_str(),v.msg.c_str());
        if(o.count("stats")) for(auto &[k,v] : st.n) std::printf("STAT %s %llu\n",k.c_str(),(unsigned long long)v);
        return r.v.empty() ? 0 : 10;
    }
    if(pos[0] == "run") {
        // run indices start, start+step, ... (count of them), reporting progress so that a crash is attributable
        std::string prop = o["prop"];
        want.insert(prop);
        u64 seed = num("seed",1), start = num("start",0), step = num("step",1), count = num("count",1);
        double tmax = o.count("time") ? std::stod(o["time"]) : 1e9;
        int fd = -1;
        if(o.count("progress")) fd = open(o["progress"].c_str(),O_CREAT|O_RDWR,0644);
        int hfd = -1;
        if(o.count("hashes")) hfd = open(o["hashes"].c_str(),O_CREAT|O_RDWR|O_TRUNC,0644);
        std::vector<u64> hbuf;
        bool all = o.count("all");
        int maxviol = (int)num("maxviol",1);
        Stats st;
        auto t0 = std::chrono::steady_clock::now();
        std::set<u64> hashes, scheds;
        u64 done = 0, nontriv = 0, dbl = 0, nondet = 0;
        int nv = 0;
        for(u64 k=0; k<count; ++k) {
            u64 idx = start + k*step;
            if(fd >= 0) (void)!pwrite(fd,&idx,sizeof idx,0);
            if((k & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() > tmax) break;
            Plan p = plan_for(prop,seed,idx);
            Result r = run_plan(p,all ? nullptr : &want,st);
            ++done;
            if(r.nontrivial) ++nontriv;
            hashes.insert(r.hash);
            if(hfd >= 0) { u64 rec[3] = {idx,r.hash,r.nontrivial}; hbuf.insert(hbuf.end(),rec,rec+3); }
            if(r.sched) scheds.insert(r.sched);
            if((k % 16) == 0 || !r.v.empty()) {
                Stats d;
                Result q = run_plan(p,all ? nullptr : &want,d);
                ++dbl;
                if(q.hash != r.hash && r.v.empty() && q.v.empty()) {
                    // the same plan behaved differently the second time: state survives from one run to the next
                    if(!nondet++) { std::printf("NONDET %llu\n",(unsigned long long)idx); std::fflush(stdout); }
                    if(o.count("nondet")) {
                        std::printf("VIOL %s index=%llu kind=hidden_state msg=executing one plan a second time in the same process gives a different history\n",prop.c_str(),(unsigned long long)idx);
                        ++nv; break;
                    }
                }
            }
            for(auto &v : r.v) {
                std::printf("VIOL %s index=%llu kind=%s msg=%s\n",v.prop.c_str(),(unsigned long long)idx,v.kind.c_str(),v.msg.c_str());
                break;
            }
            if(!r.v.empty() && ++nv >= maxviol) { if(fd >= 0) { u64 z = idx; (void)!pwrite(fd,&z,sizeof z,0); } break; }
        }
        if(hfd >= 0) (void)!write(hfd,hbuf.data(),hbuf.size()*8);
        st.n["runs"] = done; st.n["runs_nontrivial"] = nontriv; st.n["runs_executed_twice"] = dbl; st.n["runs_that_differed_when_repeated"] = nondet;
        st.n["distinct_histories"] = hashes.size(); st.n["distinct_schedules"] = scheds.size();
        for(auto &[k,v] : st.n) std::printf("STAT %s %llu\n",k.c_str(),(unsigned long long)v);
        std::printf("DONE\n");
        return nv ? 10 : 0;
    }
    return 2;
}
