// Reporting, tracing and watchdog support shared by all exploration harnesses.
// A harness explores exhaustively inside stated bounds; the first violated
// oracle (or crash, sanitizer report, hang) ends the process with exit code 1
// after printing one line  "@FAIL {json}"  holding the operation trace that
// leads to it.  On success it prints "@STAT {json}" and exits 0.
#ifndef VF_HPP
#define VF_HPP
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf{

struct Ctx{
  std::string config;                    // static description of the harness configuration
  std::function<std::string()> trace;    // renders the current trace
  std::string replay_key;                // machine readable trace, for --replay
  volatile std::uint64_t heartbeat=0;
  std::uint64_t alarm_last=~std::uint64_t(0);
  int alarm_still=0;
  std::map<std::string,long long> stats;
  std::map<std::string,std::set<std::string>> sets;
  std::vector<std::string> samples;
  bool quiet=false;
  bool dying=false;
};
inline Ctx& ctx(){static Ctx* c=new Ctx;return *c;}

inline std::string jesc(const std::string& s){
  std::string r;
  for(char ch:s){
    if(ch=='"'||ch=='\\'){r+='\\';r+=ch;}
    else if(ch=='\n')r+="\\n";
    else if((unsigned char)ch<32)r+=' ';
    else r+=ch;
  }
  return r;
}

inline void emit_fail(const std::string& kind,const std::string& what){
  auto& c=ctx();
  if(c.dying)return;
  c.dying=true;
  std::string tr;
  if(c.trace)tr=c.trace();
  std::string line="@FAIL {\"kind\":\""+jesc(kind)+"\",\"config\":\""+jesc(c.config)+
    "\",\"what\":\""+jesc(what)+"\",\"trace\":\""+jesc(tr)+"\",\"key\":\""+jesc(c.replay_key)+"\"}\n";
  fflush(stdout);
  ssize_t r=write(1,line.data(),line.size());(void)r;
}

[[noreturn]] inline void fail(const char* fmt,...){
  char buf[4096];
  va_list ap;va_start(ap,fmt);vsnprintf(buf,sizeof buf,fmt,ap);va_end(ap);
  emit_fail("oracle",buf);
  _exit(1);
}

#define VF_CHECK(cond,...) do{ if(!(cond)) ::vf::fail(__VA_ARGS__); }while(0)

inline void death_cb(){emit_fail("sanitizer","memory error, abort or leak detected by the address sanitizer or an assertion (see stderr)");_exit(1);}
inline void sig_cb(int sig){
  char b[80];snprintf(b,sizeof b,"killed by signal %d",sig);
  emit_fail("signal",b);_exit(1);
}
inline void alarm_cb(int){
  auto& last=ctx().alarm_last;
  auto& still=ctx().alarm_still;
  auto h=ctx().heartbeat;
  if(h==last){
    if(++still>=6){emit_fail("hang","no progress: an operation does not terminate");_exit(1);}
  }else{still=0;last=h;}
  alarm(10);
}
inline void terminate_cb(){
  std::string w="std::terminate called";
  if(auto e=std::current_exception()){
    try{std::rethrow_exception(e);}
    catch(const std::exception& x){w+=std::string(": unexpected exception ")+x.what();}
    catch(...){w+=": unexpected exception";}
  }
  emit_fail("terminate",w);_exit(1);
}

inline void init(const std::string& config){
  ctx().config=config;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(death_cb);
#else
  signal(SIGSEGV,sig_cb);signal(SIGBUS,sig_cb);
#endif
  signal(SIGABRT,sig_cb);signal(SIGFPE,sig_cb);signal(SIGILL,sig_cb);
  signal(SIGALRM,alarm_cb);
  std::set_terminate(terminate_cb);
  alarm(10);
}

inline void beat(){ctx().heartbeat=ctx().heartbeat+1;}
inline long long& stat(const char* k){return ctx().stats[k];}
inline void sample(const std::string& s,std::size_t maxn=4){if(ctx().samples.size()<maxn)ctx().samples.push_back(s);}

inline int finish(){
  auto& c=ctx();
  std::string line="@STAT {\"config\":\""+jesc(c.config)+"\"";
  for(auto& p:c.stats)line+=",\""+p.first+"\":"+std::to_string(p.second);
  for(auto& p:c.sets)line+=",\"distinct_"+p.first+"\":"+std::to_string(p.second.size());
  line+=",\"samples\":[";
  for(std::size_t i=0;i<c.samples.size();++i)line+=std::string(i?",":"")+"\""+jesc(c.samples[i])+"\"";
  line+="]}\n";
  fputs(line.c_str(),stdout);fflush(stdout);
  return 0;
}

inline bool has_flag(int argc,char** argv,const char* f){
  for(int i=1;i<argc;++i)if(!strcmp(argv[i],f))return true;
  return false;
}
inline const char* get_opt(int argc,char** argv,const char* f,const char* def){
  for(int i=1;i+1<argc;++i)if(!strcmp(argv[i],f))return argv[i+1];
  return def;
}
inline int get_int(int argc,char** argv,const char* f,int def){
  const char* s=get_opt(argc,argv,f,nullptr);return s?atoi(s):def;
}

}
#endif
