// Exploration of operation histories on one collection (see explore.hpp).
#include "explore.hpp"
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_TYPES
#define VF_TYPES E0,E1,E2
#endif
#ifndef VF_AF
#define VF_AF 0
#endif
using namespace vf;
#define VF_STR_(...) #__VA_ARGS__
#define VF_STR(...) VF_STR_(__VA_ARGS__)

int main(int argc,char** argv){
  using W=World<VF_MODEL,TL<VF_TYPES>,VF_AF>;
  std::string cfg=std::string(Mod<VF_MODEL>::name)+" {" VF_STR(VF_TYPES) "}";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  Explorer<W> x;
  x.install_trace();
  std::string mode=get_opt(argc,argv,"--mode","sweep");
  x.oracles=get_int(argc,argv,"--oracles",63);
  x.menu.maxseg=get_int(argc,argv,"--maxseg",2);
  x.menu.maxtotal=get_int(argc,argv,"--maxtotal",4);
  x.shard=get_int(argc,argv,"--shard",0);
  x.nshards=get_int(argc,argv,"--nshards",1);
  x.max_states=get_int(argc,argv,"--max-states",1<<30);
  x.menu.types=(unsigned)get_int(argc,argv,"--types",-1);
  x.lastop=has_flag(argc,argv,"--lastop");
  x.slack=get_int(argc,argv,"--slack",2);
  x.fmask=get_int(argc,argv,"--fmask",F_ALL);
  x.strong=has_flag(argc,argv,"--strong");
  auto ints=[&](const char* o,std::vector<int>& v){
    if(const char* s=get_opt(argc,argv,o,nullptr)){v.clear();std::stringstream ss(s);std::string e;while(std::getline(ss,e,','))v.push_back(atoi(e.c_str()));}
  };
  ints("--counts",x.menu.counts);
  ints("--reserves",x.menu.reserves);
  if(const char* s=get_opt(argc,argv,"--menu",nullptr)){
    std::string m=s;auto has=[&](char ch){return m.find(ch)!=std::string::npos;};
    x.menu.singles=has('s');x.menu.hints=has('h');x.menu.locals=has('l');x.menu.ranges=has('r');x.menu.hranges=has('H');x.menu.lranges=has('L');
    x.menu.mixed=has('m');x.menu.hmixed=has('M');x.menu.erases=has('e');x.menu.errs=has('E');x.menu.clears=has('c');x.menu.caps=has('p');x.menu.regs=has('g');
    x.menu.thin=has('t');
  }
  if(const char* r=get_opt(argc,argv,"--replay",nullptr)){
    // re-execute one recorded trace: operations, optionally ending in "fault n"
    std::string k=r;
    auto ops=parse_ops(k);
    if(ops.empty()){W w;w.oracles=x.oracles;w.check_state();return finish();}
    Op last=ops.back();
    std::vector<Op> path(ops.begin(),ops.end()-1);
    auto f=k.find("fault ");
    if(f!=std::string::npos&&k.find(',',f)!=std::string::npos&&ops.size()>1){
      Op first=path.back();path.pop_back();
      x.one_fault2(path,first,atol(k.c_str()+f+6),&last,atol(k.c_str()+k.find(',',f)+1),nullptr);
    }
    else if(f!=std::string::npos)x.one_fault(path,last,atol(k.c_str()+f+6));
    else x.one(path,last);
    return finish();
  }
  if(mode=="spine"){
    x.max_states=0;
    x.spine(get_int(argc,argv,"--lo",1),get_int(argc,argv,"--hi",20),get_int(argc,argv,"--step",1),has_flag(argc,argv,"--strong"));
    return finish();
  }
  if(mode=="seq"){x.sequences(get_int(argc,argv,"--depth",3));return finish();}
  x.discover();
  stat("states")=(long long)x.paths.size();
  if(mode=="sweep")x.sweep();
  else if(mode=="fault")x.faults();
  else if(mode=="fault2")x.faults2();
  stat("states")=(long long)x.paths.size();
  return finish();
}
