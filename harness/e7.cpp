// Move-only element type whose move constructor may throw: every operation
// that may relocate, from every small (size, capacity).  Relocation that
// reports not_copy_constructible is the recorded finding; anything else that
// deviates is a violation.
#include "world.hpp"
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
using namespace vf;
using Model=Mod<VF_MODEL>;
using C=Model::coll<0>;
using A=C::allocator_type;
static std::string cur;
int main(int argc,char** argv){
  init(Model::name);
  ctx().trace=[]{ctx().replay_key.clear();return cur;};
  static const char* kn[]={"emplace","insert(T&&)","emplace_pos at begin","insert(pos,T&&)","reserve","emplace_hint","insert(erased rvalue)"};
  std::set<std::string> known;
  for(int n=0;n<5;++n)for(int cap=n;cap<6;++cap)for(int kind=0;kind<7;++kind){
    beat();
    char b[128];snprintf(b,sizeof b,"%d elements, capacity %d, %s",n,cap,kn[kind]);cur=b;
    {
      C c{A(1)},src{A(1)};
      c.reserve<E7>(cap);
      std::vector<int> v;
      for(int i=0;i<n;++i){c.emplace<E7>(10+i);v.push_back(10+i);}
      src.emplace<E7>(99);
      std::size_t k0=c.capacity<E7>();
      bool relocates=kind==4?k0<9:(std::size_t)n==k0;
      const std::type_info* pi;
      E7 x(99);
      int out=World<VF_MODEL,TL<E7>,0>::catching([&]{
        switch(kind){
        case 0:c.emplace<E7>(99);break;
        case 1:c.insert(std::move(x));break;
        case 2:c.emplace_pos(c.begin<E7>(),99);break;
        case 3:c.insert(c.begin<E7>(),std::move(x));break;
        case 4:c.reserve<E7>(9);break;
        case 5:c.emplace_hint<E7>(c.cbegin(),99);break;
        case 6:c.insert(std::move(*src.begin()));break;
        }
      },pi);
      if(out==NOTCOPY&&relocates&&n>0){
        VF_CHECK(*pi==typeid(E7),"not_copy_constructible carries a wrong type");
        known.insert(kn[kind]);
      }
      else{
        VF_CHECK(out==OK_,"%s gave %s",kn[kind],outname(out));
        if(kind!=4){
          bool front=kind==2||kind==3||kind==5;
          v.insert(front?v.begin():v.end(),99);
        }
      }
      std::size_t k=0;
      for(auto it=c.cbegin<E7>();it!=c.cend<E7>();++it,++k){
        VF_CHECK(k<v.size()&&it->val()==v[k]&&Model::code(*(c.cbegin(typeid(E7))+k))==it->code(),"contents after %s",kn[kind]);
      }
      VF_CHECK(k==v.size()&&c.size()==k,"size after %s",kn[kind]);
    }
    VF_CHECK(life().live==0&&heap().blocks.empty(),"leak");
    ++stat("transitions");++stat("histories");
  }
  ++stat("states_expanded");
  if(!known.empty())printf("@KNOWN %s: growing a non-empty segment of a move-only type whose move constructor may throw reports not_copy_constructible (emplace, emplace_hint, emplace_pos, insert of rvalues, reserve)\n",Model::name);
  sample("3 elements, capacity 3, emplace");
  return finish();
}
