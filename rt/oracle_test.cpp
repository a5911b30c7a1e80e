// differential test of the oracle against brute force
#include "oracle.h"
#include <random>
#include <cstdio>
#include <algorithm>
using namespace oracle;
static bool brute(bool lifo,std::vector<LOp>const&ops,uint64_t done,std::vector<uint32_t>st){
  if(done==(1ull<<ops.size())-1) return true;
  for(size_t i=0;i<ops.size();++i){ if(done>>i&1||(ops[i].pred&~done))continue;
    auto s=st; auto&o=ops[i]; bool ok=true;
    switch(o.type){case ADD:s.insert(s.end(),o.v.begin(),o.v.end());break;
     case REM_EMPTY:case SEEN_EMPTY:ok=s.empty();break;case SEEN_NONEMPTY:ok=!s.empty();break;
     case REM: ok=!s.empty()&&(lifo?s.back():s.front())==o.v[0]; if(ok){ if(lifo)s.pop_back();else s.erase(s.begin());}break;
     case REM_ALL:{auto t=s; if(lifo)std::reverse(t.begin(),t.end()); ok=t==o.v; s.clear();}}
    if(ok&&brute(lifo,ops,done|1ull<<i,s))return true;}
  return false;}
int main(){ std::mt19937 g(1); int yes=0,no=0;
 for(int it=0;it<300000;++it){ bool lifo=g()%2; int n=2+g()%7; std::vector<LOp> ops; std::vector<uint32_t> pend; uint32_t id=1;
  // random ops; values removed = shuffled
  std::vector<uint32_t> vals;
  for(int i=0;i<n;++i){ LOp o; int k=g()%8; if(k<3){o.type=ADD; int c=1+(g()%4==0); while(c--){o.v.push_back(id); vals.push_back(id++);} }
   else if(k<6){ if(vals.empty()){o.type=REM_EMPTY;} else {o.type=REM; int j=g()%vals.size(); o.v={vals[j]}; vals.erase(vals.begin()+j);} }
   else if(k==6){o.type=Type(g()%2?REM_EMPTY:(g()%2?SEEN_EMPTY:SEEN_NONEMPTY));}
   else { if(vals.empty()||!(g()%3)) o.type=SEEN_NONEMPTY; else {o.type=REM_ALL; o.v=vals; if(g()%2)std::reverse(o.v.begin(),o.v.end()); vals.clear();} }
   for(int j=0;j<i;++j) if(g()%5==0) o.pred|=1ull<<j;
   ops.push_back(o);}
  // shuffle index order
  std::vector<int> p(n); for(int i=0;i<n;++i)p[i]=i; std::shuffle(p.begin(),p.end(),g);
  std::vector<LOp> q(n); for(int i=0;i<n;++i){ q[p[i]]=ops[i]; uint64_t m=0; for(int j=0;j<n;++j) if(ops[i].pred>>j&1)m|=1ull<<p[j]; q[p[i]].pred=m;}
  bool b=brute(lifo,q,0,{}); int r=linearizable(lifo,q); if((int)b!=r){printf("DIFF it=%d lifo=%d b=%d r=%d\n",it,lifo,b,r);return 1;} b?yes++:no++; }
 printf("yes %d no %d\n",yes,no);}
