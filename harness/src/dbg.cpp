#include "sim.h"
void dumpRec(const Rec& r){
  for(size_t i=0;i<r.sub.size();++i){ printf("  %-45s",r.subLabels[i].c_str()); for(int t=0;t<r.steps;++t) printf(" %10.5f",r.sub[i][t]); puts(""); }
  for(size_t i=0;i<r.hu.size();++i) for(int u=0;u<r.hu[i].cols();++u){ printf("  %-43s u%d",r.huLabels[i].c_str(),u); for(int t=0;t<r.steps;++t) printf(" %10.5f",r.hu[i](t,u)); puts(""); }
  for(size_t i=0;i<r.fr.size();++i) for(int u=0;u<r.fr[i].cols();++u){ printf("  F %-41s u%d",r.frLabels[i].c_str(),u); for(int t=0;t<r.steps;++t) printf(" %10.5f",r.fr[i](t,u)); puts(""); }
}
