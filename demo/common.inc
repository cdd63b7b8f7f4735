#include "qdp.h"
#include <cstdio>
using namespace QDP;
static void start(int x,int y,int z,int t){ int ac=1; char a0[]="demo"; char* av[]={a0,nullptr}; char** pv=av; QDP_initialize(&ac,&pv);
  multi1d<int> n(Nd); n[0]=x;n[1]=y;n[2]=z;n[3]=t; Layout::setLattSize(n); Layout::create(); }
static int fails=0;
#define CHECK(c) do { if (!(c)) { ++fails; printf("FAILED line %d: %s\n",__LINE__,#c);} } while(0)
static int finish(){ QDP_finalize(); printf(fails?"DEMO FAILS\n":"DEMO OK\n"); fflush(stdout); return fails?1:0; }
