// t0: smoke test of the build (linked by setup_cmd)
#include "sg.h"
PBT(smoke, {.quick=1000}) { int a=c.i(0,10); c.nontrivial(); c.describe("%d",a); double x=SGRID_min2(a,3); c.check(x<=3,"no"); }
