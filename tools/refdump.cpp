#include "../engine/ref.hpp"
#include <cstdio>
using namespace ref;
static void pr(Q x){ char b[80]; quadmath_snprintf(b,80,"%.36Qe",x); printf(" %s",b);}
int main(){
  // deterministic grid: n, z
  const int ns[]={-200,-100,-60,-40,-25,-20,-12,-11,-10,-9,-5,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,15,16,20,31,50,100,129,150,200};
  const double xs[]={-1e300,-1234.5,-20,-3,-2,-1.5,-1.01,-1,-0.99,-0.7,-0.5,-0.3,-1e-3,-1e-20,0,1e-20,1e-3,0.3,0.5,0.7,0.9,0.99,1,1.01,1.3,2,2.5,7,100,1e10,1e300};
  const double ys[]={-1e300,-50,-1.3,-0.5,-1e-3,-1e-18,0,1e-18,1e-5,0.1,0.5,0.8,1,1.1,3,30,1e200};
  for(int n:ns) for(double x:xs) for(double y:ys){ if(n<=1 && x==1&&y==0) continue; Q e; C<Q> r=polylog<Q>(n,C<Q>(x,y),&e);
    printf("L %d %a %a",n,x,y); pr(r.re); pr(r.im); printf(" %g\n",(double)e);}
  const double ts[]={1e-300,1e-10,1e-3,0.1,0.5,1,1.5,1.6,2,2.5,3,3.14,3.1415926,3.141592653589793};
  for(int n=1;n<=200;n=n<40?n+1:n+53) for(double t:ts){ printf("C %d %a 0",n,t); pr(clausen<Q>(n,t)); pr(glaisher<Q>(n,t)); printf(" 0\n"); }
  for(int n: {1,2,5,50,99,100,101,102,500,100000}) { printf("H %d 0 0",n); pr(harmonic_num<Q>(n)); pr(0); printf(" 0\n"); }
}
