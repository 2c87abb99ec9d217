/* Independent Metropolis simulation of the (optionally rectangle-improved)
   SU(N) Wilson action; gives the reference plaquettes of lib/rupd.py.
   cc -O3 -march=native -DN=3 -DD=4 metropolis.c -lm; ./a.out beta seed sweeps improved L0 L1 .. */
#include <stdio.h>
#include <stdlib.h>
#include <complex.h>
#include <math.h>
#include <string.h>
#include <stdint.h>
typedef double complex z;
static uint64_t s[2];
static double rnd(void){uint64_t a=s[0],b=s[1];s[0]=b;a^=a<<23;s[1]=a^b^(a>>17)^(b>>26);return ((s[1]+b)>>11)*0x1p-53;}
static int L[D],V; static z *U;
#define M(i,mu) (U+((size_t)(i)*D+(mu))*N*N)
static int st(int i,int mu,int n){int q=1;for(int k=0;k<mu;k++)q*=L[k];int x=(i/q)%L[mu];return i+(((x+n)%L[mu]+L[mu])%L[mu]-x)*q;}
static void mm(z*c,const z*a,const z*b,int dg){ // c = a b or a b^+
  for(int i=0;i<N;i++)for(int j=0;j<N;j++){z t=0;for(int k=0;k<N;k++)t+=a[i*N+k]*(dg?conj(b[j*N+k]):b[k*N+j]);c[i*N+j]=t;}}
// product along a path of signed directions starting at *x
static void path(z*p,int x,const int*d,int n){
  z t[N*N];memset(p,0,sizeof(z)*N*N);for(int i=0;i<N;i++)p[i*N+i]=1;
  for(int k=0;k<n;k++){int mu=abs(d[k])-1;
    if(d[k]>0){mm(t,p,M(x,mu),0);x=st(x,mu,1);}else{x=st(x,mu,-1);mm(t,p,M(x,mu),1);}
    memcpy(p,t,sizeof t);}}
// staple A(x,mu) so that the action is -beta/N Re tr U A, A the closing path from x+mu back to x
static void stap(z*A,int x,int mu,double c0,double c1){
  z p[N*N];memset(A,0,sizeof(z)*N*N);int e=st(x,mu,1);int m=mu+1;
  for(int nu=0;nu<D;nu++)if(nu!=mu)for(int sg=-1;sg<=1;sg+=2){int n=sg*(nu+1);
    int a[3]={n,-m,-n};path(p,e,a,3);for(int k=0;k<N*N;k++)A[k]+=c0*p[k];
    if(c1!=0){int b[3][5]={{n,n,-m,-n,-n},{m,n,-m,-m,-n},{n,-m,-m,-n,m}};
      for(int r=0;r<3;r++){path(p,e,b[r],5);for(int k=0;k<N*N;k++)A[k]+=c1*p[k];}}}}
int main(int c,char**v){
  double beta=atof(v[1]);s[0]=0x9E3779B97F4A7C15ull*atoi(v[2]);s[1]=0xD1B54A32D192ED03ull^s[0];for(int i=0;i<100;i++)rnd();
  int sw=atoi(v[3]),imp=atoi(v[4]);V=1;for(int i=0;i<D;i++){L[i]=atoi(v[5+i]);V*=L[i];}
  double c0=imp?5./3:1,c1=imp?-1./12:0;
  U=calloc((size_t)V*D*N*N,sizeof(z));for(int i=0;i<V;i++)for(int m=0;m<D;m++)for(int k=0;k<N;k++)M(i,m)[k*N+k]=1;
  double eps=.7;long acc=0,tot=0;int nb=50,th=sw/10;double bl[50]={0};long cnt[50]={0};
  for(int t=0;t<sw+th;t++){
    for(int i=0;i<V;i++)for(int mu=0;mu<D;mu++){z A[N*N];stap(A,i,mu,c0,c1);z*u=M(i,mu);
      for(int h=0;h<6*(N-1);h++){int a=rnd()*N,b=rnd()*(N-1);if(b>=a)b++;
        double th2=eps*(2*rnd()-1),ct=2*rnd()-1,ph=2*M_PI*rnd(),sn=sqrt(1-ct*ct);
        z r0=cos(th2)+I*sin(th2)*ct,r1=sin(th2)*sn*(cos(ph)*I+sin(ph));
        z n0[N],n1[N];double d=0;
        for(int k=0;k<N;k++){n0[k]=r0*u[a*N+k]+r1*u[b*N+k];n1[k]=-conj(r1)*u[a*N+k]+conj(r0)*u[b*N+k];
          d+=creal((n0[k]-u[a*N+k])*A[k*N+a]+(n1[k]-u[b*N+k])*A[k*N+b]);}
        tot++;if(rnd()<exp(beta/N*d)){acc++;for(int k=0;k<N;k++){u[a*N+k]=n0[k];u[b*N+k]=n1[k];}}}
      // renormalise rows
      if(t%20==0){for(int r=0;r<N;r++){for(int q=0;q<r;q++){z o=0;for(int k=0;k<N;k++)o+=u[r*N+k]*conj(u[q*N+k]);for(int k=0;k<N;k++)u[r*N+k]-=o*u[q*N+k];}
        double n=0;for(int k=0;k<N;k++)n+=creal(u[r*N+k]*conj(u[r*N+k]));n=1/sqrt(n);for(int k=0;k<N;k++)u[r*N+k]*=n;}}
    }
    if(t<th&&t%10==9){double a=(double)acc/tot;eps*=a>.5?1.1:.9;if(eps>3.14)eps=3.14;acc=tot=0;}
    if(t>=th){double p=0;for(int i=0;i<V;i++)for(int m=1;m<D;m++)for(int n=0;n<m;n++){int d[4]={m+1,n+1,-m-1,-n-1};z q[N*N];path(q,i,d,4);for(int k=0;k<N;k++)p+=creal(q[k*N+k]);}
      int b=(long)(t-th)*nb/sw;bl[b]+=p/(V*D*(D-1)/2.)/N;cnt[b]++;}
  }
  double m=0,e=0;for(int b=0;b<nb;b++){bl[b]/=cnt[b];m+=bl[b]/nb;}for(int b=0;b<nb;b++)e+=(bl[b]-m)*(bl[b]-m);e=sqrt(e/(nb*(nb-1.)));
  printf("N=%d D=%d beta=%g imp=%d L=",N,D,beta,imp);for(int i=0;i<D;i++)printf("%d ",L[i]);printf(": %.8f %.2e  acc %.2f eps %.2f\n",m,e,(double)acc/tot,eps);}
