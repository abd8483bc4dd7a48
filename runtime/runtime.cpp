// Native meaning of the contract builtins: replays a counterexample, or searches for one, on the compiled code.
//   replay <contract name> <hex bits>...      exit 1 + message when the contract is violated, 0 when it holds, 77 precondition not met
//   search <seed> <tries> <seconds> <name>..  for each named contract: random inputs; prints "FOUND <name> <hex>..." lines
#include "../contracts/vspec.h"
#include <cmath>
#include <cfenv>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <random>
#include <string>
#include <vector>
#include <chrono>
#include <exception>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" const v_entry v_table[];
static bool searching=false; static jmp_buf jb; static bool realmode=false,noarith=false;
static uint64_t fixedIn[512]; static int nFixed=0;
struct Sh { int n; uint64_t in[512]; int outcome; char msg[256]; long tries, accepted; }; static Sh* sh;
static std::mt19937_64 rng; static int strat=0;
static int want=-1; // flavour
static uint64_t gen(int bits,bool fp){ uint64_t r=rng(); int k=strat==0?(int)(r%10):strat==1?9:strat==2?(int)(r%7):8; r=rng();
  if(!fp){ static const uint64_t sp[]={0,1,2,3,4,5,(uint64_t)-1,(uint64_t)-2,(uint64_t)-3,0x7fffffff,0x80000000,0xffffffff,0x7fffffffffffffffull,0x8000000000000000ull,0x80000001,31,32,33,63,64,8,16};
    if(k<3) return sp[r%(sizeof sp/8)]; if(k<8) return (uint64_t)((int64_t)(r%19)-9); if(k==8) return (r%2001)-1000; return rng(); }
  auto f=[&](double d)->uint64_t{ if(bits==32){ float q=(float)d; uint32_t u; memcpy(&u,&q,4); return u;} uint64_t u; memcpy(&u,&d,8); return u; };
  auto raw=[&]{ return bits==32?(uint64_t)(uint32_t)rng():rng(); };
  switch(k){ case 0: case 1: { static const double sp[]={0.0,-0.0,1,-1,0.5,-0.5,1.5,2.5,-1.5,-2.5,INFINITY,-INFINITY,NAN,0.49999999999999994,0.49999997,4503599627370496.5,8388607.5,8388608,4503599627370495.5,4503599627370497.0,16777217,9007199254740993.0,1e30,-1e30,1e300,5e-324,1e-45,3.4e38,1.7e308,2147483648.0,-2147483648.0,4294967296.0,9.3e18,2,3,-2,-3}; return f(sp[r%(sizeof sp/8)]); }
    case 2: case 3: case 4: case 5: case 6: case 8: return f((double)((int64_t)(r%41)-20)*(k==6?0.25:1)); case 7: return f(std::ldexp((double)(int64_t)(rng()>>11),(int)(r%80)-70)*(rng()&1?-1:1)); default: return raw(); } }
static void done(int oc,const char*m);
// contracts over the reals are compared with a tolerance natively, which is meaningful only where rounding is far below it: moderate inputs
static uint64_t genReal(int bits){ uint64_t r=rng(); double d=strat==1?(double)((int64_t)(r%9)-4)*0.25:strat==3?(double)((int64_t)(r%2000001)-1000000)*1e-6:(double)((int64_t)(r%7)-3); if(bits==32){ float q=(float)d; uint32_t u; memcpy(&u,&q,4); return u; } uint64_t u; memcpy(&u,&d,8); return u; }
static uint64_t input(int bits,bool fp){ int i=sh->n; if(i>=512) abort(); uint64_t v; if(i<nFixed) v=fixedIn[i]; else v=searching?(realmode?(fp?genReal(bits):rng()%5):gen(bits,fp)):0; sh->in[sh->n++]=v;
  if(fp&&realmode&&!searching){ double d; if(bits==32){ uint32_t u=(uint32_t)v; float f; memcpy(&f,&u,4); d=f; } else memcpy(&d,&v,8); double m=std::fabs(d); if(!(m==0||(m>=1e-3&&m<=1e3))) done(2,nullptr); } return v; }
static void done(int oc,const char*m){ sh->outcome=oc; if(m) { strncpy(sh->msg,m,255); } if(searching) longjmp(jb,1); if(oc==1){ printf("contract violated: %s\n",m); fflush(stdout); _exit(1); } printf("precondition not satisfied by these inputs\n"); fflush(stdout); _exit(77); }
extern "C" {
float v_in_f32(){ uint32_t u=(uint32_t)input(32,true); float f; memcpy(&f,&u,4); return f; } double v_in_f64(){ uint64_t u=input(64,true); double f; memcpy(&f,&u,8); return f; }
int v_in_i32(){ return (int)(uint32_t)input(32,false); } long long v_in_i64(){ return (long long)input(64,false); } bool v_in_bool(){ return input(1,false)&1; }
void v_requires(bool b) noexcept { if(!b) done(2,nullptr); } void v_ensures(bool b,const char*l) noexcept { static const bool safety=getenv("V_SAFETY")!=nullptr; if(!b&&!safety) done(1,l); }
void v_mode_real() noexcept { realmode=true; } void v_no_arith_ub() noexcept { noarith=true; } void v_arith_ub() noexcept { noarith=false; }
// inputs on which the scalar operation itself is undefined are outside a contract that says v_no_arith_ub()
void __ubsan_get_current_report_data(const char**,const char**,const char**,unsigned*,unsigned*,char**) __attribute__((weak));
void __ubsan_on_report(){ if(!noarith||!__ubsan_get_current_report_data) return; const char*kind="",*msg,*file; unsigned l,c; char*ad; __ubsan_get_current_report_data(&kind,&msg,&file,&l,&c,&ad);
  if(strstr(kind,"overflow")||strstr(kind,"divi")||strstr(kind,"shift")||strstr(kind,"nega")){ if(!searching){ printf("precondition not satisfied by these inputs\n"); fflush(stdout); } _exit(77); } }
void v_mode_round() noexcept {} void v_mode_ibb() noexcept {} double v_uf_err_d(double) noexcept { return 0; } void v_replace(const char*,void*) noexcept {} void v_loop(const char*,int,void(*)()) noexcept {} void v_inv(bool,const char*) noexcept {} void v_lemma(bool,const char*) noexcept {} double v_local_f64(const char*,long long) noexcept { return 0; } float v_local_f32(const char*,long long) noexcept { return 0; }
double v_uf_xmul(double a,double b) noexcept { return a*b; } double v_uf_xadd(double a,double b) noexcept { return a+b; } double v_uf_xsub(double a,double b) noexcept { return a-b; } double v_uf_rem_d(double a,double b) noexcept { return std::fmod(a,b); } float v_uf_rem_f(float a,float b) noexcept { return std::fmod(a,b); } bool v_uf_p2m_d(double,double) noexcept { return true; } bool v_uf_p2m_f(float,float) noexcept { return true; } bool v_uf_halfrep_d(double) noexcept { return true; } bool v_uf_halfrep_f(float) noexcept { return true; }
bool v_isnan_f32(float x) noexcept { return x!=x; } bool v_isnan_f64(double x) noexcept { return x!=x; }
bool v_same_f32(float a,float b) noexcept { if(a!=a||b!=b) return a!=a&&b!=b; uint32_t x,y; memcpy(&x,&a,4); memcpy(&y,&b,4); return x==y; }
bool v_same_f64(double a,double b) noexcept { if(a!=a||b!=b) return a!=a&&b!=b; uint64_t x,y; memcpy(&x,&a,8); memcpy(&y,&b,8); return x==y; }
// equality "as real numbers": natively only a gross difference on finite values counts as a violation
bool v_req_f32(float a,float b) noexcept { if(!std::isfinite(a)||!std::isfinite(b)) return true; double d=std::fabs((double)a-b); return d<=1e-2*(1+std::fmin(std::fabs((double)a),std::fabs((double)b))); }
bool v_req_f64(double a,double b) noexcept { if(!std::isfinite(a)||!std::isfinite(b)) return true; double d=std::fabs(a-b); return d<=1e-4*(1+std::fmin(std::fabs(a),std::fabs(b))); }
static double rti(int m,double x){ switch(m){ case 0: { return std::nearbyint(x);} case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x);} }
float v_rti_f32(int m,float x) noexcept { return (float)rti(m,x); } double v_rti_f64(int m,double x) noexcept { return rti(m,x); }
float v_sqrt_f32(float x) noexcept { return std::sqrt(x); } double v_sqrt_f64(double x) noexcept { return std::sqrt(x); }
bool v_and(bool a,bool b) noexcept {return a&&b;} bool v_or(bool a,bool b) noexcept {return a||b;} bool v_imp(bool a,bool b) noexcept {return !a||b;} bool v_iff(bool a,bool b) noexcept {return a==b;}
float v_ite_f32(bool c,float a,float b) noexcept {return c?a:b;} double v_ite_f64(bool c,double a,double b) noexcept {return c?a:b;} int v_ite_i32(bool c,int a,int b) noexcept {return c?a:b;} long long v_ite_i64(bool c,long long a,long long b) noexcept {return c?a:b;} bool v_ite_b(bool c,bool a,bool b) noexcept {return c?a:b;}
float v_uf_f1(float a) noexcept { return a*3+1; } float v_uf_f2(float a,float b) noexcept { return a*3-b*7+1; } float v_uf_f3(float a,float b,float c) noexcept { return a*3-b*7+c*11; } double v_uf_d1(double a) noexcept { return a*3+1; } double v_uf_d2(double a,double b) noexcept { return a*3-b*7+1; } double v_uf_d3(double a,double b,double c) noexcept { return a*3-b*7+c*11; }
int v_uf_i1(int a) noexcept { return (int)((unsigned)a*3u+1u); } int v_uf_i2(int a,int b) noexcept { return (int)((unsigned)a*3u-(unsigned)b*7u); } int v_uf_i3(int a,int b,int c) noexcept { return (int)((unsigned)a*3u-(unsigned)b*7u+11u*(unsigned)c); } long long v_uf_l1(long long a) noexcept { return (long long)((unsigned long long)a*3u+1u); }
bool v_uf_bf1(float a) noexcept { return a>1; } bool v_uf_bf2(float a,float b) noexcept { return a>2*b; } bool v_uf_bi1(int a) noexcept { return a&1; }
}
static const v_entry* find(const std::string&n){ for(const v_entry*e=v_table;e->name;e++) if(n==e->name) return e; return nullptr; }
int main(int argc,char**argv){
  sh=(Sh*)mmap(nullptr,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(argc>=3&&!strcmp(argv[1],"replay")){ const v_entry*e=find(argv[2]); if(!e){ printf("no such contract\n"); return 3; } for(int i=3;i<argc;i++) fixedIn[nFixed++]=strtoull(argv[i],nullptr,16);
    std::set_terminate([]{ printf("contract violated: std::terminate called\n"); fflush(stdout); _exit(1); });
    signal(SIGABRT,[](int){ static const char m[]="contract violated: abort (assertion failed)\n"; (void)!write(1,m,sizeof m-1); _exit(1); }); signal(SIGFPE,[](int){ static const char m[]="contract violated: SIGFPE\n"; (void)!write(1,m,sizeof m-1); _exit(1); }); signal(SIGSEGV,[](int){ static const char m[]="contract violated: SIGSEGV\n"; (void)!write(1,m,sizeof m-1); _exit(1); }); signal(SIGALRM,[](int){ static const char m[]="contract violated: does not terminate within 20 s\n"; (void)!write(1,m,sizeof m-1); _exit(1); }); alarm(20);
    try { e->fn(); } catch(std::exception&x){ printf("contract violated: exception escapes: %s\n",x.what()); return 1; } catch(...){ printf("contract violated: exception escapes\n"); return 1; }
    printf("contract holds for these inputs\n"); return 0; }
  if(argc>=6&&!strcmp(argv[1],"search")){ uint64_t seed=strtoull(argv[2],nullptr,10); long tries=atol(argv[3]); double secs=atof(argv[4]); int rc=0;
    for(int a=5;a<argc;a++){ std::vector<const v_entry*> es; if(!strcmp(argv[a],"*")) { for(const v_entry*e=v_table;e->name;e++) es.push_back(e); } else if(auto*e=find(argv[a])) es.push_back(e);
      for(auto*e:es){ sh->outcome=0; sh->n=0; sh->accepted=0; sh->tries=0; int again=0; refork: fflush(stdout); pid_t p=fork(); if(p==0){ searching=true; if(!freopen("/dev/null","w",stderr)) {} auto t0=std::chrono::steady_clock::now();
          std::set_terminate([]{ if(!sh->msg[0]) strcpy(sh->msg,"std::terminate called"); _exit(98); });
          for(long t=sh->tries;t<tries;t++){ rng.seed(seed*1000003u+t*7919u+1); strat=(int)(t%4==3?1:t%4==2?2:t%8==1?3:0); sh->n=0; sh->outcome=0; sh->msg[0]=0; realmode=noarith=false; sh->tries++; alarm(20); if(setjmp(jb)==0){ try { e->fn(); sh->accepted++; } catch(...) { sh->outcome=1; strcpy(sh->msg,"exception escapes"); _exit(99); } } if(sh->outcome==1) _exit(99);
            if((t&63)==63&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) break; }
          _exit(0); }
        int st; waitpid(p,&st,0); if(WIFEXITED(st)&&WEXITSTATUS(st)==77&&++again<2000) goto refork; bool bad=!WIFEXITED(st)||(WEXITSTATUS(st)!=0&&WEXITSTATUS(st)!=77); printf("%s %s | %s |",bad?"FOUND":"NONE",e->name,bad?(sh->msg[0]?sh->msg:WIFSIGNALED(st)?strsignal(WTERMSIG(st)):"crash"):""); if(bad) for(int i=0;i<sh->n;i++) printf(" %llx",(unsigned long long)sh->in[i]); else printf(" tries=%ld accepted=%ld",sh->tries,sh->accepted); printf("\n"); if(bad) rc=1; } }
    return rc; }
  if(argc>=2&&!strcmp(argv[1],"list")){ for(const v_entry*e=v_table;e->name;e++) printf("%s\n",e->name); return 0; }
  fprintf(stderr,"usage\n"); return 3; }
