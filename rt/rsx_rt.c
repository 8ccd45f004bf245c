/* Native counterpart of the executor's harness interface: replays concrete inputs. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static FILE *in, *obs; static int init;
static void setup(void){ if(init) return; init=1; const char*p=getenv("RSX_REPLAY"); if(p) in=fopen(p,"r"); p=getenv("RSX_OBS"); if(p) obs=fopen(p,"w"); }
static uint64_t next(void){ setup(); unsigned long long v; if(!in || fscanf(in,"%llu",&v)!=1){ fprintf(stderr,"REPLAY: inputs exhausted\n"); exit(3);} return v; }
uint64_t rsx_u64(uint64_t lo,uint64_t hi){ if(hi<lo){ fprintf(stderr,"REPLAY: assumption rejected\n"); exit(4);} uint64_t v=next(); if(v<lo||v>hi){ fprintf(stderr,"REPLAY: value %llu out of range [%llu,%llu]\n",(unsigned long long)v,(unsigned long long)lo,(unsigned long long)hi); exit(3);} return v; }
double rsx_f64(void){ uint64_t v=next(); double d; memcpy(&d,&v,8); return d; }
float rsx_f32(void){ uint32_t v=(uint32_t)next(); float d; memcpy(&d,&v,4); return d; }
void rsx_assume(uint8_t c){ if(!(c&1)){ fprintf(stderr,"REPLAY: assumption rejected\n"); exit(4);} }
void rsx_reject(void){ fprintf(stderr,"REPLAY: assumption rejected\n"); exit(4); }
static void fail(const char*m,uint64_t n){ fprintf(stderr,"CHECK FAILED: %.*s\n",(int)n,m); if(obs) fclose(obs); exit(10); }
void rsx_check(uint8_t c,const char*m,uint64_t n){ setup(); if(!(c&1)) fail(m,n); }
void rsx_same(double a,double b,const char*m,uint64_t n){ setup(); if(memcmp(&a,&b,8)&&!(isnan(a)&&isnan(b))){ fprintf(stderr,"left=%.17g right=%.17g\n",a,b); fail(m,n);} }
void rsx_same32(float a,float b,const char*m,uint64_t n){ setup(); if(memcmp(&a,&b,4)&&!(isnan(a)&&isnan(b))){ fprintf(stderr,"left=%.9g right=%.9g\n",a,b); fail(m,n);} }
void rsx_req(double a,double b,const char*m,uint64_t n){ setup(); double t=fmax(1.0,fmax(fabs(a),fabs(b)))*1e-6; if(isfinite(a)&&isfinite(b)&&fabs(a-b)>t){ fprintf(stderr,"left=%.17g right=%.17g\n",a,b); fail(m,n);} }
void rsx_obs(uint64_t v){ setup(); if(obs) fprintf(obs,"%llu\n",(unsigned long long)v); }
void rsx_obsf(double v){ uint64_t b; if(isnan(v)) b=0x7ff8000000000000ULL; else memcpy(&b,&v,8); rsx_obs(b); }
void rsx_cover(uint64_t id){ (void)id; }
void rsx_note(const char*m,uint64_t n){ setup(); fprintf(stderr,"note: %.*s\n",(int)n,m); }
uint64_t rsx_param(uint64_t k){ const char*p=getenv("RSX_PARAMS"); if(!p) return 0; while(k--){ p=strchr(p,','); if(!p) return 0; p++; } return strtoull(p,0,10); }
void rsx_may_panic(uint8_t c){ (void)c; }
void rsx_held(uint64_t n){ (void)n; }
void rsx_real(uint8_t c){ (void)c; }
uint64_t rsx_conc(uint64_t v){ return v; }
uint8_t rsx_issym(void){ return 0; }
