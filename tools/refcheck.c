#define main gs_main
#include "../vsa/gatesim.c"
#undef main
#include <math.h>
#include <string.h>
static int OP; static uint64_t bad[64], cnt[64];
static V evo(V *w, const V *in, V *out){ const int32_t*p=P; (void)eval(w,in); p=P+4*(size_t)nop; for(int i=0;i<nout;++i,p+=3){V x=w[p[0]]; out[i]=p[2]?~x:x;} return (V){}; }
static float f2(uint32_t u){float f;memcpy(&f,&u,4);return f;} static uint32_t u2(float f){uint32_t u;memcpy(&u,&f,4);return u;}
static int normal(uint32_t u){int e=u>>23&255;return e>0&&e<255;}
static void tr(uint64_t out[64], const uint64_t *pl, int n){ // transpose n planes -> 64 words
	memset(out,0,64*8); for(int j=0;j<n;++j) for(int k=0;k<64;++k) out[k]|=(pl[j]>>k&1)<<j; }
static void *w2(void*q){int t=(int)(intptr_t)q; V*w=aligned_alloc(64,sizeof(V)*(nslot+1)),in[64],o[32]; uint64_t s=777+t*131;Rng r;for(int i=0;i<8;++i)r.s[i]=rs(&s);
	double t0=now(); uint64_t n=0;
	for(uint32_t c0=t;;c0+=NT){
		if(mode==1){ if(c0>=1u<<23)break; static const uint64_t pat[6]={0xaaaaaaaaaaaaaaaaULL,0xccccccccccccccccULL,0xf0f0f0f0f0f0f0f0ULL,0xff00ff00ff00ff00ULL,0xffff0000ffff0000ULL,0xffffffff00000000ULL};
			for(int j=32;j<64;++j)in[j]=(V){}; for(int j=0;j<6;++j)in[j]=(V){}+pat[j]; for(int j=0;j<3;++j)for(int i=0;i<8;++i)in[6+j][i]=i>>j&1?~0ULL:0; for(int j=0;j<23;++j)in[9+j]=cst(c0>>j&1); }
		else { if(now()-t0>limit)break; mant(in,0,&s,&r);mant(in+32,in,&s,&r); for(int j=23;j<32;++j){in[j]=rv(&r);in[32+j]=rv(&r);} int e=rs(&s)%256,f=e+(int)(rs(&s)%60)-30;f=f<0?0:f>255?255:f;
			switch(rs(&s)%6){case 0:break;case 1:case 2:case 3:setexp(in,e);setexp(in+32,f);break;case 4:e=64+e/2;f=64+rs(&s)%128;setexp(in,e);setexp(in+32,f);break;case 5:f=(int)(rs(&s)%2?381:127)-e+(int)(rs(&s)%5)-2;f=f<0?0:f>255?255:f;setexp(in,e);setexp(in+32,f);} }
		evo(w,in,o);
		for(int i=0;i<8;++i){ uint64_t pa[32],pb[32],po[32],A[64],B[64],O[64]; for(int j=0;j<32;++j){pa[j]=in[j][i];pb[j]=in[32+j][i];po[j]=o[j][i];}
			tr(A,pa,32);tr(B,pb,32);tr(O,po,32);
			for(int k=0;k<64;++k){ uint32_t a=A[k],b=B[k]; if(!normal(a)||(OP<4&&!normal(b)))continue; float x=f2(a),y=f2(b),z=0;
				switch(OP){case 0:z=x+y;break;case 1:z=x-y;break;case 2:z=x*y;break;case 3:z=x/y;break;case 4:z=x*x;break;case 5:if(x<0)continue;z=sqrtf(x);break;}
				uint32_t u=u2(z); {double q; switch(OP){case 0:q=(double)x+y;break;case 1:q=(double)x-y;break;case 2:q=(double)x*y;break;case 3:q=(double)x/y;break;case 4:q=(double)x*x;break;default:q=1;} if(q!=0&&fabs(q)<0x1p-126)continue;} if(!(normal(u)||z==0))continue; if(z==0&&!(OP<2))continue; /* underflow */ ++n; if(u!=(uint32_t)O[k]){ if(++bad[t]<3)printf("BAD op %d %08x %08x got %08x want %08x\n",OP,a,b,(uint32_t)O[k],u);} } }
	} cnt[t]=n;return 0;}
int main(int c,char**v){ FILE*f=fopen(v[1],"rb");int32_t h[3];fread(h,4,3,f);nop=h[0];nslot=h[1];nout=h[2];size_t m=4*(size_t)nop+3*(size_t)nout;P=malloc(4*m);fread(P,4,m,f);mode=atoi(v[2]);NT=atoi(v[3]);limit=atof(v[4]);OP=atoi(v[5]);
 pthread_t th[64];for(intptr_t i=0;i<NT;++i)pthread_create(&th[i],0,w2,(void*)i);uint64_t n=0,b=0;for(int i=0;i<NT;++i){pthread_join(th[i],0);n+=cnt[i];b+=bad[i];}printf("op %d vectors %llu bad %llu\n",OP,(unsigned long long)n,(unsigned long long)b);}
