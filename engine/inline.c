typedef unsigned int u32; typedef unsigned long u64; typedef unsigned char u8;
#define AI __attribute__((always_inline))
extern u32 **_sym_dir;
u32 _sl_bin(u32,u64,u32,u64,u32,u32); u32 _sl_cast(u32,u32,u32,u32); u32 _sl_load(void*,u32,u64); u32 _sl_loadsym(void*,u32,u32,u64);
void _sl_store(void*,u64,u32,u32); void _sl_branch(u32,u32); void _sl_switch(u64,u32,u32,u32,void*);
u32 _sl_ite(u32,u32,u64,u32,u64,u32,u32); void _sl_conc(u64,u32,u32); void _sl_memcpy(void*,void*,u64); void _sl_memset(void*,u64,u32,u64);
AI u32 _s_bin(u32 op,u64 a,u32 sa,u64 b,u32 sb,u32 bits){ if(__builtin_expect(!(sa|sb),1)) return 0; return _sl_bin(op,a,sa,b,sb,bits); }
AI u32 _s_cast(u32 op,u32 s,u32 f,u32 t){ if(__builtin_expect(!s,1)) return 0; return _sl_cast(op,s,f,t); }
AI u32 _s_load(void*p,u32 sp,u32 n,u64 v){ u64 a=(u64)p; if(__builtin_expect(!_sym_dir[a>>16] && !_sym_dir[(a+n-1)>>16],1)) return 0; return _sl_load(p,n,v); }
AI u32 _s_loadsym(void*p,u32 sp,u32 n,u64 v){ if(__builtin_expect(!sp,1)) return _s_load(p,0,n,v); return _sl_loadsym(p,sp,n,v); }
AI void _s_store(void*p,u32 sp,u64 v,u32 sv,u32 n){ u64 a=(u64)p; if(__builtin_expect(!sv && !_sym_dir[a>>16] && !_sym_dir[(a+n-1)>>16],1)) return; _sl_store(p,v,sv,n); }
AI void _s_branch(u32 c,u32 s){ if(__builtin_expect(!s,1)) return; _sl_branch(c,s); }
AI void _s_switch(u64 v,u32 s,u32 bits,u32 n,void*k){ if(__builtin_expect(!s,1)) return; _sl_switch(v,s,bits,n,k); }
AI u32 _s_ite(u32 c,u32 sc,u64 a,u32 sa,u64 b,u32 sb,u32 bits){ if(__builtin_expect(!(sa|sb|sc),1)) return 0; return _sl_ite(c,sc,a,sa,b,sb,bits); }
AI void _s_conc(u64 v,u32 s,u32 bits){ if(__builtin_expect(!s,1)) return; _sl_conc(v,s,bits); }
AI void _s_memcpy(void*d,u32 x,void*s,u32 y,u64 n,u32 z){ _sl_memcpy(d,s,n); }
AI void _s_memset(void*d,u32 x,u64 v,u32 sv,u64 n,u32 z){ _sl_memset(d,v,sv,n); }
