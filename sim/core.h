// Deterministic simulator core: scenario, choices, log, in-memory file system, scheduler.
// Everything in here runs under one token: exactly one thread of the simulated process executes at a time.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;
using std::string; using std::vector; using std::map; using std::shared_ptr; using std::weak_ptr;

// ---------------------------------------------------------------- raw system calls (the only way out)
static inline long rsys(long n, long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
static string rread(const char*p){ string s; long fd=rsys(SYS_open,(long)p,O_RDONLY|O_CLOEXEC); if(fd<0) return s;
  char b[65536]; for(;;){ long n=rsys(SYS_read,fd,(long)b,sizeof b); if(n<=0)break; s.append(b,n);} rsys(SYS_close,fd); return s; }
static void rwrite_file(const char*p,const string&s){ long fd=rsys(SYS_open,(long)p,O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0644); if(fd<0) return;
  size_t o=0; while(o<s.size()){ long n=rsys(SYS_write,fd,(long)(s.data()+o),s.size()-o); if(n<=0)break; o+=n;} rsys(SYS_close,fd); }

// ---------------------------------------------------------------- strings
static string hexenc(const string&s){ static const char*d="0123456789abcdef"; string r; r.resize(s.size()*2); for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; r[2*i]=d[c>>4]; r[2*i+1]=d[c&15]; } return r; }
static inline int hexv(char c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static string hexdec(const string&s){ string r; r.reserve(s.size()/2); if(s=="-") return r; for(size_t i=0;i+1<s.size();i+=2) r.push_back((char)(hexv(s[i])*16+hexv(s[i+1]))); return r; }
static string pct(const string&s){ if(s.empty()) return "%"; string r; char b[8]; for(unsigned char c:s){ if(c<=32||c=='%'||c>=127){ snprintf(b,8,"%%%02x",c); r+=b; } else r.push_back(c);} return r; }
static string unpct(const string&s){ if(s=="%") return ""; string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='%'&&i+2<s.size()){ r.push_back((char)(hexv(s[i+1])*16+hexv(s[i+2]))); i+=2; } else r.push_back(s[i]); } return r; }
static vector<string> split(const string&s,char c=' '){ vector<string> r; size_t i=0; while(i<=s.size()){ size_t j=s.find(c,i); if(j==string::npos) j=s.size(); if(j>i||c!=' ') r.push_back(s.substr(i,j-i)); i=j+1; } return r; }
static bool glob(const char*p,const char*s){ // '*' any run, '?' one char
  if(!*p) return !*s; if(*p=='*'){ for(;;s++){ if(glob(p+1,s)) return true; if(!*s) return false; } } if(!*s) return false; if(*p=='?'||*p==*s) return glob(p+1,s+1); return false; }

static bool kmatch(const string&pats,const char*k){ size_t i=0; while(i<=pats.size()){ size_t j=pats.find(',',i); if(j==string::npos) j=pats.size(); if(glob(pats.substr(i,j-i).c_str(),k)) return true; i=j+1; } return false; }
// ---------------------------------------------------------------- choices
enum Cat { C_SCHED, C_DIR, C_SHORTR, C_SHORTW, C_EINTR, C_NET, C_ACT, C_STALL, C_SPUR, C_DTYPE, C_N };
static const char* CATN[]={"sched","dir","shortr","shortw","eintr","net","act","stall","spur","dtype"};
struct CatS { u64 rng; u32 idx=0; map<u32,u32> rep; vector<std::pair<u32,u32>> rec; };

struct Inode; typedef shared_ptr<Inode> IP;
struct Inot;
struct Watch { Inot* in; int wd; u32 mask; };
struct Inode { u64 id; char type; // 'd','f','l','n'(null),'u'(urandom)
  map<string,IP> ent; string data, target; u32 mode=0; int nlink=1; u64 mtime=0; /* absolute */ Inode* parent=nullptr; string name;
  vector<Watch> watches; bool source=false; };

struct Thr { int id; int go=0; int st=0; // 0 ready 1 blocked 2 done
  u64 deadline=0; bool timed_out=false; void* obj=nullptr; u64 lastrun=0; u64 stall=0, stallt=0; /* not run before so many operations / that time */ const char* why=""; pthread_t pt; bool detached=false; void*(*fn)(void*); void*arg; int dtor=0; bool intr=false; };

struct Step { char trig; u64 n; vector<string> a; };        // trig: 't' after n ns, 'o' after n ops, 'i' when idle
struct Actor { string name; vector<Step> steps; size_t pc=0; u64 base_t=0, base_o=0; bool armed=false; int conn=-1; };

struct Fault { int idx=-1; string kinds, pathg; int nth=0, seen=0, count=1, fired=0; int err=0; double frac=-1; };

struct Sim {
  bool on=false; string out; u64 seed=1; bool replay=false;
  CatS cat[C_N]; double p_sched=0, p_shortr=0, p_shortw=0, p_eintr=0, p_net=0, p_stall=0, p_spur=0; int dirmode=0; bool dtype_unknown=false;
  u64 now=0; u64 real_base=1700000000ull*1000000000ull; u64 opcost=1000; u64 maxops=2000000; u64 tickskew=0, mtimes=0, mtgran=1;
  u64 seq=0, ops=0, fops=0; // seq: log order, ops: all intercepted calls, fops: fallible operations
  string log, snaps; int loglevel=2; string cons[3];
  vector<Fault> faults; map<string,int> firedkinds; i64 kill_at=-1; double kill_frac=-1; i64 diskfree=-1; bool diskfull_hit=false;
  IP root; IP cwd; u64 inoseq=1;
  vector<Thr*> thr; Thr* cur=nullptr; u64 switches=0, preempts=0, runctr=0;
  std::deque<Actor> actors; vector<string> snapdirs; int nsnaps=0; u64 fsver=0; u64 snapver=~0ull; int lastsnap=-1;
  int pid=4242; bool finished=false; u32 maxq=16384; u64 hash=1469598103934665603ull; u64 shash=1469598103934665603ull;
  map<string,string> hosts; std::set<int> busyports; size_t sndcap=1<<20; u64 childtick=2000; int idle_marks=0; u64 lasteditseq=0;
  u64 actt=0, touts=0; // when something last happened, and how many waits have timed out since
};
static Sim* S=nullptr;

[[noreturn]] void sim_finish(const string&status,int code);
[[noreturn]] static void die(const string&m){ sim_finish("harness "+pct(m),99); }

static inline u64 smix(u64&x){ u64 z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static u32 choose(Cat c,u32 n,double p){ // 0 with probability 1-p, otherwise 1..n-1; p<0: uniform over 0..n-1
  if(n<=1) return 0; CatS&k=S->cat[c]; u32 i=k.idx++; u32 v=0;
  if(S->replay){ auto it=k.rep.find(i); if(it!=k.rep.end()) v=it->second%n; }
  else { u64 r=smix(k.rng); if(p<0) v=(u32)((r>>11)%n); else if((double)(r>>11)*(1.0/9007199254740992.0)<p) v=1+(u32)(smix(k.rng)%(n-1)); }
  if(v) k.rec.push_back({i,v}); return v; }
static inline void hmix(u64&h,u64 v){ h^=v; h*=1099511628211ull; }
static inline void hmixs(u64&h,const string&s){ for(unsigned char c:s) hmix(h,c); hmix(h,300); }

static void logln(const string&s){ S->log+=s; S->log.push_back('\n'); }
#define LOGF(...) do{ char _b[512]; snprintf(_b,sizeof _b,__VA_ARGS__); logln(_b);}while(0)

// ---------------------------------------------------------------- file system
static inline u64 NOW(){ return S->real_base+S->now; }
static IP mkinode(char t){ IP p=std::make_shared<Inode>(); p->id=++S->inoseq; p->type=t; p->mode=t=='d'?0755:0644; p->mtime=NOW(); return p; }
static string path_of(Inode*d){ if(d==S->root.get()) return "/"; if(!d->parent) return "(gone)/"+d->name; string p=path_of(d->parent); if(p.size()>1) p+="/"; return p+d->name; }
struct Res { int err=0; Inode* dir=nullptr; string name; IP node; bool slash=false; string canon() const { if(!dir) return "/"; string p=path_of(dir); if(p.size()>1) p+="/"; return p+name; } };
static IP self(Inode*d){ if(d==S->root.get()) return S->root; if(!d->parent) return nullptr; auto it=d->parent->ent.find(d->name); return it==d->parent->ent.end()?nullptr:it->second; }
static Res resolve(Inode*base,const string&path,bool follow,int depth=0){
  Res r; if(path.empty()){ r.err=ENOENT; return r; } if(path.size()>=4096){ r.err=ENAMETOOLONG; return r; }
  Inode*d=path[0]=='/'?S->root.get():base; vector<string> comps; size_t i=0; 
  while(i<path.size()){ size_t j=path.find('/',i); if(j==string::npos) j=path.size(); if(j>i){ string c=path.substr(i,j-i); if(c!=".") comps.push_back(c); else if(j>=path.size()) r.slash=true; } i=j+1; }
  if(path.back()=='/') r.slash=true;
  if(depth>40){ r.err=ELOOP; return r; }
  r.dir=nullptr; r.node=self(d); if(!r.node){ if(d->parent==nullptr&&d!=S->root.get()){ r.err=ENOENT; return r; } }
  if(comps.empty()){ if(d!=S->root.get()){ r.dir=d->parent; r.name=d->name; } r.slash=true; return r; }
  for(size_t k=0;k<comps.size();k++){ const string&c=comps[k]; bool last=k+1==comps.size();
    if(c.size()>255){ r.err=ENAMETOOLONG; return r; }
    if(d->type!='d'){ r.err=ENOTDIR; return r; }
    if(c==".."){ if(d!=S->root.get()){ if(!d->parent){ r.err=ENOENT; return r; } d=d->parent; } if(last){ r.node=self(d); if(d==S->root.get()){r.dir=nullptr;r.name="";} else {r.dir=d->parent;r.name=d->name;} r.slash=true; return r; } continue; }
    auto it=d->ent.find(c); IP n=it==d->ent.end()?nullptr:it->second;
    if(n&&n->type=='l'&&(!last||follow||r.slash)){ string rest=n->target; for(size_t m=k+1;m<comps.size();m++) rest+="/"+comps[m]; if(r.slash&&last==false) {} if(r.slash) rest+="/"; if(n->target.empty()){ r.err=ENOENT; return r; } return resolve(d,rest,follow,depth+1); }
    if(last){ r.dir=d; r.name=c; r.node=n; if(n&&r.slash&&n->type!='d'){ r.err=ENOTDIR; } return r; }
    if(!n){ r.err=ENOENT; return r; } if(n->type!='d'){ r.err=ENOTDIR; return r; } d=n.get(); }
  return r; }

// inotify hook (defined in io.h)
static void inotify_emit(Inode*dirOrSelf,const string&name,u32 mask,u32 cookie,bool isdir);
static void inode_gone(Inode*n);
static inline void active(){ S->actt=S->now; S->touts=0; }
static inline void fs_touch(){ S->fsver++; active(); }

static int vfs_create(Inode*dir,const string&name,IP n){ n->parent=dir; n->name=name; dir->ent[name]=n; dir->mtime=NOW(); fs_touch(); inotify_emit(dir,name,0x100/*IN_CREATE*/,0,n->type=='d'); return 0; }
static int vfs_unlink(Inode*dir,const string&name){ auto it=dir->ent.find(name); IP n=it->second; bool d=n->type=='d'; dir->ent.erase(it); dir->mtime=NOW(); n->nlink--; if(d||n->nlink<=0){ n->parent=nullptr; } fs_touch(); if(d) inode_gone(n.get()); inotify_emit(dir,name,0x200/*IN_DELETE*/,0,d); return 0; }
static u32 cookie_ctr=0;
static int vfs_rename(Inode*d1,const string&n1,Inode*d2,const string&n2){ IP a=d1->ent[n1]; auto it=d2->ent.find(n2); 
  if(it!=d2->ent.end()){ IP b=it->second; if(b==a) return 0; if(b->type=='d'){ if(a->type!='d') return EISDIR; if(!b->ent.empty()) return ENOTEMPTY; } else if(a->type=='d') return ENOTDIR; b->nlink--; b->parent=nullptr; if(b->type=='d') inode_gone(b.get()); }
  for(Inode*p=d2;p;p=p->parent) if(p==a.get()) return EINVAL;
  d1->ent.erase(n1); d2->ent[n2]=a; a->parent=d2; a->name=n2; d1->mtime=d2->mtime=NOW(); fs_touch(); u32 ck=++cookie_ctr; bool dir=a->type=='d';
  inotify_emit(d1,n1,0x40,ck,dir); inotify_emit(d2,n2,0x80,ck,dir); return 0; }
static IP mkdirs(const string&path){ Inode*d=S->root.get(); IP cur=S->root; for(auto&c:split(path,'/')){ if(c.empty()||c==".") continue; if(c==".."){ Res r=resolve(d,c,true); if(r.err||!r.node||r.node->type!='d') return nullptr; cur=r.node; d=cur.get(); continue; } auto it=d->ent.find(c); if(it==d->ent.end()){ IP n=mkinode('d'); vfs_create(d,c,n); cur=n; } else { cur=it->second; if(cur->type=='l'){ Res r=resolve(d,c,true); if(r.err||!r.node) return nullptr; cur=r.node; } } if(cur->type!='d') return nullptr; d=cur.get(); } return cur; }
static void rmtree(Inode*dir,const string&name){ auto it=dir->ent.find(name); if(it==dir->ent.end()) return; IP n=it->second; if(n->type=='d'){ vector<string> names; for(auto&e:n->ent) names.push_back(e.first); for(auto&x:names) rmtree(n.get(),x); } vfs_unlink(dir,name); }
static void split_path(const string&p,string&d,string&n){ size_t i=p.rfind('/'); d=p.substr(0,i); n=p.substr(i+1); if(d.empty()) d="/"; }

static void dump_tree(string&o,const string&path,Inode*n){ if(n->type=='d'){ if(path!="/") o+="D "+pct(path)+"\n"; for(auto&e:n->ent) dump_tree(o,path=="/"?"/"+e.first:path+"/"+e.first,e.second.get()); }
  else if(n->type=='f') o+="F "+pct(path)+" "+(n->data.empty()?string("-"):hexenc(n->data))+"\n"; else if(n->type=='l') o+="L "+pct(path)+" "+pct(n->target)+"\n"; }
static int snapshot(){ if(S->snapdirs.empty()) return -1; if(S->snapver==S->fsver&&S->lastsnap>=0) return S->lastsnap; 
  int id=S->nsnaps++; S->snaps+="SNAP "+std::to_string(id)+"\n"; for(auto&d:S->snapdirs){ Res r=resolve(S->root.get(),d,false); if(!r.err&&r.node) dump_tree(S->snaps,d,r.node.get()); } S->snapver=S->fsver; S->lastsnap=id; return id; }

// ---------------------------------------------------------------- scheduler
static thread_local Thr* me=nullptr;
static void park(Thr*t){ while(__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)==0) rsys(SYS_futex,(long)&t->go,FUTEX_WAIT_PRIVATE,0,0); __atomic_store_n(&t->go,0,__ATOMIC_RELEASE); }
static void release(Thr*t){ __atomic_store_n(&t->go,1,__ATOMIC_RELEASE); rsys(SYS_futex,(long)&t->go,FUTEX_WAKE_PRIVATE,1); }
static void wake_thr(Thr*t){ if(t->st==1){ t->st=0; t->obj=nullptr; t->deadline=0; if(t->id==0&&S->loglevel>=1){ LOGF("U %llu",(unsigned long long)++S->seq); } } }
static int io_any;
static void wake_obj(void*o){ for(auto t:S->thr) if(t->st==1&&(t->obj==o||t->obj==(void*)&io_any)) wake_thr(t); }
static void fire_step(Actor&a);
static bool actor_has(Actor&a){ return a.armed&&a.pc<a.steps.size(); }
static void fire_due(){ // timed and op-count triggers that are due
  for(;;){ bool any=false; for(size_t i=0;i<S->actors.size();i++){ Actor&a=S->actors[i]; if(!actor_has(a)) continue; Step&s=a.steps[a.pc];
      if((s.trig=='t'&&a.base_t+s.n<=S->now)||(s.trig=='o'&&a.base_o+s.n<=S->ops)){ fire_step(a); any=true; } }
    if(!any) break; }
  for(auto t:S->thr) if(t->st==1&&t->deadline&&t->deadline<=S->now){ t->timed_out=true; S->touts++; wake_thr(t); } }
static bool idle_progress(){ // nothing runnable: jump the clock, or fire waiting steps; false: quiescent
  u64 best=~0ull; bool due=false; for(auto&a:S->actors) if(actor_has(a)&&a.steps[a.pc].trig=='t'){ due=true; best=std::min(best,a.base_t+a.steps[a.pc].n); }
  for(auto t:S->thr){ if(t->st==1&&t->deadline) best=std::min(best,t->deadline); if(t->st==0&&t->stallt>S->now){ due=true; best=std::min(best,t->stallt); } }
  // threads which only wake up from time to time, and do nothing then, are idle as well
  u64 quiet=S->now-S->actt; bool polling=!due&&((S->touts>=3&&quiet>=10000000000ull)||(S->touts>=300&&quiet>=3000000000ull));
  if(polling) active();
  if(best!=~0ull&&!polling){ if(best>S->now) S->now=best; fire_due(); return true; }
  vector<int> c; for(size_t i=0;i<S->actors.size();i++) if(actor_has(S->actors[i])&&S->actors[i].steps[S->actors[i].pc].trig=='o') c.push_back(i);
  if(c.empty()){ LOGF("I %llu %d",(unsigned long long)++S->seq,snapshot()); S->idle_marks++; for(size_t i=0;i<S->actors.size();i++) if(actor_has(S->actors[i])) c.push_back(i); }
  if(c.empty()) return false;
  int k=c[choose(C_ACT,c.size(),-1)]; fire_step(S->actors[k]); return true; }
static void reschedule(bool must){ // must: current thread cannot simply go on (blocked, done or yielding)
  if(S->finished) { for(;;) rsys(SYS_pause); }
  Thr*c=S->cur; Thr*next=nullptr;
  for(;;){
    fire_due();
    vector<Thr*> r; for(auto t:S->thr) if(t->st==0&&t!=c) r.push_back(t);
    std::sort(r.begin(),r.end(),[](Thr*a,Thr*b){return a->lastrun!=b->lastrun?a->lastrun<b->lastrun:a->id<b->id;});
    vector<Thr*> q; for(auto t:r) if(t->stall<=S->ops&&t->stallt<=S->now) q.push_back(t); 
    bool self_ok=c->st==0;
    if(self_ok&&!must){ vector<Thr*> k{c}; k.insert(k.end(),q.begin(),q.end()); u32 x=choose(C_SCHED,k.size(),S->p_sched); next=k[x]; if(x){ S->preempts++; if(S->p_stall>0||S->replay){ u32 z=choose(C_STALL,8,S->p_stall); static const u64 L[]={0,30,150,700,4000},M[]={20000000ull,300000000ull,4000000000ull}; if(z>4) c->stallt=S->now+M[z-5]; else if(z) c->stall=S->ops+L[z]; if(z) S->firedkinds[z>4?"thread_delay_time":"thread_delay_ops"]++; } } break; }
    if(q.empty()&&!(self_ok)) for(auto t:r) if(t->stallt<=S->now) q.push_back(t);
    if(self_ok) q.push_back(c);
    if(!q.empty()){ next=q[choose(C_SCHED,q.size(),0.4)]; break; }
    if(!idle_progress()) sim_finish("quiescent",0);
  }
  next->lastrun=++S->runctr; if(next==c){ return; }
  S->switches++; hmix(S->shash,next->id); hmix(S->shash,S->ops&0xffff?S->seq:0);
  S->cur=next; bool done=c->st==2; release(next); if(!done) park(c);
}
static void count_op(){ S->ops++; S->now+=S->opcost; if(S->ops>S->maxops) sim_finish("stepcap",0); }
static void at_exit(int,void*); static bool exit_reg;
static void point(){ if(!S->on||S->finished) return; if(!exit_reg){ exit_reg=true; on_exit(at_exit,nullptr); /* before the destructors of this library's own data */ } count_op(); if(S->thr.size()>1||!S->actors.empty()) reschedule(false); }
static bool block(void*obj,u64 deadline,const char*why){ // returns true if timed out
  Thr*t=S->cur; t->st=1; t->obj=obj; t->deadline=deadline; t->timed_out=false; t->why=why;
  if(t->id==0&&S->loglevel>=1) LOGF("B %llu %s",(unsigned long long)++S->seq,why);
  reschedule(true); return t->timed_out; }

// ---------------------------------------------------------------- fallible operations
static int op(const char*kind,const string&path,bool mut=false){ // returns errno to inject, 0: go on
  point(); u64 k=S->fops++; u64 q=++S->seq; 
  if(S->kill_at>=0&&(u64)S->kill_at==k&&S->kill_frac<0){ LOGF("K %llu %llu",(unsigned long long)q,(unsigned long long)k); sim_finish("killed",137); }
  int e=0; for(auto&f:S->faults){ bool m=false; if(f.idx>=0) m=(u64)f.idx==k|| (f.fired>0&&f.fired<f.count&&(u64)f.idx<k&&(f.kinds.empty()||kmatch(f.kinds,kind))); else if(kmatch(f.kinds,kind)&&glob(f.pathg.c_str(),path.c_str())){ f.seen++; m=f.seen>f.nth&&f.fired<f.count; }
    if(m&&f.err){ f.fired++; e=f.err; S->firedkinds[string(kind)+":"+std::to_string(e)]++; break; } }
  hmixs(S->hash,kind); hmixs(S->hash,path); if(mut||kmatch("spawn,thread,accept,connect,inotify_init",kind)) active();
  if(S->loglevel>=2||(mut&&S->loglevel>=1)||e){ string l="o "+std::to_string(q)+" "+std::to_string(S->cur->id)+" "+std::to_string(k)+" "+kind+" "+pct(path)+" "+std::to_string(e); logln(l); }
  return e; }
static u64 last_fop(){ return S->fops-1; }
