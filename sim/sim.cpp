// LD_PRELOAD simulator: gives an unmodified dynamically linked program an in-memory file system, simulated
// processes, sockets, inotify, clock and randomness, and a deterministic thread scheduler. No call made by the
// simulated program reaches the real file system, network or process table.
#include "io.h"
#include <dlfcn.h>
#include <dirent.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netdb.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>

#define X extern "C" __attribute__((visibility("default")))
static int E(int e){ errno=e; return -1; }
template<class T> static T real(const char*n){ T p=(T)dlsym(RTLD_NEXT,n); return p; }
struct WebRule { string host; int port; string path; string acts; }; static vector<WebRule> WEB; static map<string,string> IP2HOST; static std::set<string> REFUSE;
static map<string,string> PLUGSO; // path of the real library that stands for plugin images

// ---------------------------------------------------------------- finishing
static string thr_report(){ string s; for(auto t:S->thr) s+="T "+std::to_string(t->id)+" "+(t->st==2?"done":t->st==1?"blocked":"ready")+" "+(t->st==1?t->why:"-")+"\n"; return s; }
[[noreturn]] void sim_finish(const string&status,int code){
  if(S&&!S->finished){ S->finished=true; string o="STATUS "+status+" "+std::to_string(code)+"\n"; char b[400];
    snprintf(b,sizeof b,"STAT ops=%llu fops=%llu seq=%llu now=%llu switches=%llu preempts=%llu threads=%zu idle=%d hash=%016llx shash=%016llx\n",(unsigned long long)S->ops,(unsigned long long)S->fops,(unsigned long long)S->seq,(unsigned long long)S->now,(unsigned long long)S->switches,(unsigned long long)S->preempts,S->thr.size(),S->idle_marks,(unsigned long long)S->hash,(unsigned long long)S->shash); o+=b;
    for(auto&f:S->firedkinds) o+="FIRED "+pct(f.first)+" "+std::to_string(f.second)+"\n";
    for(int c=0;c<C_N;c++){ o+=string("CH ")+CATN[c]+" "+std::to_string(S->cat[c].idx); for(auto&r:S->cat[c].rec) o+=" "+std::to_string(r.first)+":"+std::to_string(r.second); o+="\n"; }
    o+=thr_report(); o+="OUT "+(S->cons[1].empty()?"-":hexenc(S->cons[1]))+"\nERR "+(S->cons[2].empty()?"-":hexenc(S->cons[2]))+"\n"; o+=S->log; o+=S->snaps; o+="TREE\n"; string t; dump_tree(t,"/",S->root.get()); o+=t; o+="END\n"; rwrite_file(S->out.c_str(),o); }
  rsys(SYS_exit_group,code); for(;;); }
static void at_exit(int code,void*){ if(S&&S->on&&!S->finished){ S->finished=true; S->finished=false; LOGF("E %llu %d",(unsigned long long)++S->seq,code); sim_finish("exit",code); } }

// ---------------------------------------------------------------- scenario
static void put(const string&path,IP n){ string d,f; split_path(path,d,f); IP p=mkdirs(d); if(!p) return; n->parent=p.get(); n->name=f; p->ent[f]=n; }
static void load(const char*file){
  string txt=rread(file); size_t i=0; Actor*act=nullptr;
  while(i<txt.size()){ size_t j=txt.find('\n',i); if(j==string::npos) j=txt.size(); string line=txt.substr(i,j-i); i=j+1; vector<string> a=split(line); if(a.empty()) continue; const string&k=a[0];
    if(k=="seed"){ S->seed=strtoull(a[1].c_str(),0,10); for(int c=0;c<C_N;c++){ u64 x=S->seed*1000003ull+c*7919+17; smix(x); S->cat[c].rng=smix(x); } }
    else if(k=="replay"){ S->replay=true; }
    else if(k=="choice"){ for(int c=0;c<C_N;c++) if(a[1]==CATN[c]) for(size_t m=2;m<a.size();m++){ size_t z=a[m].find(':'); S->cat[c].rep[strtoul(a[m].c_str(),0,10)]=strtoul(a[m].c_str()+z+1,0,10); } }
    else if(k=="D"){ mkdirs(unpct(a[1])); } else if(k=="F"){ IP n=mkinode('f'); n->data=hexdec(a[2]); put(unpct(a[1]),n); } else if(k=="L"){ IP n=mkinode('l'); n->target=unpct(a[2]); put(unpct(a[1]),n); }
    else if(k=="cwd"){ IP p=mkdirs(unpct(a[1])); if(!p) die("cwd"); S->cwd=p; }
    else if(k=="fault"){ Fault f; if(a[1]=="idx"){ f.idx=atoi(a[2].c_str()); f.err=atoi(a[3].c_str()); f.count=a.size()>4?atoi(a[4].c_str()):1; if(a.size()>5) f.kinds=a[5]; } else { f.kinds=a[2]; f.pathg=unpct(a[3]); f.nth=atoi(a[4].c_str()); f.err=atoi(a[5].c_str()); f.count=a.size()>6?atoi(a[6].c_str()):1; } S->faults.push_back(f); }
    else if(k=="kill"){ S->kill_at=atoll(a[1].c_str()); if(a.size()>2) S->kill_frac=atof(a[2].c_str()); }
    else if(k=="diskfree") S->diskfree=atoll(a[1].c_str());
    else if(k=="cfg"){ double v=atof(a[2].c_str()); const string&n=a[1]; if(n=="p_sched")S->p_sched=v; else if(n=="p_shortr")S->p_shortr=v; else if(n=="p_shortw")S->p_shortw=v; else if(n=="p_eintr")S->p_eintr=v; else if(n=="p_net")S->p_net=v; else if(n=="p_stall")S->p_stall=v; else if(n=="p_spur")S->p_spur=v; else if(n=="dirmode")S->dirmode=(int)v; else if(n=="dtype_unknown")S->dtype_unknown=v!=0; else if(n=="maxops")S->maxops=(u64)v; else if(n=="loglevel")S->loglevel=(int)v; else if(n=="epoch")S->real_base=(u64)strtoull(a[2].c_str(),0,10)*1000000000ull; else if(n=="pid")S->pid=(int)v; else if(n=="opcost")S->opcost=(u64)v; else if(n=="maxq")S->maxq=(u32)v; else if(n=="sndcap")S->sndcap=(size_t)v; else if(n=="mtimes")S->mtimes=strtoull(a[2].c_str(),0,10); else if(n=="mtgran")S->mtgran=std::max<u64>(1,(u64)v); else if(n=="childtick")S->childtick=(u64)v; else die("cfg "+n); }
    else if(k=="busyport") S->busyports.insert(atoi(a[1].c_str()));
    else if(k=="snapdir") S->snapdirs.push_back(unpct(a[1]));
    else if(k=="rule"){ RULES.push_back({a[1],unpct(a[2]),a.size()>3?hexdec(a[3]):""}); } else if(k=="noprog") NOPROG.insert(a[1]);
    else if(k=="host"){ S->hosts[a[1]]=a[2]; IP2HOST[a[2]]=a[1]; } else if(k=="web"){ WEB.push_back({a[1],atoi(a[2].c_str()),unpct(a[3]),a.size()>4?a[4]:""}); } else if(k=="refuse") REFUSE.insert(a[1]);
    else if(k=="pluginso") PLUGSO["so"]=unpct(a[1]);
    else if(k=="actor"){ S->actors.push_back(Actor()); act=&S->actors.back(); act->name=a[1]; act->armed=true; }
    else if(k=="step"){ Step s; s.trig=a[1][0]; s.n=strtoull(a[2].c_str(),0,10); s.a.assign(a.begin()+3,a.end()); act->steps.push_back(s); }
    else die("scenario line "+k); } }
static void stamp(Inode*n,u64&x){ // times of the files that were there before: all the same, or (cfg mtimes) any
  n->mtime=NOW(); if(S->mtimes){ u64 z=smix(x); n->mtime=NOW()-(z>>8)%(z&1?3600ull*1000000000:300000000ull*1000000000); if(n->mtime>NOW()) n->mtime=0; if(z%16==2) n->mtime=NOW()+(z>>8)%(86400ull*1000000000); }
  if(n->type=='d') for(auto&e:n->ent) stamp(e.second.get(),x); }
static pthread_key_t tkey;
static void thr_dtor(void*p){ Thr*t=(Thr*)p; if(!S||S->finished) return; if(t->dtor++<2){ pthread_setspecific(tkey,p); return; } t->st=2; if(S->loglevel>=2) LOGF("t %llu exit %d",(unsigned long long)++S->seq,t->id); wake_obj(t); reschedule(true); }
static void init(){ if(S) return; const char*sc=getenv("SIM_SCENARIO"); if(!sc) return; rsys(SYS_prctl,1/*PR_SET_PDEATHSIG*/,SIGKILL); S=new Sim(); S->out=getenv("SIM_OUT")?getenv("SIM_OUT"):"/dev/null"; S->root=mkinode('d');
  mkdirs("/dev"); mkdirs("/tmp"); { IP n=mkinode('n'); put("/dev/null",n); IP u=mkinode('u'); put("/dev/urandom",u); }
  Thr*t=new Thr(); t->id=0; S->thr.push_back(t); S->cur=t; me=t; S->cwd=S->root; for(int i=0;i<3;i++){ FP f=mkfile(F_CONS); f->consn=i; f->flags=O_RDWR; FD[i]=f; }
  load(sc); { u64 x=S->mtimes; stamp(S->root.get(),x); } for(auto&a:S->actors){ a.base_t=S->now; a.base_o=S->ops; }
  pthread_key_create(&tkey,thr_dtor); unsetenv("LD_PRELOAD"); unsetenv("SIM_SCENARIO"); unsetenv("SIM_OUT"); on_exit(at_exit,nullptr); S->log.reserve(1<<16); S->seq=0; S->on=true; }

// ---------------------------------------------------------------- threads and synchronisation
static void*thr_main(void*p){ Thr*t=(Thr*)p; me=t; park(t); pthread_setspecific(tkey,t); return t->fn(t->arg); }
X int pthread_create(pthread_t*pt,const pthread_attr_t*at,void*(*fn)(void*),void*arg){ auto r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); if(!S||!S->on) return r(pt,at,fn,arg);
  int e=op("thread",""); if(e) return e; Thr*t=new Thr(); t->id=S->thr.size(); t->fn=fn; t->arg=arg; t->lastrun=++S->runctr; e=r(pt,at,thr_main,t); if(e) die("pthread_create"); t->pt=*pt; S->thr.push_back(t); point(); return 0; }
X int pthread_join(pthread_t pt,void**ret){ auto r=real<int(*)(pthread_t,void**)>("pthread_join"); if(!S||!S->on) return r(pt,ret); point(); /* identifiers are used again: the newest thread is meant */ for(size_t i=S->thr.size();i-->1;){ Thr*t=S->thr[i]; if(pthread_equal(t->pt,pt)){ while(t->st!=2) block(t,0,"join"); break; } } return r(pt,ret); }
X int sched_yield(){ if(S&&S->on){ count_op(); if(S->thr.size()>1||!S->actors.empty()) reschedule(true); } return 0; }
static u64 ts2ns(const struct timespec*t){ return (u64)t->tv_sec*1000000000ull+t->tv_nsec; }
static const u64 MONO=5000ull*1000000000ull;
static long sim_futex(int*addr,int fop,int val,const struct timespec*ts,int*a2,int v3){ int o=fop&FUTEX_CMD_MASK;
  if(o==FUTEX_WAIT||o==FUTEX_WAIT_BITSET){ point(); if(__atomic_load_n(addr,__ATOMIC_SEQ_CST)!=val) return E(EAGAIN); 
    if(S->p_spur>0||S->replay) if(choose(C_SPUR,2,S->p_spur)) { S->firedkinds["spurious_wake"]++; return 0; }
    u64 dl=0; if(ts){ u64 n=ts2ns(ts); if(o==FUTEX_WAIT) dl=S->now+n; else { u64 base=(fop&FUTEX_CLOCK_REALTIME)?S->real_base:MONO; dl=n>base?n-base:1; if(dl<=S->now) dl=S->now+1; } }
    if(block(addr,dl,"futex")) return E(ETIMEDOUT); return 0; }
  if(o==FUTEX_WAKE||o==FUTEX_WAKE_BITSET){ int n=0; vector<Thr*> w; for(auto t:S->thr) if(t->st==1&&t->obj==addr) w.push_back(t); std::stable_sort(w.begin(),w.end(),[](Thr*a,Thr*b){return a->lastrun<b->lastrun;}); for(auto t:w){ if(n>=val) break; wake_thr(t); n++; } point(); return n; }
  die("futex op "+std::to_string(o)); }
X ssize_t getrandom(void*b,size_t n,unsigned fl){ if(!S||!S->on) return rsys(SYS_getrandom,(long)b,n,fl); static u64 st=0; if(!st) st=S->seed*77+5; for(size_t i=0;i<n;i++) ((char*)b)[i]=(char)(smix(st)>>13); return n; }
X int getentropy(void*b,size_t n){ getrandom(b,n,0); return 0; }
X int statx(int,const char*__restrict,int,unsigned,struct statx*__restrict);
X ssize_t copy_file_range(int,off64_t*,int,off64_t*,size_t,unsigned);
X long syscall(long n,...){ va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(!S||!S->on||S->finished){ long r=rsys(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-r; return -1;} return r; }
  switch(n){ case SYS_futex: return sim_futex((int*)a,(int)b,(int)c,(const struct timespec*)d,(int*)e,(int)f); case SYS_getrandom: return getrandom((void*)a,b,c); case SYS_gettid: return S->pid+S->cur->id; case SYS_statx: return statx(a,(const char*)b,c,d,(struct statx*)e); case SYS_copy_file_range: return copy_file_range(a,(off64_t*)b,c,(off64_t*)d,e,f); case SYS_pidfd_open: case SYS_clone3: case SYS_openat2: return E(ENOSYS); case SYS_membarrier: return 0; default: die("syscall "+std::to_string(n)); } }
X pid_t getpid(){ return S?S->pid:(pid_t)rsys(SYS_getpid); } X pid_t gettid(){ return S&&S->cur?S->pid+S->cur->id:(pid_t)rsys(SYS_gettid); } X pid_t getppid(){ return 1; }
X void abort(){ if(S&&S->on&&!S->finished) sim_finish("abort",134); rsys(SYS_exit_group,134); for(;;); }
X void _exit(int c){ if(S&&S->on&&!S->finished) sim_finish("exit",c); rsys(SYS_exit_group,c); for(;;); }
X int pause(){ point(); static int never; block(&never,0,"pause"); return E(EINTR); }
#define UNSUP(n) die("unsupported call " n)
X pid_t fork(){ if(S&&S->on) UNSUP("fork"); return rsys(SYS_fork); } X int execvp(const char*,char*const*){ UNSUP("execvp"); } X int execve(const char*,char*const*,char*const*){ UNSUP("execve"); }
X int kill(pid_t,int){ if(S&&S->on) UNSUP("kill"); return 0; }

// ---------------------------------------------------------------- time
X int clock_gettime(clockid_t c,struct timespec*t){ if(!S||!S->on) return rsys(SYS_clock_gettime,c,(long)t)?-1:0; S->now+=37; u64 v=(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)?S->real_base+S->now:MONO+S->now; t->tv_sec=v/1000000000ull; t->tv_nsec=v%1000000000ull; return 0; }
X int gettimeofday(struct timeval*t,void*){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); t->tv_sec=ts.tv_sec; t->tv_usec=ts.tv_nsec/1000; return 0; }
X time_t time(time_t*p){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(p) *p=ts.tv_sec; return ts.tv_sec; }
static void sim_sleep(u64 ns){ point(); static int s; block(&s,S->now+std::max<u64>(ns,1),"sleep"); }
X int clock_nanosleep(clockid_t c,int fl,const struct timespec*t,struct timespec*){ u64 n=ts2ns(t); if(fl&TIMER_ABSTIME){ u64 b=(c==CLOCK_REALTIME?S->real_base:MONO)+S->now; n=n>b?n-b:0; } sim_sleep(n); return 0; }
X int nanosleep(const struct timespec*t,struct timespec*){ sim_sleep(ts2ns(t)); return 0; } X int usleep(useconds_t u){ sim_sleep((u64)u*1000); return 0; } X unsigned sleep(unsigned s){ sim_sleep((u64)s*1000000000ull); return 0; }

// ---------------------------------------------------------------- paths
static Inode* basedir(int dfd,const char*p,int&err){ err=0; if(p[0]=='/'||dfd==AT_FDCWD) return S->cwd.get(); FP f=fdget(dfd); if(!f){ err=EBADF; return S->cwd.get(); } if(!f->ino||f->ino->type!='d'){ err=ENOTDIR; return S->cwd.get(); } return f->ino.get(); }
static string canon_of(Inode*b,const char*p){ if(p[0]=='/') return p; string s=path_of(b); if(s.size()>1) s+="/"; return s+p; }
// every path call: name for the log, injected failure, resolution
static int begin(const char*kind,int dfd,const char*p,bool follow,Res&r,bool mut=false){ if(!p) return EFAULT; int e; Inode*b=basedir(dfd,p,e); string full=canon_of(b,p); Res pre=resolve(b,p,follow); string name=pre.err||!pre.canon().size()?full:pre.canon(); int inj=op(kind,name,mut); if(inj) return inj; if(e) return e; b=basedir(dfd,p,e); r=resolve(b,p,follow); return r.err; }
static void fill(const Inode*n,struct stat64*s){ memset(s,0,sizeof *s); s->st_dev=7; s->st_ino=n->id; s->st_nlink=n->type=='d'?2:n->nlink; s->st_size=n->type=='l'?n->target.size():n->type=='d'?4096:n->data.size(); s->st_mode=n->mode|(n->type=='d'?S_IFDIR:n->type=='l'?S_IFLNK:n->type=='f'?S_IFREG:S_IFCHR); if(n->type=='n'||n->type=='u') s->st_mode=S_IFCHR|0666; if(n->type=='l') s->st_mode=S_IFLNK|0777; s->st_blksize=4096; s->st_blocks=(s->st_size+511)/512; u64 m=n->mtime/S->mtgran*S->mtgran; s->st_mtim.tv_sec=s->st_ctim.tv_sec=s->st_atim.tv_sec=m/1000000000ull; s->st_mtim.tv_nsec=s->st_ctim.tv_nsec=s->st_atim.tv_nsec=m%1000000000ull; }
static void fillx(const struct stat64&s,struct statx*x){ memset(x,0,sizeof *x); x->stx_mask=STATX_BASIC_STATS; x->stx_ino=s.st_ino; x->stx_nlink=s.st_nlink; x->stx_size=s.st_size; x->stx_mode=s.st_mode; x->stx_blksize=4096; x->stx_blocks=s.st_blocks; x->stx_mtime.tv_sec=s.st_mtim.tv_sec; x->stx_mtime.tv_nsec=s.st_mtim.tv_nsec; x->stx_atime=x->stx_ctime=x->stx_mtime; x->stx_dev_minor=7; }
static int dostat(int dfd,const char*p,int fl,struct stat64*s){ if((fl&AT_EMPTY_PATH)&&(!p||!*p)){ FP f=fdget(dfd); if(!f) return E(EBADF); int e=op("fstat",f->path); if(e) return E(e); if(f->ino) fill(f->ino.get(),s); else { memset(s,0,sizeof *s); s->st_mode=(f->k==F_SOCK||f->k==F_LISTEN?S_IFSOCK:f->k==F_CONS?S_IFIFO:S_IFIFO)|0600; } return 0; }
  Res r; int e=begin(fl&AT_SYMLINK_NOFOLLOW?"lstat":"stat",dfd,p,!(fl&AT_SYMLINK_NOFOLLOW),r); if(e) return E(e); if(!r.node) return E(ENOENT); if(r.slash&&r.node->type!='d') return E(ENOTDIR); fill(r.node.get(),s); return 0; }
#define RAWIF(call) if(!S||!S->on){ long _r=(call); if(_r<0){ errno=-_r; return -1;} return _r; }
X int stat64(const char*p,struct stat64*s){ RAWIF(rsys(SYS_stat,(long)p,(long)s)); return dostat(AT_FDCWD,p,0,s); } X int lstat64(const char*p,struct stat64*s){ RAWIF(rsys(SYS_lstat,(long)p,(long)s)); return dostat(AT_FDCWD,p,AT_SYMLINK_NOFOLLOW,s); } X int fstat64(int fd,struct stat64*s){ RAWIF(rsys(SYS_fstat,fd,(long)s)); return dostat(fd,"",AT_EMPTY_PATH,s); } X int fstatat64(int d,const char*p,struct stat64*s,int fl){ RAWIF(rsys(SYS_newfstatat,d,(long)p,(long)s,fl)); return dostat(d,p,fl,s); }
X int stat(const char*p,struct stat*s){ return stat64(p,(struct stat64*)s); } X int lstat(const char*p,struct stat*s){ return lstat64(p,(struct stat64*)s); } X int fstat(int f,struct stat*s){ return fstat64(f,(struct stat64*)s); } X int fstatat(int d,const char*p,struct stat*s,int fl){ return fstatat64(d,p,(struct stat64*)s,fl); }
X int statx(int d,const char*__restrict p,int fl,unsigned m,struct statx*__restrict x){ RAWIF(rsys(SYS_statx,d,(long)p,fl,m,(long)x)); if(!p&&!x) return E(EFAULT); if(!p||!x) return E(EFAULT); struct stat64 s; if(dostat(d,p,fl,&s)) return -1; fillx(s,x); return 0; }
X int access(const char*p,int){ Res r; int e=begin("stat",AT_FDCWD,p,true,r); if(e) return E(e); return r.node?0:E(ENOENT); } X int faccessat(int d,const char*p,int,int){ Res r; int e=begin("stat",d,p,true,r); if(e) return E(e); return r.node?0:E(ENOENT); } X int euidaccess(const char*p,int m){ return access(p,m); } X int eaccess(const char*p,int m){ return access(p,m); }
X char*realpath(const char*p,char*out){ if(!S||!S->on) return real<char*(*)(const char*,char*)>("realpath")(p,out); Res r; int e=begin("realpath",AT_FDCWD,p,true,r); if(!e&&!r.node) e=ENOENT; if(e){ errno=e; return nullptr; } string c; if(r.node->type=='d') c=path_of(r.node.get()); else c=r.canon(); if(!out) out=(char*)malloc(c.size()+1); memcpy(out,c.c_str(),c.size()+1); return out; }
X char*canonicalize_file_name(const char*p){ return realpath(p,nullptr); }
X ssize_t readlinkat(int d,const char*p,char*b,size_t n){ Res r; int e=begin("readlink",d,p,false,r); if(e) return E(e); if(!r.node) return E(ENOENT); if(r.node->type!='l') return E(EINVAL); size_t m=std::min(n,r.node->target.size()); memcpy(b,r.node->target.data(),m); return m; } X ssize_t readlink(const char*p,char*b,size_t n){ if(!S||!S->on){ long r=rsys(SYS_readlink,(long)p,(long)b,n); if(r<0) return E(-r); return r; } return readlinkat(AT_FDCWD,p,b,n); }
X char*getcwd(char*b,size_t n){ if(!S||!S->on){ long r=rsys(SYS_getcwd,(long)b,n); if(r<0){ errno=-r; return nullptr;} return b; } int e=op("getcwd",""); if(e){ errno=e; return nullptr; } if(!S->cwd->parent&&S->cwd!=S->root){ errno=ENOENT; return nullptr; } string c=path_of(S->cwd.get()); if(c.size()+1>n){ errno=ERANGE; return nullptr; } if(!b) b=(char*)malloc(std::max(n,c.size()+1)); memcpy(b,c.c_str(),c.size()+1); return b; }
X int chdir(const char*p){ Res r; int e=begin("chdir",AT_FDCWD,p,true,r); if(e) return E(e); if(!r.node) return E(ENOENT); if(r.node->type!='d') return E(ENOTDIR); S->cwd=r.node; return 0; }
static void mut(const char*what,const string&path){ if(S->loglevel>=1) logln("m "+std::to_string(++S->seq)+" "+std::to_string(S->cur->id)+" "+what+" "+pct(path)); } // a change the program itself made
static string ino_path(Inode*n){ return n->parent?path_of(n):n==S->root.get()?"/":"(gone)/"+n->name; }
X int mkdirat(int d,const char*p,mode_t m){ Res r; string ps; if(p){ ps=p; while(ps.size()>1&&ps.back()=='/') ps.pop_back(); p=ps.c_str(); } int e=begin("mkdir",d,p,false,r,true); if(e) return E(e); if(r.node||!r.dir) return E(EEXIST); if(S->diskfree==0){ S->firedkinds["enospc"]++; return E(ENOSPC); } IP n=mkinode('d'); n->mode=m&0777&~022; vfs_create(r.dir,r.name,n); mut("mkdir",r.canon()); return 0; } X int mkdir(const char*p,mode_t m){ return mkdirat(AT_FDCWD,p,m); }
static int dounlink(int d,const char*p,bool dir){ Res r; int e=begin(dir?"rmdir":"unlink",d,p,false,r,true); if(e) return E(e); if(!r.node) return E(ENOENT); if(!r.dir) return E(EBUSY); if(dir){ if(r.node->type!='d') return E(ENOTDIR); if(!r.node->ent.empty()) return E(ENOTEMPTY); } else if(r.node->type=='d') return E(EISDIR); if(S->diskfree>=0) S->diskfree+=r.node->data.size(); mut(dir?"rmdir":"unlink",r.canon()); vfs_unlink(r.dir,r.name); return 0; }
X int unlink(const char*p){ return dounlink(AT_FDCWD,p,false); } X int rmdir(const char*p){ return dounlink(AT_FDCWD,p,true); } X int unlinkat(int d,const char*p,int fl){ return dounlink(d,p,fl&AT_REMOVEDIR); } X int remove(const char*p){ Res r=resolve(S->cwd.get(),p,false); return dounlink(AT_FDCWD,p,r.node&&r.node->type=='d'); }
static int dorename(int d1,const char*p1,int d2,const char*p2,unsigned fl){ Res a,b; int e=begin("rename",d1,p1,false,a,true); if(e) return E(e); int ee; Inode*bb=basedir(d2,p2,ee); if(ee) return E(ee); b=resolve(bb,p2,false); if(S->loglevel>=1) logln("o2 "+pct(b.canon())); if(!a.node) return E(ENOENT); if(b.err) return E(b.err); if(!a.dir||!b.dir) return E(EBUSY); if((fl&1)&&b.node) return E(EEXIST); if(fl&2) return E(EINVAL); { string from=a.canon(),to=b.canon(); e=vfs_rename(a.dir,a.name,b.dir,b.name); if(!e){ mut("rename",from); mut("rename",to); } } return e?E(e):0; }
X int rename(const char*a,const char*b){ return dorename(AT_FDCWD,a,AT_FDCWD,b,0); } X int renameat(int d,const char*a,int d2,const char*b){ return dorename(d,a,d2,b,0); } X int renameat2(int d,const char*a,int d2,const char*b,unsigned f){ return dorename(d,a,d2,b,f); }
X int symlinkat(const char*t,int d,const char*p){ Res r; int e=begin("symlink",d,p,false,r,true); if(e) return E(e); if(r.node) return E(EEXIST); IP n=mkinode('l'); n->target=t; vfs_create(r.dir,r.name,n); mut("symlink",r.canon()); return 0; } X int symlink(const char*t,const char*p){ return symlinkat(t,AT_FDCWD,p); }
X int linkat(int d,const char*p,int d2,const char*p2,int fl){ Res a,b; int e=begin("link",d,p,fl&AT_SYMLINK_FOLLOW,a,true); if(e) return E(e); int ee; b=resolve(basedir(d2,p2,ee),p2,false); if(!a.node) return E(ENOENT); if(b.err) return E(b.err); if(b.node) return E(EEXIST); if(a.node->type=='d') return E(EPERM); a.node->nlink++; IP n=a.node; b.dir->ent[b.name]=n; fs_touch(); inotify_emit(b.dir,b.name,IN_CREATE,0,false); mut("link",b.canon()); return 0; } X int link(const char*a,const char*b){ return linkat(AT_FDCWD,a,AT_FDCWD,b,0); }
X int fchmodat(int d,const char*p,mode_t m,int){ Res r; int e=begin("chmod",d,p,true,r,true); if(e) return E(e); if(!r.node) return E(ENOENT); r.node->mode=m; mut("chmod",r.canon()); emit_file(r.node.get(),IN_ATTRIB); return 0; } X int chmod(const char*p,mode_t m){ return fchmodat(AT_FDCWD,p,m,0); } X int fchmod(int fd,mode_t m){ FP f=fdget(fd); if(!f) return E(EBADF); int e=op("fchmod",f->path,true); if(e) return E(e); if(f->ino){ f->ino->mode=m; mut("chmod",ino_path(f->ino.get())); } return 0; }
X int chown(const char*,uid_t,gid_t){ return 0; } X int fchown(int,uid_t,gid_t){ return 0; } X int lchown(const char*,uid_t,gid_t){ return 0; }
X int utimensat(int d,const char*p,const struct timespec*,int){ Res r; int e=begin("utime",d,p,true,r,true); if(e) return E(e); return r.node?0:E(ENOENT); } X int futimens(int,const struct timespec*){ return 0; }

// ---------------------------------------------------------------- open files
static int doopen(int d,const char*p,int fl,mode_t m){ bool wr=(fl&O_ACCMODE)!=O_RDONLY; bool cr=fl&O_CREAT; bool trunc=fl&O_TRUNC; Res r; const char*kind=cr?"creat":(fl&O_DIRECTORY)?"opend":wr?"openw":"open";
  if(S->p_eintr>0||S->replay) if(choose(C_EINTR,2,S->p_eintr)){ point(); S->firedkinds["eintr_open"]++; return E(EINTR); }
  int e=begin(kind,d,p,!(fl&O_NOFOLLOW)&&!(cr&&(fl&O_EXCL)),r,wr||cr||trunc); if(e) return E(e);
  if(!r.node){ if(!cr) return E(ENOENT); if(r.slash) return E(EISDIR); if(S->diskfree==0) { S->firedkinds["enospc"]++; return E(ENOSPC); } IP n=mkinode('f'); n->mode=m&0777&~022; vfs_create(r.dir,r.name,n); r.node=n; mut("create",r.canon()); }
  else { if(cr&&(fl&O_EXCL)) return E(EEXIST); if(r.node->type=='l') return E((fl&O_DIRECTORY)?ENOTDIR:ELOOP); if((fl&O_DIRECTORY)&&r.node->type!='d') return E(ENOTDIR); if(r.node->type=='d'&&(wr||cr)) return E(EISDIR);
    if(trunc&&wr&&r.node->type=='f'&&!r.node->data.empty()){ if(S->diskfree>=0) S->diskfree+=r.node->data.size(); r.node->data.clear(); r.node->mtime=NOW(); fs_touch(); mut("truncate",r.canon()); emit_file(r.node.get(),IN_MODIFY); } }
  FP f=mkfile(r.node->type=='d'?F_DIR:r.node->type=='n'?F_NULL:r.node->type=='u'?F_URAND:F_FILE); f->ino=r.node; f->flags=fl; f->path=r.node->type=='d'?path_of(r.node.get()):r.canon(); return fdalloc(f); }
#define MODE(fl) mode_t m=0; if((fl)&(O_CREAT|O_TMPFILE)){ va_list ap; va_start(ap,fl); m=va_arg(ap,mode_t); va_end(ap); }
X int open(const char*p,int fl,...){ MODE(fl) RAWIF(rsys(SYS_open,(long)p,fl,m)); return doopen(AT_FDCWD,p,fl,m); } X int open64(const char*p,int fl,...){ MODE(fl) RAWIF(rsys(SYS_open,(long)p,fl,m)); return doopen(AT_FDCWD,p,fl,m); } X int openat(int d,const char*p,int fl,...){ MODE(fl) RAWIF(rsys(SYS_openat,d,(long)p,fl,m)); return doopen(d,p,fl,m); } X int openat64(int d,const char*p,int fl,...){ MODE(fl) RAWIF(rsys(SYS_openat,d,(long)p,fl,m)); return doopen(d,p,fl,m); } X int creat(const char*p,mode_t m){ return doopen(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m); }
X int close(int fd){ RAWIF(rsys(SYS_close,fd)); auto it=FD.find(fd); if(it==FD.end()) return E(EBADF); FP f=it->second; FD.erase(it); if(f->k==F_CONS) return 0; int e=op("close",f->path); f.reset(); return e?E(e):0; }
static size_t shrink_r(size_t n){ if(n>1&&(S->p_shortr>0||S->replay)){ u32 c=choose(C_SHORTR,5,S->p_shortr); if(c){ S->firedkinds["short_read"]++; return c==1?1:c==2?std::max<size_t>(1,n/2):c==3?n-1:std::max<size_t>(1,n/7); } } return n; }
static size_t shrink_w(size_t n){ if(n>1&&(S->p_shortw>0||S->replay)){ u32 c=choose(C_SHORTW,5,S->p_shortw); if(c){ S->firedkinds["short_write"]++; return c==1?1:c==2?std::max<size_t>(1,n/2):c==3?n-1:std::max<size_t>(1,n/7); } } return n; }
static bool eintr(const char*w){ if(S->p_eintr>0||S->replay) if(choose(C_EINTR,2,S->p_eintr)){ S->firedkinds[string("eintr_")+w]++; return true; } return false; }
static ssize_t wouldblock(FP&f,u64 to,const char*why){ if(f->nonblock) return E(EAGAIN); if(block(f.get(),to?S->now+to:0,why)) return E(EAGAIN); return 0; }
static ssize_t sock_recv(FP f,char*b,size_t n,bool peek,bool dontwait){ for(;;){ if(!f->conn) return E(ENOTCONN); Conn*c=f->conn.get(); if(c->rst){ c->rst=false; c->in_eof=true; c->peer_gone=true; c->in.clear(); return E(ECONNRESET); } if(!c->in.empty()){ size_t m=std::min(n,c->in.size()); if(m>1&&(S->p_net>0||S->replay)){ u32 z=choose(C_NET,4,S->p_net); if(z){ S->firedkinds["short_recv"]++; m=z==1?1:z==2?std::max<size_t>(1,m/2):m-1; } } for(size_t i=0;i<m;i++) b[i]=c->in[i]; if(!peek) c->in.erase(c->in.begin(),c->in.begin()+m); return m; } if(c->in_eof||f->shut&1) return 0; if(dontwait) return E(EAGAIN); if(wouldblock(f,f->rcvto,"recv")<0) return -1; } }
static void outgoing_data(Conn*c,const string&d);
static ssize_t sock_send(FP f,const char*b,size_t n,bool dontwait){ for(;;){ if(!f->conn) return E(ENOTCONN); Conn*c=f->conn.get(); if(c->srv_shut) return E(EPIPE); if(c->rst){ c->rst=false; c->peer_gone=true; c->in_eof=true; return E(ECONNRESET); } if(c->peer_gone){ if(!c->outn||c->unsent++>0){ return E(EPIPE); } /* first send after the peer closed: accepted, answered by a reset */ return n; }
    if(c->stalled&&c->stalled_bytes>=S->sndcap){ if(dontwait) return E(EAGAIN); S->firedkinds["send_buffer_full"]++; if(wouldblock(f,f->sndto,"send")<0) return -1; continue; }
    active(); size_t m=n; if(m>1&&(S->p_net>0||S->replay)){ u32 z=choose(C_NET,4,S->p_net); if(z){ S->firedkinds["short_send"]++; m=z==1?1:z==2?std::max<size_t>(1,m/2):m-1; } } if(c->stalled){ m=std::min(m,S->sndcap-c->stalled_bytes); c->stalled_bytes+=m; } string d(b,m); c->outn+=m; if(c->outgoing) outgoing_data(c,d); else { int snap=c->ws&&!S->snapdirs.empty()?snapshot():-1; S->log+="W "+std::to_string(++S->seq)+" "+std::to_string(c->id)+" "+std::to_string(snap)+" "+hexenc(d)+"\n"; if(!c->ws&&d.find("101 ")!=string::npos) c->ws=true; } return m; } }
static ssize_t doread(int fd,char*b,size_t n,off_t at){ point(); FP f=fdget(fd); if(!f) return E(EBADF); switch(f->k){
  case F_FILE: { if(eintr("read")) return E(EINTR); int e=op("read",f->path); if(e) return E(e); if((f->flags&O_ACCMODE)==O_WRONLY) return E(EBADF); off_t o=at>=0?at:f->off; const string&d=f->ino->data; if((size_t)o>=d.size()||n==0) return 0; size_t m=shrink_r(std::min(n,d.size()-(size_t)o)); memcpy(b,d.data()+o,m); if(at<0) f->off+=m; return m; }
  case F_DIR: return E(EISDIR); case F_NULL: return 0; case F_URAND: getrandom(b,n,0); return n; case F_CONS: return 0;
  case F_PIPER: for(;;){ if(!f->pipe->buf.empty()){ size_t m=shrink_r(std::min(n,f->pipe->buf.size())); for(size_t i=0;i<m;i++) b[i]=f->pipe->buf[i]; f->pipe->buf.erase(f->pipe->buf.begin(),f->pipe->buf.begin()+m); pipe_changed(f->pipe.get()); return m; } if(f->pipe->writers==0) return 0; if(wouldblock(f,0,"pipe")<0) return -1; }
  case F_SOCK: return sock_recv(f,b,n,false,f->nonblock);
  case F_INOT: for(;;){ int e=op("inotify_read",""); if(e) return E(e); string o; while(!f->in->q.empty()&&o.size()+f->in->q.front().size()<=n){ o+=f->in->q.front(); if(S->loglevel>=2){ struct inotify_event ie; memcpy(&ie,f->in->q.front().data(),sizeof ie); LOGF("N %llu %d %x %s",(unsigned long long)++S->seq,ie.wd,ie.mask,pct(f->in->q.front().c_str()+sizeof ie).c_str()); } f->in->q.pop_front(); } f->in->overflowed=false; if(!o.empty()){ memcpy(b,o.data(),o.size()); return o.size(); } if(!f->in->q.empty()) return E(EINVAL); if(wouldblock(f,0,"inotify")<0) return -1; }
  case F_EVENTFD: for(;;){ if(f->counter){ memcpy(b,&f->counter,8); f->counter=0; io_change(f.get()); return 8; } if(wouldblock(f,0,"eventfd")<0) return -1; }
  default: return E(EINVAL); } }
static ssize_t dowrite(int fd,const char*b,size_t n,off_t at){ FP f=fdget(fd); if(!f){ point(); return E(EBADF); } if(f->k!=F_CONS) point(); switch(f->k){
  case F_CONS: { active(); S->cons[f->consn].append(b,n); S->seq++; return n; } case F_NULL: return n;
  case F_FILE: { if(eintr("write")) return E(EINTR); if((f->flags&O_ACCMODE)==O_RDONLY) return E(EBADF); bool last=S->kill_at>=0&&(u64)S->kill_at==S->fops&&S->kill_frac>=0; int e=op("write",f->path,true); if(e) return E(e); size_t m=last?n:shrink_w(n); if(last) m=std::min(n,(size_t)(n*S->kill_frac)); off_t o=(f->flags&O_APPEND)?f->ino->data.size():at>=0?at:f->off; string&d=f->ino->data; size_t end=o+m; if(S->diskfree>=0&&end>d.size()){ size_t need=end-d.size(); if(need>(size_t)S->diskfree){ m=m>need-(size_t)S->diskfree?m-(need-S->diskfree):0; end=o+m; S->firedkinds["enospc"]++; if(m==0&&n>0) return E(ENOSPC); need=end>d.size()?end-d.size():0; } S->diskfree-=need; } if(d.size()<end) d.resize(end); memcpy(&d[o],b,m); if(at<0) f->off=end; f->ino->mtime=NOW(); fs_touch(); if(m) mut("write",ino_path(f->ino.get())); emit_file(f->ino.get(),IN_MODIFY); if(last){ LOGF("K %llu torn",(unsigned long long)++S->seq); sim_finish("killed",137); } return m; }
  case F_PIPEW: for(;;){ if(f->pipe->readers==0) return E(EPIPE); size_t room=f->pipe->cap-f->pipe->buf.size(); if(room){ size_t m=std::min(n,room); for(size_t i=0;i<m;i++) f->pipe->buf.push_back(b[i]); pipe_changed(f->pipe.get()); return m; } if(wouldblock(f,0,"pipew")<0) return -1; }
  case F_SOCK: return sock_send(f,b,n,f->nonblock); case F_EVENTFD: { u64 v; memcpy(&v,b,8); f->counter+=v; io_change(f.get()); return 8; } default: return E(EINVAL); } }
X ssize_t read(int fd,void*b,size_t n){ RAWIF(rsys(SYS_read,fd,(long)b,n)); return doread(fd,(char*)b,n,-1); } X ssize_t pread64(int fd,void*b,size_t n,off64_t o){ return doread(fd,(char*)b,n,o); } X ssize_t pread(int fd,void*b,size_t n,off_t o){ return doread(fd,(char*)b,n,o); }
X ssize_t write(int fd,const void*b,size_t n){ RAWIF(rsys(SYS_write,fd,(long)b,n)); return dowrite(fd,(const char*)b,n,-1); } X ssize_t pwrite64(int fd,const void*b,size_t n,off64_t o){ return dowrite(fd,(const char*)b,n,o); } X ssize_t pwrite(int fd,const void*b,size_t n,off_t o){ return dowrite(fd,(const char*)b,n,o); }
X ssize_t readv(int fd,const struct iovec*v,int c){ for(int i=0;i<c;i++) if(v[i].iov_len) return read(fd,v[i].iov_base,v[i].iov_len); return 0; } X ssize_t writev(int fd,const struct iovec*v,int c){ string s; for(int i=0;i<c;i++) s.append((char*)v[i].iov_base,v[i].iov_len); return write(fd,s.data(),s.size()); }
X ssize_t preadv(int fd,const struct iovec*v,int c,off_t o){ return c?pread(fd,v[0].iov_base,v[0].iov_len,o):0; } X ssize_t pwritev(int fd,const struct iovec*v,int c,off_t o){ return c?pwrite(fd,v[0].iov_base,v[0].iov_len,o):0; }
X off64_t lseek64(int fd,off64_t o,int w){ FP f=fdget(fd); if(!f) return E(EBADF); int e=op("lseek",f->path); if(e) return E(e); if(f->k!=F_FILE) return E(ESPIPE); off_t b=w==SEEK_SET?0:w==SEEK_CUR?f->off:(off_t)f->ino->data.size(); if(b+o<0) return E(EINVAL); return f->off=b+o; } X off_t lseek(int fd,off_t o,int w){ return lseek64(fd,o,w); }
X int ftruncate64(int fd,off64_t n){ FP f=fdget(fd); if(!f||f->k!=F_FILE) return E(EBADF); int e=op("ftruncate",f->path,true); if(e) return E(e); if(f->ino->data.size()!=(size_t)n) mut("truncate",ino_path(f->ino.get())); f->ino->data.resize(n); fs_touch(); emit_file(f->ino.get(),IN_MODIFY); return 0; } X int ftruncate(int fd,off_t n){ return ftruncate64(fd,n); } X int truncate(const char*p,off_t n){ Res r; int e=begin("truncate",AT_FDCWD,p,true,r,true); if(e) return E(e); if(!r.node) return E(ENOENT); if(r.node->data.size()!=(size_t)n) mut("truncate",r.canon()); r.node->data.resize(n); fs_touch(); return 0; }
static int dosync(int fd){ FP f=fdget(fd); if(!f) return E(EBADF); int e=op("fsync",f->path,true); return e?E(e):0; } X int fsync(int fd){ return dosync(fd); } X int fdatasync(int fd){ return dosync(fd); } X void sync(){} X int syncfs(int){ return 0; } X int flock(int,int){ return 0; } X int posix_fallocate(int,off_t,off_t){ return 0; } X int fallocate(int,int,off_t,off_t){ return 0; } X int posix_fadvise(int,off_t,off_t,int){ return 0; }
X ssize_t copy_file_range(int in,off64_t*io,int out,off64_t*oo,size_t n,unsigned){ FP a=fdget(in),b=fdget(out); if(!a||!b) return E(EBADF); if(a->k!=F_FILE||b->k!=F_FILE||io||oo) return E(EINVAL); if((size_t)a->off>=a->ino->data.size()) return 0; string d=a->ino->data.substr(a->off,std::min(n,(size_t)1<<20)); int e=op("read",a->path); if(e) return E(e); ssize_t w=dowrite(out,d.data(),d.size(),-1); if(w>0) a->off+=w; return w; }
X ssize_t sendfile64(int out,int in,off64_t*o,size_t n){ FP a=fdget(in); if(!a) return E(EBADF); if(a->k!=F_FILE||o) return E(EINVAL); if((size_t)a->off>=a->ino->data.size()) return 0; string d=a->ino->data.substr(a->off,std::min(n,(size_t)65536)); ssize_t w=write(out,d.data(),d.size()); if(w>0) a->off+=w; return w; } X ssize_t sendfile(int a,int b,off_t*o,size_t n){ return sendfile64(a,b,o,n); }
X ssize_t splice(int,off64_t*,int,off64_t*,size_t,unsigned){ return E(EINVAL); }
X int dup2(int a,int b){ RAWIF(rsys(SYS_dup2,a,b)); FP f=fdget(a); if(!f) return E(EBADF); FD[b]=f; return b; } X int dup3(int a,int b,int){ return dup2(a,b); } X int dup(int a){ FP f=fdget(a); if(!f) return E(EBADF); return fdalloc(f,0); }
static int dofcntl(int fd,int c,long a){ FP f=fdget(fd); if(!f) return E(EBADF); switch(c){ case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0; case F_GETFL: return (f->flags&O_ACCMODE)|(f->nonblock?O_NONBLOCK:0); case F_SETFL: f->nonblock=a&O_NONBLOCK; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { int e=op("dup",f->path); if(e) return E(e); return fdalloc(f,std::max<int>(a,3)); } case F_SETLK: case F_SETLKW: return 0; default: return E(EINVAL); } }
X int fcntl(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); RAWIF(rsys(SYS_fcntl,fd,c,a)); return dofcntl(fd,c,a); } X int fcntl64(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); RAWIF(rsys(SYS_fcntl,fd,c,a)); return dofcntl(fd,c,a); }
X int ioctl(int fd,unsigned long r,...){ va_list ap; va_start(ap,r); void*a=va_arg(ap,void*); va_end(ap); RAWIF(rsys(SYS_ioctl,fd,r,(long)a)); FP f=fdget(fd); if(!f) return E(EBADF); if(r==FIONBIO){ f->nonblock=*(int*)a; return 0; } if(r==FIOCLEX||r==FIONCLEX) return 0; if(r==FIONREAD){ size_t n=f->k==F_PIPER?f->pipe->buf.size():f->k==F_SOCK&&f->conn?f->conn->in.size():0; if(f->k==F_INOT) for(auto&x:f->in->q) n+=x.size(); *(int*)a=n; return 0; } return E(ENOTTY); }
X int isatty(int){ errno=ENOTTY; return 0; }
X int pipe2(int*p,int fl){ int e=op("pipe",""); if(e) return E(e); auto q=std::make_shared<Pipe>(); q->readers=q->writers=1; FP r=mkfile(F_PIPER),w=mkfile(F_PIPEW); r->pipe=w->pipe=q; r->nonblock=w->nonblock=fl&O_NONBLOCK; w->flags=O_WRONLY; p[0]=fdalloc(r); p[1]=fdalloc(w); return 0; } X int pipe(int*p){ return pipe2(p,0); }
X int poll(struct pollfd*p,nfds_t n,int to){ if(!S||!S->on) return rsys(SYS_poll,(long)p,n,to); u64 dl=to>0?S->now+(u64)to*1000000:0; point(); if(eintr("poll")) return E(EINTR); for(;;){ int c=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; if(p[i].fd<0) continue; FP f=fdget(p[i].fd); if(!f){ p[i].revents=POLLNVAL; c++; continue; } if(f->k==F_CONS) continue; u32 r=ready(f.get()); short v=0; if((r&EPOLLIN)&&(p[i].events&POLLIN)) v|=POLLIN; if((r&EPOLLOUT)&&(p[i].events&POLLOUT)) v|=POLLOUT; if(r&EPOLLHUP) v|=POLLHUP; if(r&EPOLLERR) v|=POLLERR; p[i].revents=v; if(v) c++; } if(c||to==0) return c; if(block(&io_any,dl,"poll")) return 0; } }
X int ppoll(struct pollfd*p,nfds_t n,const struct timespec*t,const sigset_t*){ return poll(p,n,t?(int)(ts2ns(t)/1000000):-1); }

// ---------------------------------------------------------------- directories
struct SDir { int fd; FP f; vector<std::pair<string,IP>> ents; size_t i=0; bool loaded=false; struct dirent64 de; };
static void dload(SDir*d){ d->loaded=true; Inode*n=d->f->ino.get(); vector<std::pair<string,IP>> v; for(auto&e:n->ent) v.push_back({e.first,e.second}); if(S->dirmode==1) std::reverse(v.begin(),v.end()); if(S->dirmode==2||S->replay){ for(size_t i=0;i+1<v.size();i++){ u32 k=choose(C_DIR,v.size()-i,-1); if(k) std::swap(v[i],v[i+k]); } } d->ents=v; d->ents.insert(d->ents.begin()+std::min<size_t>(v.size(),v.size()/2),{".",d->f->ino}); d->ents.push_back({"..",n->parent?self(n->parent)?self(n->parent):S->root:S->root}); }
static SDir* mkdirp(int fd){ SDir*d=new SDir(); d->fd=fd; d->f=fdget(fd); return d; }
X DIR*fdopendir(int fd){ FP f=fdget(fd); if(!f){ errno=EBADF; return nullptr; } if(f->k!=F_DIR){ errno=ENOTDIR; return nullptr; } return (DIR*)mkdirp(fd); }
X DIR*opendir(const char*p){ if(!S||!S->on) return real<DIR*(*)(const char*)>("opendir")(p); Res r; int e=begin("opendir",AT_FDCWD,p,true,r); if(!e&&!r.node) e=ENOENT; if(!e&&r.node->type!='d') e=ENOTDIR; if(e){ errno=e; return nullptr; } FP f=mkfile(F_DIR); f->ino=r.node; f->path=path_of(r.node.get()); return (DIR*)mkdirp(fdalloc(f)); }
X struct dirent64*readdir64(DIR*dp){ SDir*d=(SDir*)dp; int e=op("readdir",d->f->path); if(e){ errno=e; return nullptr; } if(!d->loaded) dload(d); if(d->i>=d->ents.size()) return nullptr; auto&x=d->ents[d->i++]; memset(&d->de,0,sizeof d->de); d->de.d_ino=x.second->id; d->de.d_off=d->i; size_t l=std::min<size_t>(x.first.size(),255); memcpy(d->de.d_name,x.first.data(),l); d->de.d_reclen=sizeof d->de; bool unk=S->dtype_unknown&&x.first!="."&&x.first!=".."; d->de.d_type=unk?DT_UNKNOWN:x.second->type=='d'?DT_DIR:x.second->type=='l'?DT_LNK:x.second->type=='f'?DT_REG:DT_CHR; return &d->de; }
X struct dirent*readdir(DIR*d){ return (struct dirent*)readdir64(d); } X int dirfd(DIR*d){ return ((SDir*)d)->fd; } X void rewinddir(DIR*d){ ((SDir*)d)->i=0; } X int closedir(DIR*dp){ SDir*d=(SDir*)dp; int fd=d->fd; delete d; return close(fd); }

// ---------------------------------------------------------------- inotify, epoll, eventfd
X int inotify_init1(int fl){ int e=op("inotify_init",""); if(e) return E(e); FP f=mkfile(F_INOT); f->in=new Inot(); INOTS.push_back(f->in); f->nonblock=fl&O_NONBLOCK; return fdalloc(f); } X int inotify_init(){ return inotify_init1(0); }
X int inotify_add_watch(int fd,const char*p,uint32_t mask){ FP f=fdget(fd); if(!f||f->k!=F_INOT) return E(EBADF); Res r; int e=begin("inotify_add",AT_FDCWD,p,!(mask&IN_DONT_FOLLOW),r); if(e) return E(e); if(!r.node) return E(ENOENT); if((mask&IN_ONLYDIR)&&r.node->type!='d') return E(ENOTDIR); u32 m=mask&0xfff; for(auto&w:r.node->watches) if(w.in==f->in){ w.mask=(mask&IN_MASK_ADD)?w.mask|m:m; return w.wd; } int wd=++f->in->wd; f->in->wds[wd]=r.node; r.node->watches.push_back({f->in,wd,m}); return wd; }
X int inotify_rm_watch(int fd,int wd){ FP f=fdget(fd); if(!f||f->k!=F_INOT) return E(EBADF); point(); auto it=f->in->wds.find(wd); if(it==f->in->wds.end()) return E(EINVAL); auto&w=it->second->watches; w.erase(std::remove_if(w.begin(),w.end(),[&](Watch&x){return x.in==f->in&&x.wd==wd;}),w.end()); f->in->wds.erase(it); inot_push(f->in,wd,IN_IGNORED,0,""); return 0; }
X int epoll_create1(int){ int e=op("epoll",""); if(e) return E(e); return fdalloc(mkfile(F_EPOLL)); } X int epoll_create(int){ return epoll_create1(0); }
X int epoll_ctl(int ep,int o,int fd,struct epoll_event*ev){ point(); FP p=fdget(ep),f=fdget(fd); if(!p||!f) return E(EBADF); if(o==EPOLL_CTL_ADD){ if(p->ep.count(fd)&&p->ep[fd].f.lock()==f) return E(EEXIST); EpItem i; i.ev=ev->events; i.data=ev->data.u64; i.f=f; p->ep[fd]=i; } else if(o==EPOLL_CTL_MOD){ if(!p->ep.count(fd)) return E(ENOENT); EpItem&i=p->ep[fd]; i.ev=ev->events; i.data=ev->data.u64; i.seen=0; i.disabled=false; } else { if(!p->ep.erase(fd)) return E(ENOENT); } wake_obj(&io_any); return 0; }
X int epoll_wait(int ep,struct epoll_event*ev,int n,int to){ FP p=fdget(ep); if(!p) return E(EBADF); u64 dl=to>0?S->now+(u64)to*1000000:0; point(); if(eintr("epoll")) return E(EINTR); for(;;){ int c=0; for(auto it=p->ep.begin();it!=p->ep.end()&&c<n;){ EpItem&i=it->second; FP f=i.f.lock(); if(!f){ it=p->ep.erase(it); continue; } ++it; if(i.disabled) continue; u32 r=ready(f.get())&(i.ev|EPOLLERR|EPOLLHUP); if(!r) continue; if(i.ev&EPOLLET){ if(i.seen==f->gen) continue; i.seen=f->gen; } if(i.ev&EPOLLONESHOT) i.disabled=true; ev[c].events=r; ev[c].data.u64=i.data; c++; } if(c||to==0) return c; if(block(&io_any,dl,"epoll")) return 0; } }
X int epoll_pwait(int ep,struct epoll_event*ev,int n,int to,const sigset_t*){ return epoll_wait(ep,ev,n,to); }
X int eventfd(unsigned v,int fl){ FP f=mkfile(F_EVENTFD); f->counter=v; f->nonblock=fl&O_NONBLOCK; return fdalloc(f); }

// ---------------------------------------------------------------- sockets
X int socket(int,int type,int){ int e=op("socket",""); if(e) return E(e); FP f=mkfile(F_SOCK); f->nonblock=type&SOCK_NONBLOCK; return fdalloc(f); }
X int bind(int fd,const struct sockaddr*a,socklen_t){ FP f=fdget(fd); if(!f) return E(EBADF); int e=op("bind",""); if(e) return E(e); int port=ntohs(((struct sockaddr_in*)a)->sin_port); if(S->busyports.count(port)||(PORTS.count(port)&&PORTS[port].lock())){ S->firedkinds["eaddrinuse"]++; return E(EADDRINUSE); } f->port=port; return 0; }
X int listen(int fd,int){ FP f=fdget(fd); if(!f) return E(EBADF); int e=op("listen",""); if(e) return E(e); f->k=F_LISTEN; PORTS[f->port]=f; logln("LISTEN "+std::to_string(++S->seq)+" "+std::to_string(f->port)); return 0; }
X int accept4(int fd,struct sockaddr*a,socklen_t*l,int fl){ point(); for(;;){ FP f=fdget(fd); if(!f||f->k!=F_LISTEN) return E(EINVAL); if(!f->backlog.empty()){ int e=op("accept",""); if(e) return E(e); auto c=f->backlog.front(); f->backlog.pop_front(); FP s=mkfile(F_SOCK); s->conn=c; s->nonblock=fl&SOCK_NONBLOCK; if(a&&l){ struct sockaddr_in in{}; in.sin_family=AF_INET; in.sin_port=htons(40000+c->id); in.sin_addr.s_addr=htonl(0x7f000001); memcpy(a,&in,std::min<size_t>(*l,sizeof in)); *l=sizeof in; } int n=fdalloc(s); LOGF("C %llu %d accept",(unsigned long long)++S->seq,c->id); return n; } if(wouldblock(f,0,"accept")<0) return -1; } } X int accept(int fd,struct sockaddr*a,socklen_t*l){ return accept4(fd,a,l,0); }
static void outgoing_data(Conn*c,const string&d){ c->reqbuf+=d; if(c->answered||c->reqbuf.find("\r\n\r\n")==string::npos) return; c->answered=true; string path=c->reqbuf.substr(c->reqbuf.find(' ')+1); path=path.substr(0,path.find(' ')); string host; { size_t i=c->reqbuf.find("Host: "); host=i==string::npos?"?":c->reqbuf.substr(i+6,c->reqbuf.find("\r\n",i)-i-6); } logln("G "+std::to_string(++S->seq)+" "+pct(host)+" "+pct(path)); 
  for(auto&w:WEB) if(w.port==c->port&&(host==w.host||host.substr(0,host.find(':'))==w.host)&&glob(w.path.c_str(),path.c_str())){ S->actors.push_back(Actor()); Actor&a=S->actors.back(); a.name="web"; a.base_t=S->now; a.base_o=S->ops; for(auto&s:split(w.acts,';')){ Step st; st.trig='t'; st.n=1000; vector<string> v{"deliver",std::to_string(c->id)}; if(s=="fin"||s=="rst") v.push_back(s); else { size_t i=s.find(':'); st.n=strtoull(s.c_str(),0,10); v.push_back("data"); v.push_back(s.substr(i+1)); } st.a=v; a.steps.push_back(st); } a.armed=true; return; } 
  c->in_eof=true; conn_changed(c); }
X int connect(int fd,const struct sockaddr*a,socklen_t){ FP f=fdget(fd); if(!f) return E(EBADF); const struct sockaddr_in*in=(const struct sockaddr_in*)a; u32 ip=ntohl(in->sin_addr.s_addr); char b[32]; snprintf(b,32,"%u.%u.%u.%u",ip>>24,(ip>>16)&255,(ip>>8)&255,ip&255); string host=IP2HOST.count(b)?IP2HOST[b]:b; int port=ntohs(in->sin_port); int e=op("connect",host+":"+std::to_string(port)); if(e) return E(e); if(a->sa_family!=AF_INET) return E(ECONNREFUSED); bool known=false; for(auto&w:WEB) if(w.host==host&&w.port==port) known=true; if(REFUSE.count(host)||!known){ S->firedkinds["connection_refused"]++; return E(ECONNREFUSED); } auto c=std::make_shared<Conn>(); c->id=++nextconn; c->port=port; c->outgoing=true; connById[c->id]=c; f->conn=c; return 0; }
X ssize_t recv(int fd,void*b,size_t n,int fl){ point(); FP f=fdget(fd); if(!f) return E(EBADF); return sock_recv(f,(char*)b,n,fl&MSG_PEEK,f->nonblock||(fl&MSG_DONTWAIT)); } X ssize_t send(int fd,const void*b,size_t n,int fl){ point(); FP f=fdget(fd); if(!f) return E(EBADF); return sock_send(f,(const char*)b,n,f->nonblock||(fl&MSG_DONTWAIT)); } X ssize_t recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*,socklen_t*){ return recv(fd,b,n,fl); } X ssize_t sendto(int fd,const void*b,size_t n,int fl,const struct sockaddr*,socklen_t){ return send(fd,b,n,fl); } X ssize_t sendmsg(int,const struct msghdr*,int){ UNSUP("sendmsg"); } X ssize_t recvmsg(int,struct msghdr*,int){ UNSUP("recvmsg"); } X int socketpair(int,int,int,int*){ UNSUP("socketpair"); }
X int shutdown(int fd,int how){ point(); FP f=fdget(fd); if(!f) return E(EBADF); f->shut|=how==SHUT_RD?1:how==SHUT_WR?2:3; if(f->conn&&how!=SHUT_RD) f->conn->srv_shut=true; io_change(f.get()); if(f->conn) LOGF("C %llu %d shut",(unsigned long long)++S->seq,f->conn->id); return 0; }
X int setsockopt(int fd,int l,int o,const void*v,socklen_t n){ FP f=fdget(fd); if(!f) return E(EBADF); if(l==SOL_SOCKET&&(o==SO_RCVTIMEO||o==SO_SNDTIMEO)&&n>=sizeof(struct timeval)){ struct timeval tv; memcpy(&tv,v,sizeof tv); u64 ns=(u64)tv.tv_sec*1000000000ull+(u64)tv.tv_usec*1000; (o==SO_RCVTIMEO?f->rcvto:f->sndto)=ns; } return 0; } X int getsockopt(int fd,int l,int o,void*v,socklen_t*n){ FP f=fdget(fd); if(!f) return E(EBADF); if(v&&n&&*n>=4){ *(int*)v=0; if(l==SOL_SOCKET&&o==SO_TYPE) *(int*)v=SOCK_STREAM; } return 0; }
static int peername(int fd,struct sockaddr*a,socklen_t*l,int base){ FP f=fdget(fd); if(!f) return E(EBADF); if(f->conn&&(f->conn->peer_gone)&&base==40000) return E(ENOTCONN); struct sockaddr_in in{}; in.sin_family=AF_INET; in.sin_port=htons(f->conn?base+f->conn->id:f->port); in.sin_addr.s_addr=htonl(0x7f000001); memcpy(a,&in,std::min<size_t>(*l,sizeof in)); *l=sizeof in; return 0; } X int getpeername(int fd,struct sockaddr*a,socklen_t*l){ return peername(fd,a,l,40000); } X int getsockname(int fd,struct sockaddr*a,socklen_t*l){ return peername(fd,a,l,6904); }
X int getaddrinfo(const char*node,const char*,const struct addrinfo*,struct addrinfo**res){ int e=op("resolve",node?node:""); string ip; if(node&&S->hosts.count(node)) ip=S->hosts[node]; if(e||ip.empty()) return EAI_NONAME; struct addrinfo*a=(struct addrinfo*)calloc(1,sizeof *a+sizeof(struct sockaddr_in)); struct sockaddr_in*in=(struct sockaddr_in*)(a+1); in->sin_family=AF_INET; unsigned b[4]; sscanf(ip.c_str(),"%u.%u.%u.%u",b,b+1,b+2,b+3); in->sin_addr.s_addr=htonl(b[0]<<24|b[1]<<16|b[2]<<8|b[3]); a->ai_family=AF_INET; a->ai_socktype=SOCK_STREAM; a->ai_addrlen=sizeof *in; a->ai_addr=(struct sockaddr*)in; *res=a; return 0; } X void freeaddrinfo(struct addrinfo*a){ while(a){ struct addrinfo*n=a->ai_next; free(a); a=n; } } X int __res_init(){ return 0; }

// ---------------------------------------------------------------- child processes
struct FA { vector<std::pair<int,int>> dups; string chdir; }; static map<void*,FA> FAS;
X int posix_spawn_file_actions_init(posix_spawn_file_actions_t*p){ memset(p,0,sizeof *p); if(S) FAS[p]=FA(); return 0; } X int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t*p){ if(S) FAS.erase(p); return 0; } X int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t*p,int a,int b){ FAS[p].dups.push_back({a,b}); return 0; } X int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t*p,const char*d){ FAS[p].chdir=d; return 0; } X int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t*p,const char*d){ FAS[p].chdir=d; return 0; }
static void compile(Child&c,const string&code){ for(auto&l:split(code,'\n')){ auto w=split(l); if(w.empty()||w[0][0]=='#'||w[0]==":") continue; if(w[0].size()&&w[0][0]=='@'){ w[0]=w[0].substr(1); c.prog.push_back(w);} else c.prog.push_back(w); } }
X int posix_spawnp(pid_t*pid,const char*file,const posix_spawn_file_actions_t*fa,const posix_spawnattr_t*,char*const argv[],char*const envp[]){ string prog=file; size_t sl=prog.rfind('/'); string base=sl==string::npos?prog:prog.substr(sl+1); string line; for(int i=1;argv[i];i++){ if(i>1) line+=" "; line+=argv[i]; } int e=op("spawn",base+" "+line,true); if(e) return e; if(NOPROG.count(base)){ S->firedkinds["program_missing"]++; return ENOENT; }
  auto c=std::make_shared<Child>(); c->pid=9000+CHILD.size(); c->name=base; for(int i=0;argv[i];i++) c->argv.push_back(argv[i]); for(int i=0;envp&&envp[i];i++){ string s=envp[i]; size_t q=s.find('='); c->env[s.substr(0,q)]=s.substr(q+1); } c->cwd=path_of(S->cwd.get()); c->out=fdget(1); c->err=fdget(2); if(fa&&FAS.count((void*)fa)){ for(auto&d:FAS[(void*)fa].dups){ if(d.second==1) c->out=fdget(d.first); if(d.second==2) c->err=fdget(d.first); } if(!FAS[(void*)fa].chdir.empty()) c->cwd=FAS[(void*)fa].chdir; }
  string log="P "+std::to_string(++S->seq)+" "+std::to_string(c->pid)+" "+base+" "+pct(line)+" "+pct(c->cwd); for(auto&k:c->env) if(k.first.compare(0,7,"STUART_")==0) log+=" "+k.first+"="+pct(k.second); logln(log);
  bool found=false; string code; if(base=="sh"&&c->argv.size()>1){ Res r=resolve(S->root.get(),c->argv[1][0]=='/'?c->argv[1]:c->cwd+"/"+c->argv[1],true); c->argv.erase(c->argv.begin()); if(r.err||!r.node||r.node->type!='f') code="exit 2"; else code=r.node->data; found=true; } else for(auto&r:RULES) if(r.prog==base&&(glob(r.args.c_str(),line.c_str())||glob(r.args.c_str(),(line+" @"+c->cwd).c_str()))){ code=r.code; found=true; break; }
  if(!found){ bool any=false; for(auto&r:RULES) if(r.prog==base) any=true; if(!any) return ENOENT; code="exit 1"; }
  compile(*c,code); CHILD.push_back(c); if(pid) *pid=c->pid; c->actor=S->actors.size(); S->actors.push_back(Actor()); Actor&a=S->actors.back(); a.name="child"+std::to_string(c->pid); a.base_t=S->now; a.base_o=S->ops; a.steps.push_back({'t',S->childtick,{"child",std::to_string(CHILD.size()-1)}}); a.armed=true; point(); return 0; }
X int posix_spawn(pid_t*pid,const char*file,const posix_spawn_file_actions_t*fa,const posix_spawnattr_t*at,char*const argv[],char*const envp[]){ return posix_spawnp(pid,file,fa,at,argv,envp); }
X pid_t waitpid(pid_t pid,int*st,int opt){ point(); if(eintr("waitpid")) return E(EINTR); for(;;){ bool any=false; for(auto&c:CHILD) if(!c->reaped&&(pid==-1||pid==c->pid)){ any=true; if(c->done){ c->reaped=true; if(st) *st=c->status; return c->pid; } } if(!any) return E(ECHILD); if(opt&WNOHANG) return 0; block(&child_obj,0,"wait"); } } X pid_t wait4(pid_t p,int*s,int o,struct rusage*){ return waitpid(p,s,o); } X int waitid(idtype_t t,id_t id,siginfo_t*si,int opt){ int st; pid_t r=waitpid(t==P_ALL?-1:(pid_t)id,&st,opt&WNOHANG); if(r<0) return -1; if(si){ memset(si,0,sizeof *si); si->si_pid=r; si->si_signo=SIGCHLD; if(WIFEXITED(st)){ si->si_code=CLD_EXITED; si->si_status=WEXITSTATUS(st); } else { si->si_code=CLD_KILLED; si->si_status=WTERMSIG(st); } } return 0; }

// ---------------------------------------------------------------- plugins
static string plug_id, dlerr; static bool dlerrset=false;
X void*dlopen(const char*p,int fl){ static auto r=real<void*(*)(const char*,int)>("dlopen"); if(!S||!S->on||!p) return r(p,fl); Res q; int e=begin("dlopen",AT_FDCWD,p,true,q); string d=!e&&q.node&&q.node->type=='f'?q.node->data:""; const string tag="SIMPLUGIN:"; if(e||!q.node||d.compare(0,tag.size(),tag)||d.find('\n')==string::npos||d.size()<3||d.compare(d.size()-3,3,"END")){ dlerr=string(p)+(e||!q.node?": cannot open shared object file":": invalid ELF header"); dlerrset=true; return nullptr; } plug_id=d.substr(tag.size(),d.find('\n')-tag.size()); logln("L "+std::to_string(++S->seq)+" "+pct(q.canon())+" "+pct(plug_id)); if(PLUGSO.empty()) die("no plugin library"); bool on=S->on; S->on=false; void*h=r(PLUGSO["so"].c_str(),fl); S->on=on; if(!h){ die("plugin library does not load"); } return h; }
X char*dlerror(){ if(dlerrset){ dlerrset=false; return (char*)dlerr.c_str(); } static auto r=real<char*(*)()>("dlerror"); return r(); }
X const char*sim_plugin_id(){ return plug_id.c_str(); }
static struct Init { Init(){ init(); } } init_; // last: every other global is constructed by now
