// Open files, pipes, sockets, inotify, epoll, child processes and scripted actors.
#pragma once
#include "core.h"
#include <sys/inotify.h>
#include <sys/epoll.h>
#include <poll.h>
#include <signal.h>

enum FK { F_FILE, F_DIR, F_PIPER, F_PIPEW, F_SOCK, F_LISTEN, F_EPOLL, F_INOT, F_CONS, F_NULL, F_URAND, F_EVENTFD, F_ZERO };
struct Pipe { std::deque<char> buf; size_t cap=65536; int readers=0, writers=0; };
struct Conn { int id; std::deque<char> in; bool in_eof=false, rst=false, srv_closed=false, srv_shut=false; size_t outn=0; bool stalled=false; size_t stalled_bytes=0; int port=0; bool ws=false; bool outgoing=false; bool peer_gone=false;
  // outgoing (client role of the process under test)
  string reqbuf; vector<Step> resp; bool answered=false; size_t unsent=0; };
struct File; typedef shared_ptr<File> FP;
struct EpItem { u32 ev; u64 data; std::weak_ptr<File> f; u64 seen=0; bool disabled=false; };
struct Inot { std::deque<string> q; int wd=0; map<int,IP> wds; bool overflowed=false; string last; };
struct File { FK k; IP ino; off_t off=0; int flags=0; bool nonblock=false; string path; shared_ptr<Pipe> pipe; shared_ptr<Conn> conn; Inot* in=nullptr; map<int,EpItem> ep; u64 gen=1; int consn=0; int port=0; std::deque<shared_ptr<Conn>> backlog; u64 counter=0; bool dirty=false; u64 rcvto=0,sndto=0; int shut=0; bool bound=false;
  ~File(); };
static map<int,FP> FD; static vector<std::weak_ptr<File>> ALLF; static vector<shared_ptr<Conn>> CONNS;
static map<int,std::weak_ptr<File>> PORTS;
static vector<Inot*> INOTS;
static void io_change(File*f){ if(f){ f->gen++; wake_obj(f); } else wake_obj(&io_any); }
static FP fdget(int fd){ auto it=FD.find(fd); return it==FD.end()?nullptr:it->second; }
static FP mkfile(FK k){ FP f=std::make_shared<File>(); f->k=k; ALLF.push_back(f); return f; }
static int fdalloc(FP f,int min=3){ int n=min; for(auto it=FD.lower_bound(min);it!=FD.end()&&it->first==n;++it) n++; FD[n]=f; return n; }
static void each_file(std::function<void(File*)> fn){ for(size_t i=0;i<ALLF.size();){ if(FP f=ALLF[i].lock()){ fn(f.get()); i++; } else { ALLF[i]=ALLF.back(); ALLF.pop_back(); } } }
static void child_unpark(Pipe*p);
static void pipe_changed(Pipe*p){ child_unpark(p); each_file([&](File*f){ if(f->pipe.get()==p) io_change(f); }); }
static void conn_changed(Conn*c){ each_file([&](File*f){ if(f->conn.get()==c) io_change(f); }); }
static string hexs(const char*p,size_t n){ return hexenc(string(p,n)); }

// ---------------------------------------------------------------- inotify
static void inot_push(Inot*in,int wd,u32 mask,u32 cookie,const string&name){
  if(in->q.size()>=S->maxq){ if(!in->overflowed){ in->overflowed=true; S->firedkinds["inotify_overflow"]++; LOGF("QO %llu",(unsigned long long)++S->seq); struct inotify_event e{}; e.wd=-1; e.mask=IN_Q_OVERFLOW; in->q.push_back(string((char*)&e,sizeof e)); } return; }
  struct inotify_event e{}; e.wd=wd; e.mask=mask; e.cookie=cookie; size_t l=name.empty()?0:((name.size()+1+15)/16)*16; e.len=l; string s((char*)&e,sizeof e); s+=name; s.resize(sizeof e+l,'\0');
  if(!in->q.empty()&&in->q.back()==s&&!cookie) return; // the kernel coalesces identical consecutive events
  in->q.push_back(s); each_file([&](File*f){ if(f->in==in) io_change(f); }); }
static void inotify_emit(Inode*d,const string&name,u32 mask,u32 cookie,bool isdir){ for(auto&w:d->watches) if(w.mask&mask){ inot_push(w.in,w.wd,mask|(isdir?IN_ISDIR:0),cookie,name); } }
static void inode_gone(Inode*n){ vector<Watch> ws=n->watches; n->watches.clear(); for(auto&w:ws){ if(w.mask&IN_DELETE_SELF) inot_push(w.in,w.wd,IN_DELETE_SELF|IN_ISDIR,0,""); inot_push(w.in,w.wd,IN_IGNORED,0,""); w.in->wds.erase(w.wd); } }
static void emit_file(Inode*n,u32 mask){ if(n->parent) inotify_emit(n->parent,n->name,mask,0,false); }

File::~File(){ if(!S||S->finished) return; if(k==F_PIPER){ pipe->readers--; pipe_changed(pipe.get()); } if(k==F_PIPEW){ pipe->writers--; pipe_changed(pipe.get()); }
  if(k==F_SOCK&&conn){ conn->srv_closed=true; LOGF("C %llu %d close",(unsigned long long)++S->seq,conn->id); }
  if(k==F_FILE&&ino&&(flags&O_ACCMODE)!=O_RDONLY){ emit_file(ino.get(),IN_CLOSE_WRITE); } }

static u32 ready(File*f){ u32 r=0; switch(f->k){
  case F_PIPER: if(!f->pipe->buf.empty()) r|=EPOLLIN; if(f->pipe->writers==0) r|=EPOLLHUP; break;
  case F_PIPEW: if(f->pipe->buf.size()<f->pipe->cap) r|=EPOLLOUT; if(f->pipe->readers==0) r|=EPOLLERR; break;
  case F_SOCK: if(f->conn){ Conn*c=f->conn.get(); if(!c->in.empty()||c->in_eof||c->rst) r|=EPOLLIN; if(!(c->stalled&&c->stalled_bytes>=S->sndcap)) r|=EPOLLOUT; if(c->rst) r|=EPOLLERR|EPOLLHUP; if(c->in_eof) r|=EPOLLRDHUP; } break;
  case F_LISTEN: if(!f->backlog.empty()) r|=EPOLLIN; break;
  case F_INOT: if(!f->in->q.empty()) r|=EPOLLIN; break;
  case F_EVENTFD: if(f->counter) r|=EPOLLIN; r|=EPOLLOUT; break;
  case F_EPOLL: for(auto&e:f->ep) if(FP g=e.second.f.lock()) if(ready(g.get())&(e.second.ev|EPOLLERR|EPOLLHUP)) r|=EPOLLIN; break;
  default: r|=EPOLLIN|EPOLLOUT; } return r; }

// ---------------------------------------------------------------- child processes
struct Child { int pid; string name; vector<string> argv; map<string,string> env; FP out,err; string cwd; vector<vector<string>> prog; size_t pc=0; bool done=false; int status=0; bool reaped=false; string pend; int pendfd=0; size_t actor=0; bool parked=false; };
static vector<shared_ptr<Child>> CHILD; static int child_obj;
struct Rule { string prog, args; string code; }; static vector<Rule> RULES; static std::set<string> NOPROG;
// $TARGET: the directory a git command works on; $MDIR: the directory of the Cargo manifest (the working directory if none is named)
static string under(const string&d,const string&p){ return !p.empty()&&p[0]=='/'?p:d=="/"?"/"+p:d+"/"+p; }
static string special(Child&c,const string&k){
  string v=c.cwd;
  if(k=="MDIR") { for(size_t i=1;i<c.argv.size();i++){ string a=c.argv[i]; if(a.compare(0,16,"--manifest-path=")==0) a=a.substr(16); if(a.size()>=10&&a.compare(a.size()-10,10,"Cargo.toml")==0){ a=a.substr(0,a.size()-10); v=under(c.cwd,a.empty()?".":a); } } }
  else { string sub; vector<string> pos; bool opts=true; static const std::set<string> val={"--depth","-b","--branch","-o","--origin","-j","--jobs","--config","--filter","-u","--upload-pack","--template","--separate-git-dir","--initial-branch","--object-format"};
    for(size_t i=1;i<c.argv.size();i++){ const string&a=c.argv[i];
      if(opts&&a=="--"){ opts=false; continue; }
      if(opts&&sub.empty()&&a=="-C"&&i+1<c.argv.size()){ v=under(v,c.argv[++i]); continue; }
      if(opts&&(a=="-c"||(!sub.empty()&&val.count(a)))){ i++; continue; }
      if(opts&&a.compare(0,10,"--git-dir=")==0){ string d=a.substr(10); if(d.size()>5&&d.compare(d.size()-5,5,"/.git")==0) d.resize(d.size()-5); v=under(c.cwd,d); continue; }
      if(opts&&a.compare(0,12,"--work-tree=")==0){ v=under(c.cwd,a.substr(12)); continue; }
      if(opts&&!a.empty()&&a[0]=='-') continue;
      if(sub.empty()) sub=a; else pos.push_back(a); }
    if(sub=="clone"){ string d; if(pos.size()>1) d=pos[1]; else if(pos.size()){ d=pos[0]; while(d.size()>1&&d.back()=='/') d.pop_back(); size_t q=d.rfind('/'); if(q!=string::npos) d=d.substr(q+1); if(d.size()>4&&d.compare(d.size()-4,4,".git")==0) d.resize(d.size()-4); } v=under(v,d); }
    else if(sub=="init"&&!pos.empty()) v=under(v,pos[0]); }
  while(v.size()>1&&v.back()=='/') v.pop_back(); return v; }
static string expand(Child&c,const string&s){ string r; for(size_t i=0;i<s.size();){ if(s[i]=='$'){ size_t j=i+1; while(j<s.size()&&(isalnum(s[j])||s[j]=='_')) j++; string k=s.substr(i+1,j-i-1); bool num=!k.empty()&&isdigit(k[0]); if(k=="TARGET"||k=="MDIR"){ r+=special(c,k); i=j; continue; } if(num){ size_t n=atoi(k.c_str()); r+=n<c.argv.size()?c.argv[n]:""; } else r+=c.env.count(k)?c.env[k]:""; i=j; } else r.push_back(s[i++]); } if(!r.empty()&&r[0]!='/') r=c.cwd+(c.cwd=="/"?"":"/")+r; return r; }
static void ext_write(const string&path,const string&data,bool app,u32 how);
static void child_exit(Child&c,int status){ c.done=true; c.status=status; c.out=nullptr; c.err=nullptr; S->log+="X "+std::to_string(++S->seq)+" "+std::to_string(c.pid)+" "+std::to_string(status)+"\n"; wake_obj(&child_obj); }
static bool child_write(Child&c){ FP f=c.pendfd==1?c.out:c.err; if(!f){ c.pend.clear(); return true; } if(f->k==F_CONS||f->k==F_NULL){ c.pend.clear(); return true; } if(f->k!=F_PIPEW){ c.pend.clear(); return true; }
  if(f->pipe->readers==0){ c.pend.clear(); child_exit(c,SIGPIPE); return false; } size_t room=f->pipe->cap-f->pipe->buf.size(); size_t n=std::min(room,c.pend.size()); if(!n) return false; for(size_t i=0;i<n;i++) f->pipe->buf.push_back(c.pend[i]); c.pend.erase(0,n); pipe_changed(f->pipe.get()); return c.pend.empty(); }
static void child_unpark(Pipe*p){ for(size_t i=0;i<CHILD.size();i++){ Child&c=*CHILD[i]; if(!c.parked||c.done) continue; FP f=c.pendfd==1?c.out:c.err; if(!f||f->pipe.get()!=p) continue; c.parked=false; Actor&a=S->actors[c.actor]; a.steps.push_back({'t',S->now-a.base_t+1000,{"child",std::to_string(i)}}); } }
static u64 child_step(Child&c){ // performs one command; returns the delay to the next one, 0 when finished
  if(c.done) return 0; if(!c.pend.empty()){ size_t had=c.pend.size(); child_write(c); if(c.done) return 0; if(c.pend.size()==had){ c.parked=true; return 0; /* until somebody reads */ } return 1000; }
  if(c.pc>=c.prog.size()){ child_exit(c,0); return 0; }
  vector<string> a=c.prog[c.pc++]; string&k=a[0]; auto arg=[&](size_t i){ return i<a.size()?a[i]:string(); };
  if(k=="mkdirp"){ mkdirs(expand(c,arg(1))); }
  else if(k=="write") ext_write(expand(c,arg(1)),hexdec(arg(2)),false,0); else if(k=="append") ext_write(expand(c,arg(1)),hexdec(arg(2)),true,0);
  else if(k=="rm"){ string d,n; split_path(expand(c,arg(1)),d,n); Res r=resolve(S->root.get(),d,true); if(!r.err&&r.node&&r.node->type=='d') rmtree(r.node.get(),n); }
  else if(k=="cp"){ Res r=resolve(S->root.get(),expand(c,arg(1)),true); if(!r.err&&r.node&&r.node->type=='f') ext_write(expand(c,arg(2)),r.node->data,false,0); else child_exit(c,1<<8); }
  else if(k=="need"){ Res r=resolve(S->root.get(),expand(c,arg(1)),true); if(r.err||!r.node){ child_exit(c,1<<8); } }
  else if(k=="if"){ Res r=resolve(S->root.get(),expand(c,arg(1)),true); if(r.err||!r.node) while(c.pc<c.prog.size()&&c.prog[c.pc++][0]!="fi"); } else if(k=="fi") {}
  else if(k=="vacant"){ Res r=resolve(S->root.get(),expand(c,arg(1)),true); if(!r.err&&r.node&&(r.node->type!='d'||!r.node->ent.empty())){ child_exit(c,atoi(arg(2).c_str())<<8); } }
  else if(k=="have"){ Res r=resolve(S->root.get(),expand(c,arg(1)),true); if(!r.err&&r.node){ child_exit(c,atoi(arg(2).c_str())<<8); } }
  else if(k=="out"){ c.pend=hexdec(arg(1)); c.pendfd=1; child_write(c); } else if(k=="err"){ c.pend=hexdec(arg(1)); c.pendfd=2; child_write(c); }
  else if(k=="outn"){ c.pend=string(atoi(arg(1).c_str()),'x'); c.pendfd=1; child_write(c); } else if(k=="errn"){ c.pend=string(atoi(arg(1).c_str()),'y'); c.pendfd=2; child_write(c); }
  else if(k=="sleep") return std::max<u64>(1,strtoull(arg(1).c_str(),0,10));
  else if(k=="exit"){ child_exit(c,(atoi(arg(1).c_str())&255)<<8); return 0; } else if(k=="kill"){ child_exit(c,atoi(arg(1).c_str())&127); return 0; }
  else if(k=="snap"){ LOGF("S %llu %d %d",(unsigned long long)++S->seq,c.pid,snapshot()); }
  else if(k=="#") {} else { die("child command "+k); }
  if(c.done) return 0; return S->childtick; }

// file writes by actors and children, with the notifications a real process would cause
static void ext_write(const string&path,const string&data,bool app,u32 how){ string d,n; split_path(path,d,n); Res r=resolve(S->root.get(),d,true); if(r.err||!r.node||r.node->type!='d') return; Inode*dir=r.node.get(); auto it=dir->ent.find(n); IP f;
  if(it==dir->ent.end()){ f=mkinode('f'); vfs_create(dir,n,f); } else { f=it->second; if(f->type=='l'){ Res q=resolve(dir,n,true); if(q.err||!q.node||q.node->type!='f') return; f=q.node; } if(f->type!='f') return; if(!app){ f->data.clear(); emit_file(f.get(),IN_MODIFY); } }
  fs_touch(); if(how!=1){ f->data+=data; f->mtime=NOW(); if(!data.empty()) emit_file(f.get(),IN_MODIFY); emit_file(f.get(),IN_CLOSE_WRITE); } }

// ---------------------------------------------------------------- actors
static map<int,shared_ptr<Conn>> connById; static int nextconn=0;
static void deliver(Conn*c,const string&d){ for(char x:d) c->in.push_back(x); conn_changed(c); }
static void fire_step(Actor&a){ active(); Step s=a.steps[a.pc++]; a.base_t=S->now; a.base_o=S->ops; vector<string>&v=s.a; const string&k=v[0]; auto arg=[&](size_t i){ return i<v.size()?unpct(v[i]):string(); };
  if(k=="child"){ Child&c=*CHILD[atoi(v[1].c_str())]; u64 d=child_step(c); if(d){ a.steps.push_back({'t',d,v}); } if(a.pc>64){ a.steps.erase(a.steps.begin(),a.steps.begin()+a.pc); a.pc=0; } return; }
  if(k=="deliver"){ Conn*c=connById[atoi(v[1].c_str())].get(); if(v[2]=="data") deliver(c,hexdec(v[3])); else if(v[2]=="fin"){ c->in_eof=true; conn_changed(c); } else if(v[2]=="rst"){ c->rst=true; c->in.clear(); conn_changed(c); } return; }
  u64 q=++S->seq; string l="A "+std::to_string(q)+" "+a.name+" "+std::to_string(a.pc-1)+" "+k; for(size_t i=1;i<v.size()&&i<3;i++) l+=" "+(v[i].size()>160?v[i].substr(0,160):v[i]); 
  hmixs(S->hash,l);
  if(k=="write"){ ext_write(arg(1),hexdec(v[2]),false,0); S->lasteditseq=q; }
  else if(k=="trunc"){ ext_write(arg(1),"",false,1); S->lasteditseq=q; }            // first half of an in-place save
  else if(k=="append"){ ext_write(arg(1),hexdec(v[2]),true,0); S->lasteditseq=q; }
  else if(k=="awrite"){ string d,n; split_path(arg(1),d,n); Res r=resolve(S->root.get(),d,true); if(!r.err&&r.node&&r.node->type=='d'){ string t=".tmp"+std::to_string(q); IP f=mkinode('f'); vfs_create(r.node.get(),t,f); f->data=hexdec(v[2]); emit_file(f.get(),IN_MODIFY); emit_file(f.get(),IN_CLOSE_WRITE); vfs_rename(r.node.get(),t,r.node.get(),n); } S->lasteditseq=q; }
  else if(k=="touch"){ Res r=resolve(S->root.get(),arg(1),true); if(!r.err&&r.node){ r.node->mtime=NOW(); emit_file(r.node.get(),IN_ATTRIB); } S->lasteditseq=q; }
  else if(k=="mkdir"){ mkdirs(arg(1)); S->lasteditseq=q; }
  else if(k=="rm"){ string d,n; split_path(arg(1),d,n); Res r=resolve(S->root.get(),d,true); if(!r.err&&r.node&&r.node->type=='d') rmtree(r.node.get(),n); S->lasteditseq=q; }
  else if(k=="mv"){ string d,n,d2,n2; split_path(arg(1),d,n); split_path(arg(2),d2,n2); Res r=resolve(S->root.get(),d,true), r2=resolve(S->root.get(),d2,true); if(!r.err&&r.node&&!r2.err&&r2.node&&r.node->ent.count(n)&&r2.node->type=='d') vfs_rename(r.node.get(),n,r2.node.get(),n2); S->lasteditseq=q; }
  else if(k=="overflow"){ for(auto in:INOTS){ struct inotify_event e{}; e.wd=-1; e.mask=IN_Q_OVERFLOW; in->q.clear(); in->q.push_back(string((char*)&e,sizeof e)); each_file([&](File*f){ if(f->in==in) io_change(f); }); } S->firedkinds["inotify_overflow"]++; }
  else if(k=="connect"){ int port=atoi(v[1].c_str()); auto it=PORTS.find(port); FP lf=it==PORTS.end()?nullptr:it->second.lock(); if(lf&&lf->k==F_LISTEN){ auto c=std::make_shared<Conn>(); c->id=++nextconn; c->port=port; connById[c->id]=c; CONNS.push_back(c); a.conn=c->id; lf->backlog.push_back(c); io_change(lf.get()); l+=" conn="+std::to_string(c->id); } else { a.conn=-1; l+=" refused"; } }
  else if(k=="send"||k=="fin"||k=="rst"||k=="gone"||k=="stall"||k=="unstall"){ if(a.conn<0) l+=" noconn"; else { Conn*c=connById[a.conn].get(); 
      if(k=="send"){ if(!c->rst&&!c->in_eof) deliver(c,hexdec(v[1])); } else if(k=="fin"){ c->in_eof=true; conn_changed(c); } else if(k=="rst"){ c->rst=true; c->in.clear(); conn_changed(c); } else if(k=="gone"){ c->in_eof=true; c->peer_gone=true; conn_changed(c); } else if(k=="stall"){ c->stalled=true; } else { c->stalled=false; c->stalled_bytes=0; conn_changed(c); } } }
  else if(k=="maxq"){ S->maxq=strtoull(v[1].c_str(),0,10); }
  else if(k=="nop"){} 
  else if(k=="fault"){ Fault f; f.kinds=arg(1); f.pathg=arg(2); f.nth=0; f.err=atoi(v[3].c_str()); f.count=atoi(v[4].c_str()); S->faults.push_back(f); }
  else if(k=="nofault"){ for(auto&f:S->faults) f.count=f.fired; }
  else if(k=="clock"){ S->real_base+=(u64)strtoll(v[1].c_str(),0,10); S->firedkinds["clock_jump"]++; }
  else die("actor command "+k);
  logln(l); }
