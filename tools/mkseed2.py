import os
from seedlib import seed
HERE=os.path.dirname(os.path.abspath(__file__))
DOM=open(HERE+"/demo/domain.sh").read(); SRVH=open(HERE+"/demo/srv.h").read()
H='#include <atmi.h>\n#include <tx.h>\n#include <userlog.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <errno.h>\n#include <signal.h>\n#include <sys/wait.h>\n#include <string>\n#include <vector>\n'
INT=H+'#include "mib.h"\n#include "ipc.h"\n#include "trx.h"\n#include "misc.h"\n#include "fux.h"\n#include <fml32.h>\n#include <tpadm.h>\n#include <sys/ipc.h>\n#include <sys/msg.h>\n'
UNIT_FLAGS='-w -I"$R/src" -I"$R/third_party" -I"$R/_build/src"'
def domain(sid, prop, edits, needs, breaks, server, client, grp="G1 GRPNO=1 LMID=tux1", srv='srv SRVGRP=G1 SRVID=1 CLOPT="-A"', res="", pre="", run='timeout 100 "$T/client"'):
    sh=('#!/bin/bash\n# exit 0: the code behaves; nonzero: it does not\nD=$(cd "$(dirname "$0")" && pwd)\nR=$PWD\n. "$D/domain.sh"\n'
        "RES='%s'\nGRP='%s'\nSRV='%s'\n%scc1 server.cpp \"$T/app/srv\"\ncc1 client.cpp \"$T/client\"\nboot\n%s\n") % (res,grp,srv,pre,run)
    seed(sid, prop, edits, needs, breaks, None, demo_sh=sh, extra=[("domain.sh",DOM),("srv.h",SRVH),("server.cpp",server),("client.cpp",client)])
def unit(sid, prop, edits, needs, breaks, demo): seed(sid, prop, edits, needs, breaks, INT+demo, flags=UNIT_FLAGS)

unit("C05-boundary","C05",[("src/ipc.cpp","if (data.size() > MAX_QUEUE_MSG_SIZE) {","if (data.size() > MAX_QUEUE_MSG_SIZE + sizeof(long)) {")],
 "a message whose size is within 8 bytes of the largest one that is sent through a queue",
 "the last bytes of a message just at the size that switches transport are lost (and written past the end of the receiver's memory)",
 r'''
int main(){ int q=msgget(IPC_PRIVATE,0600|IPC_CREAT); int bad=0;
 for(size_t n=3800;n<4100;n++){ fux::ipc::msg a,b; a.resize_data(n); for(size_t i=0;i<n;i++) a->data[i]=char(i*7+n); a->mtype=1; a->cat=fux::ipc::application;
  if(!fux::ipc::qsend(q,a,0,fux::ipc::flags::noblock)){bad=2;break;}
  fux::ipc::qrecv(q,b,0,IPC_NOWAIT);
  if(b.size_data()!=n||memcmp(a->data,b->data,n)!=0){printf("%zu bytes are damaged\n",n);bad=1;break;} }
 msgctl(q,IPC_RMID,0); return bad; }
''')
unit("C09-undo","C09",[("src/ipc.cpp","  sb.sem_op = -1;\n  sb.sem_flg = SEM_UNDO;","  sb.sem_op = -1;\n  sb.sem_flg = 0;"),("src/ipc.cpp","  sb.sem_num = num;\n  sb.sem_op = 1;\n  sb.sem_flg = SEM_UNDO;","  sb.sem_num = num;\n  sb.sem_op = 1;\n  sb.sem_flg = 0;")],
 "a process killed while it holds the lock of the bulletin board","the lock is never released and everybody else waits for ever",
 r'''
int main(){ int s=fux::ipc::seminit(IPC_PRIVATE,1); pid_t p=fork(); if(p==0){ fux::ipc::semlock(s,0); kill(getpid(),SIGKILL);} int st; waitpid(p,&st,0);
 p=fork(); if(p==0){ alarm(5); fux::ipc::semlock(s,0); fux::ipc::semunlock(s,0); _exit(0);} waitpid(p,&st,0); fux::ipc::semrm(s);
 if(!WIFEXITED(st)){puts("the lock is held by a dead process");return 1;} return 0; }
''')
unit("C10-service-prefix","C10",[("src/mib.cpp","if (strcmp(servicename, services().at(i).servicename) == 0) {","if (strncmp(servicename, services().at(i).servicename,\n                strlen(servicename)) == 0) {")],
 "a service whose name is the beginning of the name of one that was advertised before it","looking a service up by name finds another service",
 r'''
int main(){ tuxconfig c{}; c.maxservers=c.maxservices=c.maxqueues=c.maxgroups=c.maxaccessers=10; mib m(c,fux::mib::in_heap());
 size_t a=m.make_service("TRANSFER_ALL"); size_t none=m.find_service("TRANSFER"); if(none!=m.badoff){puts("found something else");return 1;}
 size_t b=m.make_service("TRANSFER"); if(m.find_service("TRANSFER")!=b||m.find_service("TRANSFER_ALL")!=a) return 1; return 0; }
''')
unit("C13-format","C13",[("src/trx.h","xid.formatID = std::stol(parts[0]);","xid.formatID = std::stoi(parts[0]);")],
 "a transaction identifier with a format number that needs more than 31 bits","the text form of an identifier does not convert back",
 r'''
int main(){ for(long f: {0L,1L,2147483647L,2147483648L,-2147483649L,9000000000000000000L}){ XID x; memset(&x,0,sizeof(x)); x.formatID=f; x.gtrid_length=8; x.bqual_length=1; memcpy(x.data,"12345678\0",9);
 try{ XID y=fux::to_xid(fux::to_string(&x)); if(y.formatID!=f||y.gtrid_length!=8||memcmp(x.data,y.data,9)){printf("%ld\n",f);return 1;} }catch(const std::exception&e){printf("%ld: %s\n",f,e.what());return 1;} } return 0; }
''')
ECHO='#include "srv.h"\nvoid ECHO(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\n'
domain("C07-stop-other","C07",[("src/server.cpp","    if (buf.get<long>(TA_SRVID, 0) == srvid &&\n        buf.get<long>(TA_GRPNO, 0) == grpno) {","    if (buf.get<long>(TA_SRVID, 0) == srvid) {")],
 "two servers with the same number in different groups that share a queue, and a request to stop one of them","the wrong server stops",
 ECHO+'MAIN(S(ECHO))\n', INT+r'''
int tpacall_queue(int msqid, const char *svc, char *data, long len, long flags);
int main(){ mib&m=getmib(); size_t one=m.find_server(1,1), two=m.find_server(1,2);
 pid_t p1=m.servers().at(one).pid,p2=m.servers().at(two).pid; int q=m.queues().at(m.servers().at(one).rqaddr).msqid;
 // the one that waits longest gets the message: let it be the other one
 for(int k=0;k<2;k++){
  FBFR32*b=(FBFR32*)tpalloc((char*)"FML32",0,1024); long id=1,g=k==0?2:1; Fchg32(b,TA_SRVID,0,(char*)&id,0); Fchg32(b,TA_GRPNO,0,(char*)&g,0);
  int cd=tpacall_queue(q,".stop",(char*)b,0,0); if(cd==-1) return 3; long n; tpsblktime(5000,TPBLK_ALL|TPBLK_MILLISECOND);
  if(tpgetrply(&cd,(char**)&b,&n,0)==-1){puts(tpstrerror(tperrno));return 4;}
  sleep(1); pid_t stop=k==0?p2:p1,stay=k==0?p1:p2; waitpid(-1,0,WNOHANG);
  auto gone=[](size_t s){ return getmib().servers().at(s).state!=state_t::ACTive; };
  bool g1=gone(one),g2=gone(two); printf("%d: %d %d\n",k,g1,g2);
  if(k==0 && (g1||!g2)){puts("the wrong server stopped");return 1;} if(k==1) return !(g1&&g2);
 } return 0; }
''',grp="G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1",srv='srv SRVGRP=G1 SRVID=1 CLOPT="-A" RQADDR=Q\nsrv SRVGRP=G2 SRVID=1 CLOPT="-A" RQADDR=Q')
domain("C09-slot0","C09",[("src/BBL.cpp","  for (int i = accessers->len - 1; i >= 0; i--) {","  for (int i = accessers->len - 1; i > 0; i--) {")],
 "a client that was the first to attach and is killed","its entry and its queue are never reclaimed",
 ECHO+'MAIN(S(ECHO))\n', INT+r'''
int main(){ pid_t p=fork(); if(p==0){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; if(tpcall((char*)"ECHO",b,0,&b,&n,0)==-1) _exit(1); kill(getpid(),SIGKILL);} int st; waitpid(p,&st,0);
 if(!WIFSIGNALED(st)) return 2; mib&m=getmib(); sleep(4);
 for(size_t i=0;i<m.accessers()->len;i++) if(m.accessers().at(i).pid==p){puts("the entry of a dead client is still there");return 1;} return 0; }
''')
XARM='''#include "srv.h"
#include <tx.h>
#include <fcntl.h>
static int note(const char*w,int rm){ int f=open("xa.log",O_WRONLY|O_APPEND|O_CREAT,0600); char b[50]; int n=snprintf(b,50,"%s %d\\n",w,rm); if(write(f,b,n)){} close(f); return XA_OK;}
static int o(char*,int,long){return XA_OK;} static int c(char*,int,long){return XA_OK;} static int s(XID*,int,long){return XA_OK;} static int e(XID*,int,long){return XA_OK;}
static int rb(XID*,int r,long){return note("rollback",r);} static int pr(XID*,int r,long){return note("prepare",r);} static int co(XID*,int r,long){return note("commit",r);}
static int re(XID*,long,int,long){return 0;} static int fo(XID*,int,long){return XA_OK;} static int cm(int*,int*,int,long){return XA_OK;}
extern "C" struct xa_switch_t my_switch; struct xa_switch_t my_switch={"MY",TMNOFLAGS,0,o,c,s,e,rb,pr,co,re,fo,cm};
'''
domain("C11-last-group","C11",[("src/tx.cpp","  for (size_t group = 0; group < max; group++) {","  for (size_t group = 0; group + 1 < max; group++) {")],
 "as many groups as MAXGROUPS allows, and work in the last one","the branch of the last group is neither prepared nor committed",
 XARM+'void WORK(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nMAINX(my_switch,S(WORK))\n', H+r'''
int main(){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; if(tpopen()==-1) return 2; if(tpbegin(30,0)==-1) return 3;
 if(tpcall((char*)"WORK",b,0,&b,&n,0)==-1){puts(tpstrerror(tperrno));return 4;} int rc=tpcommit(0); if(rc==-1){puts(tpstrerror(tperrno));return 5;} return 0; }
''',grp="G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1 TMSNAME=tms TMSCOUNT=2 OPENINFO=\"MY:x\"",srv='srv SRVGRP=G2 SRVID=1 CLOPT="-A"',res="MAXGROUPS 2",
 pre='''cat > "$T/tms.cpp" <<X
XX
X
'''.replace("XX\n",XARM.replace('"srv.h"','"'+'srv.h"')+'extern "C" void TM(TPSVCINFO*);\nstatic struct tmdsptchtbl_t tbl_[] = {{".TM","TM",TM,0,0,NULL},{NULL,NULL,NULL,0,0,NULL}};\nMAINX(my_switch,{".TM","TM",TM,0,0,NULL})\n'.replace('static struct tmdsptchtbl_t tbl_[] = {{".TM","TM",TM,0,0,NULL},{NULL,NULL,NULL,0,0,NULL}};\n','')).replace("<<X","<<'X'")+'g++ -std=gnu++17 -g -w -I"$R/include" -I"$D" -o "$T/app/tms" "$T/tms.cpp" "$B/.libs/libfuxedo.a" -lstdc++fs -lpthread -ldl || exit 98\n',
 run='timeout 100 "$T/client" || exit 1\ncat xa.log\ngrep -q "prepare 2" xa.log && grep -q "commit 2" xa.log')
domain("C01-any-buffered","C01",[("src/client.cpp","        int c = cds.any_buffered();\n        if (c != -1) {","        int c = cds.any_buffered();\n        if (c != -1 && *cd != c) {")],
 "a reply that arrived while another one was waited for, then asked for with TPGETANY and its own descriptor","the reply is not returned and the caller waits",
 ECHO+'MAIN(S(ECHO))\n', H+r'''
int main(){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; tpsblktime(3000,TPBLK_ALL|TPBLK_MILLISECOND);
 int a=tpacall((char*)"ECHO",b,0,0); int c=tpacall((char*)"ECHO",b,0,0); if(a==-1||c==-1) return 2; int w=c; if(tpgetrply(&w,&b,&n,0)==-1) return 3;
 w=a; if(tpgetrply(&w,&b,&n,TPGETANY)==-1){puts(tpstrerror(tperrno));return 1;} return w!=a; }
''')
seed("M03-unit-case","M03",[("src/ubb2mib.cpp","      scanunit.compare(scanunit.size() - 2, 2, \"ms\") == 0) {\n    scanunit = scanunit.substr(0, scanunit.size() - 2);\n  } else {","      scanunit.compare(scanunit.size() - 2, 2, \"ms\") == 0) {\n    scanunit = scanunit.substr(0, 4);\n  } else {")],
 "a SCANUNIT in milliseconds of more than four digits","the time limits of the application are cut to the first digits",INT+r'''
#include "ubbreader.h"
#include <sstream>
#include <iostream>
void ubb2mib(ubbconfig &u, mib &m);
int main(){ setenv("TUXCONFIG","/x/t",1); for(int k: {500,1000,2000,60000}){ std::istringstream in("*RESOURCES\nIPCKEY 5\nBLOCKTIME 2\nSCANUNIT "+std::to_string(k)+"MS\n*MACHINES\nh LMID=a TUXCONFIG=/x/t TUXDIR=/d APPDIR=/a\n"); ubbreader p(in); auto u=p.parse();
 tuxconfig c{}; c.maxservers=c.maxservices=c.maxqueues=c.maxgroups=c.maxaccessers=10; mib m(c,fux::mib::in_heap());
 try{ ubb2mib(u,m);}catch(const std::exception&e){puts(e.what());return 1;} if(m.mach().blocktime!=2L*k){printf("%d: %ld\n",k,(long)m.mach().blocktime);return 1;} } return 0; }
''',flags=UNIT_FLAGS)

unit("C04-send-early","C04",[("src/ipc.cpp","int times = msec / interval_msec + 2;","int times = msec / interval_msec + 1;")],
 "a full request queue and a time limit that is not a multiple of 100 ms","sending gives up before the time limit",
 r'''
int main(){ int q=msgget(IPC_PRIVATE,0600|IPC_CREAT); fux::ipc::msg a; a.resize_data(3000); a->mtype=1; a->cat=fux::ipc::application;
 while(fux::ipc::qsend(q,a,0,fux::ipc::flags::noblock)); int bad=0;
 for(long l: {190L,250L,390L}){ auto t=std::chrono::steady_clock::now(); bool ok=fux::ipc::qsend(q,a,l,fux::ipc::flags::noflags); long ms=std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-t).count(); if(ok||ms<l){printf("limit %ld: gave up after %ld ms\n",l,ms);bad=1;} }
 msgctl(q,IPC_RMID,0); return bad; }
''')
unit("C02-last-attempt","C02",[("src/ipc.cpp","      int n = msgsnd(msqid, ptr, len - sizeof(long), IPC_NOWAIT);\n      if (n != -1) {\n        return true;\n      } else if (errno != EAGAIN) {","      int n = msgsnd(msqid, ptr, len - sizeof(long), IPC_NOWAIT);\n      if (n != -1) {\n        return i + 1 < times;\n      } else if (errno != EAGAIN) {")],
 "a full request queue that has room again just before the time limit is over","a request is reported as not sent but is executed",
 r'''
#include <thread>
int main(){ int q=msgget(IPC_PRIVATE,0600|IPC_CREAT); int bad=0;
 for(long drain=20;drain<=700&&!bad;drain+=50){ fux::ipc::msg a,b; a.resize_data(3000); a->mtype=1; a->cat=fux::ipc::application; int n=0;
  while(fux::ipc::qsend(q,a,0,fux::ipc::flags::noblock)) n++;
  std::thread t([&]{ std::this_thread::sleep_for(std::chrono::milliseconds(drain)); fux::ipc::qrecv(q,b,0,IPC_NOWAIT); });
  bool ok=fux::ipc::qsend(q,a,500,fux::ipc::flags::noflags); t.join(); struct msqid_ds d; msgctl(q,IPC_STAT,&d); int m=d.msg_qnum;
  if(m!=(ok?n:n-1)){printf("%s, but there are %d messages, was %d\n",ok?"sent":"not sent",m,n);bad=1;}
  while(msgctl(q,IPC_STAT,&d)==0&&d.msg_qnum) fux::ipc::qrecv(q,b,0,IPC_NOWAIT); }
 msgctl(q,IPC_RMID,0); return bad; }
''')
domain("C03-leak-send","C03",[("src/client.cpp","      TPERROR(TPETIME, \"Failed to send within timeout\");\n    }\n\n    if (rq->cd != 0) {","      TPERROR(TPETIME, \"Failed to send within timeout\");\n    }\n\n    if (rq->cd != 0 && !(flags & TPNOBLOCK)) {")],
 "more than a thousand non-blocking calls that fail because the request queue is full","their descriptors are never reusable and no further call can be made",
 '#include "srv.h"\nvoid SLOW(TPSVCINFO *i){ sleep(2); tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nMAIN(S(SLOW))\n', H+r'''
int main(){ char*b=tpalloc((char*)"CARRAY",0,3000); memset(b,'x',3000); int sent=0,full=0; tpsblktime(90000,TPBLK_ALL|TPBLK_MILLISECOND);
 for(int i=0;i<1200;i++){ int cd=tpacall((char*)"SLOW",b,3000,TPNOBLOCK); if(cd!=-1){sent++;continue;} if(tperrno!=TPEBLOCK){printf("after %d failures: %s\n",full,tpstrerror(tperrno));return 1;} full++; }
 printf("%d sent %d not\n",sent,full); if(full<1100) return 2; int cd; long n; if(tpgetrply(&cd,&b,&n,TPGETANY)==-1) return 3; return 0; }
''')
domain("C06-withdraw","C06",[("src/mib.cpp","    throw std::logic_error(\"Service not advertised\");\n  }\n  services().at(service).modified();","    throw std::logic_error(\"Service not advertised\");\n  }")],
 "two servers that offer a service, one of which withdraws it after a client used both","a call to a service that is still offered fails with no such service",
 '#include "srv.h"\nvoid TWO(TPSVCINFO *i);\nvoid TWO(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nvoid OFF(TPSVCINFO *i){ int r=tpunadvertise((char*)"TWO"); tpreturn(r==0?TPSUCCESS:TPFAIL,0,0,0,0);}\nMAIN(S(TWO),S(OFF))\n', H+r'''
int main(){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; char*o=tpalloc((char*)"STRING",0,100);
 for(int i=0;i<4;i++) if(tpcall((char*)"TWO",b,0,&b,&n,0)==-1) return 2;
 if(tpcall((char*)"OFF",0,0,&o,&n,0)==-1) return 3;
 for(int i=0;i<4;i++) if(tpcall((char*)"TWO",b,0,&b,&n,0)==-1){printf("%s\n",tpstrerror(tperrno));return 1;}
 return 0; }
''',srv='srv SRVGRP=G1 SRVID=1 CLOPT="-A"\nsrv SRVGRP=G1 SRVID=2 CLOPT="-A"')
TMSPRE=lambda rm: "cat > \"$T/tms.cpp\" <<'X'\n"+rm+'extern "C" void TM(TPSVCINFO*);\nMAINX(my_switch,{".TM","TM",TM,0,0,NULL})\nX\ng++ -std=gnu++17 -g -w -I"$R/include" -I"$D" -o "$T/app/tms" "$T/tms.cpp" "$B/.libs/libfuxedo.a" -lstdc++fs -lpthread -ldl || exit 98\n'
HEUR=XARM.replace('{return note("rollback",r);}','{note("rollback",r); return XA_HEURCOM;}')
domain("C12-committed","C12",[("src/tx.cpp","         rc == TX_HAZARD || rc == TX_COMMITTED;","         rc == TX_HAZARD;")],
 "a resource manager that has committed on its own what is to be rolled back","after tx_rollback() returned TX_COMMITTED no new transaction can be started",
 HEUR+'void WORK(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nMAINX(my_switch,S(WORK))\n', H+r'''
int main(){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; if(tx_open()!=TX_OK) return 2; if(tx_begin()!=TX_OK) return 3;
 if(tpcall((char*)"WORK",b,0,&b,&n,0)==-1){puts(tpstrerror(tperrno));return 4;} int rc=tx_rollback(); if(rc!=TX_COMMITTED){printf("rollback %d\n",rc);return 5;}
 rc=tx_begin(); if(rc!=TX_OK){printf("begin %d\n",rc);return 1;} return 0; }
''',grp='G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1 TMSNAME=tms TMSCOUNT=2 OPENINFO="MY:x"',srv='srv SRVGRP=G2 SRVID=1 CLOPT="-A"',pre=TMSPRE(HEUR))
unit("M04-static-buf","M04",[("src/userlog.cpp","  char buf[BUFSIZ];","  static char buf[BUFSIZ];")],
 "two threads that log at the same time","lines of one thread contain text of the other",
 r'''
#include <thread>
#include <fstream>
int main(){ setenv("ULOGPFX","L",1); auto w=[](char c){ std::string s(300,c); for(int i=0;i<20000;i++) userlog("%s",s.c_str()); };
 std::thread a(w,'a'),b(w,'b'); a.join(); b.join(); FILE*p=popen("cat L.*","r"); char line[2000]; int n=0; 
 while(fgets(line,sizeof(line),p)){ n++; char*m=strstr(line,": "); if(!m||strlen(m)!=303) {printf("damaged line %s",line);return 1;} char c=m[2]; for(int i=0;i<300;i++) if(m[2+i]!=c||(c!='a'&&c!='b')){printf("mixed line %s",line);return 1;} }
 pclose(p); return n==40000?0:2; }
''')
