import os
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"mkseed2.py")).read()
exec(src[:src.index('unit("C05-boundary"')])
ECHO='#include "srv.h"\nvoid ECHO(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nMAIN(S(ECHO))\n'
def script(sid, prop, edits, needs, breaks, body, extra, res="", grp="G1 GRPNO=1 LMID=tux1", srv='srv SRVGRP=G1 SRVID=1 CLOPT="-A"'):
    sh=('#!/bin/bash\n# exit 0: the code behaves; nonzero: it does not\nD=$(cd "$(dirname "$0")" && pwd)\nR=$PWD\n. "$D/domain.sh"\n'
        "RES='%s'\nGRP='%s'\nSRV='%s'\n%s") % (res,grp,srv,body)
    seed(sid, prop, edits, needs, breaks, None, demo_sh=sh, extra=[("domain.sh",DOM),("srv.h",SRVH)]+extra)

script("B01-group-prefix","B01",[("src/mib.cpp","    if (group.srvgrp == srvgrp) {","    if (srvgrp.compare(0, srvgrp.size(), group.srvgrp, 0, srvgrp.size()) == 0) {")],
 "a group whose name is the beginning of the name of one that is configured before it",
 "its servers are started, and stopped, as servers of the other group",
 'cc1 server.cpp "$T/app/srv"\nboot\n'
 'n=$(for p in $(pgrep -f "^srv "); do [ "$(readlink /proc/$p/cwd)" = "$T/app" ] && tr "\\0" " " < /proc/$p/cmdline && echo; done)\n'
 'echo "running: $n"\necho "$n" | grep -q -- "-g 3 -i 1 " && echo "$n" | grep -q -- "-g 4 -i 2 " || exit 1\n'
 'timeout 60 tmshutdown -y -g BANK > down.log 2>&1\nsleep 2\n'
 'n=$(for p in $(pgrep -f "^srv "); do [ "$(readlink /proc/$p/cwd)" = "$T/app" ] && tr "\\0" " " < /proc/$p/cmdline && echo; done)\n'
 'echo "left: $n"\necho "$n" | grep -q -- "-g 3 " || exit 1\necho "$n" | grep -q -- "-g 4 " && exit 1\nexit 0\n',
 [("server.cpp",ECHO)],grp="BANK_EU GRPNO=3 LMID=tux1\nBANK GRPNO=4 LMID=tux1",srv='srv SRVGRP=BANK_EU SRVID=1 CLOPT="-A"\nsrv SRVGRP=BANK SRVID=2 CLOPT="-A"')

script("B01-dead-client-queue","B01",[("src/mib.cpp","    if (acc.rpid != -1) {\n      q.push_back(acc.rpid);","    if (acc.rpid != -1 && alive(acc.pid)) {\n      q.push_back(acc.rpid);")],
 "an application whose processes were all killed, the supervisor before a client, and whose resources are then removed",
 "the reply queues of the killed processes are left behind",
 'cc1 server.cpp "$T/app/srv"\ncc1 client.cpp "$T/client"\nboot\n"$T/client" & c=$!\nfor i in $(seq 50); do [ -s cd ] && break; sleep 0.2; done\nq=$(cat cd)\n[ -n "$q" ] || exit 2\n'
 'for p in $(ps -eo pid= ); do [ "$(readlink /proc/$p/cwd 2>/dev/null)" = "$T/app" ] && [ $p != $$ ] && [ $p != $BASHPID ] && [ $p != $c ] && kill -9 $p 2>/dev/null; done\n'
 'kill -9 $c; wait $c 2>/dev/null\ntimeout 20 tmipcrm -y > rm.log 2>&1\ncat rm.log\n'
 'if ipcs -q | awk \'{print $2}\' | grep -qx "$q"; then echo "queue $q is left"; ipcrm -q $q; exit 1; fi\nexit 0\n',
 [("server.cpp",ECHO),("client.cpp",INT+'int main(){ char*b=tpalloc((char*)"STRING",0,100); strcpy(b,"hi"); long n=0; if(tpcall((char*)"ECHO",b,0,&b,&n,0)==-1) return 2;\n mib&m=getmib(); for(size_t i=0;i<m.accessers()->len;i++){ auto&a=m.accessers().at(i); if(a.pid==getpid()){ FILE*f=fopen("cd.t","w"); fprintf(f,"%d\\n",a.rpid); fclose(f); rename("cd.t","cd"); } }\n pause(); }\n')])

script("B01-stale-state","B01",[("src/tmboot.cpp","  srv.state = state_t::INActive;\n  auto pid = fork();","  auto pid = fork();")],
 "a server that was killed while it was available, and is started again by tmboot but does not come up",
 "tmboot does not wait for it and reports a server that ends in its initialisation as started",
 'cc1 server.cpp "$T/app/srv"\nboot\np=$(for p in $(pgrep -f "^srv "); do [ "$(readlink /proc/$p/cwd)" = "$T/app" ] && echo $p; done)\n[ -n "$p" ] || exit 2\ntouch refuse\nkill -9 $p\nsleep 3\ntimeout 60 tmboot -y > boot2.log 2>&1\ncat boot2.log\ngrep -q "Failed" boot2.log\n',
 [("server.cpp",'#include "srv.h"\nstatic int my_init(int,char**){ sleep(2); return access("refuse",F_OK)==0?-1:0; }\nvoid ECHO(TPSVCINFO *i){ tpreturn(TPSUCCESS,0,i->data,i->len,0);}\n#define tpsvrinit my_init\nMAIN(S(ECHO))\n')])

domain("A01-shared-count","A01",[("src/mib.cpp","  server.rqaddr = find_queue(rqaddr);\n  if (server.rqaddr == badoff) {\n    server.rqaddr = make_queue(rqaddr);\n  }\n\n  // FIXME: only active\n  queues().at(server.rqaddr).servercnt++;",
 "  // FIXME: only active\n  server.rqaddr = find_queue(rqaddr);\n  if (server.rqaddr == badoff) {\n    server.rqaddr = make_queue(rqaddr);\n    queues().at(server.rqaddr).servercnt++;\n  }\n")],
 "servers that share a request queue",
 "the query of the queues gives one server for a queue that several servers read",
 ECHO, INT+"""
int main(){ getmib(); FBFR32*in=(FBFR32*)tpalloc((char*)"FML32",0,1024),*out=(FBFR32*)tpalloc((char*)"FML32",0,1024);
 Fchg32(in,TA_CLASS,0,(char*)"T_QUEUE",0); Fchg32(in,TA_OPERATION,0,(char*)"GET",0);
 if(tpadmcall(in,&out,0)==-1){puts(tpstrerror(tperrno));return 2;}
 int found=0; for(int i=0;i<Foccur32(out,TA_RQADDR);i++){ char v[200]; FLDLEN32 l=sizeof(v); if(Fget32(out,TA_RQADDR,i,v,&l)==-1) return 3; long n=0; if(Fget32(out,TA_SERVERCNT,i,(char*)&n,0)==-1) return 4; printf("%s %ld\\n",v,n); if(!strcmp(v,"SHARED")){ found=1; if(n!=3) return 1; } }
 return found?0:5; }
""",srv='srv SRVGRP=G1 SRVID=1 CLOPT="-A" RQADDR="SHARED"\nsrv SRVGRP=G1 SRVID=2 CLOPT="-A" RQADDR="SHARED"\nsrv SRVGRP=G1 SRVID=3 CLOPT="-A" RQADDR="SHARED"')

FWD1='#include "srv.h"\nvoid SLOW(TPSVCINFO *i){ sleep(1); tpreturn(TPSUCCESS,0,i->data,i->len,0);}\nMAIN(S(SLOW))\n'
FWD2='#include "srv.h"\nvoid VIA(TPSVCINFO *i){ tpforward((char*)"SLOW",i->data,i->len,0);}\nMAIN(S(VIA))\n'
script("C08-full-queue","C08",[("src/server.cpp","    fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);\n    if (data != nullptr && data != atmibuf) {\n      tpfree(data);\n    }\n\n    longjmp","    fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::noblock);\n    if (data != nullptr && data != atmibuf) {\n      tpfree(data);\n    }\n\n    longjmp")],
 "a request that is forwarded while the request queue of the next service is full",
 "the request disappears and its caller gets no answer",
 'cc1 slow.cpp "$T/app/slow"\ncc1 via.cpp "$T/app/via"\ncc1 client.cpp "$T/client"\nboot\ntimeout 120 "$T/client"\n',
 [("slow.cpp",FWD1),("via.cpp",FWD2),("client.cpp",H+r'''
int main(){ tpsblktime(90000,TPBLK_ALL|TPBLK_MILLISECOND); char*b=tpalloc((char*)"CARRAY",0,3000); memset(b,'x',3000); long n=0; char*o=tpalloc((char*)"CARRAY",0,3000);
 int sent=0; std::vector<int> cds; for(int i=0;i<60;i++){ int cd=tpacall((char*)"SLOW",b,3000,TPNOBLOCK); if(cd==-1) break; cds.push_back(cd); sent++; }
 if(sent<3||sent==60){printf("%d\n",sent);return 2;}
 int cd=tpacall((char*)"VIA",b,3000,0); if(cd==-1){puts(tpstrerror(tperrno));return 3;}
 for(int c:cds) if(tpgetrply(&c,&o,&n,0)==-1){puts(tpstrerror(tperrno));return 4;}
 tpsblktime(15000,TPBLK_ALL|TPBLK_MILLISECOND); if(tpgetrply(&cd,&o,&n,0)==-1){printf("forwarded: %s\n",tpstrerror(tperrno));return 1;} return 0; }
''')],srv='slow SRVGRP=G1 SRVID=1 CLOPT="-A"\nvia SRVGRP=G1 SRVID=2 CLOPT="-A"')

unit("F01-long-value","F01",[("src/fbfr32.h","  FLDLEN32 size() { return size(flen); }","  FLDLEN32 size() { return size(flen & 0xffff); }")],
 "a value of 64 kB or more that has another field after it",
 "fields behind a long value are not found, or garbage is",
 r'''
int main(){ FLDID32 a=Fmkfldid32(FLD_CARRAY,10),b=Fmkfldid32(FLD_CARRAY,11); FBFR32*f=Falloc32(10,100000); std::string v(70000,'v');
 if(Fadd32(f,a,&v[0],v.size())==-1||Fadd32(f,b,(char*)"next",4)==-1) return 1; FLDLEN32 l=0; char*p=Ffind32(f,b,0,&l);
 if(p==nullptr||l!=4||memcmp(p,"next",4)!=0){puts("the field behind it is lost");return 1;} p=Ffind32(f,a,0,&l); if(p==nullptr||l!=70000) return 1; return 0; }
''')
unit("F02-occurrence-count","F02",[("src/fbfr32.h","    FLDOCC32 oc = 0;\n    FLDID32 prev = BADFLDID;\n\n    while (it != nullptr && it < end) {","    short oc = 0;\n    FLDID32 prev = BADFLDID;\n\n    while (it != nullptr && it < end) {")],
 "a field with more than 32767 occurrences in a buffer that is combined with another",
 "occurrences are lost or put elsewhere",
 r'''
int main(){ FLDID32 a=Fmkfldid32(FLD_LONG,10); int N=33000; FBFR32*f=Falloc32(N+10,16),*g=Falloc32(N+10,16);
 for(long i=0;i<N;i++){ if(Fadd32(f,a,(char*)&i,0)==-1) return 2; long z=-1; if(Fadd32(g,a,(char*)&z,0)==-1) return 3; }
 if(Fupdate32(g,f)==-1){printf("%s\n",Fstrerror32(Ferror32));return 1;} if(Foccur32(g,a)!=N) return 1; for(long i=0;i<N;i++){ long v=0; if(Fget32(g,a,i,(char*)&v,0)==-1||v!=i){printf("occurrence %ld is %ld\n",i,v);return 1;} } return 0; }
''')
FT='''
#include <fstream>
static void table(const char*n,const std::string&s){ std::ofstream f(n); f<<s; }
'''
unit("F07-octal-base","F07",[("src/fieldtbl32.h","base_ = std::stol(num);","base_ = std::stol(num, nullptr, 0);")],
 "a field table with a base that is written with leading zeros",
 "the fields get other numbers than the table says",
 FT+r'''
int main(){ table("tbl","*base 0100\nONE\t1\tlong\t-\tx\nTEN\t10\tstring\t-\tx\nTEN2\t11\tstring\t-\tx\n"); setenv("FIELDTBLS32","tbl",1); setenv("FLDTBLDIR32",".",1);
 if(Fldid32((char*)"TEN")!=Fmkfldid32(FLD_STRING,110)){printf("TEN is %ld\n",Fldno32(Fldid32((char*)"TEN")));return 1;} if(Fldid32((char*)"ONE")!=Fmkfldid32(FLD_LONG,101)) return 1; char*n=Fname32(Fmkfldid32(FLD_STRING,110)); return n==nullptr||strcmp(n,"TEN")!=0; }
''')
unit("F07-unload","F07",[("src/fbfr32fld.h","    std::unique_lock<std::shared_timed_mutex> lock(mutex);\n    id_to_name.clear();","    std::shared_lock<std::shared_timed_mutex> lock(mutex);\n    id_to_name.clear();")],
 "a lookup of a name at the moment another thread unloads the table",
 "the lookup gives nothing or garbage, or the process crashes",
 FT+r'''
#include <thread>
#include <atomic>
int main(){ std::string s; for(int i=1;i<400;i++) s+="FIELD_"+std::to_string(i)+"\t"+std::to_string(i)+"\tlong\t-\tx\n"; table("tbl",s); setenv("FIELDTBLS32","tbl",1); setenv("FLDTBLDIR32",".",1);
 std::atomic<bool> stop(false),bad(false); auto look=[&]{ for(int i=1;!stop;i=i%399+1){ if(Fname32(Fmkfldid32(FLD_LONG,i))==nullptr){bad=true;stop=true;} } };
 std::thread a(look),b(look),c(look); for(int i=0;i<8000&&!stop;i++){ Fidnm_unload32(); if(i%16==0) usleep(500); } stop=true; a.join();b.join();c.join(); if(bad){puts("a name was not found");return 1;} return 0; }
''')
unit("F04-deep","F04",[("src/extreader.h","auto nested = parse_buf(indent + 1);","auto nested = parse_buf(indent == 0 ? 1 : 2);")],
 "a buffer nested in a buffer nested in a buffer that is nested in another",
 "the printed form of a deeply nested buffer is refused or read as something else",
 FT+r'''
int main(){ table("tbl","N\t1\tfml32\t-\tx\nS\t2\tstring\t-\tx\n"); setenv("FIELDTBLS32","tbl",1); setenv("FLDTBLDIR32",".",1); FLDID32 N=Fldid32((char*)"N"),S=Fldid32((char*)"S");
 FBFR32*in=nullptr; for(int d=0;d<6;d++){ FBFR32*f=Falloc32(50,200); std::string v="level "+std::to_string(d); if(Fadd32(f,S,&v[0],0)==-1) return 2; if(in&&Fadd32(f,N,(char*)in,0)==-1) return 3; in=f;
  FILE*p=fopen("out","w+"); if(Ffprint32(f,p)==-1) return 4; rewind(p); FBFR32*g=Falloc32(100,200); if(Fextread32(g,p)==-1){printf("depth %d: %s\n",d,Fstrerror32(Ferror32));return 1;} fclose(p); if(Fused32(f)!=Fused32(g)||Fchksum32(f)!=Fchksum32(g)){printf("depth %d differs\n",d);return 1;} }
 return 0; }
''')
unit("C13-uid-race","C13",[("src/mib.cpp","auto counter = __sync_fetch_and_add(&(mem_->counter), 1);","auto counter = mem_->counter;\n    mem_->counter = counter + 1;")],
 "two processes or threads that begin a transaction at the same moment",
 "both get the same transaction identifier",
 r'''
#include <thread>
#include <set>
int main(){ tuxconfig c{}; c.maxservers=c.maxservices=c.maxqueues=c.maxgroups=c.maxaccessers=10; mib m(c,fux::mib::in_heap());
 for(int round=0;round<20;round++){ std::vector<uint64_t> v[4]; std::vector<std::thread> t; for(int k=0;k<4;k++) t.emplace_back([&,k]{ for(int i=0;i<100000;i++) v[k].push_back(m.genuid()); }); for(auto&x:t) x.join();
  std::set<uint64_t> s; for(auto&x:v) for(auto y:x) if(!s.insert(y).second){puts("the same identifier twice");return 1;} } return 0; }
''')
