from seedlib import seed
H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <fml32.h>\n#include <atmi.h>\n#include <xatmi.h>\n'
ALLOC='static FBFR32 *mk(long n){char *p=(char*)aligned_alloc(8,(n+15)&~7L);memset(p,0x5a,n);Finit32((FBFR32*)p,n);return (FBFR32*)p;}\n'
seed("F01-findocc-prefix","F01",[("src/fbfr32.h","field->flen == len && memcmp","field->flen >= len && memcmp")],
 "two CARRAY occurrences where the value looked for is a prefix of an earlier, longer one",
 "Ffindocc32 on a CARRAY field returns the first occurrence that merely starts with the value",
 H+ALLOC+r'''
int main(){ FBFR32*b=mk(1024); FLDID32 f=Fmkfldid32(FLD_CARRAY,7);
 char v1[]="abcd", v2[]="ab"; Fadd32(b,f,v1,4); Fadd32(b,f,v2,2);
 int oc=Ffindocc32(b,f,v2,2); if(oc!=1){printf("occ %d\n",oc);return 1;}
 if(Ffindocc32(b,f,v1,4)!=0) return 1; char x[]="abc"; if(Ffindocc32(b,f,x,3)!=-1) return 1; return 0;}
''')
seed("F02-projcpy-occ","F02",[("src/fbfr32.h","        return chg(it->fieldid, occur(it->fieldid), src->fvalue(it),\n                   src->flength(it));\n      }\n      return 0;\n    });\n  }\n\n  int proj(","        return chg(it->fieldid, pres(it->fieldid, 0), src->fvalue(it),\n                   src->flength(it));\n      }\n      return 0;\n    });\n  }\n\n  int proj(")],
 "a projected field with three or more occurrences","Fprojcpy32 keeps only the first and the last occurrence of a field",
 H+ALLOC+r'''
int main(){ FBFR32*a=mk(1024),*b=mk(1024); FLDID32 f=Fmkfldid32(FLD_LONG,7),l[]={f,BADFLDID};
 for(long i=1;i<=3;i++) Fadd32(a,f,(char*)&i,0);
 if(Fprojcpy32(b,a,l)!=0) return 2;
 if(Foccur32(b,f)!=3){printf("occ %d\n",(int)Foccur32(b,f));return 1;}
 for(long i=1;i<=3;i++){long v=0;FLDLEN32 n=8;Fget32(b,f,i-1,(char*)&v,&n); if(v!=i) return 1;}
 return 0;}
''')
seed("F03-chg-shrink-tail","F03",[("src/fbfr32.h","if (len_ + need > size_) {","if (len_ + need > size_ + used) {")],
 "a variable length field in a nearly full buffer changed to a longer value",
 "the space check ignores the old value's size, so a longer replacement is written past the end of the buffer",
 H+ALLOC+r'''
int main(){ long cap=Fneeded32(0,0)+64; char *p=(char*)aligned_alloc(8,cap+256); memset(p,0x5a,cap+256);
 FBFR32*b=(FBFR32*)p; if(Finit32(b,cap)!=0) return 2; FLDID32 f=Fmkfldid32(FLD_CARRAY,7);
 char big[256]; memset(big,'x',256);
 if(Fadd32(b,f,big,40)!=0) return 3;
 long un=Funused32(b); 
 int r=Fchg32(b,f,0,big,40+un+8);
 if(r==0||Ferror32!=FNOSPACE){printf("accepted, unused %ld\n",Funused32(b));return 1;}
 for(long i=cap;i<cap+256;i++) if(p[i]!=0x5a) return 1;
 return Flen32(b,f,0)==40?0:1;}
''')
seed("F05-carray-short","F05",[("src/fml32.cpp","          auto from = std::string(fromval, fromlen);","          auto from = std::string(fromval, strnlen(fromval, fromlen));")],
 "a CARRAY value with an embedded null byte converted to CARRAY","conversion of a byte array stops at the first null byte",
 H+r'''
int main(){ char v[]={'a',0,'b'}; FLDLEN32 n=99; char*r=Ftypcvt32(&n,FLD_CARRAY,v,FLD_CARRAY,3);
 if(!r||n!=3||memcmp(r,v,3)){printf("len %d\n",(int)n);return 1;} return 0;}
''')
seed("F06-cmp-char","F06",[("src/expr.cpp","(lhs.is_string() && rhs.is_string());","(lhs.is_string() && rhs.is_string() && op != equal && op != not_equal);")],
 "two string fields compared for equality whose numeric values agree though the texts differ",
 "== and != between two string fields compare the numbers they start with instead of the texts",
 H+ALLOC+r'''
#include <unistd.h>
int main(){ FILE*t=fopen("tbl","w"); fprintf(t,"SA\t10\tstring\t-\nSB\t11\tstring\t-\n"); fclose(t);
 char cwd[500]; getcwd(cwd,500); setenv("FLDTBLDIR32",cwd,1); setenv("FIELDTBLS32","tbl",1);
 FBFR32*b=mk(1024); FLDID32 a=Fldid32((char*)"SA"),c=Fldid32((char*)"SB");
 Fadd32(b,a,(char*)"x1",0); Fadd32(b,c,(char*)"x2",0);
 char*tr=Fboolco32((char*)"SA == SB"); if(!tr) return 2; int r=Fboolev32(b,tr); 
 char*t2=Fboolco32((char*)"SA != SB"); int r2=Fboolev32(b,t2); 
 if(r!=0||r2!=1){printf("%d %d\n",r,r2);return 1;} return 0;}
''')
seed("M02-base64-bits","M02",[("src/base64.cpp","    err |= c3 = decoding[ibytes[ipos++]];\n\n    uint32_t n","    c3 = decoding[ibytes[ipos++]];\n\n    uint32_t n")],
 "an invalid character at the fourth position of a block that is not the last",
 "malformed text-safe input is accepted",
 H+r'''
int main(){ char *b=tpalloc((char*)"CARRAY",nullptr,64); memset(b,'q',64); char out[400]; long ol=sizeof(out);
 if(tpexport(b,30,out,&ol,TPEX_STRING)!=0) return 2;
 char *o=tpalloc((char*)"CARRAY",nullptr,64); long n=0; 
 if(tpimport(out,0,&o,&n,TPEX_STRING)!=0) return 3;
 for(int i=3;i<(int)strlen(out)-4;i+=4){ std::string s=out; s[i]='!'; if(tpimport(&s[0],0,&o,&n,TPEX_STRING)!=-1){printf("accepted corruption at %d\n",i);return 1;} }
 return 0;}
''')
seed("M01-type-prefix","M01",[("src/mem.cpp","strncmp(t.type, type, sizeof(t.type)) == 0","strncmp(t.type, type, strlen(t.type)) == 0")],
 "a type name that starts with the name of a known type","unknown types such as STRINGX are accepted",
 H+r'''
int main(){ char *b=tpalloc((char*)"STRINGX",nullptr,100); if(b||tperrno!=TPENOENT) return 1;
 b=tpalloc((char*)"STRING",nullptr,100); return b?0:2;}
''')
