#include "isapmodel.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
/* prints the KAT file of an instance as computed by the model */
static void hex(const char*l,const uint8_t*p,int n){printf("%s",l);for(int i=0;i<n;i++)printf("%02X",p[i]);printf("\n");}
int main(int c,char**v){uint8_t d[2048],o[2200];for(int i=0;i<2048;i++)d[i]=(uint8_t)i;
 if(!strcmp(v[1],"hash")){for(int n=0;n<=1024;n++){walk_t w;hash_begin(&w);for(int i=0;i<n;i++)hash_byte(&w,d[i]);hash_end(&w,o);
   printf("Count = %d\n",n+1);hex("Msg = ",d,n);hex("MD = ",o,32);printf("\n");}return 0;}
 const inst_t*I=&INST[atoi(v[1])];int k=1;
 for(int m=0;m<=32;m++)for(int a=0;a<=32;a++){model_encrypt(I,d,d,d,a,d,m,o);
  printf("Count = %d\n",k++);hex("Key = ",d,16);hex("Nonce = ",d,16);hex("PT = ",d,m);hex("AD = ",d,a);hex("CT = ",o,m+16);printf("\n");}
}
