P='crashmail/pkt.c'; J='crashmail/mb_jam.c'; M='crashmail/mb_msg.c'; K='crashmail/memmessage.c'; S='crashmail/misc.c'; W='tools/crashwrite.c'
CASES=[
('A21',1,'hd-qdestzone',P,'putuword(PktHeader,PKTHEADER_QDESTZONE,dest->Zone)','putuword(PktHeader,PKTHEADER_QDESTZONE,orig->Zone)'),
('A21',1,'hd-destpoint',P,'putuword(PktHeader,PKTHEADER_DESTPOINT,dest->Point)','putuword(PktHeader,PKTHEADER_DESTPOINT,orig->Point)'),
('A21',1,'hd-capword',P,'putuword(PktHeader,PKTHEADER_CWVALIDCOPY,0x0100)','putuword(PktHeader,PKTHEADER_CWVALIDCOPY,0x0001)'),
('A21',1,'hd-nopw',P,'if(node && (type == PKTS_ECHOMAIL || !(node->Flags & NODE_NONETMAILPASSWORD)))','if(node && (type == PKTS_ECHOMAIL || (node->Flags & NODE_NONETMAILPASSWORD)))'),
('A21',1,'hd-pwnotcleared',P,'   memset (PktHeader + PKTHEADER_PASSWORD, 0, 8);\n','   PktHeader[PKTHEADER_PASSWORD]=0;\n'),
('A21',1,'hd-msgorder',P,'   WriteNull(pkt,mm->To);\n   WriteNull(pkt,mm->From);','   WriteNull(pkt,mm->From);\n   WriteNull(pkt,mm->To);'),
('A21',1,'hd-readorder',P,None,None) if 0 else ('A21',1,'hd-readcost',P,'mm->Cost=','mm->Cost=1+'),
('A21',1,'hd-auxnet',P,'if(getuword(PktHeader,PKTHEADER_ORIGPOINT)!=0 && getuword(PktHeader,PKTHEADER_ORIGNET)==0xffff)','if(getuword(PktHeader,PKTHEADER_ORIGPOINT)!=0)'),
('A21',1,'hd-qzone',P,'PktDest.Zone= getuword(PktHeader,PKTHEADER_QDESTZONE)','PktDest.Zone= getuword(PktHeader,PKTHEADER_DESTZONE)'),
('A21',1,'hd-5dpoint',P,'      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);\n\n','\n'),
('A21',1,'hd-intlorder',S,'         mm->OrigNode.Net,\n         mm->OrigNode.Node);','         mm->OrigNode.Node,\n         mm->OrigNode.Net);'),
('A21',1,'hd-intlzone',S,'   if(mm->OrigNode.Zone != mm->DestNode.Zone || (config.cfg_Flags & CFG_FORCEINTL))','   if(mm->OrigNode.Zone != mm->DestNode.Zone && (config.cfg_Flags & CFG_FORCEINTL))'),
('A21',1,'hd-topt',S,'if(mm->DestNode.Point)','if(mm->DestNode.Point && mm->OrigNode.Point)'),
('A21',1,'hd-toptval',S,'"\\x01TOPT %u\\x0d",mm->DestNode.Point','"\\x01TOPT %u\\x0d",mm->OrigNode.Point'),
('A21',1,'hd-jamtopt',J,'if(mm->DestNode.Point)','if(mm->OrigNode.Point && mm->DestNode.Point)'),
('A21',1,'hd-jamintl',J,'if(mm->OrigNode.Zone != mm->DestNode.Zone || (config.cfg_Flags & CFG_FORCEINTL))','if(mm->OrigNode.Zone != area->Aka->Node.Zone || (config.cfg_Flags & CFG_FORCEINTL))'),
('A21',1,'hd-kludgetopt',K,'          mm->DestNode.Point=atoi(&kludge[6]);','          mm->OrigNode.Point=atoi(&kludge[6]);'),
('A21',1,'hd-intlcopy',K,'            mm->DestNode.Zone = node.Zone;\n            mm->DestNode.Net  = node.Net;\n            mm->DestNode.Node = node.Node;','            Copy4D(&mm->DestNode,&node);'),
('A21',1,'hd-intlnonet',K,'            mm->OrigNode.Net  = node.Net;\n',''),
('A21',1,'hd-intlcolon',K,'if(kludge[5]==\':\')\n            c=7;\n\n         else\n            c=6;','c=6;'),
('A21',1,'hd-intlecho',K,'   if(mm->Area[0]==0)\n   {\n      if(strncmp(kludge,"\\x01" "FMPT",5)==0)','   {\n      if(strncmp(kludge,"\\x01" "FMPT",5)==0)'),
('A21',1,'hd-msgid',K,'for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)\n         mm->REPLY[d]','for(d=0,c=7;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)\n         mm->REPLY[d]'),
('A21',1,'hd-kludgeecho',K,'   else if(buf[0] == 1)\n','   else if(buf[0] == 1 && mm->Area[0] == 0)\n'),
('A21',1,'hd-originzone',K,'if(n4d.Zone == 0) n4d.Zone=','n4d.Zone='),
('A21',1,'hd-msgaddr',M,'      Msg.OrigPoint  =  mm->OrigNode.Point;','      Msg.OrigPoint  =  mm->DestNode.Point;'),
('A21',1,'hd-msgcost',M,'Msg.Cost= mm->Cost','Msg.Cost= 0'),
('A21',1,'hd-jamreply',J,'Header_S.ReplyCRC=JAM_Crc32(mm->REPLY,strlen(mm->REPLY))','Header_S.ReplyCRC=JAM_Crc32(mm->MSGID,strlen(mm->MSGID))'),
('A21',1,'hd-jamutc',J,'MakeFidoDate(Header_S.DateWritten+jam_utcoffset','MakeFidoDate(Header_S.DateWritten-jam_utcoffset'),
('A21',1,'hd-jamfrom',J,'      jam_addfield(SubPacket_PS,JAMSFLD_OADDRESS,buf);\n\n      Print4D(&mm->DestNode,buf);','      jam_addfield(SubPacket_PS,JAMSFLD_OADDRESS,buf);\n'),
('A21',1,'hd-jampath',J,'"\\01" "PATH: "','"PATH: "'),
('A21',1,'hd-cwpkt',W,'putuword(PktHeader,PKTHEADER_ORIGZONE,pktfrom4d.Zone)','putuword(PktHeader,PKTHEADER_ORIGZONE,from4d.Zone)'),
('A21',1,'hd-cwintl',W,'to4d.Zone,to4d.Net,to4d.Node,\n','from4d.Zone,to4d.Net,to4d.Node,\n'),
('A21',1,'hd-cwcopy',W,'	Copy4D(&pktto4d,&to4d);','	Copy4D(&pktto4d,&from4d);'),
('A21',1,'hd-cwattr',W,'		attr|=FLAG_FILEATTACH;','		attr=FLAG_FILEATTACH;'),
('A21',1,'hd-cwtopt',W,'      if(to4d.Point)\n','      if(to4d.Point && from4d.Point)\n'),
('A21',1,'hd-cwpw',W,'data,8);','data,7);'),
# refactorings
('A21',0,'hr-helper',P,'bool WriteMsgHeader(struct Pkt *pkt,struct MemMessage *mm)\n{\n','static void putaddr(uint8_t *h,uint32_t no,uint32_t ne,struct Node4D *n)\n{\n   putuword(h,no,n->Node);\n   putuword(h,ne,n->Net);\n}\n\nbool WriteMsgHeader(struct Pkt *pkt,struct MemMessage *mm)\n{\n',
  P,'   putuword(PktMsgHeader,PKTMSGHEADER_ORIGNODE,mm->OrigNode.Node);\n   putuword(PktMsgHeader,PKTMSGHEADER_DESTNODE,mm->DestNode.Node);\n   putuword(PktMsgHeader,PKTMSGHEADER_ORIGNET,mm->OrigNode.Net);\n   putuword(PktMsgHeader,PKTMSGHEADER_DESTNET,mm->DestNode.Net);\n','   putaddr(PktMsgHeader,PKTMSGHEADER_ORIGNODE,PKTMSGHEADER_ORIGNET,&mm->OrigNode);\n   putaddr(PktMsgHeader,PKTMSGHEADER_DESTNODE,PKTMSGHEADER_DESTNET,&mm->DestNode);\n'),
('A21',0,'hr-pwfirst',P,'   memset (PktHeader + PKTHEADER_PASSWORD, 0, 8);\n\n   if(node && (type == PKTS_ECHOMAIL || !(node->Flags & NODE_NONETMAILPASSWORD)))\n      strncpy((char *)&PktHeader[PKTHEADER_PASSWORD],node->PacketPW,8);','   if(!node || (type != PKTS_ECHOMAIL && (node->Flags & NODE_NONETMAILPASSWORD)))\n      memset(&PktHeader[PKTHEADER_PASSWORD],0,8);\n   else\n      strncpy((char *)&PktHeader[PKTHEADER_PASSWORD],node->PacketPW,8);'),
('A21',0,'hr-clearall',P,'   putuword(PktHeader,PKTHEADER_ORIGNODE,orig->Node);','   memset(PktHeader,0,SIZE_PKTHEADER);\n   putuword(PktHeader,PKTHEADER_ORIGNODE,orig->Node);',P,'   PktHeader[PKTHEADER_PRODDATA]=0;\n   PktHeader[PKTHEADER_PRODDATA+1]=0;\n   PktHeader[PKTHEADER_PRODDATA+2]=0;\n   PktHeader[PKTHEADER_PRODDATA+3]=0;\n\n   memset (PktHeader + PKTHEADER_PASSWORD, 0, 8);\n',''),
('A21',0,'hr-kludgehelper',S,'bool MakeNetmailKludges(struct MemMessage *mm)\n{','static void addkludge(struct MemMessage *mm,char *name,uint16_t num)\n{\n   char buf[100];\n\n   if(num == 0)\n      return;\n\n   sprintf(buf,"\\x01%s %u\\x0d",name,num);\n   mmAddBuf(&mm->TextChunks,buf,strlen(buf));\n}\n\nbool MakeNetmailKludges(struct MemMessage *mm)\n{',
  S,'   if(mm->OrigNode.Point)\n   {\n      sprintf(buf,"\\x01" "FMPT %u\\x0d",mm->OrigNode.Point);\n      mmAddBuf(&mm->TextChunks,buf,strlen(buf));\n   }\n   if(mm->DestNode.Point)\n   {\n      sprintf(buf,"\\x01TOPT %u\\x0d",mm->DestNode.Point);\n      mmAddBuf(&mm->TextChunks,buf,strlen(buf));\n   }\n','   addkludge(mm,"FMPT",mm->OrigNode.Point);\n   addkludge(mm,"TOPT",mm->DestNode.Point);\n'),
('A21',0,'hr-kludgelocals',S,'bool MakeNetmailKludges(struct MemMessage *mm)\n{\n   char buf[100];\n','bool MakeNetmailKludges(struct MemMessage *mm)\n{\n   char buf[100];\n   struct Node4D *to=&mm->DestNode,*from=&mm->OrigNode;\n   bool need=from->Zone != to->Zone;\n\n   if(config.cfg_Flags & CFG_FORCEINTL)\n      need=TRUE;\n',S,'   if(mm->OrigNode.Zone != mm->DestNode.Zone || (config.cfg_Flags & CFG_FORCEINTL))','   if(need)',S,'         mm->DestNode.Zone,\n         mm->DestNode.Net,\n','         to->Zone,\n         to->Net,\n'),
('A21',0,'hr-elseif',K,'   if(strncmp(kludge,"\\x01REPLY:",7)==0)','   else if(strncmp(kludge,"\\x01REPLY:",7)==0)'),
('A21',0,'hr-intlhelper',K,'void ProcessKludge(struct MemMessage *mm,char *kludge)\n{','static uint32_t getword(char *kludge,uint32_t c,char *buf)\n{\n   uint32_t d;\n\n   for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0 && kludge[c]!=13;c++,d++)\n      buf[d]=kludge[c];\n\n   buf[d]=0;\n   return(c);\n}\n\nstatic void setaddr(struct Node4D *to,struct Node4D *from)\n{\n   to->Zone=from->Zone;\n   to->Net=from->Net;\n   to->Node=from->Node;\n}\n\nvoid ProcessKludge(struct MemMessage *mm,char *kludge)\n{',
  K,'         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0 && kludge[c]!=13;c++,d++)\n            buf[d]=kludge[c];\n\n         buf[d]=0;\n','         c=getword(kludge,c,buf);\n',K,'            mm->OrigNode.Zone = node.Zone;\n            mm->OrigNode.Net  = node.Net;\n            mm->OrigNode.Node = node.Node;','            setaddr(&mm->OrigNode,&node);'),
('A21',0,'hr-jamcopy',J,'               mm->OrigNode.Zone=n4d.Zone;\n               mm->OrigNode.Net=n4d.Net;\n               mm->OrigNode.Node=n4d.Node;\n               mm->OrigNode.Point=n4d.Point;','               Copy4D(&mm->OrigNode,&n4d);'),
('A21',0,'hr-jamattr',J,'   for(c=0;jam_flagarray[c].name;c++)\n      if(mm->Attr & jam_flagarray[c].fidoflagbit)\n         Header_S.Attribute |= jam_flagarray[c].jamflagbit;','   for(c=0;jam_flagarray[c].name;c++)\n   {\n      if((mm->Attr & jam_flagarray[c].fidoflagbit) == 0)\n         continue;\n\n      Header_S.Attribute |= jam_flagarray[c].jamflagbit;\n   }'),
('A21',0,'hr-msgorder',M,'      Msg.DestZone   =  mm->DestNode.Zone;\n      Msg.DestNet    =  mm->DestNode.Net;\n','      Msg.DestNet    =  mm->DestNode.Net;\n      Msg.DestZone   =  mm->DestNode.Zone;\n'),
('A21',0,'hr-msgclear',M,'   strcpy(Msg.From,mm->From);\n','   memset(&Msg,0,sizeof(Msg));\n   strcpy(Msg.From,mm->From);\n'),
('A21',0,'hr-cwattr',W,'	attr=0;\n\n	if(!args[ARG_AREA].data)\n		attr|=FLAG_PVT;','	attr=args[ARG_AREA].data ? 0 : FLAG_PVT;'),
('A21',0,'hr-cwmemset',W,'   for(c=0;c<8;c++)\n      PktHeader[PKTHEADER_PASSWORD+c]=0;','   memset(&PktHeader[PKTHEADER_PASSWORD],0,8);'),
('A21',0,'hr-cwcheck',W,'   osWrite(ofh,PktHeader,SIZE_PKTHEADER);\n   osWrite(ofh,PktMsgHeader,SIZE_PKTMSGHEADER);\n','   if(!osWrite(ofh,PktHeader,SIZE_PKTHEADER) || !osWrite(ofh,PktMsgHeader,SIZE_PKTMSGHEADER))\n   {\n      osClose(ofh);\n      osDelete(fullname);\n      exit(OS_EXIT_ERROR);\n   }\n'),

('A21',0,'hr-readaddr',P,'bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(struct MemMessage *mm))\n{','static void getaddr(uint8_t *h,uint32_t zone,uint32_t net,uint32_t node,uint32_t point,struct Node4D *n)\n{\n   n->Zone=getuword(h,zone);\n   n->Net=getuword(h,net);\n   n->Node=getuword(h,node);\n   n->Point=getuword(h,point);\n}\n\nbool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(struct MemMessage *mm))\n{',
  P,'      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);\n      PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);\n      PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);\n      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);\n','      getaddr(PktHeader,PKTHEADER_ORIGZONE,PKTHEADER_ORIGNET,PKTHEADER_ORIGNODE,PKTHEADER_ORIGPOINT,&PktOrig);\n'),
('A21',0,'hr-jamstring',J,'bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)\n{','static void jam_getstring(char *dest,uint32_t len,s_JamSubfield *f)\n{\n   char tmp[200];\n\n   mystrncpy(tmp,f->Buffer,MIN(200,f->DatLen+1));\n   mystrncpy(dest,tmp,len);\n}\n\nbool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)\n{',
  J,'            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));\n            mystrncpy(mm->From,buf,36);\n','            jam_getstring(mm->From,36,Field_PS);\n'),
('A21',0,'hr-msgaddr',M,'bool msg_WriteMSG(struct MemMessage *mm,char *file)\n{','static void msg_setaddr(struct StoredMsg *m,struct Node4D *dest,struct Node4D *orig)\n{\n   m->DestZone=dest->Zone;\n   m->DestNet=dest->Net;\n   m->DestNode=dest->Node;\n   m->DestPoint=dest->Point;\n   m->OrigZone=orig->Zone;\n   m->OrigNet=orig->Net;\n   m->OrigNode=orig->Node;\n   m->OrigPoint=orig->Point;\n}\n\nbool msg_WriteMSG(struct MemMessage *mm,char *file)\n{',
  M,'      Msg.DestZone   =  mm->DestNode.Zone;\n      Msg.DestNet    =  mm->DestNode.Net;\n      Msg.DestNode   =  mm->DestNode.Node;\n      Msg.DestPoint  =  mm->DestNode.Point;\n\n      Msg.OrigZone   =  mm->OrigNode.Zone;\n      Msg.OrigNet    =  mm->OrigNode.Net;\n      Msg.OrigNode   =  mm->OrigNode.Node;\n      Msg.OrigPoint  =  mm->OrigNode.Point;\n','      msg_setaddr(&Msg,&mm->DestNode,&mm->OrigNode);\n'),
('A21',0,'hr-jamif',J,"         case JAMSFLD_FTSKLUDGE:\n            jam_makekludge(mm,\"\\x01\",Field_PS->Buffer,Field_PS->DatLen);\n            break;\n\n",'',J,'      switch(Field_PS->LoID)\n','      if(Field_PS->LoID == JAMSFLD_FTSKLUDGE)\n      {\n         jam_makekludge(mm,"\\x01",Field_PS->Buffer,Field_PS->DatLen);\n         continue;\n      }\n\n      switch(Field_PS->LoID)\n'),
('A21',0,'hr-zonetmp',P,'      if(getuword(PktHeader,PKTHEADER_ORIGZONE))\n      {\n         PktOrig.Zone = getuword(PktHeader,PKTHEADER_ORIGZONE);','      uint16_t ozone=getuword(PktHeader,PKTHEADER_ORIGZONE);\n\n      if(ozone != 0)\n      {\n         PktOrig.Zone = ozone;'),
('A21',0,'hr-zoneearly',P,'      else\n      {\n         PktOrig.Zone=0;\n         PktDest.Zone=0;\n      }\n','',P,'      if(getuword(PktHeader,PKTHEADER_ORIGZONE))\n      {','      PktOrig.Zone=0;\n      PktDest.Zone=0;\n\n      if(getuword(PktHeader,PKTHEADER_ORIGZONE))\n      {'),
]
