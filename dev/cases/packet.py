P='crashmail/pkt.c'; O='crashmail/outbound.c'; H='crashmail/handle.c'; M='crashmail/misc.c'
C=[]
def a(want,name,*x): C.append(('A23',want,name)+x)
a(1,'pk-find-orig',P,'Compare4D(node,&pkt->Dest)==0 && Compare4D(mynode,&pkt->Orig)==0 &&','Compare4D(node,&pkt->Dest)==0 &&')
a(1,'pk-find-type',P,'Compare4D(mynode,&pkt->Orig)==0 && type==pkt->Type','Compare4D(mynode,&pkt->Orig)==0')
a(1,'pk-find-type2',P,'&& type==pkt->Type)','&& (type==pkt->Type || pkt->Type==PKTS_ECHOMAIL))')
a(0,'pk-find-r',P,'''      if(Compare4D(node,&pkt->Dest)==0 && Compare4D(mynode,&pkt->Orig)==0 && type==pkt->Type)
         return(pkt);

   return(NULL);''','''   {
      if(pkt->Type != type) continue;
      if(Compare4D(&pkt->Dest,node)) continue;
      if(!Compare4D(&pkt->Orig,mynode)) break;
   }

   return(pkt);''')
a(1,'pk-from-orig',P,'From4D=&node->PktFrom;','From4D=&node->Node;')
a(1,'pk-from-flag',P,'if(cnode->Flags & NODE_PKTFROM)','if(cnode->Flags & NODE_PACKNETMAIL)')
a(1,'pk-net-create-type',P,'CreatePkt(dest,cnode,From4D,mm->Type)','CreatePkt(dest,cnode,From4D,PKTS_NORMAL)')
a(1,'pk-net-create-dest',P,'CreatePkt(dest,cnode,From4D,mm->Type)','CreatePkt(&mm->DestNode,cnode,From4D,mm->Type)')
a(1,'pk-pack-all',P,'if(mm->Type == PKTS_NORMAL) mm->Type=PKTS_ECHOMAIL;','if(mm->Type != PKTS_CRASH) mm->Type=PKTS_ECHOMAIL;')
a(1,'pk-pack-not',P,'if(mm->Type == PKTS_NORMAL) mm->Type=PKTS_ECHOMAIL;','if(mm->Type == PKTS_NORMAL) mm->Type=PKTS_NORMAL;')
a(1,'pk-cnode-any',P,'if(Compare4D(&cnode->Node,dest)==0) break;','if(Compare4D(&cnode->Node,&mm->DestNode)==0) break;')
a(1,'pk-chunk-len',P,'''      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);

      if(ioerror)''','''      pktWrite(pkt,(uint8_t *)chunk->Data,(uint32_t)strlen((char *)chunk->Data));

      if(ioerror)''')
a(1,'pk-chunk-skip',P,'''   {
      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);

      if(ioerror)''','''   {
      if(chunk->Data[0]==1 && chunk->Length<10) continue;
      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);

      if(ioerror)''')
a(1,'pk-chunk-break',P,'''      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);
      
      if(ioerror)
         return(FALSE);''','''      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);
      
      if(ioerror)
         return(FALSE);
      if(pkt->Len > 65535) break;''')
a(1,'pk-finish-after',P,'''      if(pkt) FinishPacket(pkt);

      if(!(pkt=CreatePkt(dest,''','''      if(pkt) { FinishPacket(pkt); return(TRUE); }

      if(!(pkt=CreatePkt(dest,''')
a(1,'pk-not-listed',P,'''      jbAddNode(&PktList,(struct jbNode *)pkt);
   }

   if(!WriteMsgHeader(pkt,mm))
      return(FALSE);

   for(''','''      if(config.cfg_MaxPktSize) jbAddNode(&PktList,(struct jbNode *)pkt);
   }

   if(!WriteMsgHeader(pkt,mm))
      return(FALSE);

   for(''')
a(1,'pk-echo-dest',P,'   Copy4D(&mm->DestNode,&node->Node);\n','')
a(1,'pk-echo-orig',P,'Copy4D(&mm->OrigNode,From4D);','Copy4D(&mm->OrigNode,&aka->Node);')
a(1,'pk-echo-area-after',P,'''   pktWrite(pkt,(uint8_t *)buf,(uint32_t)strlen(buf));

   if(ioerror)
      return(FALSE);
''','',P,'''   if(node->Node.Zone != aka->Node.Zone || (''','''   pktWrite(pkt,(uint8_t *)buf,(uint32_t)strlen(buf));

   if(node->Node.Zone != aka->Node.Zone || (''')
a(1,'pk-echo-term',P,'''   if(!WritePath(pkt,&mm->Path))
      return(FALSE);

   pktWrite(pkt,(uint8_t *)"",1);
''','''   if(!WritePath(pkt,&mm->Path))
      return(FALSE);

   if(mm->TextChunks.First) pktWrite(pkt,(uint8_t *)"",1);
''')
a(0,'pk-echo-area-r',P,'''   sprintf(buf,"AREA:%s\\x0d",mm->Area);

   pktWrite(pkt,(uint8_t *)buf,(uint32_t)strlen(buf));
''','''   pktWrite(pkt,(uint8_t *)"AREA:",5);
   pktWrite(pkt,(uint8_t *)mm->Area,(uint32_t)strlen(mm->Area));
   pktWrite(pkt,(uint8_t *)"\\x0d",1);
''')
a(0,'pk-text-helper-r',P,'bool WriteEchoMail(','''static bool WriteText(struct Pkt *pkt,struct MemMessage *mm)
{
   struct TextChunk *chunk=(struct TextChunk *)mm->TextChunks.First;

   while(chunk)
   {
      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);

      if(ioerror)
         return(FALSE);

      chunk=chunk->Next;
   }
   return(TRUE);
}

bool WriteEchoMail(''',P,'''   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
   {
      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);
      
      if(ioerror)
         return(FALSE);
   }
''','''   if(!WriteText(pkt,mm))
      return(FALSE);
''',P,'''   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
   {
      pktWrite(pkt,(uint8_t *)chunk->Data,chunk->Length);

      if(ioerror)
         return(FALSE);
   }
''','''   if(!WriteText(pkt,mm))
      return(FALSE);
''')
a(0,'pk-getpkt-helper-r',P,'bool WriteEchoMail(','''static struct Pkt *GetPkt(struct Node4D *dest,struct ConfigNode *cnode,struct Node4D *orig,uint16_t type)
{
   struct Pkt *pkt=FindPkt(dest,orig,type);

   if(pkt)
   {
      if(config.cfg_MaxPktSize==0 || pkt->Len <= config.cfg_MaxPktSize)
         return(pkt);

      FinishPacket(pkt);
   }

   pkt=CreatePkt(dest,cnode,orig,type);

   if(pkt)
      jbAddNode(&PktList,(struct jbNode *)pkt);

   return(pkt);
}

bool WriteEchoMail(''',P,'''   pkt=FindPkt(&node->Node,From4D,mm->Type);

   if(!pkt || (pkt && config.cfg_MaxPktSize!=0 && pkt->Len > config.cfg_MaxPktSize))
   {
      if(pkt) FinishPacket(pkt);

      if(!(pkt=CreatePkt(&node->Node,node,From4D,mm->Type)))
      {
         return(FALSE);
      }

      jbAddNode(&PktList,(struct jbNode *)pkt);
   }
''','''   if(!(pkt=GetPkt(&node->Node,node,From4D,mm->Type)))
      return(FALSE);
''',P,'''   pkt=FindPkt(dest,From4D,mm->Type);

   if(!pkt || (pkt && config.cfg_MaxPktSize!=0 && pkt->Len > config.cfg_MaxPktSize))
   {
      if(pkt) FinishPacket(pkt);

      if(!(pkt=CreatePkt(dest,cnode,From4D,mm->Type)))
      {
         return(FALSE);
      }

      jbAddNode(&PktList,(struct jbNode *)pkt);
   }
''','''   if(!(pkt=GetPkt(dest,cnode,From4D,mm->Type)))
      return(FALSE);
''')
a(0,'pk-from-ternary-r',P,'''   From4D=&aka->Node;

	if(node->Flags & NODE_PKTFROM)
		From4D=&node->PktFrom;
''','''   From4D=(node->Flags & NODE_PKTFROM) ? &node->PktFrom : &aka->Node;
''')
a(0,'pk-copy-fields-r',P,'   Copy4D(&mm->OrigNode,From4D);\n','''   mm->OrigNode.Zone=From4D->Zone;
   mm->OrigNode.Net=From4D->Net;
   mm->OrigNode.Node=From4D->Node;
   mm->OrigNode.Point=From4D->Point;
''')
a(1,'pk-write-len',P,'if(!osWrite(pkt->fh,buf,len))','if(!osWrite(pkt->fh,buf,len & 0xffff))')
a(1,'pk-write-none',P,'   if(!osWrite(pkt->fh,buf,len))','   if(pkt->Len + len > 0x7fffffff || !osWrite(pkt->fh,buf,len))')
a(1,'pk-path-first',P,'''         if(path->Path[c][0]!=0)
         {
            pktWrite(pkt,(uint8_t *)"\\x01PATH: ",7);''','''         if(path->Path[c][0]!=0 && path->Path[c][1]!=0)
         {
            pktWrite(pkt,(uint8_t *)"\\x01PATH: ",7);''')
a(1,'pk-path-from1',P,'for(c=0;c<path->Paths;c++)\n         if(path->Path[c][0]!=0)','for(c=1;c<path->Paths;c++)\n         if(path->Path[c][0]!=0)')
a(1,'pk-path-cr',P,'            pktWrite(pkt,(uint8_t *)"\\x0d",1);\n         }','            if(c+1<path->Paths) pktWrite(pkt,(uint8_t *)"\\x0d",1);\n         }')
a(0,'pk-path-r',P,'''         if(path->Path[c][0]!=0)
         {
            pktWrite(pkt,(uint8_t *)"\\x01PATH: ",7);
            pktWrite(pkt,(uint8_t *)path->Path[c],(uint32_t)strlen(path->Path[c]));
            pktWrite(pkt,(uint8_t *)"\\x0d",1);
         }''','''      {
         char *text=path->Path[c];

         if(!*text) continue;

         pktWrite(pkt,(uint8_t *)"\\x01PATH: ",(uint32_t)strlen("\\x01PATH: "));
         pktWrite(pkt,(uint8_t *)text,(uint32_t)strlen(text));
         pktWrite(pkt,(uint8_t *)"\\x0d",1);
      }''')
a(1,'pk-fin-one',P,'''   pktWrite(pkt,(uint8_t *)"",1);
   pktWrite(pkt,(uint8_t *)"",1);

   if(!osClose''','''   pktWrite(pkt,(uint8_t *)"",1);

   if(!osClose''')
a(1,'pk-fin-hold',P,'''         case PKTS_DIRECT:    typestr="Direct";
                              break;''','''         case PKTS_DIRECT:''')
a(1,'pk-fin-swap',P,'''         pkt->Dest.Zone,
         pkt->Dest.Net,
         pkt->Dest.Node,
         pkt->Dest.Point);

      MakeFull''','''         pkt->Dest.Net,
         pkt->Dest.Zone,
         pkt->Dest.Node,
         pkt->Dest.Point);

      MakeFull''')
a(1,'pk-fin-orig',P,'         pkt->Dest.Point);\n\n      MakeFull','         pkt->Orig.Point);\n\n      MakeFull')
a(0,'pk-fin-r',P,'''      switch(pkt->Type)
      {
         case PKTS_HOLD:      typestr="Hold";
                              break;
         case PKTS_NORMAL:    typestr="Normal";
                              break;
         case PKTS_DIRECT:    typestr="Direct";
                              break;
         case PKTS_CRASH:     typestr="Crash";
                              break;
         case PKTS_ECHOMAIL:  typestr="Echomail";
                              break;
      }
''','''      if(pkt->Type == PKTS_HOLD)        typestr="Hold";
      else if(pkt->Type == PKTS_NORMAL) typestr="Normal";
      else if(pkt->Type == PKTS_DIRECT) typestr="Direct";
      else if(pkt->Type == PKTS_CRASH)  typestr="Crash";
      else                              typestr="Echomail";
''')
a(1,'ob-word',O,'''   else if(stricmp(buf2,"Hold")==0)
      type=PKTS_HOLD;

   else if(stricmp(buf2,"Direct")==0)
      type=PKTS_DIRECT;

   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_CRASH;

   else if(''','''   else if(stricmp(buf2,"Hold")==0)
      type=PKTS_HOLD;

   else if(stricmp(buf2,"Direct")==0)
      type=PKTS_CRASH;

   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_CRASH;

   else if(''')
a(1,'ob-order',O,'n4d.Node=atol(buf2);\n\n   jbstrcpy(buf2,buf,100,&jbcpos);\n   n4d.Point=atol(buf2);','n4d.Point=atol(buf2);\n\n   jbstrcpy(buf2,buf,100,&jbcpos);\n   n4d.Node=atol(buf2);')
a(1,'ob-letter',O,'''      	case PKTS_HOLD:     letter='h';
            	              break;
      	case PKTS_DIRECT:   letter='d';''','''      	case PKTS_HOLD:
      	case PKTS_DIRECT:   letter='d';''')
a(1,'ob-flow-letter',O,'''      case PKTS_DIRECT:   letter='d';
                          break;
      case PKTS_CRASH:    letter='c';
                          break;
      default:            letter='f';
   }

   sprintf(buf,"%s.%clo"''','''      case PKTS_DIRECT:   letter='d';
      case PKTS_CRASH:    letter='c';
                          break;
      default:            letter='f';
   }

   sprintf(buf,"%s.%clo"''')
a(1,'ob-flow-mode',O,"   if(mode == FLOW_DELETE)\n      prefix=","   if(mode != FLOW_TRUNC)\n      prefix=")
a(1,'ob-pri',O,'doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE)','doAddFlow(arcname,basename,type,FLOW_DELETE)')
a(1,'ob-orphan-pri',O,'MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE)','MakeOrphan(arcname,&n4d,PKTS_NORMAL,FLOW_DELETE)')
a(1,'ob-cnode',O,'if(Compare4D(&cnode->Node,&n4d)==0) break;\n\n      if(cnode &&','if(cnode->Node.Net==n4d.Net && cnode->Node.Node==n4d.Node) break;\n\n      if(cnode &&')
a(1,'ob-unpacked-pri',O,'pri=cnode ? cnode->EchomailPri : PKTS_NORMAL;','pri=PKTS_NORMAL;')
a(0,'ob-unpacked-r',O,'pri=cnode ? cnode->EchomailPri : PKTS_NORMAL;','if(cnode) pri=cnode->EchomailPri; else pri=PKTS_NORMAL;')
a(0,'ob-flavour-helper-r',O,'bool PackFile(char *file)\n{','''static bool ParseFlavour(char *word,char *type)
{
   if(stricmp(word,"Normal")==0)        *type=PKTS_NORMAL;
   else if(stricmp(word,"Hold")==0)     *type=PKTS_HOLD;
   else if(stricmp(word,"Direct")==0)   *type=PKTS_DIRECT;
   else if(stricmp(word,"Crash")==0)    *type=PKTS_CRASH;
   else if(stricmp(word,"Echomail")==0) *type=PKTS_ECHOMAIL;
   else return(FALSE);

   return(TRUE);
}

bool PackFile(char *file)
{''',O,'''   if(stricmp(buf2,"Normal")==0)
      type=PKTS_NORMAL;

   else if(stricmp(buf2,"Hold")==0)
      type=PKTS_HOLD;

   else if(stricmp(buf2,"Direct")==0)
      type=PKTS_DIRECT;

   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_CRASH;

   else if(stricmp(buf2,"Echomail")==0)
      type=PKTS_ECHOMAIL;

   else
   {
      LogWrite(1,TOSSINGERR,"Unknown''','''   if(!ParseFlavour(buf2,&type))
   {
      LogWrite(1,TOSSINGERR,"Unknown''')
a(0,'ob-name-r',O,'''		sprintf(buf2,".%cut",letter);
		strcpy(buf,basename);
		strcat(buf,buf2);
''','''		sprintf(buf,"%s.%cut",basename,letter);
''')
a(0,'ob-flowname-r',O,'''   sprintf(buf,"%s.%clo",basename,letter);
''','''   strcpy(buf,basename);
   strcat(buf,".xlo");
   buf[strlen(buf)-3]=letter;
''')
a(1,'ob-orph-addr',O,'prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);\n   if','prinames[(int)type],n4d->Zone,n4d->Net,n4d->Point,n4d->Node);\n   if')
a(1,'ob-orph-mode',O,'strcat(buf," Truncate");','strcat(buf," Trunc");')
a(1,'ob-orph-crash',O,'''   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_CRASH;

   else
   {
      LogWrite(1,SYSTEMERR,"Unknown flavour''','''   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_DIRECT;

   else
   {
      LogWrite(1,SYSTEMERR,"Unknown flavour''')
a(1,'ob-prinames','crashmail/crashmail.c','{"Normal","Hold","Normal","Direct","Crash"}','{"Echomail","Hold","Normal","Direct","Crash"}')
a(1,'ob-base-zone',O,'n4d->Zone != firstaka->Node.Zone','n4d->Zone > firstaka->Node.Zone')
a(1,'ob-base-fmt',O,'"%04x%04x",n4d->Net,n4d->Node','"%04x%04x",n4d->Node,n4d->Net')
a(1,'ob-base-point',O,'   if(n4d->Point)\n   {\n      strcat(basename,".pnt");','   if(n4d->Point > 1)\n   {\n      strcat(basename,".pnt");')
a(1,'ob-base-zone2',O,'sprintf(buf,".%03x", n4d->Zone);','sprintf(buf,".%03x", firstaka->Node.Zone);')
a(0,'ob-base-r',O,'''   c=strlen(basename);
   basename[c++]=ospathchars[0];
   basename[c++]=0;

   /* Add net/node */

   sprintf(buf,"%04x%04x",n4d->Net,n4d->Node);
   strcat(basename,buf);
''','''   sprintf(buf,"%c%04x%04x",ospathchars[0],n4d->Net,n4d->Node);
   strcat(basename,buf);
''')
a(1,'fl-hold',H,'if(mm->Attr & FLAG_HOLD)  mm->Type=PKTS_HOLD;','else if(mm->Attr & FLAG_HOLD)  mm->Type=PKTS_HOLD;')
a(1,'fl-attach',H,'if((mm->Attr & FLAG_FILEATTACH) && !(config.cfg_Flags & CFG_NODIRECTATTACH))','if(mm->Attr & FLAG_FILEATTACH)')
a(1,'fl-attach2',H,'''			if(mm->Type == PKTS_NORMAL)
            mm->Type=PKTS_DIRECT;''','''            mm->Type=PKTS_DIRECT;''')
a(1,'fl-change-dest',H,'ChangeType(&Dest4D,mm->Type)','ChangeType(&mm->DestNode,mm->Type)')
a(1,'fl-point',H,'if(mm->Type == PKTS_DIRECT || mm->Type == PKTS_CRASH)','if(mm->Type != PKTS_NORMAL)')
a(1,'fl-flow',H,'AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE)','AddFlow(buf3,&Dest4D,PKTS_DIRECT,FLOW_DELETE)')
a(1,'fl-flow-dest',H,'AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE)','AddFlow(buf3,&mm->DestNode,mm->Type,FLOW_DELETE)')
a(0,'fl-r',H,'''      mm->Type = PKTS_NORMAL;

      if(mm->Attr & FLAG_CRASH) mm->Type=PKTS_CRASH;
      if(mm->Attr & FLAG_HOLD)  mm->Type=PKTS_HOLD;

		/* File-attach? */

      if((mm->Attr & FLAG_FILEATTACH) && !(config.cfg_Flags & CFG_NODIRECTATTACH))
		{
			if(mm->Type == PKTS_NORMAL)
            mm->Type=PKTS_DIRECT;
		}
''','''      if(mm->Attr & FLAG_HOLD)
         mm->Type=PKTS_HOLD;
      else if(mm->Attr & FLAG_CRASH)
         mm->Type=PKTS_CRASH;
      else if((mm->Attr & FLAG_FILEATTACH) && !(config.cfg_Flags & CFG_NODIRECTATTACH))
         mm->Type=PKTS_DIRECT;
      else
         mm->Type=PKTS_NORMAL;
''')
a(1,'ch-flag',M,'change->ChangeDirect == TRUE','change->ChangeCrash == TRUE')
a(1,'ch-all',M,'         if(ispattern)\n','         if(ispattern || pri == PKTS_HOLD)\n')
a(1,'ch-missed',M,'if(pri == PKTS_ECHOMAIL && change->DestPri == PKTS_NORMAL)','if(change->DestPri == PKTS_NORMAL)')
a(0,'ch-r',M,'''         ispattern=FALSE;

         if(pri == PKTS_ECHOMAIL && change->ChangeNormal == TRUE) ispattern=TRUE;
         if(pri == PKTS_NORMAL   && change->ChangeNormal == TRUE) ispattern=TRUE;
         if(pri == PKTS_CRASH    && change->ChangeCrash  == TRUE) ispattern=TRUE;
         if(pri == PKTS_DIRECT   && change->ChangeDirect == TRUE) ispattern=TRUE;
         if(pri == PKTS_HOLD     && change->ChangeHold   == TRUE) ispattern=TRUE;
''','''         switch(pri)
         {
            case PKTS_ECHOMAIL:
            case PKTS_NORMAL: ispattern=change->ChangeNormal; break;
            case PKTS_CRASH:  ispattern=change->ChangeCrash;  break;
            case PKTS_DIRECT: ispattern=change->ChangeDirect; break;
            case PKTS_HOLD:   ispattern=change->ChangeHold;   break;
            default:          ispattern=FALSE;
         }
''')
CASES=C
