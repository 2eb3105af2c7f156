# behaviour-preserving edits as a maintainer might make them: every check has to stay quiet
H = 'crashmail/handle.c'
T = 'crashmail/toss.c'
P = 'crashmail/pkt.c'
CASES = [
('ALL', 0, 'r-echo-findarea', H, 'bool HandleEchomail(struct MemMessage *mm)\n{', '''static struct Area *FindAreaByTag(const char *tag)
{
   struct Area *a=(struct Area *)config.AreaList.First;

   while(a!=NULL)
   {
      if(stricmp(a->Tagname,(char *)tag)==0)
         return a;
      a=a->Next;
   }
   return NULL;
}

static struct ConfigNode *FindNodeByAddr(struct Node4D *n)
{
   struct ConfigNode *c;

   for(c=(struct ConfigNode *)config.CNodeList.First;c;c=c->Next)
   {
      if(Compare4D(n,&c->Node)!=0) continue;
      return c;
   }
   return NULL;
}

bool HandleEchomail(struct MemMessage *mm)
{''', H, '''   for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
      if(Compare4D(&mm->PktOrig,&tempcnode->Node)==0) break;

   /* Find area */

   for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
      if(stricmp(temparea->Tagname,mm->Area)==0) break;
''', '''   tempcnode=FindNodeByAddr(&mm->PktOrig);
   temparea=FindAreaByTag(mm->Area);
'''),
('ALL', 0, 'r-echo-access', H, 'bool HandleEchomail(struct MemMessage *mm)\n{', '''static char *WhyRefused(struct Area *area,struct MemMessage *mm)
{
   struct TossNode *t;

   if(mm->Flags & (MMFLAG_EXPORTED | MMFLAG_NOSECURITY))
      return NULL;

   for(t=(struct TossNode *)area->TossNodes.First;t;t=t->Next)
      if(Compare4D(&t->ConfigNode->Node,&mm->PktOrig)==0)
         return (t->Flags & TOSSNODE_READONLY) ? "Node is not allowed to write in this area" : NULL;

   return "Node does not receive this area";
}

bool HandleEchomail(struct MemMessage *mm)
{
   char *why;''', H, '''   if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY))
   {
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;

      if(!temptnode)
      {
         LogWrite(1,TOSSINGERR,"%u:%u/%u.%u doesn't receive %s",
            mm->PktOrig.Zone,
            mm->PktOrig.Net,
            mm->PktOrig.Node,
            mm->PktOrig.Point,
            mm->Area);

         toss_bad++;

         if(!WriteBad(mm,"Node does not receive this area"))
            return(FALSE);

         return(TRUE);
      }

      if(temptnode->Flags & TOSSNODE_READONLY)
      {
         LogWrite(1,TOSSINGERR,"%u:%u/%u.%u is not allowed to write in %s",
            mm->PktOrig.Zone,
            mm->PktOrig.Net,
            mm->PktOrig.Node,
            mm->PktOrig.Point,
            mm->Area);

         toss_bad++;
         
         if(!WriteBad(mm,"Node is not allowed to write in this area"))
            return(FALSE);
            
         return(TRUE);
      }
   }
''', '''   why=WhyRefused(temparea,mm);

   if(why)
   {
      LogWrite(1,TOSSINGERR,"%u:%u/%u.%u: %s (%s)",
         mm->PktOrig.Zone,
         mm->PktOrig.Net,
         mm->PktOrig.Node,
         mm->PktOrig.Point,
         why,
         mm->Area);

      toss_bad++;
      return WriteBad(mm,why);
   }
'''),
('ALL', 0, 'r-echo-fanout', H, 'bool HandleEchomail(struct MemMessage *mm)\n{', '''static bool WantsCopy(struct MemMessage *mm,struct TossNode *t)
{
   struct ConfigNode *cn=t->ConfigNode;

   if(Compare4D(&mm->PktOrig,&cn->Node)==0)
      return FALSE;

   if((cn->Flags & NODE_PASSIVE) || (t->Flags & TOSSNODE_WRITEONLY))
      return FALSE;

   if((config.cfg_Flags & CFG_CHECKSEENBY) && cn->IsInSeenBy == TRUE)
      return FALSE;

   return TRUE;
}

bool HandleEchomail(struct MemMessage *mm)
{''', H, '''      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         /* is not sender of packet */
         if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)
            /* is not passive */
            if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
               /* is not write-only */
               if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                  /* is not already in seen-by */
                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)))
                  {
                     if(!WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
                        return(FALSE);
                  }
''', '''      temptnode=(struct TossNode *)temparea->TossNodes.First;
      while(temptnode)
      {
         if(WantsCopy(mm,temptnode) && !WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
            return(FALSE);

         temptnode=temptnode->Next;
      }
'''),
('ALL', 0, 'r-echo-seenby', H, '''   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      temptnode->ConfigNode->IsInSeenBy=FALSE;

   if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
   {
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      {
         if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
            if(temptnode->ConfigNode->Node.Point==0)
               if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
                  temptnode->ConfigNode->IsInSeenBy=TRUE;
      }
   }

   /* Add nodes to seen-by */

   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      if(temptnode->ConfigNode->Node.Point == 0 && temparea->Aka->Node.Zone == temptnode->ConfigNode->Node.Zone)
         if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
            if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
            {
               if(!mmAddNodes2DList(&mm->SeenBy,temptnode->ConfigNode->Node.Net,temptnode->ConfigNode->Node.Node))
                  return(FALSE);
            }
''', '''   bool checkseenby=(config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY);

   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
   {
      struct ConfigNode *link=temptnode->ConfigNode;
      bool samezone=(link->Node.Zone == temparea->Aka->Node.Zone && link->Node.Point == 0);

      link->IsInSeenBy=FALSE;

      if(checkseenby && samezone && FindNodes2D(&mm->SeenBy,&link->Node))
         link->IsInSeenBy=TRUE;
   }

   /* Add nodes to seen-by */

   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
   {
      struct ConfigNode *link=temptnode->ConfigNode;

      if(link->Node.Point != 0 || link->Node.Zone != temparea->Aka->Node.Zone)
         continue;

      if((link->Flags & NODE_PASSIVE) || (temptnode->Flags & TOSSNODE_WRITEONLY))
         continue;

      if(!mmAddNodes2DList(&mm->SeenBy,link->Node.Net,link->Node.Node))
         return(FALSE);
   }
'''),
('ALL', 0, 'r-echo-dupe', H, 'bool HandleEchomail(struct MemMessage *mm)\n{', '''/* TRUE if the message is a duplicate, *ok tells whether handling it went well */
static bool DealWithDupe(struct MemMessage *mm,struct Area *area,struct ConfigNode *from,bool *ok)
{
   *ok=TRUE;

   if(config.cfg_DupeMode==DUPE_IGNORE) return FALSE;
   if(!(mm->Flags & MMFLAG_TOSSED)) return FALSE;
   if(area->Flags & AREA_IGNOREDUPES) return FALSE;
   if(!CheckDupe(mm)) return FALSE;

   LogWrite(4,TOSSINGERR,"Duplicate message in %s",mm->Area);

   toss_dupes++;
   area->NewDupes++;
   if(from) from->Dupes++;

   switch(config.cfg_DupeMode)
   {
      case DUPE_BAD:
         *ok=WriteBad(mm,"Duplicate message");
         break;
      default:
         break;
   }
   return TRUE;
}

bool HandleEchomail(struct MemMessage *mm)
{
   bool ok;''', H, '''   if(config.cfg_DupeMode!=DUPE_IGNORE && (mm->Flags & MMFLAG_TOSSED) && !(temparea->Flags & AREA_IGNOREDUPES))
   {
      if(CheckDupe(mm))
      {
         LogWrite(4,TOSSINGERR,"Duplicate message in %s",mm->Area);

         toss_dupes++;
         temparea->NewDupes++;

         if(tempcnode)
            tempcnode->Dupes++;

         if(config.cfg_DupeMode == DUPE_BAD)
         {
            if(!WriteBad(mm,"Duplicate message"))
               return(FALSE);
         }

         return(TRUE);
      }
   }
''', '''   if(DealWithDupe(mm,temparea,tempcnode,&ok))
      return ok;
'''),
('ALL', 0, 'r-toss-common', T, 'bool TossDir(char *dir)\n{', '''static bool GiveUp(struct jbList *a,struct jbList *b)
{
   if(a) jbFreeList(a);
   if(b) jbFreeList(b);
   AfterScanToss(FALSE);
   return(FALSE);
}

bool TossDir(char *dir)
{''', T, '''      if(!ReadPkt(buf,fe,FALSE,HandleMessage))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }
''', '''      if(!ReadPkt(buf,fe,FALSE,HandleMessage))
         return GiveUp(&PktFEList,&ArcFEList);
''', T, '''      if(!TossBundle(buf,fe))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }
''', '''      if(!TossBundle(buf,fe))
         return GiveUp(&PktFEList,&ArcFEList);
'''),
('ALL', 0, 'r-toss-goto', T, '''   for(fe=(struct osFileEntry *)PktFEList.First;fe && !ctrlc;fe=fe->Next)
   {
      MakeFullPath(dir,fe->Name,buf,200);

      if(!ReadPkt(buf,fe,FALSE,HandleMessage))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(buf);
   }

   for(fe=(struct osFileEntry *)ArcFEList.First;fe && !ctrlc;fe=fe->Next)
   {
      MakeFullPath(dir,fe->Name,buf,200);

      if(!TossBundle(buf,fe))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(buf);
   }

   jbFreeList(&PktFEList);
   jbFreeList(&ArcFEList);

   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
}
''', '''   success=TRUE;

   fe=(struct osFileEntry *)PktFEList.First;

   while(fe && !ctrlc)
   {
      MakeFullPath(dir,fe->Name,buf,200);
      success=ReadPkt(buf,fe,FALSE,HandleMessage);
      if(!success)
         goto done;

      SafeDelete(buf);
      fe=fe->Next;
   }

   for(fe=(struct osFileEntry *)ArcFEList.First;fe;fe=fe->Next)
   {
      if(ctrlc)
         break;

      MakeFullPath(dir,fe->Name,buf,200);

      success=TossBundle(buf,fe);
      if(!success)
         goto done;

      SafeDelete(buf);
   }

   if(ctrlc)
      success=FALSE;
   else
      LogTossResults();

done:
   jbFreeList(&ArcFEList);
   jbFreeList(&PktFEList);
   AfterScanToss(success);

   return(success);
}
''', T, '''   struct jbList ArcFEList;
   char buf[200];
''', '''   struct jbList ArcFEList;
   char buf[200];
   bool success;
'''),
('ALL', 0, 'r-tossfile', T, '''   if(IsPkt(fe->Name))
   {
      if(!ReadPkt(file,fe,FALSE,HandleMessage))
      {
         osFree(fe);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(file);
   }
   else
   {
      if(!TossBundle(file,fe))
      {
         osFree(fe);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(file);
   }

   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
''', '''   bool res=IsPkt(fe->Name) ? ReadPkt(file,fe,FALSE,HandleMessage) : TossBundle(file,fe);

   if(res)
   {
      SafeDelete(file);
      LogTossResults();
   }
   else
   {
      osFree(fe);
   }

   AfterScanToss(res);
   return(res);
'''),
('ALL', 0, 'r-pkt-fail', P, 'bool ReadPkt(', '''static bool PktIsBad(osFile fh,struct MemMessage *mm,char *pkt,char *why)
{
   LogWrite(1,TOSSINGERR,"%s",why);
   osClose(fh);
   mmFree(mm);
   return(BadFile(pkt,why));
}

bool ReadPkt(''', P, '''         LogWrite(1,TOSSINGERR,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
         sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
         osClose(fh);
         mmFree(mm);
         return(BadFile(pkt,buf));
''', '''         sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
         return PktIsBad(fh,mm,pkt,buf);
''', P, '''         LogWrite(1,TOSSINGERR,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
         sprintf(buf,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
         osClose(fh);
         mmFree(mm);
         return(BadFile(pkt,buf));
''', '''         sprintf(buf,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
         return PktIsBad(fh,mm,pkt,buf);
'''),
('ALL', 0, 'r-pkt-pw', P, 'bool ReadPkt(', '''static bool PasswordOk(struct ConfigNode *cn,struct MemMessage *m,uint8_t *hdr,bool nosec)
{
   char pw[9];

   if(cn==NULL || nosec)
      return TRUE;

   if(!m->Area[0] && (cn->Flags & NODE_NONETMAILPASSWORD))
      return TRUE;

   if(!cn->PacketPW[0])
      return TRUE;

   mystrncpy(pw,(char *)&hdr[PKTHEADER_PASSWORD],9);
   return stricmp(pw,cn->PacketPW)==0 ? TRUE : FALSE;
}

bool ReadPkt(''', P, '''		if(tmpcnode && (mm->Area[0] || !(tmpcnode->Flags & NODE_NONETMAILPASSWORD)))
		{
		  strncpy(buf,(char *)&PktHeader[PKTHEADER_PASSWORD],8);
		  buf[8]=0;

		  if(tmpcnode->PacketPW[0]!=0 && stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security)
		  {
			 LogWrite(1,TOSSINGERR,"Wrong password");
			 osClose(fh);
			 mmFree(mm);
			 return(BadFile(pkt,"Wrong password"));
		  }
		}
''', '''		if(!PasswordOk(tmpcnode,mm,PktHeader,no_security))
		{
			 LogWrite(1,TOSSINGERR,"Wrong password");
			 osClose(fh);
			 mmFree(mm);
			 return(BadFile(pkt,"Wrong password"));
		}
'''),
('ALL', 0, 'r-pkt-loop', P, '''   while(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE) == 2 && !ctrlc)
   {
      msgnum++;
''', '''   for(;;)
   {
      if(ctrlc)
         break;

      if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE) != 2)
         break;

      msgnum++;
''', P, '''      while(!messageend)
      {
         ReadCR(buf,200,fh);
''', '''      for(;;)
      {
         if(messageend) break;

         ReadCR(buf,200,fh);
'''),
('ALL', 0, 'r-pkt-stats', P, '''      for(tmpcnode=(struct ConfigNode *)config.CNodeList.First;tmpcnode;tmpcnode=tmpcnode->Next)
         if(Compare4D(&tmpcnode->Node,&mm->PktOrig)==0) break;
         
      if(tmpcnode)
      {
         uint32_t size;
         
         size=0;

         for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
            size+=chunk->Length;

         if(mm->Area[0])
         {
            tmpcnode->GotEchomails++;
            tmpcnode->GotEchomailBytes+=size;
         }
         else
         {
            tmpcnode->GotNetmails++;
            tmpcnode->GotNetmailBytes+=size;
         }
      }
      
      toss_read++;
      
      mm->Flags |= MMFLAG_TOSSED;
''', '''      toss_read++;
      mm->Flags |= MMFLAG_TOSSED;

      CountReceived(mm);
''', P, 'bool ReadPkt(', '''static void CountReceived(struct MemMessage *mm)
{
   struct ConfigNode *cn;
   struct TextChunk *chunk;
   uint32_t size=0;

   for(cn=(struct ConfigNode *)config.CNodeList.First;cn;cn=cn->Next)
      if(Compare4D(&cn->Node,&mm->PktOrig)==0) break;

   if(!cn) return;

   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
      size+=chunk->Length;

   if(mm->Area[0])
   {
      cn->GotEchomails++;
      cn->GotEchomailBytes+=size;
   }
   else
   {
      cn->GotNetmails++;
      cn->GotNetmailBytes+=size;
   }
}

bool ReadPkt('''),
]
