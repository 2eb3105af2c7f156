H='crashmail/handle.c'; D='crashmail/dupe.c'
CASES=[
('A06',1,'linked-only-when-tossed',H,'''   if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY))
   {
      for(temptnode''','''   if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY) && !(mm->Flags & MMFLAG_RESCANNED))
   {
      for(temptnode'''),
('A06',1,'readonly-dropped',H,'''      if(temptnode->Flags & TOSSNODE_READONLY)
      {''','''      if((temptnode->Flags & TOSSNODE_READONLY) && !(temparea->Flags & AREA_MANDATORY))
      {'''),
('A06',1,'readonly-flag-writeonly',H,'''      if(temptnode->Flags & TOSSNODE_READONLY)
      {''','''      if(temptnode->Flags & TOSSNODE_WRITEONLY)
      {'''),
('A06',1,'unconfirmed-autoadd',H,'''   if(temparea->Flags & AREA_UNCONFIRMED)
   {
      toss_bad++;''','''   if((temparea->Flags & AREA_UNCONFIRMED) && !tempcnode)
   {
      toss_bad++;'''),
('A06',1,'refused-dropped',H,'''         if(!WriteBad(mm,"Node is not allowed to write in this area"))
            return(FALSE);
''','''         if(config.cfg_Flags & CFG_CHECKSEENBY) if(!WriteBad(mm,"Node is not allowed to write in this area"))
            return(FALSE);
'''),
('A06',1,'net-node-compare',H,'''         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;

      if(!temptnode)''','''         if(temptnode->ConfigNode->Node.Net==mm->PktOrig.Net && temptnode->ConfigNode->Node.Node==mm->PktOrig.Node) break;

      if(!temptnode)'''),
('A06',1,'compare-orignode',H,'''         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;

      if(!temptnode)''','''         if(Compare4D(&temptnode->ConfigNode->Node,&mm->OrigNode)==0) break;

      if(!temptnode)'''),
('A06',1,'addarea-flags-or',H,'''   if(!active)
      temparea->Flags=AREA_UNCONFIRMED;''','''   if(!active && !defarea)
      temparea->Flags=AREA_UNCONFIRMED;'''),
('A06',1,'addarea-always',H,'''temparea=AddArea(mm->Area,&mm->PktOrig,&mm->PktDest,tempcnode->Flags & NODE_AUTOADD,FALSE);''','''temparea=AddArea(mm->Area,&mm->PktOrig,&mm->PktDest,tempcnode->Flags & (NODE_AUTOADD|NODE_SENDTEXT),FALSE);'''),
('A06',0,'helper',H,'''bool HandleEchomail(struct MemMessage *mm)
{''','''static struct TossNode *findlink(struct Area *a,struct Node4D *n)
{
   struct TossNode *t;
   for(t=(struct TossNode *)a->TossNodes.First;t;t=t->Next)
      if(Compare4D(n,&t->ConfigNode->Node)==0) return t;
   return NULL;
}

bool HandleEchomail(struct MemMessage *mm)
{''',H,'''      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;
''','''      temptnode=findlink(temparea,&mm->PktOrig);
'''),
('A06,A07,A08',0,'mask-combined',H,'''   if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY))
   {''','''   if((mm->Flags & (MMFLAG_EXPORTED|MMFLAG_NOSECURITY))==0)
   {'''),
('A07',1,'back-to-sender-points',H,'''         if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)
            /* is not passive */''','''         if(Compare4D(&mm->OrigNode,&temptnode->ConfigNode->Node)!=0)
            /* is not passive */'''),
('A07',1,'passive',H,'''            if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
               /* is not write-only */''','''            if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE) || (temptnode->Flags & TOSSNODE_FEED))
               /* is not write-only */'''),
('A07',1,'writeonly',H,'''               if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                  /* is not already''','''               if(!(temptnode->Flags & TOSSNODE_READONLY))
                  /* is not already'''),
('A07',1,'seenby-late',H,'''   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      temptnode->ConfigNode->IsInSeenBy=FALSE;

   if((config''','''   if((config'''),
('A07',1,'seenby-found-not-stored',H,'''               if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
                  temptnode''','''               if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node) && !(temptnode->Flags & TOSSNODE_FEED))
                  temptnode'''),
('A07',1,'rescanned',H,'''   if(!(mm->Flags & MMFLAG_RESCANNED))
   {
      /* not rescanned */''','''   if(!(mm->Flags & MMFLAG_RESCANNED) || (mm->Flags & MMFLAG_TOSSED))
   {
      /* not rescanned */'''),
('A07',0,'continue-style',H,'''         if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)
            /* is not passive */
            if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
               /* is not write-only */
               if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                  /* is not already in seen-by */
                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)))
                  {''','''      {  struct ConfigNode *cn=temptnode->ConfigNode;
         if(Compare4D(&cn->Node,&mm->PktOrig)==0) continue;
         if((config.cfg_Flags & CFG_CHECKSEENBY) && cn->IsInSeenBy) continue;
         if((temptnode->Flags & TOSSNODE_WRITEONLY) || (cn->Flags & NODE_PASSIVE)) continue;
                  {''',H,'''                        return(FALSE);
                  }
   }
''','''                        return(FALSE);
                  }
      }
   }
'''),
('A07',0,'early-next',H,'''      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         /* is not sender of packet */
         if(Compare4D''','''      struct TossNode *nx;
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=nx)
         if(nx=temptnode->Next,TRUE)
         if(Compare4D'''),
('A07',1,'early-next-skip',H,'''      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         /* is not sender of packet */
         if(Compare4D''','''      struct TossNode *nx;
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=nx)
         if(nx=temptnode->Next,!(temptnode->Flags & TOSSNODE_FEED))
         if(Compare4D'''),
('A07',0,'bool-helper',H,'''bool HandleEchomail(struct MemMessage *mm)
{''','''static bool wants(struct MemMessage *mm,struct TossNode *t)
{
   if(t->ConfigNode->Flags & NODE_PASSIVE) return(FALSE);
   if(t->Flags & TOSSNODE_WRITEONLY) return(FALSE);
   if(t->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)) return(FALSE);
   return(Compare4D(&mm->PktOrig,&t->ConfigNode->Node)!=0);
}

bool HandleEchomail(struct MemMessage *mm)
{''',H,'''         if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)
            /* is not passive */
            if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
               /* is not write-only */
               if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                  /* is not already in seen-by */
                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)))
                  {''','''         if(wants(mm,temptnode))
                  {'''),
('A08',1,'dupe-only-kill',H,'''   if(config.cfg_DupeMode!=DUPE_IGNORE &&''','''   if(config.cfg_DupeMode==DUPE_KILL &&'''),
('A08',1,'dupe-after-write-order',H,'''         if(config.cfg_DupeMode == DUPE_BAD)
         {
            if(!WriteBad(mm,"Duplicate message"))
               return(FALSE);
         }

         return(TRUE);''','''         if(config.cfg_DupeMode == DUPE_BAD)
         {
            if(!WriteBad(mm,"Duplicate message"))
               return(FALSE);
            return(TRUE);
         }
         mm->Flags |= MMFLAG_TWIT;'''),
('A08',1,'dupe-large-skip',H,'''(mm->Flags & MMFLAG_TOSSED) && !(temparea->Flags & AREA_IGNOREDUPES))''','''(mm->Flags & MMFLAG_TOSSED) && !(temparea->Flags & AREA_IGNOREDUPES) && temparea->Messagebase)'''),
('A08',1,'dupe-crc-only',D,'''         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
            if(size == dsize)
               if(osRead(dupefh,buf,(uint32_t)size) == size)
                  if(dupecomp(buf,dbuf,dsize) == 0)
                     return(TRUE); /* Dupe */''','''         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
            if(size == dsize)
                     return(TRUE); /* Dupe */'''),
('A08',1,'dupe-not-recorded',D,'''   AddDupeBuf(dbuf,dsize);

   return(FALSE);''','''   if(dupeentrymax < config.cfg_DupeSize) AddDupeBuf(dbuf,dsize);

   return(FALSE);'''),
('A08',1,'dupedb-replace-anyway',D,'''   if(!ok)
   {
      /* The''','''   if(!ok && dupeentrymax==0)
   {
      /* The'''),
('A08',0,'dupe-refactor',H,'''   if(config.cfg_DupeMode!=DUPE_IGNORE && (mm->Flags & MMFLAG_TOSSED) && !(temparea->Flags & AREA_IGNOREDUPES))
   {
      if(CheckDupe(mm))
      {''','''   if(config.cfg_DupeMode!=DUPE_IGNORE)
   {
      bool isdupe=FALSE;
      if(!(temparea->Flags & AREA_IGNOREDUPES) && (mm->Flags & MMFLAG_TOSSED)) isdupe=CheckDupe(mm);
      if(isdupe)
      {'''),
('A09',1,'kill-ignored-tossed',H,'''   if(mm->Flags & MMFLAG_KILL)
		return(TRUE);

   /* Check if it is to me */''','''   if((mm->Flags & MMFLAG_KILL) && (mm->Flags & MMFLAG_TOSSED))
		return(TRUE);

   /* Check if it is to me */'''),
('A09',1,'noroute-and',H,'''      if(aka || (config.cfg_Flags & CFG_NOROUTE))''','''      if(aka && !(config.cfg_Flags & CFG_NOROUTE))'''),
('A09',1,'twit',H,'''		if(mm->Flags & MMFLAG_TWIT)
			return(TRUE);

      if(config.cfg_Flags & CFG_STRIPRE)
	 {	''','''		if((mm->Flags & MMFLAG_TWIT) && !aka)
			return(TRUE);

      if(config.cfg_Flags & CFG_STRIPRE)
	 {	'''),
('A09',1,'attach-match-orig',H,'''            for(patternnode=(struct PatternNode *)config.FileAttachList.First;patternnode;patternnode=patternnode->Next)
               if(Compare4DPat(&patternnode->Pattern,&mm->DestNode)==0) break;''','''            for(patternnode=(struct PatternNode *)config.FileAttachList.First;patternnode;patternnode=patternnode->Next)
               if(Compare4DPat(&patternnode->Pattern,&mm->OrigNode)==0) break;'''),
('A09',1,'attach-nosec',H,'''         LogWrite(6,DEBUG,"Netmail is fileattach");

         if(!(mm->Flags & MMFLAG_EXPORTED))''','''         LogWrite(6,DEBUG,"Netmail is fileattach");

         if(!(mm->Flags & MMFLAG_EXPORTED) && mm->Type==PKTS_DIRECT)'''),
('A09',1,'crash-kept',H,'''      if(mm->Flags & MMFLAG_TOSSED)
			mm->Attr&=~(FLAG_CRASH|FLAG_HOLD);''','''      if(mm->Flags & MMFLAG_TOSSED)
			mm->Attr&=~(FLAG_HOLD);'''),
('A09',1,'bounce-and-route',H,'''                  if(!Bounce(mm,buf,headeronly))
                     return(FALSE);

                  return(TRUE);''','''                  if(!Bounce(mm,buf,headeronly))
                     return(FALSE);

                  break;'''),
('A09',1,'nodelist-point',H,'''            if(!(*config.cfg_NodelistType->nlCheckNode)(&node))
            {''','''            if(!(*config.cfg_NodelistType->nlCheckNode)(&node) && !mm->DestNode.Point)
            {'''),
('A09',1,'importnode',H,'''         if(inode)
            break;
      }
   
''','''         if(inode && tmparea->Messagebase)
            break;
      }
   
'''),
('A09',1,'areafix-autogen',H,'''      if(!(mm->Flags & MMFLAG_AUTOGEN))
      {
         for(areafixname''','''      if(!(mm->Flags & MMFLAG_AUTOGEN) || (mm->Flags & MMFLAG_TOSSED))
      {
         for(areafixname'''),
('A09',1,'attr-all',H,'''      mm->Attr&=(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT);''','''      mm->Attr&=(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_KILLSENT|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT);'''),
('A09',0,'find-aka-helper',H,'''/* Main netmail handling */
''','''static struct Aka *myaka(struct Node4D *n)
{
   struct Aka *a;
   for(a=(struct Aka *)config.AkaList.First;a;a=a->Next)
      if(Compare4D(n,&a->Node)==0) return(a);
   return(NULL);
}
''',H,'''      for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
         if(Compare4D(&mm->DestNode,&aka->Node)==0) break;

      if(aka ||''','''      aka=myaka(&mm->DestNode);

      if(aka ||'''),
('A09',0,'attr-split',H,'''			mm->Attr&=~(FLAG_CRASH|FLAG_HOLD);
''','''{			mm->Attr&=~FLAG_HOLD;
			mm->Attr&=~FLAG_CRASH; }
'''),
]
