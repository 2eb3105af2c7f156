M='crashmail/memmessage.c'; P='crashmail/pkt.c'; G='crashmail/mb_msg.c'; J='crashmail/mb_jam.c'; L='shared/jblist.c'
CASES=[
('A28',1,'flags-kept',M,"   mm->Type=0;\n   mm->Flags=0;\n","   mm->Type=0;\n   mm->Flags&=~MMFLAG_TOSSED;\n"),
('A28',1,'reply-kept',M,"   mm->REPLY[0]=0;\n",""),
('A28',1,'origin4d-kept',M,"   Copy4D(&mm->Origin4D,&null4d);\n",""),
('A28',1,'origin4d-wrong',M,"   Copy4D(&mm->Origin4D,&null4d);\n","   Copy4D(&mm->Origin4D,&mm->OrigNode);\n"),
('A28',1,'seenby-kept',M,"   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);","   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);"),
('A28',1,'path-if-area',M,"   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);\n   jbFreeList(&mm->Path);","   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);\n   if(mm->SeenBy.First) jbFreeList(&mm->Path);"),
('A28',0,'r-memset',M,"""   struct Node4D null4d = { 0,0,0,0 };

   Copy4D(&mm->OrigNode,&null4d);
   Copy4D(&mm->DestNode,&null4d);
   Copy4D(&mm->PktOrig,&null4d);
   Copy4D(&mm->PktDest,&null4d);

   Copy4D(&mm->Origin4D,&null4d);

   mm->Area[0]=0;

   mm->To[0]=0;
   mm->From[0]=0;
   mm->Subject[0]=0;
   mm->DateTime[0]=0;

   mm->MSGID[0]=0;
   mm->REPLY[0]=0;

   mm->Attr=0;
   mm->Cost=0;

   mm->Type=0;
   mm->Flags=0;

   jbFreeList(&mm->TextChunks);
   jbFreeList(&mm->SeenBy);
   jbFreeList(&mm->Path);
""","""   jbFreeList(&mm->TextChunks);
   jbFreeList(&mm->SeenBy);
   jbFreeList(&mm->Path);
   memset(mm,0,sizeof(struct MemMessage));
"""),
('A28',0,'r-strcpy',M,"   mm->To[0]=0;\n   mm->From[0]=0;","   strcpy(mm->To,\"\");\n   memset(mm->From,0,sizeof(mm->From));"),
('A28',0,'r-static-null',M,"   struct Node4D null4d = { 0,0,0,0 };\n\n   Copy4D(&mm->OrigNode","   static const struct Node4D zero = { 0,0,0,0 };\n   struct Node4D null4d;\n   null4d=zero;\n\n   Copy4D(&mm->OrigNode"),
('A28',0,'r-helper',M,"void mmClear(struct MemMessage *mm)\n{\n   struct Node4D null4d = { 0,0,0,0 };\n","static void freelists(struct MemMessage *mm)\n{\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);\n   jbFreeList(&mm->Path);\n}\n\nvoid mmClear(struct MemMessage *mm)\n{\n   struct Node4D null4d = { 0,0,0,0 };\n",M,"   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);\n   jbFreeList(&mm->Path);\n","   mm->Flags=0;\n\n   freelists(mm);\n"),
('A28',1,'clear-first-only',P,"      mmClear(mm);\n","      if(msgnum == 1) mmClear(mm);\n"),
('A28',1,'clear-late',P,"      mmClear(mm);\n\n","",P,"      /* Start reading message text */\n\n","      mmClear(mm);\n\n"),
('A28',0,'r-clear-after',P,"      mmClear(mm);\n\n","",P,"      toss_read++;\n      \n      mm->Flags |= MMFLAG_TOSSED;\n","      toss_read++;\n      \n      mm->Flags |= MMFLAG_TOSSED;\n",P,"      msgnum++;\n\n      printf(\"Message","      mmClear(mm);\n      msgnum++;\n\n      printf(\"Message"),
('A28',1,'messageend-once',P,"      messageend=FALSE;\n\n","",P,"   shortread=FALSE;\n   longread=FALSE;\n","   shortread=FALSE;\n   longread=FALSE;\n   messageend=FALSE;\n"),
('A28',1,'msg-end',G,"   msg_messageend=FALSE;\n   msg_shortread=FALSE;\n","   msg_messageend=FALSE;\n"),
('A28',1,'msg-static',G,"   if(!(mm=mmAlloc()))\n      return(FALSE);\n\n   sprintf(buf2,\"%u.msg\",num);","   static struct MemMessage *keep;\n   if(!keep && !(keep=mmAlloc()))\n      return(FALSE);\n   mm=keep;\n\n   sprintf(buf2,\"%u.msg\",num);"),
('A28',1,'import-overwrite',G,"   while(osExists(buf))\n   {\n      ma->HighMsg++;","   if(osExists(buf))\n   {\n      ma->HighMsg++;"),
('A28',1,'import-other-name',G,"   return msg_WriteMSG(mm,buf);\n}\n\nbool msg_rescan","   sprintf(buf2,\"%u.msg\",ma->HighMsg+1);\n   MakeFullPath(ma->area->Path,buf2,buf,200);\n   return msg_WriteMSG(mm,buf);\n}\n\nbool msg_rescan"),
('A28',0,'r-import',G,"""   ma->HighMsg++;

   sprintf(buf2,"%u.msg",ma->HighMsg);
   MakeFullPath(ma->area->Path,buf2,buf,200);

   while(osExists(buf))
   {
      ma->HighMsg++;
      sprintf(buf2,"%u.msg",ma->HighMsg);
      MakeFullPath(ma->area->Path,buf2,buf,200);
   }
""","""   do
   {
      ma->HighMsg++;
      sprintf(buf2,"%u.msg",ma->HighMsg);
      MakeFullPath(ma->area->Path,buf2,buf,200);
   } while(osExists(buf));
"""),
('A28',1,'freelist-last',L,"   list->First=NULL;\n   list->Last=NULL;\n}\n\nvoid jbFreeNum","   list->First=NULL;\n}\n\nvoid jbFreeNum"),
('A28',0,'r-freelist',L,"   list->First=NULL;\n   list->Last=NULL;\n}\n\nvoid jbFreeNum","   jbNewList(list);\n}\n\nvoid jbFreeNum"),
]
