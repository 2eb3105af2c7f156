H='crashmail/handle.c'; A='crashmail/areafix.c'
CASES=[
('A10',1,'audit-unmarked',H,'''   strcpy(tmpmm->Subject,"Audit");

   tmpmm->Attr=FLAG_PVT;

   MakeFidoDate(time(NULL),tmpmm->DateTime);

   tmpmm->Flags |= MMFLAG_AUTOGEN;
''','''   strcpy(tmpmm->Subject,"Audit");

   tmpmm->Attr=FLAG_PVT;

   MakeFidoDate(time(NULL),tmpmm->DateTime);

   if(mm->Attr & FLAG_PVT) tmpmm->Flags |= MMFLAG_AUTOGEN;
'''),
('A10',1,'receipt-rreq',H,'tmpmm->Attr=FLAG_PVT | FLAG_IRRR;','tmpmm->Attr=FLAG_PVT | FLAG_RREQ;'),
('A10',1,'receipt-copies-attr',H,'tmpmm->Attr=FLAG_PVT | FLAG_IRRR;','tmpmm->Attr=mm->Attr | FLAG_IRRR;'),
('A10',1,'bounce-guard',H,'''   if(mm->Flags & MMFLAG_AUTOGEN)
   {
      LogWrite(1,TOSSINGERR,"No bounce''','''   if((mm->Flags & MMFLAG_AUTOGEN) && headeronly)
   {
      LogWrite(1,TOSSINGERR,"No bounce'''),
('A10',1,'areafix-gen',H,'''      if(!(mm->Flags & MMFLAG_AUTOGEN))
      {''','''      if(!(mm->Flags & (MMFLAG_AUTOGEN)) || handle_nesting<3)
      {'''),
('A10',1,'bounce-dest',H,'''   if(mm->Area[0] == 0) Copy4D(&n4d,&mm->OrigNode);
   else                 Copy4D(&n4d,&mm->Origin4D);
''','''   Copy4D(&n4d,&mm->OrigNode);
'''),
('A10',1,'receipt-to',H,'''   strcpy(tmpmm->To,mm->From);
   strcpy(tmpmm->From,config.cfg_Sysop);
   strcpy(tmpmm->Subject,"Receipt");''','''   strcpy(tmpmm->To,mm->To);
   strcpy(tmpmm->From,config.cfg_Sysop);
   strcpy(tmpmm->Subject,"Receipt");'''),
('A10',1,'audit-pktorig',H,'''   if(!(tmpmm=mmAlloc()))
      return(FALSE);

   Copy4D(&tmpmm->DestNode,&mm->OrigNode);
   Copy4D(&tmpmm->OrigNode,&tmproute->Aka->Node);

   strcpy(tmpmm->To,mm->From);
   strcpy(tmpmm->From,config.cfg_Sysop);
   strcpy(tmpmm->Subject,"Audit");''','''   if(!(tmpmm=mmAlloc()))
      return(FALSE);

   Copy4D(&tmpmm->DestNode,&mm->PktOrig);
   Copy4D(&tmpmm->OrigNode,&tmproute->Aka->Node);

   strcpy(tmpmm->To,mm->From);
   strcpy(tmpmm->From,config.cfg_Sysop);
   strcpy(tmpmm->Subject,"Audit");'''),
('A10',1,'reply-unmarked',A,'''	afr->mm->Attr = FLAG_PVT;

	MakeFidoDate(time(NULL),afr->mm->DateTime);  
	afr->mm->Flags |= MMFLAG_AUTOGEN;''','''	afr->mm->Attr = FLAG_PVT;

	MakeFidoDate(time(NULL),afr->mm->DateTime);  
	if(afr->mm->OrigNode.Point) afr->mm->Flags |= MMFLAG_AUTOGEN;'''),
('A10',1,'remove-unmarked',A,'''         strcpy(mm->Subject,"Area removed");

         mm->Attr = FLAG_PVT;

 			MakeFidoDate(time(NULL),mm->DateTime);  
 
   		mm->Flags |= MMFLAG_AUTOGEN;''','''         strcpy(mm->Subject,"Area removed");

         mm->Attr = FLAG_PVT;

 			MakeFidoDate(time(NULL),mm->DateTime);  
 
   		mm->Flags |= MMFLAG_NOSECURITY;'''),
('A10',1,'receipt-unconfigured',H,'''      if((mm->Attr & FLAG_RREQ) && (config.cfg_Flags & CFG_ANSWERRECEIPT))''','''      if((mm->Attr & FLAG_RREQ) && (config.cfg_Flags & (CFG_ANSWERRECEIPT|CFG_ANSWERAUDIT)))'''),
('A10',0,'helper',H,'''bool AnswerReceipt(struct MemMessage *mm)
{''','''static struct MemMessage *MakeAnswer(struct MemMessage *mm,char *subj,struct Route *r,uint16_t attr)
{
   struct MemMessage *t;
   if(!(t=mmAlloc())) return(NULL);
   Copy4D(&t->DestNode,&mm->OrigNode);
   Copy4D(&t->OrigNode,&r->Aka->Node);
   strcpy(t->To,mm->From);
   strcpy(t->From,config.cfg_Sysop);
   strcpy(t->Subject,subj);
   t->Attr=attr;
   MakeFidoDate(time(NULL),t->DateTime);
   t->Flags |= MMFLAG_AUTOGEN;
   MakeNetmailKludges(t);
   return(t);
}

bool AnswerReceipt(struct MemMessage *mm)
{''',H,'''   if(!(tmpmm=mmAlloc()))
      return(FALSE);

   Copy4D(&tmpmm->DestNode,&mm->OrigNode);
   Copy4D(&tmpmm->OrigNode,&tmproute->Aka->Node);

   strcpy(tmpmm->To,mm->From);
   strcpy(tmpmm->From,config.cfg_Sysop);
   strcpy(tmpmm->Subject,"Receipt");

   tmpmm->Attr=FLAG_PVT | FLAG_IRRR;

   MakeFidoDate(time(NULL),tmpmm->DateTime);

   tmpmm->Flags |= MMFLAG_AUTOGEN;

   MakeNetmailKludges(tmpmm);
''','''   if(!(tmpmm=MakeAnswer(mm,"Receipt",tmproute,FLAG_PVT|FLAG_IRRR)))
      return(FALSE);
'''),
]
