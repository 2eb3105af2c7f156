A='crashmail/areafix.c'
CASES=[
('A11',1,'pw-not-checked',A,'''   if(stricmp(password,cnode->AreafixPW)!=0)''','''   if(cnode->AreafixPW[0] && stricmp(password,cnode->AreafixPW)!=0)'''),
('A11',1,'pw-prefix',A,'''   if(stricmp(password,cnode->AreafixPW)!=0)''','''   if(strnicmp(password,cnode->AreafixPW,strlen(password))!=0)'''),
('A11',1,'pw-no-return',A,'''      afAddLine(afr,"Sorry, wrong password.");
      afSendMessage(afr);
		afFreeReply(afr);
      return(TRUE);''','''      afAddLine(afr,"Sorry, wrong password.");'''),
('A11',1,'other-node-lookup',A,'''      if(Compare4D(&cnode->Node,&mm->OrigNode)==0)''','''      if(Compare4D(&cnode->Node,&mm->DestNode)==0)'''),
('A11',1,'detach-all',A,'''                                    jbFreeNode(&area->TossNodes,(struct jbNode *)temptnode);
''','''                                    if(wasfeed) jbFreeList(&area->TossNodes); else
                                    jbFreeNode(&area->TossNodes,(struct jbNode *)temptnode);
'''),
('A11',1,'list-before-pw',A,'''   sendarealist=FALSE;
   sendareaquery=FALSE;''','''   sendareaquery=FALSE;''',A,'''   if(stricmp(password,cnode->AreafixPW)!=0)
   {''','''   sendarealist=FALSE;
   if(stricmp(password,cnode->AreafixPW)!=0)
   {
      if(stricmp(password,"HELP")==0) rawSendHelp(&tmproute->Aka->Node,mm->From,cnode);'''),
('A12',1,'access-or-wild',A,'''                                 if(CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                 {''','''                                 if(iswild || CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                 {'''),
('A12',1,'banned-first-only',A,'''for(bannednode=(struct BannedNode *)area->BannedNodes.First;bannednode;bannednode=bannednode->Next)
                                       if(bannednode->ConfigNode == cnode) break;''','''bannednode=(struct BannedNode *)area->BannedNodes.First;
                                       if(bannednode && bannednode->ConfigNode != cnode) bannednode=NULL;'''),
('A12',1,'ro-flag-only-def',A,'''                                       if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                          temptnode->Flags=TOSSNODE_READONLY;''','''                                       if((area->Flags & AREA_DEFREADONLY) && CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                          temptnode->Flags=TOSSNODE_READONLY;'''),
('A12',1,'mandatory-wild',A,'''                                 if((area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED))''','''                                 if(!iswild && (area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED))'''),
('A12',1,'remove-with-links',A,'''                                       if(area->TossNodes.First == NULL ||
                                         (((struct TossNode*)area->TossNodes.First)->Next==NULL &&
                                          ((struct TossNode*)area->TossNodes.First)->Flags & TOSSNODE_FEED))''','''                                       if(area->TossNodes.First == NULL ||
                                          ((struct TossNode*)area->TossNodes.First)->Flags & TOSSNODE_FEED)'''),
('A12',1,'remove-with-mb',A,'''                                          if(!area->Messagebase)
                                          {''','''                                          if(!area->Messagebase || wasfeed)
                                          {'''),
('A12',1,'removefeed-unconf',A,'''if(wasfeed && (config.cfg_Flags & CFG_REMOVEWHENFEED))''','''if(wasfeed && (config.cfg_Flags & (CFG_REMOVEWHENFEED|CFG_AREAFIXREMOVE)))'''),
('A12',1,'rescan-global-noallow',A,'''                        if(config.cfg_Flags & CFG_ALLOWRESCAN)
                        {
                           if(!rescanarea''','''                        if(dorescan || (config.cfg_Flags & CFG_ALLOWRESCAN))
                        {
                           if(!rescanarea'''),
('A12',1,'update-rescan-notlinked',A,'''                              if(temptnode)
                              {
                                 patterndone=TRUE;

                                 if(iswild)
                                 {
                                    afAddLine(afr,"   Nothing''','''                              {
                                 patterndone=TRUE;

                                 if(iswild)
                                 {
                                    afAddLine(afr,"   Nothing'''),
('A12',1,'forward-no-perm',A,'''                              if(cnode->Flags & NODE_FORWARDREQ)
                              {''','''                              if(!(cnode->Flags & NODE_PASSIVE))
                              {'''),
('A12',1,'forward-existing',A,'''                           if(!areaexists)
                           {
                              if(cnode->Flags''','''                           {
                              if(cnode->Flags'''),
('A12',1,'forward-group',A,'''                                 arealist=FindForward(areaname,cnode->Groups);''','''                                 arealist=FindForward(areaname,"ABCDEFGHIJKLMNOPQRSTUVWXYZ");'''),
('A12',1,'unlinked-list-noaccess',A,'''               if(!tn && (CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))) add=TRUE;''','''               if(!tn || CheckFlags(area->Group,cnode->Groups)) add=TRUE;'''),
('A12',1,'list-any-type',A,'''      if(area->AreaType == AREATYPE_ECHOMAIL)
      {
         short add;''','''      if(area->AreaType != AREATYPE_BAD)
      {
         short add;'''),
('A12',1,'forwardlist-group',A,'''         if((arealist->Flags & AREALIST_FORWARD) && CheckFlags(arealist->Group,cnode->Groups))
         {''','''         if((arealist->Flags & AREALIST_FORWARD) && (!arealist->Group || CheckFlags(arealist->Group,cnode->Groups)))
         {'''),
('A12',1,'checkflags-empty',A,'''bool CheckFlags(char group,char *node)
{''','''bool CheckFlags(char group,char *node)
{
   if(!group) return(TRUE);'''),
('A12',1,'findforward-noflag',A,'''      if((arealist->Flags & AREALIST_FORWARD) && CheckFlags(arealist->Group,flags))''','''      if(arealist->Flags & AREALIST_FORWARD)'''),
('A11,A12',0,'helper-attach',A,'''bool AreaFix(struct MemMessage *mm)
{''','''static bool attachnode(struct Area *area,struct ConfigNode *cn)
{
   struct TossNode *tn;
   bool ro;

   ro=(area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cn->ReadOnlyGroups);

   if(!(tn=osAllocCleared(sizeof(struct TossNode))))
      return FALSE;

   tn->ConfigNode=cn;

   if(ro)
      tn->Flags=TOSSNODE_READONLY;

   jbAddNode(&area->TossNodes,(struct jbNode *)tn);
   area->changed=TRUE;
   config.changed=TRUE;
   return TRUE;
}

bool AreaFix(struct MemMessage *mm)
{''',A,'''                                       if(!(temptnode=osAllocCleared(sizeof(struct TossNode))))
                                       {
														afFreeReply(afr);
                                          nomem=TRUE;
                                          return(FALSE);
                                       }

                                       temptnode->ConfigNode=cnode;

                                       if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                          temptnode->Flags=TOSSNODE_READONLY;

                                       jbAddNode(&area->TossNodes,(struct jbNode *)temptnode);
                                       rescanarea=area;
													area->changed=TRUE;
                                       config.changed=TRUE;''','''                                       if(!attachnode(area,cnode))
                                       {
														afFreeReply(afr);
                                          nomem=TRUE;
                                          return(FALSE);
                                       }

                                       rescanarea=area;'''),
('A11,A12',0,'helper-findlink',A,'''bool AreaFix(struct MemMessage *mm)
{''','''static struct TossNode *findlink(struct Area *area,struct ConfigNode *cn)
{
   struct TossNode *tn;

   for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
      if(tn->ConfigNode == cn)
         return tn;

   return NULL;
}

static bool isbanned(struct Area *area,struct ConfigNode *cn)
{
   struct BannedNode *b=(struct BannedNode *)area->BannedNodes.First;

   while(b)
   {
      if(b->ConfigNode == cn)
         return TRUE;
      b=b->Next;
   }

   return FALSE;
}

bool AreaFix(struct MemMessage *mm)
{''',A,'''                        for(temptnode=(struct TossNode *)area->TossNodes.First;temptnode;temptnode=temptnode->Next)
                           if(temptnode->ConfigNode == cnode) break;
''','''                        temptnode=findlink(area,cnode);
''',A,'''for(bannednode=(struct BannedNode *)area->BannedNodes.First;bannednode;bannednode=bannednode->Next)
                                       if(bannednode->ConfigNode == cnode) break;''','''bannednode=NULL;''',A,'''                                    if(bannednode)
                                    {''','''                                    if(isbanned(area,cnode))
                                    {'''),
('A11,A12',0,'continue-style',A,'''                  if(area->AreaType == AREATYPE_ECHOMAIL)
                  {
                     if(osMatchPattern(areaname,area->Tagname))
                     {''','''                  {
                     if(area->AreaType != AREATYPE_ECHOMAIL) continue;
                     if(!osMatchPattern(areaname,area->Tagname)) continue;
                     {'''),
('A12',0,'list-switch-if',A,'''         switch(type)
         {
            case SENDLIST_QUERY:
               if(tn) add=TRUE;
               break;

            case SENDLIST_UNLINKED:
               if(!tn && (CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))) add=TRUE;
               break;

            case SENDLIST_FULL:
               if(tn || (CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))) add=TRUE;
               break;
         }

         if(add)''','''         {
            bool acc=CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups);
            if(type==SENDLIST_QUERY) add=(tn!=NULL);
            else if(type==SENDLIST_UNLINKED) add=(tn==NULL && acc);
            else if(type==SENDLIST_FULL) add=(tn!=NULL || acc);
         }

         if(add)'''),
('A11,A12',0,'early-wrongpw',A,'''   if(stricmp(password,cnode->AreafixPW)!=0)''','''   if(!(stricmp(cnode->AreafixPW,password)==0))'''),
]
