F='crashmail/areafix.c'
CASES=[
('A29',1,'update-detaches',F,"               command=COMMAND_UPDATE;","               command=COMMAND_REMOVE;"),
('A29',1,'minus-updates',F,"               command=COMMAND_REMOVE;","               command=COMMAND_UPDATE;"),
('A29',1,'default-updates',F,"               command=COMMAND_ADD;\n","               command=COMMAND_UPDATE;\n"),
('A29',1,'both-groups',F,"if(CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))\n                                 {\n                                    patterndone","if(CheckFlags(area->Group,cnode->Groups) && CheckFlags(area->Group,cnode->ReadOnlyGroups))\n                                 {\n                                    patterndone"),
('A29',1,'ro-not-linked',F,"if(CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))\n                                 {\n                                    patterndone","if(CheckFlags(area->Group,cnode->Groups))\n                                 {\n                                    patterndone"),
('A29',1,'any-ban',F,"                                       if(bannednode->ConfigNode == cnode) break;","                                       if(bannednode->ConfigNode) break;"),
('A29',1,'feed-cannot-leave',F,"if((area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED))","if((area->Flags & AREA_MANDATORY) || (temptnode->Flags & TOSSNODE_FEED))"),
('A29',1,'readonly-cannot-leave',F,"if((area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED))","if((area->Flags & AREA_DEFREADONLY) && !(temptnode->Flags & TOSSNODE_FEED))"),
('A29',1,'feed-area-kept',F,"                                       SendRemoveMessages(area);\n\n                                       area->AreaType=AREATYPE_DELETED;","                                       SendRemoveMessages(area);"),
('A29',1,'links-not-told',F,"                                       SendRemoveMessages(area);\n\n                                       area","                                       area"),
('A29',1,'feed-not-cancelled',F,"                                                RemoteAreafixRemove(area->Tagname,((struct TossNode*)area->TossNodes.First)->ConfigNode);\n",""),
('A29',1,'cancelled-at-asker',F,"RemoteAreafixRemove(area->Tagname,((struct TossNode*)area->TossNodes.First)->ConfigNode);","RemoteAreafixRemove(area->Tagname,cnode);"),
('A29',1,'readerless-kept',F,"                                          if(!area->Messagebase)","                                          if(!area->Messagebase && !wasfeed && area->TossNodes.First)"),
('A29',1,'pause-resumes',F,"                  cnode->Flags|=NODE_PASSIVE;","                  cnode->Flags&=~NODE_PASSIVE;"),
('A29',1,'resume-toggles-other',F,"                  cnode->Flags&=~NODE_PASSIVE;","                  cnode->Flags&=NODE_PASSIVE;"),
('A29',1,'pause-keeps',F,"                  cnode->Flags|=NODE_PASSIVE;\n",""),
('A29',1,'pwd-command-word',F,"                  strcpy(cnode->AreafixPW,buf2);","                  strcpy(cnode->PacketPW,buf2);"),
('A29',1,'pwd-whole-line',F,"                  strcpy(cnode->AreafixPW,buf2);","                  mystrncpy(cnode->AreafixPW,buf,40);"),
('A29',1,'packer-without-command',F,"if(stricmp(buf2,tmppacker->Name)==0 && tmppacker->Packer[0]) break;","if(stricmp(buf2,tmppacker->Name)==0 || tmppacker->Packer[0]) break;"),
('A29',1,'packer-none-ignored',F,"                        tmppacker=NULL;\n                        gotpacker=TRUE;","                        tmppacker=NULL;"),
('A29',1,'query-sends-unlinked',F,"      rawSendList(SENDLIST_QUERY,&tmproute","      rawSendList(SENDLIST_UNLINKED,&tmproute"),
('A29',1,'help-is-info',F,"               sendhelp=TRUE;","               sendinfo=TRUE;"),
('A29',1,'list-forgotten',F,"   if(sendarealist)\n","   if(sendarealist && !sendareaquery)\n"),
('A29',1,'rescan-not-asked',F,"                     if(globalrescan || dorescan)","                     if(globalrescan || !dorescan)"),
('A29',1,'rescan-only-both',F,"                     if(globalrescan || dorescan)","                     if(globalrescan && dorescan)"),
('A29',1,'rescan-all',F,"                        rescannum=atoi(&opt[2]);\n",""),
('A29',1,'not-requested',F,"                                    RemoteAreafixAdd(areaname,arealist->Node);\n",""),
('A29',1,'asker-not-linked',F,"                                       AddTossNode(area,cnode,flags);\n",""),
('A29',1,'uplink-is-asker',F,"area=AddArea(areaname,&arealist->Node->Node,","area=AddArea(areaname,&cnode->Node,"),
('A29',1,'wrong-passthru',F,"TRUE,config.cfg_Flags & CFG_FORWARDPASSTHRU);","TRUE,config.cfg_Flags & CFG_INCLUDEFORWARD);"),
('A29',1,'group-of-uplink',F,"                                       area->Group=arealist->Group;\n",""),
('A29',1,'wild-forward',F,"                           if(!areaexists)\n                           {\n                              if(cnode->Flags & NODE_FORWARDREQ)","                           if(!areaexists && iswild)\n                           {\n                              if(cnode->Flags & NODE_FORWARDREQ)"),
('A29',1,'silent-refusal',F,"                                 else if(!iswild)\n                                 {\n												AddCommandReply(afr,buf,\"You don't have access to that area\");\n                                 }\n",""),
('A29',1,'answer-not-sent',F,"   afSendMessage(afr);\n	afFreeReply(afr);\n\n   if(sendarealist)","   if(done) afSendMessage(afr);\n	afFreeReply(afr);\n\n   if(sendarealist)"),
('A29',1,'answer-to-dest',F,"&tmproute->Aka->Node,mm->From,&mm->OrigNode,\"AreaFix response\")","&tmproute->Aka->Node,mm->To,&mm->OrigNode,\"AreaFix response\")"),
('A29',0,'r-next-first',F,"               for(area=(struct Area *)config.AreaList.First;area && !ctrlc;area=area->Next)\n                  if(area->AreaType == AREATYPE_ECHOMAIL)\n                  {\n                     if(osMatchPattern(areaname,area->Tagname))\n                     {","               struct Area *nextarea;\n               for(area=(struct Area *)config.AreaList.First;area && !ctrlc;area=nextarea)\n               {  nextarea=area->Next;\n                  if(area->AreaType == AREATYPE_ECHOMAIL)\n                  {\n                     if(osMatchPattern(areaname,area->Tagname))\n                     {",
 F,"                              break;\n                        }\n                     }\n                  }\n\n","                              break;\n                        }\n                     }\n                  }\n               }\n"),
('A29',0,'r-match-first',F,"                  if(area->AreaType == AREATYPE_ECHOMAIL)\n                  {\n                     if(osMatchPattern(areaname,area->Tagname))\n                     {\n                        areaexists","                  if(osMatchPattern(areaname,area->Tagname))\n                  {\n                     if(area->AreaType == AREATYPE_ECHOMAIL)\n                     {\n                        areaexists"),
('A29',0,'r-switch',F,"            if(areaname[0]=='-')\n            {\n               command=COMMAND_REMOVE;\n               strcpy(areaname,&areaname[1]);\n            }\n            else if(areaname[0]=='=')\n            {\n               command=COMMAND_UPDATE;\n               strcpy(areaname,&areaname[1]);\n            }\n            else\n            {\n               command=COMMAND_ADD;\n\n               if(areaname[0]=='+')\n                  strcpy(areaname,&areaname[1]);\n            }","            switch(areaname[0])\n            {\n               case '-': command=COMMAND_REMOVE; break;\n               case '=': command=COMMAND_UPDATE; break;\n               default: command=COMMAND_ADD; break;\n            }\n            if(areaname[0]=='-' || areaname[0]=='=' || areaname[0]=='+') strcpy(areaname,&areaname[1]);"),
('A29',0,'r-helper',F,"bool AreaFix(struct MemMessage *mm)\n{","static char getcommand(char *name)\n{\n   if(name[0]=='-') return COMMAND_REMOVE;\n   if(name[0]=='=') return COMMAND_UPDATE;\n   return COMMAND_ADD;\n}\n\nbool AreaFix(struct MemMessage *mm)\n{",
 F,"            if(areaname[0]=='-')\n            {\n               command=COMMAND_REMOVE;\n               strcpy(areaname,&areaname[1]);\n            }\n            else if(areaname[0]=='=')\n            {\n               command=COMMAND_UPDATE;\n               strcpy(areaname,&areaname[1]);\n            }\n            else\n            {\n               command=COMMAND_ADD;\n\n               if(areaname[0]=='+')\n                  strcpy(areaname,&areaname[1]);\n            }","            command=getcommand(areaname);\n            if(areaname[0]=='-' || areaname[0]=='=' || areaname[0]=='+') strcpy(areaname,&areaname[1]);"),
('A29',0,'r-passive',F,"               if(cnode->Flags & NODE_PASSIVE)\n               {\n						AddCommandReply(afr,buf,\"Your system is already passive\");\n               }\n               else\n               {\n                  cnode->Flags|=NODE_PASSIVE;","               bool was=(cnode->Flags & NODE_PASSIVE)!=0;\n               if(was)\n               {\n						AddCommandReply(afr,buf,\"Your system is already passive\");\n               }\n               else\n               {\n                  cnode->Flags=cnode->Flags|NODE_PASSIVE;"),
('A29',0,'r-detachhelper',F,"bool AreaFix(struct MemMessage *mm)\n{","static struct TossNode *findlink(struct Area *area,struct ConfigNode *cnode)\n{\n   struct TossNode *t;\n   for(t=(struct TossNode *)area->TossNodes.First;t;t=t->Next)\n      if(t->ConfigNode == cnode) return t;\n   return NULL;\n}\n\nbool AreaFix(struct MemMessage *mm)\n{",
 F,"                        for(temptnode=(struct TossNode *)area->TossNodes.First;temptnode;temptnode=temptnode->Next)\n                           if(temptnode->ConfigNode == cnode) break;\n","                        temptnode=findlink(area,cnode);\n"),
('A29',0,'r-early-reply',F,"   if(done==FALSE)\n      afAddLine(afr,\"Nothing to do.\");\n\n   if(nomem || ioerror || ctrlc)\n   {","   if(!done)\n      afAddLine(afr,\"Nothing to do.\");\n\n   if(ctrlc || ioerror || nomem)\n   {"),
('A29',0,'r-access-var',F,"if(CheckFlags(area->Group,cnode->Groups) || CheckFlags(area->Group,cnode->ReadOnlyGroups))\n                                 {\n                                    patterndone","bool full=CheckFlags(area->Group,cnode->Groups), ro=CheckFlags(area->Group,cnode->ReadOnlyGroups);\n                                 if(full || ro)\n                                 {\n                                    patterndone"),
('A29',0,'r-sendorder',F,"   if(sendhelp)\n      rawSendHelp(&tmproute->Aka->Node,mm->From,cnode);\n\n   if(sendinfo)\n      rawSendInfo(&tmproute->Aka->Node,mm->From,cnode);\n","   if(sendinfo)\n      rawSendInfo(&tmproute->Aka->Node,mm->From,cnode);\n\n   if(sendhelp)\n      rawSendHelp(&tmproute->Aka->Node,mm->From,cnode);\n"),
('A29',0,'r-noop',F,"               patterndone=FALSE;\n               areaexists=FALSE;\n","               patterndone=FALSE;\n               areaexists=FALSE;\n               (void)0; { volatile int unused=0; (void)unused; }\n"),
]
