H='crashmail/handle.c'; A='crashmail/areafix.c'; S='crashmail/scan.c'; T='crashmail/toss.c'
CASES=[
# A07 / A24 / A06
('A07',1,'g3-seenby-flag-any-area',H,"""   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      temptnode->ConfigNode->IsInSeenBy=FALSE;

   if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
   {""","""   if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
   {
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         temptnode->ConfigNode->IsInSeenBy=FALSE;
"""),
('A07',0,'g3-seenby-zone-same',H,"""         if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
            if(temptnode->ConfigNode->Node.Point==0)
               if(FindNodes2D""","""         if(temptnode->ConfigNode->Node.Zone == mm->PktOrig.Zone)
            if(temptnode->ConfigNode->Node.Point==0)
               if(FindNodes2D"""),
('A07',1,'g3-compare-orig',H,"         if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)\n            /* is not passive */","         if(Compare4D(&mm->OrigNode,&temptnode->ConfigNode->Node)!=0)\n            /* is not passive */"),
('A06',1,'g3-link-2d',H,"         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;\n\n      if(!temptnode)","         if(temptnode->ConfigNode->Node.Net == mm->PktOrig.Net && temptnode->ConfigNode->Node.Node == mm->PktOrig.Node) break;\n\n      if(!temptnode)"),
('A06',1,'g3-unconfirmed-first',H,"   if(!active)\n      temparea->Flags=AREA_UNCONFIRMED;\n\n   mystrncpy(temparea->Tagname,name,80);","   if(!active)\n      temparea->Flags|=AREA_UNCONFIRMED;\n\n   if(defarea) temparea->Flags=defarea->Flags & (AREA_MANDATORY|AREA_DEFREADONLY|AREA_IGNOREDUPES|AREA_IGNORESEENBY);\n\n   mystrncpy(temparea->Tagname,name,80);"),
('A08',1,'g3-dupe-before-security',H,"(mm->Flags & MMFLAG_TOSSED) && !(temparea->Flags & AREA_IGNOREDUPES))","(mm->Flags & MMFLAG_TOSSED) && !(mm->Flags & MMFLAG_NOSECURITY) && !(temparea->Flags & AREA_IGNOREDUPES))"),
('A24',1,'g3-path-dup',H,"		if(n4d.Net == node->Net && n4d.Node == node->Node && n4d.Point == node->Point)\n","		if(n4d.Node == node->Node && n4d.Point == node->Point)\n"),
('A24',1,'g3-passive-seenby',H,"         if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))\n            if(!(temptnode->Flags & TOSSNODE_WRITEONLY))\n            {\n               if(!mmAdd","         if(!(temptnode->Flags & TOSSNODE_WRITEONLY))\n            {\n               if(!mmAdd"),
('A24',1,'g3-rem-last',H,"""   for(tmpremnode=(struct RemNode *)temparea->Aka->RemList.First;tmpremnode;tmpremnode=tmpremnode->Next)
      mmRemNodes2DListPat(&mm->SeenBy,&tmpremnode->NodePat);

   /* Add nodes specified in config to seen-by */

   for(tmpaddnode=(struct AddNode *)temparea->Aka->AddList.First;tmpaddnode;tmpaddnode=tmpaddnode->Next)
      mmAddNodes2DList(&mm->SeenBy,tmpaddnode->Node.Net,tmpaddnode->Node.Node);

   /* Add own node to seen-by */

   if(temparea->Aka->Node.Point == 0)
   {
      if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temparea->Aka->Node.Node))
         return(FALSE);
   }
""","""   for(tmpaddnode=(struct AddNode *)temparea->Aka->AddList.First;tmpaddnode;tmpaddnode=tmpaddnode->Next)
      mmAddNodes2DList(&mm->SeenBy,tmpaddnode->Node.Net,tmpaddnode->Node.Node);

   /* Add own node to seen-by */

   if(temparea->Aka->Node.Point == 0)
   {
      if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temparea->Aka->Node.Node))
         return(FALSE);
   }

   for(tmpremnode=(struct RemNode *)temparea->Aka->RemList.First;tmpremnode;tmpremnode=tmpremnode->Next)
      mmRemNodes2DListPat(&mm->SeenBy,&tmpremnode->NodePat);
"""),
# A02
('A02',1,'g3-writebad-ignored',H,"""            if(!WriteBad(mm,"Duplicate message"))
               return(FALSE);""","""            WriteBad(mm,"Duplicate message");"""),
('A02',1,'g3-tossnode-nomem',H,"""   if(!(tnode=(struct TossNode *)osAllocCleared(sizeof(struct TossNode))))
   {
      nomem=TRUE;
      return(FALSE);""","""   if(!(tnode=(struct TossNode *)osAllocCleared(sizeof(struct TossNode))))
   {
      return(FALSE);"""),
('A02',1,'g3-path-nomem',H,"""      if(!(path=(struct Path *)osAlloc(sizeof(struct Path))))
      {
         nomem=TRUE;
         return(FALSE);""","""      if(!(path=(struct Path *)osAlloc(sizeof(struct Path))))
      {
         return(TRUE);"""),
# A11/A12
('A11',1,'g3-pw-prefix',A,"   if(stricmp(password,cnode->AreafixPW)!=0)","   if(strnicmp(password,cnode->AreafixPW,strlen(password))!=0)"),
('A11',1,'g3-boss',A,"      if(Compare4D(&cnode->Node,&mm->OrigNode)==0) break;\n\n   if(!cnode)\n   {\n      Print4D(&mm->OrigNode,buf);\n      LogWrite(2,AREAFIX,\"AreaFix: Unknown node","      if(cnode->Node.Zone == mm->OrigNode.Zone && cnode->Node.Net == mm->OrigNode.Net && cnode->Node.Node == mm->OrigNode.Node) break;\n\n   if(!cnode)\n   {\n      Print4D(&mm->OrigNode,buf);\n      LogWrite(2,AREAFIX,\"AreaFix: Unknown node"),
('A12',1,'g3-banned-wild',A,"                                    if(bannednode)\n","                                    if(bannednode && !iswild)\n"),
('A12',1,'g3-rescan-unlinked',A,"                              if(temptnode)\n                              {\n                                 patterndone=TRUE;\n\n                                 if(iswild)\n                                 {\n                                    afAddLine(afr,\"   Nothing","                              if(temptnode || CheckFlags(area->Group,cnode->Groups))\n                              {\n                                 patterndone=TRUE;\n\n                                 if(iswild)\n                                 {\n                                    afAddLine(afr,\"   Nothing"),
('A12',1,'g3-forward-readonly-groups',A,"arealist=FindForward(areaname,cnode->Groups);","arealist=FindForward(areaname,cnode->Groups[0] ? cnode->Groups : cnode->ReadOnlyGroups);"),
('A12',1,'g3-forward-readonly',A,"                                       if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))\n                                          flags|=TOSSNODE_READONLY;","                                       if(area->Flags & AREA_DEFREADONLY)\n                                          flags|=TOSSNODE_READONLY;"),
('A12',1,'g3-remove-nofeed',A,"                                          ((struct TossNode*)area->TossNodes.First)->Flags & TOSSNODE_FEED))\n","                                          !(((struct TossNode*)area->TossNodes.First)->Flags & TOSSNODE_READONLY)))\n"),
('A12',1,'g3-wasfeed-after',A,"                                    if(wasfeed && (config.cfg_Flags & CFG_REMOVEWHENFEED))","                                    if((wasfeed || area->TossNodes.First == NULL) && (config.cfg_Flags & CFG_REMOVEWHENFEED))"),
('A13',1,'g3-resume-unsaved',A,"                  cnode->Flags&=~NODE_PASSIVE;\n						cnode->changed=TRUE;","                  cnode->Flags&=~NODE_PASSIVE;"),
# A16
('A16',1,'g3-netmail-flag',S,"if(area->AreaType == AREATYPE_NETMAIL && (config.cfg_Flags & CFG_NOEXPORTNETMAIL))","if(area->AreaType == AREATYPE_NETMAIL && (config.cfg_Flags & CFG_NOROUTE))"),
]
