A='A27'
C='crashmail/config.c'
CASES=[
(A,1,'kw-flag',C,"cfg->cfg_Flags|=CFG_NOROUTE;","cfg->cfg_Flags|=CFG_NODIRECTATTACH;"),
(A,1,'kw-assign',C,"cfg->cfg_Flags|=CFG_ADDTID;","cfg->cfg_Flags=CFG_ADDTID;"),
(A,1,'kw-swap',C,'stricmp(cfgword,"ANSWERRECEIPT")','stricmp(cfgword,"ANSWERRECEIPTS")'),
(A,1,'kw-dir',C,"jbstrcpy(cfg->cfg_TempDir,cfgbuf,100,&jbcpos)","jbstrcpy(cfg->cfg_PacketDir,cfgbuf,100,&jbcpos)"),
(A,1,'area-flag',C,"LastArea->Flags|=AREA_DEFREADONLY;","LastArea->Flags|=AREA_MANDATORY;"),
(A,1,'node-flag',C,"LastCNode->Flags|=NODE_TINYSEENBY;","LastCNode->Flags|=NODE_NOSEENBY;"),
(A,1,'node-pri',C,"LastCNode->EchomailPri=PKTS_DIRECT;","LastCNode->EchomailPri=PKTS_CRASH;"),
(A,1,'node-defpri',C,"			LastCNode->EchomailPri=PKTS_NORMAL;\n",""),
(A,1,'node-unknown',C,"            else if(stricmp(buf2,\"HOLD\")==0)\n               LastCNode->EchomailPri=PKTS_HOLD;\n\n            else\n            {","            else if(stricmp(buf2,\"HOLD\")==0)\n               LastCNode->EchomailPri=PKTS_HOLD;\n\n            else if(buf2[0]!='-')\n            {"),
(A,1,'pw-order',C,"         if(!(jbstrcpy(LastPacker->Packer,cfgbuf,80,&jbcpos)))","         if(!(jbstrcpy(LastPacker->Unpacker,cfgbuf,80,&jbcpos)))",C,"         if(!(jbstrcpy(LastPacker->Unpacker,cfgbuf,80,&jbcpos)))\n         {\n            strcpy(cfgerr,\"Missing argument\");\n            osClose(cfgfh);\n            return(FALSE);\n         }\n\n         if(!(jbstrcpy(LastPacker->Recog","         if(!(jbstrcpy(LastPacker->Packer,cfgbuf,80,&jbcpos)))\n         {\n            strcpy(cfgerr,\"Missing argument\");\n            osClose(cfgfh);\n            return(FALSE);\n         }\n\n         if(!(jbstrcpy(LastPacker->Recog"),
(A,1,'af-groups',C,"         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))\n         {\n            if(!CorrectFlags(LastCNode->ReadOnlyGroups))","         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))\n         {\n            if(!CorrectFlags(LastCNode->Groups))"),
(A,1,'last-area',C,"         jbAddNode(&cfg->AreaList,(struct jbNode *)tmparea);\n         LastArea=tmparea;","         jbAddNode(&cfg->AreaList,(struct jbNode *)tmparea);\n         if(stricmp(cfgword,\"NETMAIL\")!=0 || !LastArea) LastArea=tmparea;"),
(A,1,'last-node',C,"         jbAddNode(&cfg->CNodeList,(struct jbNode *)tmpnode);\n         LastCNode=tmpnode;","         jbAddNode(&cfg->CNodeList,(struct jbNode *)tmpnode);\n         LastCNode=(struct ConfigNode *)cfg->CNodeList.First;"),
(A,1,'exp-prefix',C,"flags=TOSSNODE_READONLY;","flags=TOSSNODE_WRITEONLY;"),
(A,1,'exp-flags0',C,"         while(jbstrcpy(buf2,cfgbuf,100,&jbcpos))\n         {\n            flags=0;\n","         flags=0;\n         while(jbstrcpy(buf2,cfgbuf,100,&jbcpos))\n         {\n"),
(A,1,'exp-tpl',C,"				tpl4d.Point=0;\n				\n",""),
(A,1,'exp-tpl2',C,"				Copy4D(&tpl4d,&tmp4d);\n				tpl4d.Point=0;","				tpl4d.Point=0;"),
(A,1,'exp-node',C,"            tmptnode->ConfigNode=tmpnode;","            tmptnode->ConfigNode=(struct ConfigNode *)cfg->CNodeList.First;"),
(A,1,'ban-list',C,"jbAddNode(&LastArea->BannedNodes,(struct jbNode *)tmpbnode);","jbAddNode(&LastArea->TossNodes,(struct jbNode *)tmpbnode);"),
(A,1,'unchecked',C,"            if(!(Parse4D(buf2,&tmpaddnode->Node)))\n            {\n               sprintf(cfgerr,\"Invalid node number \\\"%s\\\"\",buf2);\n               osClose(cfgfh);\n               return(FALSE);\n            }","            Parse4D(buf2,&tmpaddnode->Node);"),
(A,1,'unknown-kw',C,"else if(cfgword[0]!=0 && cfgword[0]!=';')","else if(cfgword[0]!=0 && cfgword[0]!=';' && cfgword[0]!='#')"),
(A,1,'loglevel',C,"if(atoi(buf2)<1 || atoi(buf2)>6)","if(atoi(buf2)<1 || atoi(buf2)>7)"),
(A,1,'maxpkt',C,"cfg->cfg_MaxPktSize=atoi(buf2)*1024;","cfg->cfg_MaxPktSize=atoi(buf2)*1000;"),
(A,1,'keep',C,"LastArea->KeepNum=atol(buf2);","LastArea->KeepDays=atol(buf2);"),
(A,1,'chg-all',C,"            tmpchange->ChangeHold=TRUE;\n            tmpchange->ChangeDirect=TRUE;","            tmpchange->ChangeDirect=TRUE;"),
(A,1,'chg-one',C,"               else if(stricmp(&buf2[c],\"HOLD\")==0)\n                  tmpchange->ChangeHold=TRUE;","               else if(stricmp(&buf2[c],\"HOLD\")==0)\n                  tmpchange->ChangeDirect=TRUE;"),
(A,1,'chg-dest',C,"tmpchange->DestPri=PKTS_HOLD;","tmpchange->DestPri=PKTS_DIRECT;"),
(A,1,'chg-unk',C,"                  sprintf(cfgerr,\"Unknown mail flavour \\\"%s\\\"\",buf2);\n                  osClose(cfgfh);\n                  return(FALSE);\n               }\n\n               c=d;","                  ;\n               }\n\n               c=d;"),
(A,1,'type-bad',C,"         else if(stricmp(LastArea->Tagname,\"BAD\")==0)","         else if(strnicmp(LastArea->Tagname,\"BAD\",3)==0)"),
(A,1,'type-default',C," || strnicmp(LastArea->Tagname,\"DEFAULT_\",8)==0)",")"),
(A,1,'type-local',C,"LastArea->AreaType=AREATYPE_LOCAL;","LastArea->AreaType=AREATYPE_ECHOMAIL;"),
(A,1,'route-aka',C,"         tmproute->Aka=tmpaka;\n","         tmproute->Aka=(struct Aka *)cfg->AkaList.First;\n"),
(A,1,'route-pat',C,"if(!(Parse4DDestPat(buf2,&tmproute->DestPat)))","if(!(Parse4DPat(buf2,&tmproute->DestPat)))"),
(A,1,'cmd',C,"				tmpcommand->Cmd=COMMAND_BOUNCEHEADER;","				tmpcommand->Cmd=COMMAND_BOUNCEMSG;"),
(A,1,'cmd-filter',C,"         LastFilter=tmpfilter;\n","         if(!LastFilter) LastFilter=tmpfilter;\n"),
(A,1,'dupemode',C,"cfg->cfg_DupeMode=DUPE_KILL;","cfg->cfg_DupeMode=DUPE_BAD;"),
(A,1,'al-group',C,"               tmparealist->Group=buf2[0];","               tmparealist->Group=buf2[1];"),
(A,1,'al-flag',C,"tmparealist->Flags|=AREALIST_FORWARD;","tmparealist->Flags|=AREALIST_DESC;"),
(A,1,'refuse',C,"         cfg->cfg_DefaultZone=atoi(buf2);","         cfg->cfg_DefaultZone=atoi(buf2);\n         if(cfg->cfg_DefaultZone>6)\n         {\n            strcpy(cfgerr,\"Invalid zone\");\n            osClose(cfgfh);\n            return(FALSE);\n         }"),
(A,1,'packer-first',C,"               if(stricmp(buf2,tmppacker->Name)==0) break;","               if(strnicmp(buf2,tmppacker->Name,strlen(buf2))==0) break;"),
(A,1,'pktfrom',C,"			LastCNode->Flags|=NODE_PKTFROM;\n",""),
(A,1,'remotepw',C,"         if(!(jbstrcpy(LastCNode->RemoteAFPw,cfgbuf,72,&jbcpos)))","         if(!(jbstrcpy(LastCNode->AreafixPW,cfgbuf,40,&jbcpos)))"),
(A,1,'miss',C,"         if(!(jbstrcpy(LastCNode->PacketPW,cfgbuf,9,&jbcpos)))\n         {\n            strcpy(cfgerr,\"Missing argument\");\n            osClose(cfgfh);\n            return(FALSE);\n         }","         jbstrcpy(LastCNode->PacketPW,cfgbuf,9,&jbcpos);"),
(A,1,'group-name',C,"cfg->cfg_GroupNames[buf2[0]-'A']","cfg->cfg_GroupNames[cfgword[0]-'A']"),
# refactorings
(A,0,'r-helper',C,"bool ReadConfig(","static struct Aka *FindAka(struct Config *cfg,struct Node4D *n4d)\n{\n   struct Aka *aka;\n\n   for(aka=(struct Aka *)cfg->AkaList.First;aka;aka=aka->Next)\n      if(Compare4D(n4d,&aka->Node)==0) return(aka);\n\n   return(NULL);\n}\n\nbool ReadConfig(",C,"         for(tmpaka=(struct Aka *)cfg->AkaList.First;tmpaka;tmpaka=tmpaka->Next)\n            if(Compare4D(&tmp4d,&tmpaka->Node)==0) break;\n\n         if(!tmpaka)\n         {\n            sprintf(cfgerr,\"Unconfigured AKA","         tmpaka=FindAka(cfg,&tmp4d);\n\n         if(!tmpaka)\n         {\n            sprintf(cfgerr,\"Unconfigured AKA"),
(A,0,'r-word',C,"bool ReadConfig(","static bool Arg(char *dest,uint32_t len,uint32_t *pos,char *cfgerr,osFile fh)\n{\n   if(jbstrcpy(dest,cfgbuf,len,pos)) return(TRUE);\n   strcpy(cfgerr,\"Missing argument\");\n   osClose(fh);\n   return(FALSE);\n}\n\nbool ReadConfig(",C,"         if(!(jbstrcpy(cfg->cfg_Inbound,cfgbuf,100,&jbcpos)))\n         {\n            strcpy(cfgerr,\"Missing argument\");\n            osClose(cfgfh);\n            return(FALSE);\n         }\n","         if(!Arg(cfg->cfg_Inbound,100,&jbcpos,cfgerr,cfgfh)) return(FALSE);\n"),
(A,0,'r-local',C,"         cfg->cfg_LogLevel=atoi(buf2);","         c=atoi(buf2);\n         cfg->cfg_LogLevel=c;"),
(A,0,'r-else',C,"			if(stricmp(cfgword,\"TWIT\")==0)\n				tmpcommand->Cmd","			else\n				tmpcommand->Cmd"),
(A,0,'r-loglevel',C,"if(atoi(buf2)<1 || atoi(buf2)>6)","if(!(atoi(buf2)>=1 && atoi(buf2)<=6))"),
(A,0,'r-cond',C,"               if(Compare4D(&tmp4d,&tmpnode->Node)==0) break;\n\n            if(!tmpnode)\n            {\n               sprintf(cfgerr,\"Unconfigured node \\\"%s\\\"\",buf2);\n               osClose(cfgfh);\n               return(FALSE);\n            }\n\n            if(!(tmpbnode","               if(!Compare4D(&tmpnode->Node,&tmp4d)) break;\n\n            if(tmpnode == NULL)\n            {\n               sprintf(cfgerr,\"Unconfigured node \\\"%s\\\"\",buf2);\n               osClose(cfgfh);\n               return(FALSE);\n            }\n\n            if(!(tmpbnode"),
(A,0,'r-order',C,"            tmptnode->ConfigNode=tmpnode;\n            tmptnode->Flags=flags;","            tmptnode->Flags=flags;\n            tmptnode->ConfigNode=tmpnode;"),
(A,0,'r-first',C,"      if(stricmp(cfgword,\"AKA\")==0)","      if(cfgword[0]==0 || cfgword[0]==';')\n         continue;\n\n      if(stricmp(cfgword,\"AKA\")==0)",C,"      else if(cfgword[0]!=0 && cfgword[0]!=';')\n      {","      else\n      {"),
(A,0,'r-lastnull',C,"         if(!LastArea)\n         {\n            strcpy(cfgerr,\"No previous AREA line\");\n            osClose(cfgfh);\n            return(FALSE);\n         }\n\n         LastArea->Flags|=AREA_UNCONFIRMED;","         if(LastArea)\n         {\n            LastArea->Flags|=AREA_UNCONFIRMED;\n         }\n         else\n         {\n            strcpy(cfgerr,\"No previous AREA line\");\n            osClose(cfgfh);\n            return(FALSE);\n         }"),
(A,0,'r-shl',C,"cfg->cfg_MaxPktSize=atoi(buf2)*1024;","cfg->cfg_MaxPktSize=atoi(buf2)<<10;"),
(A,0,'r-strdup',C,"cfg->cfg_MaxBundleSize=atoi(buf2)*1024;","cfg->cfg_MaxBundleSize=1024*atoi(buf2);"),
(A,0,'r-type',C,"         if(stricmp(cfgword,\"NETMAIL\")==0)\n         {\n            if(!LastArea->Messagebase)","         LastArea->AreaType=AREATYPE_ECHOMAIL;\n\n         if(stricmp(cfgword,\"NETMAIL\")==0)\n         {\n            if(!LastArea->Messagebase)",C,"			else\n			{\n				LastArea->AreaType=AREATYPE_ECHOMAIL;\n			}			\n",""),
]
