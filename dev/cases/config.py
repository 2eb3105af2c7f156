C='crashmail/config.c'; H='crashmail/handle.c'; AF='crashmail/areafix.c'; M='crashmail/crashmail.c'
CASES=[
('A13',1,'areapw-nomark',AF,'''						cnode->changed=TRUE;
                  config.changed=TRUE;
                  done=TRUE;
						AddCommandReply(afr,buf,"AreaFix password changed");''','''                  config.changed=TRUE;
                  done=TRUE;
						AddCommandReply(afr,buf,"AreaFix password changed");'''),
('A13',1,'remove-noconfigmark',AF,'''			config.changed=TRUE;
''',''''''),
('A13',1,'addarea-nomark',H,'''   config.changed=TRUE;
   temparea->changed=TRUE;
''','''   if(active)
   {
      config.changed=TRUE;
      temparea->changed=TRUE;
   }
'''),
('A13',1,'update-only-when-stats',M,'''      WriteStats(config.cfg_StatsFile);

      if(config.changed)
''','''      if(config.cfg_StatsFile[0]==0)
         return;

      WriteStats(config.cfg_StatsFile);

      if(config.changed)
'''),
('A13',1,'ioerror-ignored',C,'''   if(ioerror)
   {
      sprintf(cfgerr,"Unable to write to config file %s, configuration not updated",cfgtemp);
      osDelete(cfgtemp);
      return(FALSE);
   }
''',''''''),
('A13',1,'delete-first',C,'''   osDelete(cfgbak);

   if(!osRename(cfg->filename,cfgbak))
   {
      sprintf(cfgerr,"Unable to rename %s, configuration not updated",cfg->filename);
      return(FALSE);
   }
''','''   osDelete(cfg->filename);
'''),
('A13',1,'table-missing-banned',C,'"GROUP","DESCRIPTION","BANNED","EXPORT","IMPORT",','"GROUP","DESCRIPTION","EXPORT","IMPORT",'),
('A13',1,'table-extra',C,'"AREAFIXINFO","NODE","PKTFROM",NULL};','"AREAFIXINFO","NODE","PKTFROM","REMOTEAFLIST",NULL};'),
('A13',1,'flag-lost',C,'''   if(tmpnode->Flags & NODE_SENDTEXT)
      cfgPrintf(osfh," SENDTEXT");

''',''),
('A13',1,'flag-wrong',C,'''   if(tmpnode->Flags & NODE_SENDTEXT)
''','''   if(tmpnode->Flags & (NODE_SENDTEXT|NODE_SENDAREAFIX))
'''),
('A13',1,'flag-else',C,'''   if(tmpnode->Flags & NODE_NOSEENBY)
      cfgPrintf(osfh," NOSEENBY");

   if(tmpnode->Flags & NODE_TINYSEENBY)''','''   if(tmpnode->Flags & NODE_NOSEENBY)
      cfgPrintf(osfh," NOSEENBY");

   else if(tmpnode->Flags & NODE_TINYSEENBY)'''),
('A13',1,'groups-swapped',C,'''      WriteSafely(osfh,tmpnode->Groups);
      cfgPrintf(osfh," ");

      WriteSafely(osfh,tmpnode->ReadOnlyGroups);
''','''      WriteSafely(osfh,tmpnode->ReadOnlyGroups);
      cfgPrintf(osfh," ");

      WriteSafely(osfh,tmpnode->Groups);
'''),
('A13',1,'afinfo-guard',C,'''tmpnode->ReadOnlyGroups[0] || tmpnode->AddGroups[0])''','''tmpnode->ReadOnlyGroups[0])'''),
('A13',1,'mark-order',C,'''         if(tmptnode->Flags & TOSSNODE_FEED)
            cfgPrintf(osfh,"%%");

         WriteNode4D(osfh,&tmptnode->ConfigNode->Node);
''','''         WriteNode4D(osfh,&tmptnode->ConfigNode->Node);

         if(tmptnode->Flags & TOSSNODE_FEED)
            cfgPrintf(osfh,"%%");
'''),
('A13',1,'passive-links-left-out',C,'''         if(tmptnode->Flags & TOSSNODE_READONLY)
            cfgPrintf(osfh,"!");
''','''         if(tmptnode->ConfigNode->Flags & NODE_PASSIVE)
            continue;

         if(tmptnode->Flags & TOSSNODE_READONLY)
            cfgPrintf(osfh,"!");
'''),
('A13',1,'banned-count',C,'''      if(c!=0) cfgPrintf(osfh,"\\n");
   }

   c=0;
   for(tmpbnode''','''      if(c!=0) cfgPrintf(osfh,"\\n");
   }

   for(tmpbnode'''),
('A13',1,'continuation-line',C,'''            if(c!=0) cfgPrintf(osfh,"\\n");
            cfgPrintf(osfh,"EXPORT");
''','''            if(c!=0) cfgPrintf(osfh,"\\n");
            else cfgPrintf(osfh,"EXPORT");
'''),
('A13',1,'new-areas-left-out',C,'''   for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
      if(area->changed)
      {
''','''   for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
      if(area->changed && area->Messagebase)
      {
'''),
('A13',1,'clear-all',C,'''               skiparea=TRUE;
               WriteArea(area,newfh);
''','''               skiparea=TRUE;

               if(area->AreaType != AREATYPE_DELETED && area->Aka)
                  WriteArea(area,newfh);

'''),
('A13',1,'skip-stays',C,'''      if(skiparea)
      {
         for(c=0;''','''      if(skiparea || skipnode)
      {
         for(c=0;'''),
('A13',1,'skiparea-not-reset',C,'''         skiparea=FALSE;

         if(jbstrcpy''','''         if(jbstrcpy'''),
('A13',1,'removed-kept',C,'''				if(!area)
				{
					skiparea=TRUE;
				}
''',''),
('A13',1,'nodetype-default-netmail',C,'''   else if(tmparea->AreaType == AREATYPE_LOCAL)
      cfgPrintf(osfh,"LOCALAREA ");
''','''   else if(tmparea->AreaType == AREATYPE_LOCAL || tmparea->AreaType == AREATYPE_BAD)
      cfgPrintf(osfh,"LOCALAREA ");
'''),
('A13',1,'keepdays-line',C,'''   if(tmparea->KeepDays)
      cfgPrintf(osfh,"KEEPDAYS''','''   if(tmparea->KeepDays && !tmparea->KeepNum)
      cfgPrintf(osfh,"KEEPDAYS'''),
# behaviour kept
('A13',0,'helper-keyword',C,'''bool UpdateConfig(struct Config *cfg,char *cfgerr)
{''','''static bool IsKeyword(char **table,char *word)
{
   char **kw;

   for(kw=table;*kw;kw++)
      if(stricmp(word,*kw)==0)
         return(TRUE);

   return(FALSE);
}

bool UpdateConfig(struct Config *cfg,char *cfgerr)
{''',C,'''         for(c=0;areakeywords[c];c++)
            if(stricmp(cfgword,areakeywords[c])==0) dontwrite=TRUE;
''','''         if(IsKeyword(areakeywords,cfgword))
            dontwrite=TRUE;
''',C,'''         for(c=0;nodekeywords[c];c++)
            if(stricmp(cfgword,nodekeywords[c])==0) dontwrite=TRUE;
''','''         if(IsKeyword(nodekeywords,cfgword))
            dontwrite=TRUE;
'''),
('A13',0,'while-loops',C,'''         for(c=0;areakeywords[c];c++)
            if(stricmp(cfgword,areakeywords[c])==0) dontwrite=TRUE;
''','''         c=0;

         while(areakeywords[c] && !dontwrite)
         {
            if(stricmp(areakeywords[c],cfgword)==0)
               dontwrite=TRUE;

            c++;
         }
'''),
('A13',0,'one-format',C,'''   cfgPrintf(osfh,"NODE ");
   WriteNode4D(osfh,&tmpnode->Node);
   cfgPrintf(osfh," ");
''','''   cfgPrintf(osfh,"NODE %u:%u/%u.%u ",tmpnode->Node.Zone,tmpnode->Node.Net,tmpnode->Node.Node,tmpnode->Node.Point);
'''),
('A13',0,'helper-flag',C,'''void WriteNode(struct ConfigNode *tmpnode,osFile osfh)
{''','''static void WriteSwitch(osFile osfh,bool set,char *name)
{
   if(set)
   {
      cfgPrintf(osfh," ");
      cfgPrintf(osfh,name);
   }
}

void WriteNode(struct ConfigNode *tmpnode,osFile osfh)
{''',C,'''   if(tmpnode->Flags & NODE_SENDTEXT)
      cfgPrintf(osfh," SENDTEXT");
''','''   WriteSwitch(osfh,tmpnode->Flags & NODE_SENDTEXT,"SENDTEXT");
'''),
('A13',0,'switch-type',C,'''   if(tmparea->AreaType == AREATYPE_NETMAIL)
      cfgPrintf(osfh,"NETMAIL ");

   else if(tmparea->AreaType == AREATYPE_LOCAL)
      cfgPrintf(osfh,"LOCALAREA ");

   else
      cfgPrintf(osfh,"AREA ");
''','''   switch(tmparea->AreaType)
   {
      case AREATYPE_LOCAL:
         cfgPrintf(osfh,"LOCALAREA ");
         break;
      case AREATYPE_NETMAIL:
         cfgPrintf(osfh,"NETMAIL ");
         break;
      default:
         cfgPrintf(osfh,"AREA ");
   }
'''),
('A13',0,'first-flag',C,'''   c=0;
   for(tmpbnode=(struct BannedNode *)tmparea->BannedNodes.First;tmpbnode;tmpbnode=tmpbnode->Next)
   {
      if(c%10==0)
      {
         if(c!=0) cfgPrintf(osfh,"\\n");
         cfgPrintf(osfh,"BANNED");
      }

      cfgPrintf(osfh," ");
      WriteNode4D(osfh,&tmpbnode->ConfigNode->Node);
      c++;
   }
   if(c!=0) cfgPrintf(osfh,"\\n");
''','''   for(tmpbnode=(struct BannedNode *)tmparea->BannedNodes.First;tmpbnode;tmpbnode=tmpbnode->Next)
   {
      cfgPrintf(osfh,"BANNED ");
      WriteNode4D(osfh,&tmpbnode->ConfigNode->Node);
      cfgPrintf(osfh,"\\n");
   }
'''),
('A13',0,'mark-before-add',AF,'''                                       config.changed=TRUE;
													area->changed=TRUE;
                                       areaexists=TRUE;''','''                                       areaexists=TRUE;
													area->changed=TRUE;
                                       config.changed=TRUE;'''),
('A13',0,'continue-instead',C,'''      if(!dontwrite)
         cfgPuts(newfh,cfgbuf);
''','''      if(dontwrite)
         continue;

      cfgPuts(newfh,cfgbuf);
'''),
('A13',0,'find-helpers',C,'''bool UpdateConfig(struct Config *cfg,char *cfgerr)
{''','''static struct Area *FindTag(struct Config *cfg,char *tag)
{
   struct Area *area;

   for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
      if(stricmp(tag,area->Tagname)==0)
         return(area);

   return(NULL);
}

bool UpdateConfig(struct Config *cfg,char *cfgerr)
{''',C,'''            for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
               if(stricmp(buf,area->Tagname)==0) break;

				/* Area has been changed */	
''','''            area=FindTag(cfg,buf);
'''),
('A13',0,'mark-chain',AF,'''						cnode->changed=TRUE;
                  config.changed=TRUE;
                  done=TRUE;
						AddCommandReply(afr,buf,"AreaFix password changed");''','''						cnode->changed=config.changed=TRUE;
                  done=TRUE;
						AddCommandReply(afr,buf,"AreaFix password changed");'''),
]
