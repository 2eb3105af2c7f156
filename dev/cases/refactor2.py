H = 'crashmail/handle.c'
O = 'crashmail/outbound.c'
D = 'crashmail/dupe.c'
A = 'crashmail/areafix.c'
C = 'crashmail/config.c'
S = 'crashmail/scan.c'
CASES = [
('ALL', 0, 'r-net-area', H, 'bool HandleNetmail(struct MemMessage *mm)\n{', '''static bool IsOwnAddress(struct Node4D *n)
{
   struct Aka *a;

   for(a=(struct Aka *)config.AkaList.First;a;a=a->Next)
      if(Compare4D(n,&a->Node)==0) return TRUE;

   return FALSE;
}

static bool NetmailAreaFor(struct Area *area,struct Node4D *dest)
{
   struct ImportNode *in;

   if(area->AreaType != AREATYPE_NETMAIL)
      return FALSE;

   if(Compare4D(&area->Aka->Node,dest)==0)
      return TRUE;

   for(in=(struct ImportNode *)area->TossNodes.First;in;in=in->Next)
      if(Compare4D(&in->Node,dest)==0)
         return TRUE;

   return FALSE;
}

static struct Area *FindNetmailArea(struct Node4D *dest)
{
   struct Area *a;

   for(a=(struct Area *)config.AreaList.First;a;a=a->Next)
      if(NetmailAreaFor(a,dest)) return a;

   if(!IsOwnAddress(dest) && !(config.cfg_Flags & CFG_NOROUTE))
      return NULL;

   a=(struct Area *)config.AreaList.First;
   while(a && a->AreaType != AREATYPE_NETMAIL)
      a=a->Next;

   return a;
}

bool HandleNetmail(struct MemMessage *mm)
{''', H, '''   for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
      if(Compare4D(&mm->DestNode,&aka->Node)==0) break;

   if(aka)
   {
      /* AreaFix */
''', '''   if(IsOwnAddress(&mm->DestNode))
   {
      /* AreaFix */
''', H, '''   for(tmparea=(struct Area *)config.AreaList.First;tmparea;tmparea=tmparea->Next)
      if(tmparea->AreaType == AREATYPE_NETMAIL)
      {
         if(Compare4D(&tmparea->Aka->Node,&mm->DestNode)==0)
            break;

         for(inode=(struct ImportNode *)tmparea->TossNodes.First;inode;inode=inode->Next)
            if(Compare4D(&inode->Node,&mm->DestNode)==0) break;

         if(inode)
            break;
      }
   

   /* If no area was found but it is to one of the akas, take first netmail area */
   /* Same if NOROUTE was specified in config */

   if(!tmparea)
   {
      for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
         if(Compare4D(&mm->DestNode,&aka->Node)==0) break;

      if(aka || (config.cfg_Flags & CFG_NOROUTE))
      {
         for(tmparea=(struct Area *)config.AreaList.First;tmparea;tmparea=tmparea->Next)
            if(tmparea->AreaType == AREATYPE_NETMAIL) break;
      }
   }
''', '''   tmparea=FindNetmailArea(&mm->DestNode);
'''),
('ALL', 0, 'r-net-import', H, 'bool HandleNetmail(struct MemMessage *mm)\n{', '''static bool ImportNetmail(struct Area *area,struct MemMessage *mm)
{
   area->NewTexts++;

   if(!area->Messagebase)
      return TRUE;

   toss_import++;

   mm->Attr = (mm->Attr | FLAG_SENT) & ~(FLAG_LOCAL);

   return (*area->Messagebase->importfunc)(mm,area);
}

bool HandleNetmail(struct MemMessage *mm)
{''', H, '''         tmparea->NewTexts++;

         if(tmparea->Messagebase)
			{
		      toss_import++;

   		   if(config.cfg_Flags & CFG_STRIPRE)
		  {
				 char * stripped = StripRe(mm->Subject);		
         		  memmove (mm->Subject, stripped, strlen (stripped) + 1);
		  }

				/* Remove LOCAL flag if set and set SENT flag */

				mm->Attr |= FLAG_SENT;
				mm->Attr &= ~(FLAG_LOCAL);

            if(!(*tmparea->Messagebase->importfunc)(mm,tmparea))
					return(FALSE);
			}
''', '''         if(!ImportNetmail(tmparea,mm))
            return(FALSE);
'''),
('ALL', 0, 'r-net-attr', H, '''      mm->Attr&=(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT);

      if(mm->Flags & MMFLAG_TOSSED)
			mm->Attr&=~(FLAG_CRASH|FLAG_HOLD);
''', '''      if(mm->Flags & MMFLAG_TOSSED)
         mm->Attr&=(FLAG_PVT|FLAG_FILEATTACH|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT);
      else
         mm->Attr&=(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT);
'''),
('ALL', 0, 'r-pack-netmail', O, 'bool PackFile(char *file)\n{', '''static bool AppendNetmail(char *file,char *outname)
{
	char *copybuf;
	osFile ifh,ofh;
	uint32_t readlen;
	bool ok=TRUE,append;

	if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
	{
		nomem=TRUE;
		return(FALSE);
	}

	ifh=osOpen(file,MODE_OLDFILE);
	if(!ifh)
	{
		uint32_t err=osError();
		LogWrite(1,SYSTEMERR,"Failed to open \\"%s\\"",file);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
		osFree(copybuf);
		return(FALSE);
	}

	append=osExists(outname);
	ofh=osOpen(outname,append ? MODE_READWRITE : MODE_NEWFILE);

	if(!ofh)
	{
		uint32_t err=osError();
		LogWrite(1,SYSTEMERR,"Failed to open \\"%s\\"",file);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
		osClose(ifh);
		osFree(copybuf);
		return(FALSE);
	}

	if(append)
	{
		osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
		osSeek(ofh,-2,OFFSET_END);
	}

	for(;;)
	{
		readlen=osRead(ifh,copybuf,COPYBUFSIZE);
		if(readlen==0) break;

		if(!osWrite(ofh,copybuf,readlen))
			{ ioerror=TRUE; ioerrornum=osError(); ok=FALSE; }
	}

	osClose(ifh);

	if(!osClose(ofh))
		{ ioerror=TRUE; ioerrornum=osError(); ok=FALSE; }

	osFree(copybuf);
	return(ok);
}

bool PackFile(char *file)
{''', O, '''		if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
		{
			nomem=TRUE;
			UnlockBasename(basename);
			return(FALSE);
		}
		
		if(!(ifh=osOpen(file,MODE_OLDFILE)))
		{
			uint32_t err=osError();
			LogWrite(1,SYSTEMERR,"Failed to open \\"%s\\"",file);
			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
			osFree(copybuf);
			UnlockBasename(basename);
			return(FALSE);
		}
		
		if(osExists(buf))
		{
			if(!(ofh=osOpen(buf,MODE_READWRITE)))
			{
				uint32_t err=osError();
				LogWrite(1,SYSTEMERR,"Failed to open \\"%s\\"",file);
				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
				osClose(ifh);
				osFree(copybuf);
				UnlockBasename(basename);
				return(FALSE);
			}

			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
			osSeek(ofh,-2,OFFSET_END);
		}
		else
		{
			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
			{
				uint32_t err=osError();
				LogWrite(1,SYSTEMERR,"Failed to open \\"%s\\"",file);
				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
				osClose(ifh);
				osFree(copybuf);
				UnlockBasename(basename);
				return(FALSE);
			}
		}

		writeerror=FALSE;

		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
		{
			if(!osWrite(ofh,copybuf,readlen))
				{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }
		}
				
		osClose(ifh);

		if(!osClose(ofh))
			{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }

		osFree(copybuf);

		if(writeerror)
		{
			UnlockBasename(basename);
			return(FALSE);
		}
''', '''		writeerror=!AppendNetmail(file,buf);

		if(writeerror)
		{
			UnlockBasename(basename);
			return(FALSE);
		}
'''),
('ALL', 0, 'r-pack-goto', O, '''         if(!osRename(file,pktname))
         {
            LogWrite(1,SYSTEMERR,"Failed to rename \\"%s\\" to \\"%s\\"",file,pktname);
				UnlockBasename(basename);
				return(FALSE);
         }
''', '''         if(!osRename(file,pktname))
         {
            LogWrite(1,SYSTEMERR,"Failed to rename \\"%s\\" to \\"%s\\"",file,pktname);
            goto failed;
         }
''', O, '''	            osRename(pktname,file);
               LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
	   			UnlockBasename(basename);
   				return(FALSE);
''', '''               LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
               goto putback;
''', O, '''	         osRename(pktname,file);
            LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
				UnlockBasename(basename);
				return(FALSE);
''', '''            LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
            goto putback;
''', O, '''		osDelete(file);
   }

	UnlockBasename(basename);
	
	return(TRUE);
}
''', '''		osDelete(file);
   }

	UnlockBasename(basename);
	
	return(TRUE);

putback:
	osRename(pktname,file);

failed:
	UnlockBasename(basename);
	return(FALSE);
}
'''),
('ALL', 0, 'r-pack-type', O, '''   if(stricmp(buf2,"Normal")==0)
      type=PKTS_NORMAL;

   else if(stricmp(buf2,"Hold")==0)
      type=PKTS_HOLD;

   else if(stricmp(buf2,"Direct")==0)
      type=PKTS_DIRECT;

   else if(stricmp(buf2,"Crash")==0)
      type=PKTS_CRASH;

   else if(stricmp(buf2,"Echomail")==0)
      type=PKTS_ECHOMAIL;

   else
   {
''', '''   static const struct { char *name; char type; } flavours[]={
      { "Normal", PKTS_NORMAL }, { "Hold", PKTS_HOLD }, { "Direct", PKTS_DIRECT },
      { "Crash", PKTS_CRASH }, { "Echomail", PKTS_ECHOMAIL } };
   unsigned int fl;

   for(fl=0;fl<sizeof(flavours)/sizeof(flavours[0]);fl++)
      if(stricmp(buf2,flavours[fl].name)==0) break;

   if(fl<sizeof(flavours)/sizeof(flavours[0]))
      type=flavours[fl].type;
   else
   {
'''),
('ALL', 0, 'r-dupe-write', D, 'void AddDupeBuf(char *buf,uint16_t size)\n{', '''static bool dupewrite(osFile fh,void *data,uint32_t len,char *what)
{
   uint32_t err;

   if(osWrite(fh,data,len))
      return(TRUE);

   err=osError();
   LogWrite(1,SYSTEMERR,"Failed to write to %s",what);
   LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
   return(FALSE);
}

void AddDupeBuf(char *buf,uint16_t size)
{''', D, '''   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
   {
		uint32_t err=osError();
      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      return;
   }

   if(!osWrite(dupefh,buf,size))
   {
		uint32_t err=osError();
      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      return;
   }
''', '''   if(!dupewrite(dupefh,&size,sizeof(uint16_t),"dupe file") || !dupewrite(dupefh,buf,size,"dupe file"))
      return;
''', D, '''   for(c=0;c<dupeentrymax;c++)
      if(dupebuf[c].crc32 == crc32)
      {
         /* CRC matches, check rest */

         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);

         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
            if(size == dsize)
               if(osRead(dupefh,buf,(uint32_t)size) == size)
                  if(dupecomp(buf,dbuf,dsize) == 0)
                     return(TRUE); /* Dupe */
      }
''', '''   for(c=0;c<dupeentrymax;c++)
   {
      if(dupebuf[c].crc32 != crc32)
         continue;

      osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);

      if(osRead(dupefh,&size,sizeof(uint16_t))!=sizeof(uint16_t) || size != dsize)
         continue;

      if(osRead(dupefh,buf,(uint32_t)size) == size && memcmp(buf,dbuf,dsize) == 0)
         return(TRUE); /* Dupe */
   }
'''),
('ALL', 0, 'r-af-auth', A, 'bool AreaFix(struct MemMessage *mm)\n{', '''static struct ConfigNode *afFindNode(struct Node4D *addr)
{
   struct ConfigNode *c;

   for(c=(struct ConfigNode *)config.CNodeList.First;c && Compare4D(&c->Node,addr)!=0;c=c->Next)
      ;

   return c;
}

static void afRefuse(struct afReply *afr,char *why)
{
   afAddLine(afr,"%s",why);
   afSendMessage(afr);
   afFreeReply(afr);
}

static void afChanged(struct ConfigNode *c)
{
   c->changed=TRUE;
   config.changed=TRUE;
}

bool AreaFix(struct MemMessage *mm)
{''', A, '''   for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
      if(Compare4D(&cnode->Node,&mm->OrigNode)==0) break;

   if(!cnode)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(2,AREAFIX,"AreaFix: Unknown node %s",buf);
      afAddLine(afr,"Sorry, your node is not configured here.");
      afSendMessage(afr);
		afFreeReply(afr);
      return(TRUE);
   }
''', '''   if(!(cnode=afFindNode(&mm->OrigNode)))
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(2,AREAFIX,"AreaFix: Unknown node %s",buf);
      afRefuse(afr,"Sorry, your node is not configured here.");
      return(TRUE);
   }
''', A, '''      afAddLine(afr,"Sorry, wrong password.");
      afSendMessage(afr);
		afFreeReply(afr);
      return(TRUE);
''', '''      afRefuse(afr,"Sorry, wrong password.");
      return(TRUE);
''', A, '''                  cnode->Flags|=NODE_PASSIVE;
						cnode->changed=TRUE;
                  config.changed=TRUE;
''', '''                  cnode->Flags|=NODE_PASSIVE;
                  afChanged(cnode);
''', A, '''                  strcpy(cnode->AreafixPW,buf2);
						cnode->changed=TRUE;
                  config.changed=TRUE;
''', '''                  afChanged(cnode);
                  mystrncpy(cnode->AreafixPW,buf2,40);
'''),
('ALL', 0, 'r-af-table', A, '''            else if(stricmp(buf2,"%LIST")==0)
            {
               sendarealist=TRUE;
               done=TRUE;
					AddCommandReply(afr,buf,"Sending list of all areas");
            }

            else if(stricmp(buf2,"%QUERY")==0)
            {
               sendareaquery=TRUE;
               done=TRUE;
					AddCommandReply(afr,buf,"Sending query");
            }
''', '''            else if(stricmp(buf2,"%LIST")==0 || stricmp(buf2,"%QUERY")==0)
            {
               bool all=stricmp(buf2,"%LIST")==0;

               if(all) sendarealist=TRUE;
               else    sendareaquery=TRUE;

               done=TRUE;
               AddCommandReply(afr,buf,all ? "Sending list of all areas" : "Sending query");
            }
'''),
('ALL', 0, 'r-cfg-update', C, 'bool UpdateConfig(struct Config *cfg,char *cfgerr)\n{', '''static bool IsKeyword(char *word,char **list)
{
   while(*list)
   {
      if(stricmp(word,*list)==0) return TRUE;
      list++;
   }
   return FALSE;
}

static struct Area *AreaByName(struct Config *cfg,char *name)
{
   struct Area *a;

   for(a=(struct Area *)cfg->AreaList.First;a;a=a->Next)
      if(stricmp(name,a->Tagname)==0) return a;

   return NULL;
}

bool UpdateConfig(struct Config *cfg,char *cfgerr)
{''', C, '''            for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
               if(stricmp(buf,area->Tagname)==0) break;

				/* Area has been changed */	

            if(area && area->changed)
            {
               skiparea=TRUE;
               WriteArea(area,newfh);
				   cfgPrintf(newfh,"\\n");
               area->changed=FALSE;
            }

				/* Area has been removed */

				if(!area)
				{
					skiparea=TRUE;
				}
''', '''            area=AreaByName(cfg,buf);

            if(!area)
            {
               /* Area has been removed */
               skiparea=TRUE;
            }
            else if(area->changed)
            {
               WriteArea(area,newfh);
               cfgPrintf(newfh,"\\n");
               area->changed=FALSE;
               skiparea=TRUE;
            }
''', C, '''      dontwrite=FALSE;

      if(skiparea)
      {
         for(c=0;areakeywords[c];c++)
            if(stricmp(cfgword,areakeywords[c])==0) dontwrite=TRUE;

			if(!copyres)
				dontwrite=TRUE; /* Skip empty lines */
      }

      if(skipnode)
      {
         for(c=0;nodekeywords[c];c++)
            if(stricmp(cfgword,nodekeywords[c])==0) dontwrite=TRUE;

			if(!copyres)
				dontwrite=TRUE; /* Skip empty lines */
      }

      if(!dontwrite)
         cfgPuts(newfh,cfgbuf);
''', '''      if(skiparea && (!copyres || IsKeyword(cfgword,areakeywords)))
         continue;

      if(skipnode && (!copyres || IsKeyword(cfgword,nodekeywords)))
         continue;

      cfgPuts(newfh,cfgbuf);
'''),
('ALL', 0, 'r-scan', S, '''   for(area=(struct Area *)config.AreaList.First;area && !ctrlc;area=area->Next)
      if(area->Messagebase && (area->AreaType == AREATYPE_ECHOMAIL || area->AreaType == AREATYPE_NETMAIL))
		{
         if(area->Messagebase->exportfunc)
			{
            if(area->AreaType == AREATYPE_NETMAIL && (config.cfg_Flags & CFG_NOEXPORTNETMAIL))
            {
               printf("Skipping area %s (NOEXPORTNETMAIL is set)\\n", area->Tagname);
            }
            else
            {
               printf("Scanning area %s\\n",area->Tagname);

	            if(!(*area->Messagebase->exportfunc)(area,ScanHandle))
   	         {
          	      AfterScanToss(FALSE);
            	   return(FALSE);
	            }
            }
         }
      }

   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogScanResults();
   AfterScanToss(TRUE);

   return(TRUE);
''', '''   bool ok=TRUE;

   for(area=(struct Area *)config.AreaList.First;ok && area && !ctrlc;area=area->Next)
   {
      if(!area->Messagebase || !area->Messagebase->exportfunc)
         continue;

      switch(area->AreaType)
      {
         case AREATYPE_NETMAIL:
            if(config.cfg_Flags & CFG_NOEXPORTNETMAIL)
            {
               printf("Skipping area %s (NOEXPORTNETMAIL is set)\\n", area->Tagname);
               break;
            }
            /* fall through */
         case AREATYPE_ECHOMAIL:
            printf("Scanning area %s\\n",area->Tagname);
            ok=(*area->Messagebase->exportfunc)(area,ScanHandle);
            break;
      }
   }

   if(ctrlc)
      ok=FALSE;

   if(ok)
      LogScanResults();

   AfterScanToss(ok);

   return(ok);
'''),
]
