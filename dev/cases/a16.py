M, J, S, C, OF = 'crashmail/mb_msg.c', 'crashmail/mb_jam.c', 'crashmail/scan.c', 'crashmail/crashmail.c', 'oslib_linux/osfile.c'
CASES = [
('A16', 1, 'msg-sent', M, '(Msg.Attr & FLAG_SENT) || !(Msg.Attr & FLAG_LOCAL)', '(Msg.Attr & FLAG_SENT) && !(Msg.Attr & FLAG_LOCAL)'),
('A16', 1, 'msg-notlocal', M, 'if((Msg.Attr & FLAG_SENT) || !(Msg.Attr & FLAG_LOCAL))', 'if(Msg.Attr & FLAG_SENT)'),
('A16', 0, 'r-msg-cond', M, 'if((Msg.Attr & FLAG_SENT) || !(Msg.Attr & FLAG_LOCAL))', 'if((Msg.Attr & (FLAG_SENT|FLAG_LOCAL)) != FLAG_LOCAL)'),
('A16', 0, 'r-msg-cond2', M, '''	if(!isrescanning)
	{
		if((Msg.Attr & FLAG_SENT) || !(Msg.Attr & FLAG_LOCAL))
''', '''	if(!isrescanning)
	{
		bool eligible=(Msg.Attr & FLAG_LOCAL) && !(Msg.Attr & FLAG_SENT);
		if(!eligible)
'''),
('A16', 1, 'jam-deleted', J, '''   if(Header_S.Attribute & MSG_DELETED)
   {''', '''   if(!isrescanning && (Header_S.Attribute & MSG_DELETED))
   {'''),
('A16', 1, 'jam-sent', J, '''(Header_S.Attribute & MSG_SENT) || !(Header_S.Attribute & MSG_LOCAL)''', '''!(Header_S.Attribute & MSG_LOCAL)'''),
('A16', 1, 'jam-flag', J, '''   if(isrescanning) mm->Flags |= MMFLAG_RESCANNED;
   else             mm->Flags |= MMFLAG_EXPORTED;''', '''   mm->Flags |= MMFLAG_EXPORTED;
   if(isrescanning) mm->Flags |= MMFLAG_RESCANNED;'''),
('A16', 1, 'jam-mark-early', J, '''   if(!(*handlefunc)(mm))
   {
      mmFree(mm);
      return(FALSE);
   }

   if(!isrescanning)''', '''   if(!(*handlefunc)(mm))
   {
      if(!nomem && !ioerror)
         LogWrite(1,TOSSINGERR,"Failed to export message #%u",num);
      else
      {
         mmFree(mm);
         return(FALSE);
      }
   }

   if(!isrescanning)'''),
('A16', 1, 'jam-num', J, 'JAM_ChangeMsgHeader(ja->Base_PS,num-ja->BaseNum,&Header_S)', 'JAM_ChangeMsgHeader(ja->Base_PS,num,&Header_S)'),
('A16', 1, 'jam-kill-echo', J, 'if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))', 'if(oldattr & FLAG_KILLSENT)'),
('A16', 1, 'jam-kill-noallow', J, 'if(config.cfg_Flags & CFG_ALLOWKILLSENT)', 'if((config.cfg_Flags & CFG_ALLOWKILLSENT) || mm->Area[0]==0)'),
('A16', 1, 'jam-highwater-int', J, '''   if(ctrlc)
      return(FALSE);

   ja->HighWater=end-1;

   return(TRUE);''', '''   ja->HighWater=end-1;

   if(ctrlc)
      return(FALSE);

   return(TRUE);'''),
('A16', 1, 'jam-highwater-each', J, '''      if(!jam_ExportJAMNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;''', '''      ja->HighWater=start;

      if(!jam_ExportJAMNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;'''),
('A16', 1, 'jam-start', J, 'if(ja->HighWater) start=ja->HighWater+1;', 'if(ja->HighWater) start=ja->HighWater+2;'),
('A16', 1, 'jam-end', J, 'end   = ja->BaseNum + ja->OldNum;', 'end   = ja->BaseNum + ja->OldNum - 1;'),
('A16', 1, 'jam-end2', J, 'end   = ja->BaseNum + ja->OldNum;', 'end   = ja->OldNum;'),
('A16', 1, 'jam-after', J, 'if(success && (config.cfg_jam_Flags & CFG_JAM_HIGHWATER))', 'if(config.cfg_jam_Flags & CFG_JAM_HIGHWATER)'),
('A16', 1, 'jam-rescan-all', J, 'if(max !=0 && ja->OldNum > max)', 'if(ja->OldNum > max)'),
('A16', 1, 'msg-fail', M, '''   if(!(*handlefunc)(mm))
   {
      mmFree(mm);
      return(FALSE);
   }
''', '''   if(!(*handlefunc)(mm))
   {
      mmFree(mm);
      return(isrescanning ? FALSE : TRUE);
   }
'''),
('A16', 1, 'msg-rescan-mark', M, '''   if(!isrescanning)
   {
      scan_total++;

      sprintf(buf2''', '''   if(!isrescanning) scan_total++;

   if(Msg.Attr & FLAG_LOCAL)
   {
      sprintf(buf2'''),
('A16', 1, 'msg-path', M, '''      sprintf(buf2,"%u.msg",num);
      MakeFullPath(area->Path,buf2,buf,200);

		if(''', '''		if('''),
('A16', 1, 'msg-highwater', M, '''   if(!(fh=osOpen(buf,MODE_OLDFILE)))
   {
      /* Message doesn't exist */''', '''   ma->HighWater=num;

   if(!(fh=osOpen(buf,MODE_OLDFILE)))
   {
      /* Message doesn't exist */'''),
('A16', 1, 'msg-nomark', M, '''         Msg.Attr|=FLAG_SENT;

''', '''         if(!(config.cfg_msg_Flags & CFG_MSG_HIGHWATER)) Msg.Attr|=FLAG_SENT;

'''),
('A16', 1, 'msg-writeback', M, '''         	mm->Attr=Msg.Attr;
''', ''),
('A16', 1, 'msg-killsent', M, '(config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL)', '(config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT)'),
('A16', 1, 'msg-after', M, 'if(success && (config', 'if((success || ctrlc) && (config'),
('A16', 1, 'msg-int', M, '''   while(start <= ma->HighMsg && !ctrlc)
   {
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;
   }

   if(ctrlc)
      return(FALSE);
''', '''   while(start <= ma->HighMsg && !ctrlc)
   {
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;
   }
'''),
('A16', 1, 'msg-end', M, '''   while(start <= ma->HighMsg && !ctrlc)
   {
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))''', '''   while(start < ma->HighMsg && !ctrlc)
   {
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))'''),
('A16', 0, 'r-msg-for', M, '''   while(start <= ma->HighMsg && !ctrlc)
   {
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;
   }
''', '''   for(;!ctrlc && start < ma->HighMsg+1;start++)
      if(!msg_ExportMSGNum(area,start,handlefunc,FALSE))
         return(FALSE);
'''),
('A16', 0, 'r-jam-mark', J, '''   if(!isrescanning)
   {
      scan_total++;
''', '''   if(isrescanning)
   {
      mmFree(mm);
      return(TRUE);
   }

   {
      scan_total++;
'''),
('A16', 0, 'r-jam-killsent', J, '''		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
		{
			if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
			{''', '''		{
			bool kill=(config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL);

			if(kill)
			{'''),
('A16', 0, 'r-jam-export', J, '''   while(start < end && !ctrlc)
   {
      if(!jam_ExportJAMNum(area,start,handlefunc,FALSE))
         return(FALSE);

      start++;
   }

   if(ctrlc)
      return(FALSE);

   ja->HighWater=end-1;
''', '''   for(;start < end;start++)
   {
      if(ctrlc || !jam_ExportJAMNum(area,start,handlefunc,FALSE))
         return(FALSE);
   }

   ja->HighWater=start-1;
'''),
('A16', 1, 'scan-fail', S, '''	            if(!(*area->Messagebase->exportfunc)(area,ScanHandle))
   	         {
          	      AfterScanToss(FALSE);
            	   return(FALSE);
	            }''', '''	            if(!(*area->Messagebase->exportfunc)(area,ScanHandle) && ctrlc)
   	         {
          	      AfterScanToss(FALSE);
            	   return(FALSE);
	            }'''),
('A16', 1, 'scan-local', S, 'if(area->Messagebase && (area->AreaType == AREATYPE_ECHOMAIL || area->AreaType == AREATYPE_NETMAIL))', 'if(area->Messagebase && area->AreaType != AREATYPE_BAD && area->AreaType != AREATYPE_DELETED)'),
('A16', 1, 'scan-noexport', S, '''            else if(area->AreaType == AREATYPE_NETMAIL && (config.cfg_Flags & CFG_NOEXPORTNETMAIL))
            {
               LogWrite(1,USERERR,"Skipping area %s (NOEXPORTNETMAIL is set)", area->Tagname);
            }
''', ''),
('A16', 1, 'scanlist-int', S, '''   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }
   
   LogScanResults();''', '''   LogScanResults();'''),
('A16', 1, 'scanarea-true', S, '''   res=(*area->Messagebase->exportfunc)(area,ScanHandle);

   if(!res)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogScanResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

''', '''   res=(*area->Messagebase->exportfunc)(area,ScanHandle);

   LogScanResults();
   AfterScanToss(TRUE);

   return(res);
}

'''),
('A16', 0, 'r-scanarea', S, '''   if(!res)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogScanResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

''', '''   if(res)
      LogScanResults();

   AfterScanToss(res);

   return(res);
}

'''),
('A16', 1, 'scanhandle', S, 'return HandleMessage(mm);', 'HandleMessage(mm);\n\n   return(!nomem && !ioerror);'),
('A16,A19', 1, 'after-arch', C, '''      if(ArchiveOutbound())
         ProcessSafeDelete();
      else
         success=FALSE;''', '''      if(ArchiveOutbound())
         ProcessSafeDelete();'''),
('A16', 1, 'after-ioerr', C, '''   if(ioerror || nomem)
      success=FALSE;

   if(success)
   {
      if(''', '''   if(success && !ioerror && !nomem)
   {
      if('''),
('A16', 1, 'after-order', C, '''   if(success)
   {
      if(ArchiveOutbound())
         ProcessSafeDelete();
      else
         success=FALSE;
   }

   for(i=0;AvailMessagebases[i].name;i++)
      if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
        (*AvailMessagebases[i].afterfunc)(success);
''', '''   for(i=0;AvailMessagebases[i].name;i++)
      if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
        (*AvailMessagebases[i].afterfunc)(success);

   if(success)
   {
      if(ArchiveOutbound())
         ProcessSafeDelete();
      else
         success=FALSE;
   }
'''),
# A18
('A18', 1, 'lock-excl', C, 'osOpen(buf,MODE_CREATEFILE)', 'osOpen(buf,MODE_NEWFILE)'),
('A18', 1, 'lock-order', C, '''   if(done_init)
      Free();

	if(done_lockconfig)
		UnlockConfig(config.filename);
''', '''	if(done_lockconfig)
		UnlockConfig(config.filename);

   if(done_init)
      Free();
'''),
('A18', 1, 'lock-always', C, '''	if(done_lockconfig)
		UnlockConfig''', '''	if(done_initconfig)
		UnlockConfig'''),
('A18', 1, 'lock-late', C, '''	if(!(done_lockconfig=LockConfig(cfg)))
	{
		printf("Failed to lock configuration file %s\\n",cfg);
		CleanUp(OS_EXIT_ERROR);
	}

   if(!ReadConfig(cfg,&config,&seconderr,&cfgline,errorbuf))''', '''   if(!ReadConfig(cfg,&config,&seconderr,&cfgline,errorbuf))''', C, '''   if(!Init())
      CleanUp''', '''	if(!(done_lockconfig=LockConfig(cfg)))
	{
		printf("Failed to lock configuration file %s\\n",cfg);
		CleanUp(OS_EXIT_ERROR);
	}

   if(!Init())
      CleanUp'''),
('A18', 1, 'lock-ctrlc', C, '''		if(ctrlc)
			return(FALSE);
	}

	osClose(fp);''', '''		if(ctrlc)
			break;
	}

	if(fp) osClose(fp);'''),
('A18', 1, 'lock-name', C, '''	mystrncpy(buf,file,190);
	strcat(buf,".busy");''', '''	mystrncpy(buf,file,190);
	strcat(buf,".bsy");'''),
('A18', 1, 'mode-x', OF, '"wbx"', '"wb"'),
('A18,A15', 1, 'mode-rw', OF, '''   	if(!(fh=fopen(name,"r+b")))
	      fh=fopen(name,"w+b");''', '''	      fh=fopen(name,"w+b");'''),
('A19', 1, 'br-toss', 'crashmail/toss.c', '''      AfterScanToss(FALSE);
''', ''),
('A19', 1, 'br-rescan', C, '''   success=(*area->Messagebase->rescanfunc)(area,max,HandleRescan);
   RescanNode=NULL;

   if(success)
      LogWrite(4,TOSSINGINFO,"Rescanned %u messages",rescan_total);
''', '''   success=(*area->Messagebase->rescanfunc)(area,max,HandleRescan);
   RescanNode=NULL;

   if(!success)
      return(FALSE);

   LogWrite(4,TOSSINGINFO,"Rescanned %u messages",rescan_total);
'''),
('A19', 1, 'br-double', S, '''                  AfterScanToss(FALSE);
                  osClose(fh);
                  return(FALSE);''', '''                  AfterScanToss(FALSE);
                  break;'''),
('A19', 1, 'nl-open', C, '''               if(config.cfg_NodelistType)
                  (*config.cfg_NodelistType->nlEnd)();

               nodelistopen=FALSE;
               return(FALSE);''', '''               return(FALSE);'''),
('A19', 1, 'kw-list', C, 'SendAFList((char *)args[ARG_SENDQUERY].data,SENDLIST_QUERY)', 'SendAFList((char *)args[ARG_SENDQUERY].data,SENDLIST_UNLINKED)'),
('A19', 1, 'kw-arg', C, 'ScanList((char *)args[ARG_SCANDOTJAM].data)', 'x', C, 'ScanDotJam((char *)args[ARG_SCANDOTJAM].data)', 'x') if False else
('A19', 1, 'kw-arg', C, 'ScanDotJam((char *)args[ARG_SCANDOTJAM].data)', 'ScanList((char *)args[ARG_SCANDOTJAM].data)'),
('A19', 1, 'kw-nosec', C, '''	if(args[ARG_NOSECURITY].data)
	{''', '''	if(args[ARG_NOSECURITY].data || args[ARG_TOSSFILE].data)
	{'''),
('A19', 1, 'check-config', C, '''   if(!CheckConfig(&config,errorbuf))
   {
      printf("Configuration error in %s:\\n%s\\n",cfg,errorbuf);
      CleanUp(OS_EXIT_ERROR);
   }''', '''   if(!CheckConfig(&config,errorbuf))
      printf("Configuration error in %s:\\n%s\\n",cfg,errorbuf);'''),
('A18,A19', 0, 'r-main', C, '''	if(!(done_lockconfig=LockConfig(cfg)))
	{''', '''	done_lockconfig=LockConfig(cfg);

	if(!done_lockconfig)
	{'''),
('A19', 0, 'r-close', C, '''   ClosePackets();

   if(ioerror || nomem)
      success=FALSE;
''', '''   ClosePackets();

   success=(success && !ioerror && !nomem);
'''),
('A16', 0, 'r-close2', C, '''   ClosePackets();

   if(ioerror || nomem)
      success=FALSE;
''', '''   ClosePackets();

   success=(success && !ioerror && !nomem);
'''),
('A18', 0, 'r-open', OF, '''   FILE *fh;

   if(mode == MODE_NEWFILE) 
	{
		fh=fopen(name,"wb");
	}
   else if(mode == MODE_CREATEFILE)
	{
		fh=fopen(name,"wbx");
	}
   else if(mode == MODE_OLDFILE) 
	{
		fh=fopen(name,"rb");
	}
	else
	{
   	if(!(fh=fopen(name,"r+b")))
	      fh=fopen(name,"w+b");
	}
''', '''   FILE *fh;
   const char *m;

   switch(mode)
   {
      case MODE_NEWFILE:    m="wb"; break;
      case MODE_CREATEFILE: m="wbx"; break;
      case MODE_OLDFILE:    m="rb"; break;
      default:              m="r+b"; break;
   }

   fh=fopen(name,m);

   if(!fh && mode != MODE_NEWFILE && mode != MODE_OLDFILE && mode != MODE_CREATEFILE)
      fh=fopen(name,"w+b");
'''),
('A18', 0, 'r-cleanup', C, '''   if(done_init)
      Free();

	if(done_lockconfig)
		UnlockConfig(config.filename);
''', '''   if(done_init) Free();
   if(done_lockconfig != 0) { UnlockConfig(config.filename); done_lockconfig=FALSE; }
'''),
]
