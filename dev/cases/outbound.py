O='crashmail/outbound.c'; MI='crashmail/misc.c'
CASES=[
('A15',1,'unlock-missing-mem',O,'''			nomem=TRUE;
			UnlockBasename(basename);
			return(FALSE);''','''			nomem=TRUE;
			return(FALSE);'''),
('A15',1,'unlock-foreign',O,'''		printf("Cannot add to %s, node is busy...\\n",GetFilePart(basename));
		MakeOrphan(filename,n4d,type,mode);
		return(FALSE);''','''		printf("Cannot add to %s, node is busy...\\n",GetFilePart(basename));
		MakeOrphan(filename,n4d,type,mode);
		UnlockBasename(basename);
		return(FALSE);'''),
('A15',1,'lock-noexists',O,'''	if(osExists(buf))
		return(FALSE);
	
	if(!(fp''','''	if(!(fp'''),
('A15',1,'delete-before-pack',O,'''				UpdateFile(arcname);

            osDelete(pktname);

            if(!doAddFlow''','''				UpdateFile(arcname);

            if(!doAddFlow''',O,'''         ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
         res=osExecute(buf);
''','''         ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
         res=osExecute(buf);
         osDelete(pktname);
'''),
('A15',1,'packer-res1-ok',O,'''         if(res == 0)
         {
				UpdateFile(arcname);''','''         if(res <= 1)
         {
				UpdateFile(arcname);'''),
('A15',1,'orphan-dropped',O,'''            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
''','''            doAddFlow(pktname,basename,pri,FLOW_DELETE);
'''),
('A15',1,'orphan-wrong-file',O,'''               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
''','''               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
'''),
('A15',1,'writeerror-close',O,'''		if(!osClose(ofh))
			{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }
''','''		if(!osClose(ofh))
			{ ioerror=TRUE; ioerrornum=osError(); }
'''),
('A15',1,'noseek',O,'''			osSeek(ofh,-2,OFFSET_END);
''','''			osSeek(ofh,0,OFFSET_END);
'''),
('A15',1,'orphan-always-deleted',O,'''   if(doAddFlow(buf,basename,type,mode))
   	osDelete(name); /* Orphan file no longer needed */
''','''   doAddFlow(buf,basename,type,mode);
  	osDelete(name); /* Orphan file no longer needed */
'''),
('A15',1,'busy-orphan',O,'''		printf("Cannot add to %s, node is busy...\\n",GetFilePart(basename));
      return;
''','''		printf("Cannot add to %s, node is busy...\\n",GetFilePart(basename));
		osDelete(name);
      return;
'''),
('A15',1,'flow-close',O,'''   if(!osClose(fh))
      res=FALSE;

   return(res);''','''   osClose(fh);

   return(res);'''),
('A15',1,'flow-noend',O,'''   osSeek(fh,0,OFFSET_END);

   prefix="";''','''   prefix="";'''),
('A15',1,'maketmp-ignored',O,'''			if(!MakePktTmp(buf))
			{
      		jbFreeList(&PktList);
      		jbFreeList(&ArcList);
		      return(FALSE);
			}
''','''			MakePktTmp(buf);
'''),
('A15',1,'packfile-ignored',O,'''      if(!PackFile(buf))
			if(!MakePktTmp(buf))
			{
      		jbFreeList(&PktList);
      		jbFreeList(&ArcList);
		      return(FALSE);
			}
''','''      PackFile(buf);
'''),
('A15',1,'zero-small',O,'''      if(fe->Size == 0)
      {
         MakeFullPath''','''      if(fe->Size <= 2)
      {
         MakeFullPath'''),
('A15',1,'movefile-delete',MI,'''   if(!copyfile(file,newfile))
      return(FALSE);
 
   osDelete(file);
   return(TRUE);    
''','''   if(copyfile(file,newfile))
      return(TRUE);
 
   osDelete(file);
   return(FALSE);    
'''),
('A15',1,'copy-noclose',MI,'''   if(!osClose(ofh))
		{ ioerror=TRUE; ioerrornum=osError(); }

   osClose(ifh);

   if(ioerror)''','''   osClose(ofh);
   osClose(ifh);

   if(ioerror)'''),
('A15',1,'beforepack-noreturn',O,'''            if(res != 0)
            {
	            osRename(pktname,file);
               LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
	   			UnlockBasename(basename);
   				return(FALSE);
            }
''','''            if(res != 0)
            {
	            osRename(pktname,file);
               LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
            }
'''),
('A15',1,'pack-norename-back',O,'''	         osRename(pktname,file);
            LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
''','''            LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
'''),
('A15',1,'overwrite-out',O,'''		if(osExists(buf))
		{
			if(!(ofh''','''		if(type != PKTS_HOLD && osExists(buf))
		{
			if(!(ofh'''),
('A15',1,'delete-filed',O,'''            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
''','''            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);

            if(cnode && (cnode->Flags & NODE_PASSIVE))
               osDelete(pktname);
'''),
# behaviour kept
('A15',0,'goto-unlock',O,'''         if(!movefile(file,pktname))
         {
            LogWrite(1,SYSTEMERR,"Failed to move file \\"%s\\" to \\"%s\\"",file,pktname);
				UnlockBasename(basename);
				return(FALSE);
         }
         else
         {
            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
         }
''','''         if(movefile(file,pktname))
         {
            if(doAddFlow(pktname,basename,pri,FLOW_DELETE)==FALSE)
               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
         }
         else
         {
            LogWrite(1,SYSTEMERR,"Failed to move file \\"%s\\" to \\"%s\\"",file,pktname);
            goto failed;
         }
''',O,'''	UnlockBasename(basename);
	
	return(TRUE);
}

bool ArchiveOutbound''','''	UnlockBasename(basename);
	
	return(TRUE);

failed:
	UnlockBasename(basename);
	return(FALSE);
}

bool ArchiveOutbound'''),
('A15',0,'copy-helper',O,'''		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
		{
			if(!osWrite(ofh,copybuf,readlen))
				{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }
		}
				
		osClose(ifh);
''','''		if(!CopyRest(ifh,ofh,copybuf))
			writeerror=TRUE;
				
		osClose(ifh);
''',O,'''bool PackFile(char *file)
{''','''static bool CopyRest(osFile ifh,osFile ofh,char *copybuf)
{
	uint32_t len;
	bool ok;

	ok=TRUE;

	for(;;)
	{
		len=osRead(ifh,copybuf,COPYBUFSIZE);

		if(len == 0)
			break;

		if(osWrite(ofh,copybuf,len))
			continue;

		ioerror=TRUE;
		ioerrornum=osError();
		ok=FALSE;
	}

	return(ok);
}

bool PackFile(char *file)
{'''),
('A15',0,'file-helper',O,'''            if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
''','''            FileIt(arcname,basename,&n4d,cnode->EchomailPri);
''',O,'''bool PackFile(char *file)
{''','''static void FileIt(char *name,char *basename,struct Node4D *n4d,char pri)
{
   if(doAddFlow(name,basename,pri,FLOW_DELETE))
      return;

   MakeOrphan(name,n4d,pri,FLOW_DELETE);
}

bool PackFile(char *file)
{'''),
('A15',0,'zero-for',O,'''   fe=(struct osFileEntry *)arclist->First;

	while(fe)
	{
		fe2=fe->Next;

      if(fe->Size == 0)
      {
''','''   for(fe=(struct osFileEntry *)arclist->First;fe;fe=fe2)
	{
		fe2=fe->Next;

      if(fe->Size > 0)
         continue;

      {
''',O,'''			jbFreeNode(&ArcList,(struct jbNode *)fe);
		}

		fe=fe2;
	}''','''			jbFreeNode(&ArcList,(struct jbNode *)fe);
		}
	}'''),
('A15',0,'delete-after-flow',O,'''            osDelete(pktname);

            if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
''','''            if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);

            osDelete(pktname);
'''),
]
