H='crashmail/handle.c'; P='crashmail/pkt.c'; M='crashmail/memmessage.c'; F='crashmail/filter.c'; O='crashmail/outbound.c'; MI='crashmail/misc.c'
J='crashmail/mb_jam.c'; MS='crashmail/mb_msg.c'; JB='jamlib/mbase.c'; JM='jamlib/message.c'; JS='jamlib/structrw.c'; OS='oslib_linux/osfile.c'; C='crashmail/crashmail.c'
CASES=[
('A02',1,'addbuf-nomark',M,'''      if(!(chunk=(struct TextChunk *)osAlloc(sizeof(struct TextChunk))))
      {
        	nomem=TRUE;
         return(FALSE);''','''      if(!(chunk=(struct TextChunk *)osAlloc(sizeof(struct TextChunk))))
      {
         return(FALSE);'''),
('A02',1,'addpath-true',M,'''      return mmAddPath(&buf[7],&mm->Path);
''','''   {
      mmAddPath(&buf[7],&mm->Path);
      return(TRUE);
   }
''',M,'''         nomem=TRUE;
         return(FALSE);
      }

      jbAddNode(list,(struct jbNode *)path);''','''         return(FALSE);
      }

      jbAddNode(list,(struct jbNode *)path);'''),
('A02',1,'writebad-ignored-import',H,'''      if(!((*temparea->Messagebase->importfunc)(mm,temparea)))
         return(FALSE);
   }

   /* Remove first''','''      if(!((*temparea->Messagebase->importfunc)(mm,temparea)))
         LogWrite(1,SYSTEMERR,"Failed to write message to bad area");
   }

   /* Remove first'''),
('A02',1,'netmail-write-ignored',H,'''      if(!WriteNetMail(mm,&Dest4D,tmproute->Aka))
         return(FALSE);
''','''      if(!WriteNetMail(mm,&Dest4D,tmproute->Aka))
         LogWrite(1,SYSTEMERR,"Failed to write message");
'''),
('A02',1,'audit-ignored',H,'''         if(!AnswerAudit(mm))
            return(FALSE);
''','''         AnswerAudit(mm);
'''),
('A02',1,'filtercopy-ignored',F,'''   if(!((*area->Messagebase->importfunc)(mm,area)))
      return(FALSE);

   area->NewTexts++;
''','''   if((*area->Messagebase->importfunc)(mm,area))
      area->NewTexts++;
'''),
('A02',1,'mark-cleared',P,'''   if(ioerror)
   {
      osClose(pkt->fh);
      osFree(pkt);
      return(NULL);''','''   if(ioerror)
   {
      ioerror=FALSE;
      osClose(pkt->fh);
      osFree(pkt);
      return(NULL);'''),
('A01',1,'after-nomem',C,'if(ioerror || nomem)','if(ioerror)'),
('A01,A02',0,'after-rewrite',C,'''   if(ioerror || nomem)
      success=FALSE;
''','''   success = success && !ioerror && !nomem;
'''),
('A03',1,'finish-close',P,'''   if(!osClose(pkt->fh))
''','''   if(!osClose(pkt->fh) && pkt->Len==0)
'''),
('A03',1,'pktwrite-nomark',P,'''		{ ioerror=TRUE; ioerrornum=osError(); }

   pkt->Len''','''		ioerrornum=osError();

   pkt->Len'''),
('A03',1,'msg-close',MS,'''   if(!osPutChar(fh,0))
		{ ioerror=TRUE; ioerrornum=osError(); }

   if(!osClose(fh))
		{ ioerror=TRUE; ioerrornum=osError(); }
''','''   if(!osPutChar(fh,0))
		{ ioerror=TRUE; ioerrornum=osError(); }

   osClose(fh);
'''),
('A03',1,'msg-path-write',MS,'''            if(!osWrite(fh,path->Path[c],(uint32_t)strlen(path->Path[c])))
					{ ioerror=TRUE; ioerrornum=osError(); }
''','''            osWrite(fh,path->Path[c],(uint32_t)strlen(path->Path[c]));
'''),
('A03',1,'rfc-nomark',MI,'''      if(!osFPrintf(fh,"References: <%s>\\n",mm->REPLY))
			{ ioerror=TRUE; ioerrornum=osError(); }
''','''      osFPrintf(fh,"References: <%s>\\n",mm->REPLY);
'''),
('A03',1,'jam-unlock',J,'''   if(JAM_UnlockMB(ja->Base_PS))
      res=JAM_IO_ERROR;
''','''   JAM_UnlockMB(ja->Base_PS);
'''),
('A03',1,'jam-nomem',J,'''   if(jam_nomem)
   {
      LogWrite(1,SYSTEMERR,"Out of memory");
      JAM_DelSubPacket(SubPacket_PS);
      if(msgsize) osFree(msgtext);
      return(FALSE);
   }
''',''''''),
('A03',1,'jam-res',J,'''   if(res)
   {
      LogWrite(1,SYSTEMERR,"Failed to write message to JAM messagebase \\"%s\\"",area->Path);
      return(FALSE);
   }
''','''   if(res == JAM_LOCK_FAILED)
   {
      LogWrite(1,SYSTEMERR,"Failed to write message to JAM messagebase \\"%s\\"",area->Path);
      return(FALSE);
   }
'''),
('A03',1,'jam-text-short',JM,'''   	if ( 1 > fwrite( Text_PC, TextLen_I, 1, Base_PS->TxtFile_PS ) ) {''','''   	if ( 1 > fwrite( Text_PC, 1, TextLen_I, Base_PS->TxtFile_PS ) ) {'''),
('A03',1,'jam-sub',JM,'''	      if ( 1 > fwrite( Subfield_PS->Buffer, Subfield_PS->DatLen,
	           1, Base_PS->HdrFile_PS ) ) {
        	   Base_PS->Errno_I = errno;
	           return JAM_IO_ERROR;
	      }''','''	      fwrite( Subfield_PS->Buffer, Subfield_PS->DatLen, 1, Base_PS->HdrFile_PS );'''),
('A03',1,'jam-status',JM,'''   Status_I = JAM_WriteMBHeader( Base_PS, &BaseHeader_S );
   if ( Status_I )
        return Status_I;

   return 0;
}''','''   JAM_WriteMBHeader( Base_PS, &BaseHeader_S );

   return 0;
}'''),
('A03',1,'jam-index',JS,'''   if(fwrite(buf,SIZE_JAMINDEX,1,fp) != 1)
      return 0;

   return 1;''','''   return fwrite(buf,1,SIZE_JAMINDEX,fp) > 0;'''),
('A03',1,'oswrite-short',OS,'''   if(fwrite(buf,1,bytes,(FILE *)os)!=bytes)
		return(FALSE);
''','''   if(fwrite(buf,1,bytes,(FILE *)os)==0)
		return(FALSE);
'''),
('A03',1,'osprintf-sign',OS,'''   res=vfprintf(os,fmt,args);
   va_end(args);
	
	if(res < 0)
		return(FALSE);
''','''   res=vfprintf(os,fmt,args);
   va_end(args);
	
	if(res == 0)
		return(FALSE);
'''),
('A03',1,'osclose',OS,'''   if(fclose((FILE *)os)==EOF)
		return(FALSE);

	return(TRUE);''','''   fclose((FILE *)os);

	return(TRUE);'''),
('A03',1,'flow-res',O,'''   if(!osClose(fh))
      res=FALSE;

   return(res);''','''   osClose(fh);

   return(res);'''),
('A03',1,'flow-orphan',O,'''	if(!doAddFlow(filename,basename,type,mode))
		MakeOrphan(filename,n4d,type,mode);
''','''	doAddFlow(filename,basename,type,mode);
'''),
('A03',1,'orphan-nomark',O,'''   if(!osPuts(fh,buf))
		{ ioerror=TRUE; ioerrornum=osError(); }
''','''   osPuts(fh,buf);
'''),
('A03',1,'movefile',MI,'''   if(!copyfile(file,newfile))
      return(FALSE);
 
   osDelete(file);
   return(TRUE);''','''   if(copyfile(file,newfile))
      osDelete(file);

   return(TRUE);'''),
# equivalent rewrites
('A03',0,'oswrite-expr',OS,'''   if(fwrite(buf,1,bytes,(FILE *)os)!=bytes)
		return(FALSE);
		
	return(TRUE);''','''   return fwrite(buf,1,bytes,(FILE *)os)==bytes;'''),
('A03',0,'oswrite-count',OS,'''   if(fwrite(buf,1,bytes,(FILE *)os)!=bytes)
		return(FALSE);
		
	return(TRUE);''','''   size_t n=fwrite(buf,1,bytes,(FILE *)os);

   return (n < bytes) ? FALSE : TRUE;'''),
('A03',0,'osprintf-expr',OS,'''   res=vfprintf(os,fmt,args);
	
	if(res < 0)
		return(FALSE);
		
	return(TRUE);''','''   res=vfprintf(os,fmt,args);

	return(res >= 0);'''),
('A03',0,'msg-helper',MS,'''bool msg_WriteMSG(struct MemMessage *mm,char *file)
{''','''static void put(osFile fh,void *buf,uint32_t len)
{
   if(!osWrite(fh,buf,len))
   {
      ioerror=TRUE;
      ioerrornum=osError();
   }
}

bool msg_WriteMSG(struct MemMessage *mm,char *file)
{''',MS,'''            if(!osWrite(fh,path->Path[c],(uint32_t)strlen(path->Path[c])))
					{ ioerror=TRUE; ioerrornum=osError(); }

            if(!osWrite(fh,"\\x0d",1))
					{ ioerror=TRUE; ioerrornum=osError(); }
''','''            put(fh,path->Path[c],(uint32_t)strlen(path->Path[c]));
            put(fh,"\\x0d",1);
'''),
('A03',0,'jam-res-order',J,'''   res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);

   if(JAM_UnlockMB(ja->Base_PS))
      res=JAM_IO_ERROR;
''','''   res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);

   int unlockres=JAM_UnlockMB(ja->Base_PS);
   if(!res) res=unlockres;
'''),
('A02',0,'netmail-write-goto',H,'''      if(!WriteNetMail(mm,&Dest4D,tmproute->Aka))
         return(FALSE);
''','''      bool ok;
      ok=WriteNetMail(mm,&Dest4D,tmproute->Aka);
      if(ok==FALSE)
         return(ok);
'''),
('A02',0,'filter-flag',F,'''   if(!((*area->Messagebase->importfunc)(mm,area)))
      return(FALSE);

   area->NewTexts++;

   jbFreeList(&mm->TextChunks);

   mm->TextChunks.First=oldlist.First;
   mm->TextChunks.Last=oldlist.Last;

   return(TRUE);''','''   bool ok;

   if((ok=(*area->Messagebase->importfunc)(mm,area)))
   {
      area->NewTexts++;

      jbFreeList(&mm->TextChunks);

      mm->TextChunks.First=oldlist.First;
      mm->TextChunks.Last=oldlist.Last;
   }

   return(ok);'''),
]
