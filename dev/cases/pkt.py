P='crashmail/pkt.c'; T='crashmail/toss.c'; M='crashmail/misc.c'; C='crashmail/crashmail.c'
CASES=[
('A01',1,'readpkt-ignore-handler',P,'''      if(!(*handlefunc)(mm))
      {
         osClose(fh);
         mmFree(mm);
         return(FALSE);''','''      if(!(*handlefunc)(mm))
      {
         osClose(fh);
         mmFree(mm);
         return(TRUE);'''),
('A01',1,'tossdir-delete-first',T,'''      if(!TossBundle(buf,fe))
      {
         jbFreeList(&PktFEList);''','''      SafeDelete(buf);
      if(!TossBundle(buf,fe))
      {
         jbFreeList(&PktFEList);'''),
('A01',1,'tossfile-after-true',T,'''      if(!ReadPkt(file,fe,FALSE,HandleMessage))
      {
         osFree(fe);
         AfterScanToss(FALSE);''','''      if(!ReadPkt(file,fe,FALSE,HandleMessage))
      {
         osFree(fe);
         AfterScanToss(TRUE);'''),
('A01',1,'tossdir-ctrlc-true',T,'''   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogTossResults();''','''   if(ctrlc)
   {
      AfterScanToss(TRUE);
      return(FALSE);
   }

   LogTossResults();'''),
('A01',1,'bundle-tempdir-true',T,'''      LogWrite(1,SYSTEMERR,"Unable to find temp directory \\"%s\\"",config.cfg_TempDir);
      return(FALSE);''','''      LogWrite(1,SYSTEMERR,"Unable to find temp directory \\"%s\\"",config.cfg_TempDir);
      return(TRUE);'''),
('A01',1,'bundle-readdir-true',T,'''      LogWrite(1,SYSTEMERR,"Failed to read directory \\"%s\\"",config.cfg_TempDir);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      return(FALSE);''','''      LogWrite(1,SYSTEMERR,"Failed to read directory \\"%s\\"",config.cfg_TempDir);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      return(TRUE);'''),
('A01',1,'bundle-ctrlc',T,'''   if(ctrlc)
      return(FALSE);

   return(TRUE);''','''   return(TRUE);'''),
('A01',1,'bundle-delete-before-read',T,'''         if(!ReadPkt(buf,pktfe,TRUE,HandleMessage))
         {''','''         osDelete(buf);
         if(!ReadPkt(buf,pktfe,TRUE,HandleMessage))
         {'''),
('A01',1,'after-safedelete-always',C,'''   for(i=0;AvailMessagebases[i].name;i++)
      if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)''','''   if(!success) ProcessSafeDelete();
   for(i=0;AvailMessagebases[i].name;i++)
      if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)'''),
('A01',0,'helper-extracted',T,'''bool TossDir(char *dir)
{''','''static bool OneFile(char *name,struct osFileEntry *fe,bool arc)
{
   bool ok;

   ok = arc ? TossBundle(name,fe) : ReadPkt(name,fe,FALSE,HandleMessage);

   if(ok)
      SafeDelete(name);

   return ok;
}

bool TossDir(char *dir)
{''',T,'''      if(!ReadPkt(buf,fe,FALSE,HandleMessage))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(buf);
''','''      if(!OneFile(buf,fe,FALSE))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }
''',T,'''      if(!TossBundle(buf,fe))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(buf);
''','''      if(!OneFile(buf,fe,TRUE))
      {
         jbFreeList(&PktFEList);
         jbFreeList(&ArcFEList);
         AfterScanToss(FALSE);
         return(FALSE);
      }
'''),
('A01',0,'tossfile-restructured',T,'''   if(IsPkt(fe->Name))
   {
      if(!ReadPkt(file,fe,FALSE,HandleMessage))
      {
         osFree(fe);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(file);
   }
   else
   {
      if(!TossBundle(file,fe))
      {
         osFree(fe);
         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(file);
   }

   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);''','''   bool ok;

   if(IsPkt(fe->Name)) ok=ReadPkt(file,fe,FALSE,HandleMessage);
   else                ok=TossBundle(file,fe);

   if(ok)
   {
      SafeDelete(file);
      LogTossResults();
   }
   else
      osFree(fe);

   AfterScanToss(ok);

   return(ok);'''),
('A04',1,'no-longread',P,'''      if(longread)
      {''','''      if(longread && 0)
      {'''),
('A04',1,'no-shortread-text',P,'''         if(shortread)
         {
            osClose(fh);''','''         if(shortread && !messageend && !buf[0])
         {
            osClose(fh);'''),
('A04',1,'shortread-sets-end',P,'''         if(shortread)
         {
            osClose(fh);''','''         if(shortread) break;
         if(shortread)
         {
            osClose(fh);'''),
('A04',1,'no-type-check',P,'''   if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)''','''   if(getuword(PktHeader,PKTHEADER_PKTTYPE)>0x0002)'''),
('A04',1,'badfile-overwrite',M,'''   } while(osExists(destname));''','''   } while(num < 2 && osExists(destname));'''),
('A04',1,'badfile-delete',M,'''   if(!movefile(filename,destname))
   {''','''   if(num > 10) { osDelete(filename); return TRUE; }
   if(!movefile(filename,destname))
   {'''),
('A04',1,'movefile-delete',M,'''   if(!copyfile(file,newfile))
      return(FALSE);
 
   osDelete(file);
   return(TRUE);    ''','''   bool ok=copyfile(file,newfile);
   osDelete(file);
   return(ok);'''),
('A04',1,'copyfile-ignores',M,'''   if(ioerror)
   {
      osDelete(newfile);
      return(FALSE);
   }''','''   if(ioerror)
   {
      LogWrite(1,SYSTEMERR,"copy failed");
   }'''),
('A04',0,'badfile-for',M,'''   num=0;

   do
   {
      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,90);
      strcat(destname,".bad");

      if(num != 0)
      {
         sprintf(numbuf,",%d",num);
         strcat(destname,numbuf);
      }

      num++;

   } while(osExists(destname));
''','''   for(num=0;;num++)
   {
      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,90);
      strcat(destname,".bad");

      if(num > 0)
      {
         sprintf(numbuf,",%d",num);
         strcat(destname,numbuf);
      }

      if(!osExists(destname))
         break;
   }
'''),
('A05',1,'no-pw',P,'''stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security''','''strnicmp(buf,tmpcnode->PacketPW,strlen(buf))!=0 && !no_security'''),
('A05',1,'pw-empty',P,'''if(tmpcnode->PacketPW[0]!=0 && stricmp(buf''','''if(tmpcnode->PacketPW[0]!=0 && buf[0]!=0 && stricmp(buf'''),
('A05',1,'pw-netmail',P,'''if(tmpcnode && (mm->Area[0] || !(tmp''','''if(tmpcnode && (mm->Area[0] && !(tmp'''),
('A05',1,'pw-wronglookup',P,'''   for(tmpcnode=(struct ConfigNode *)config.CNodeList.First;tmpcnode;tmpcnode=tmpcnode->Next)
      if(Compare4D(&PktOrig,&tmpcnode->Node)==0) break;

   if(tmpcnode)''','''   for(tmpcnode=(struct ConfigNode *)config.CNodeList.First;tmpcnode;tmpcnode=tmpcnode->Next)
      if(Compare4D(&PktDest,&tmpcnode->Node)==0) break;

   if(tmpcnode)'''),
('A05',1,'dest-orig',P,'''if(Compare4D(&tmpaka->Node,&PktDest) == 0) break;''','''if(Compare4D(&tmpaka->Node,&PktOrig) == 0) break;'''),
('A05',1,'dest-empty',P,'''      if(!tmpaka)
      {
         LogWrite(1,TOSSINGERR,"Addr''','''      if(!tmpaka && PktDest.Zone)
      {
         LogWrite(1,TOSSINGERR,"Addr'''),
('A05',0,'pw-helper',P,'''bool ReadPkt(char *pkt,''','''static bool WrongPassword(struct ConfigNode *cn,uint8_t *hdr)
{
   char pw[9];

   strncpy(pw,(char *)&hdr[PKTHEADER_PASSWORD],8);
   pw[8]=0;

   return cn->PacketPW[0] && stricmp(pw,cn->PacketPW)!=0;
}

bool ReadPkt(char *pkt,''',P,'''		  strncpy(buf,(char *)&PktHeader[PKTHEADER_PASSWORD],8);
		  buf[8]=0;

		  if(tmpcnode->PacketPW[0]!=0 && stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security)''','''		  if(!no_security && WrongPassword(tmpcnode,PktHeader))'''),
]
