# second round: bugs written from the property statements, without looking at the rules
H = 'crashmail/handle.c'
T = 'crashmail/toss.c'
P = 'crashmail/pkt.c'
M = 'crashmail/crashmail.c'
CASES = [
('A01', 1, 'g-emptyish', T, 'if(fe->Size == 0)', 'if(fe->Size < 16)'),
('A01', 1, 'g-ctrlc-bundle', T, '''   jbFreeList(&FEList);

   if(ctrlc)
      return(FALSE);

   return(TRUE);''', '''   jbFreeList(&FEList);

   return(TRUE);'''),
('A01', 1, 'g-ctrlc-pkt', P, '''   if(ctrlc)
   {
      osClose(fh);
      mmFree(mm);
      return(FALSE);
   }
''', ''),
('A01', 1, 'g-order', M, '''      if(ArchiveOutbound())
         ProcessSafeDelete();
      else
         success=FALSE;''', '''      ProcessSafeDelete();

      if(!ArchiveOutbound())
         success=FALSE;'''),
('A01', 1, 'g-nomem', M, 'if(ioerror || nomem)\n      success=FALSE;', 'if(ioerror)\n      success=FALSE;'),
('A01', 1, 'g-close-late', M, '''   ClosePackets();

   if(ioerror || nomem)
      success=FALSE;
''', '''   if(ioerror || nomem)
      success=FALSE;

   ClosePackets();
'''),
('A01', 1, 'g-safedel-first', T, '''      MakeFullPath(dir,fe->Name,buf,200);

      if(!TossBundle(buf,fe))''', '''      MakeFullPath(dir,fe->Name,buf,200);
      SafeDelete(buf);

      if(!TossBundle(buf,fe))'''),
('A01', 1, 'g-arcres-neg', T, '''   if(arcres!=0)
   {
      LogWrite''', '''   if(arcres>0 && arcres!=1)
   {
      LogWrite'''),
('A01', 1, 'g-delete-now', 'crashmail/safedel.c', '   jbAddNode(&DeleteList,(struct jbNode *)fe);', '   if(DeleteList.First) osDelete(fe->Name); else jbAddNode(&DeleteList,(struct jbNode *)fe);'),
('A01', 1, 'g-openfail', P, '''      LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      mmFree(mm);
      return(FALSE);''', '''      LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
      mmFree(mm);
      return(bundled);'''),
('A01', 1, 'g-ctrlc-dir', T, '''   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

bool TossFile''', '''   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

bool TossFile'''),
('A04', 1, 'g-long-one', P, '''      ReadNull(mm->Subject,72,fh);

      /* Corrupt packet? */
''', '''      longread=FALSE;
      ReadNull(mm->Subject,72,fh);

      /* Corrupt packet? */
'''),
('A04', 1, 'g-shortsubj', P, '''   if(ch==-1)
      shortread=TRUE;

   if(ch!=0 && c==maxlen-1)''', '''   if(ch==-1 && c==0)
      shortread=TRUE;

   if(ch!=0 && c==maxlen-1)'''),
('A04', 1, 'g-longedge', P, '''   if(ch!=0 && c==maxlen-1)
      longread=TRUE;''', '''   if(ch!=0 && c>maxlen-1)
      longread=TRUE;'''),
('A04', 1, 'g-shorttext', P, '''         if(shortread)
         {
            osClose(fh);
            mmFree(mm);
            LogWrite(1,TOSSINGERR,"Got''', '''         if(shortread && !buf[0])
         {
            osClose(fh);
            mmFree(mm);
            LogWrite(1,TOSSINGERR,"Got'''),
('A04', 1, 'g-firstline', P, '''      messageend=FALSE;

      ReadCR(buf,200,fh);
''', '''      messageend=FALSE;

      ReadCR(buf,200,fh);
      if(shortread) { messageend=TRUE; shortread=FALSE; }
'''),
('A04', 1, 'g-hdr', P, 'if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)', 'if(osRead(fh,PktHeader,SIZE_PKTHEADER)<SIZE_PKTHEADER/2)'),
('A04', 1, 'g-type', P, 'if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)', 'if((PktHeader[PKTHEADER_PKTTYPE] & 0x0f)!=0x0002)'),
('A04', 1, 'g-msgtype', P, 'while(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE) == 2 && !ctrlc)', 'while(PktMsgHeader[PKTMSGHEADER_PKTTYPE] == 2 && !ctrlc)'),
('A04', 1, 'g-term', P, 'if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)', 'if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0 && msgnum==0)'),
('A04', 1, 'g-badname', 'crashmail/misc.c', '} while(osExists(destname));', '} while(osExists(destname) && num<10);'),
('A04', 1, 'g-baddel', 'crashmail/misc.c', '   if(!movefile(filename,destname))\n', '   if(!movefile(filename,destname) && !osDelete(filename))\n'),
('A05', 1, 'g-destzone', P, 'if((config.cfg_Flags & CFG_CHECKPKTDEST) && !no_security)', 'if((config.cfg_Flags & CFG_CHECKPKTDEST) && !no_security && PktDest.Zone)'),
('A05', 1, 'g-bundled', P, 'if((config.cfg_Flags & CFG_CHECKPKTDEST) && !no_security)', 'if((config.cfg_Flags & CFG_CHECKPKTDEST) && !no_security && !bundled)'),
('A05', 1, 'g-pwonce', P, 'if(tmpcnode && (mm->Area[0] || !(tmpcnode->Flags & NODE_NONETMAILPASSWORD)))', 'if(msgnum==1 && tmpcnode && (mm->Area[0] || !(tmpcnode->Flags & NODE_NONETMAILPASSWORD)))'),
('A05', 1, 'g-pwempty', P, 'stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security', 'buf[0]!=0 && stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security'),
('A05', 1, 'g-pwlen', P, 'stricmp(buf,tmpcnode->PacketPW)!=0', 'strnicmp(buf,tmpcnode->PacketPW,4)!=0'),
('A05', 1, 'g-statsnode', P, '''         if(Compare4D(&tmpcnode->Node,&mm->PktOrig)==0) break;
         
      if(tmpcnode)''', '''         if(Compare4D(&tmpcnode->Node,&mm->OrigNode)==0) break;
         
      if(tmpcnode)'''),
('A05', 1, 'g-area-late', P, '''      if(strncmp(buf,"AREA:",5)==0)
      {
         mystrncpy(mm->Area,&buf[5],80);
         stripleadtrail(mm->Area); /* Strip spaces from area name */
      }
      else
      {''', '''      if(strncmp(buf,"AREA:",5)==0)
      {
         mystrncpy(mm->Area,&buf[5],80);
         stripleadtrail(mm->Area); /* Strip spaces from area name */
      }
      else if(strncmp(buf,"\\x01""AREA:",6)==0)
      {
         tmpcnode=NULL;
         mystrncpy(mm->Area,&buf[6],80);
         stripleadtrail(mm->Area);
      }
      else
      {'''),
('A06', 1, 'g-stale-readonly', H, 'if(temptnode->Flags & TOSSNODE_READONLY)\n      {\n         LogWrite(1', 'if((temptnode->Flags & TOSSNODE_READONLY) && !(temptnode->Flags & TOSSNODE_FEED))\n      {\n         LogWrite(1'),
('A06', 1, 'g-sec-flags', H, 'if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY))', 'if(!(mm->Flags & (MMFLAG_EXPORTED | MMFLAG_NOSECURITY | MMFLAG_RESCANNED)))'),
('A06', 1, 'g-unconf', H, '''   if(temparea->Flags & AREA_UNCONFIRMED)
   {
      toss_bad++;''', '''   if((temparea->Flags & AREA_UNCONFIRMED) && !temparea->Messagebase)
   {
      toss_bad++;'''),
('A06', 1, 'g-tagprefix', H, 'if(stricmp(temparea->Tagname,mm->Area)==0) break;\n\n   /* Auto-add */', 'if(strnicmp(temparea->Tagname,mm->Area,strlen(temparea->Tagname))==0) break;\n\n   /* Auto-add */'),
('A06', 1, 'g-autoadd', H, '   if(!active)\n      temparea->Flags=AREA_UNCONFIRMED;', '   if(!active && !defarea)\n      temparea->Flags=AREA_UNCONFIRMED;'),
('A06', 1, 'g-autoadd2', H, 'tempcnode->Flags & NODE_AUTOADD,FALSE)', 'tempcnode->Flags & (NODE_AUTOADD|NODE_PASSIVE),FALSE)'),
('A06', 1, 'g-bad-forward', H, '''         if(!WriteBad(mm,"Node does not receive this area"))
            return(FALSE);

         return(TRUE);''', '''         if(!WriteBad(mm,"Node does not receive this area"))
            return(FALSE);

         if(temparea->Messagebase) return(TRUE);'''),
('A07', 1, 'g-once', H, 'if(Compare4D(&mm->PktOrig,&temptnode->ConfigNode->Node)!=0)\n            /*', 'if(Compare4D(&mm->OrigNode,&temptnode->ConfigNode->Node)!=0)\n            /*'),
('A07', 1, 'g-stale', H, '''   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      temptnode->ConfigNode->IsInSeenBy=FALSE;

   if((config''', '''   if((config'''),
('A07', 1, 'g-stale2', H, '      temptnode->ConfigNode->IsInSeenBy=FALSE;', '      if(!(temparea->Flags & AREA_IGNORESEENBY)) temptnode->ConfigNode->IsInSeenBy=FALSE;'),
('A07', 1, 'g-twit-order', H, '''	if(mm->Flags & MMFLAG_KILL)
		return(TRUE);

   temparea->NewTexts++;''', '''	if(mm->Flags & (MMFLAG_KILL|MMFLAG_TWIT))
		return(TRUE);

   temparea->NewTexts++;'''),
('A07', 1, 'g-import-skip', H, 'if(!(mm->Flags & MMFLAG_EXPORTED) && temparea->Messagebase)', 'if(!(mm->Flags & (MMFLAG_EXPORTED|MMFLAG_RESCANNED)) && temparea->Messagebase)'),
('A07', 1, 'g-import-res', H, '''      if(!(*temparea->Messagebase->importfunc)(mm,temparea))
			return(FALSE);
   }

   return(TRUE);
}

/******************************* netmail''', '''      (*temparea->Messagebase->importfunc)(mm,temparea);
   }

   return(TRUE);
}

/******************************* netmail'''),
('A07', 1, 'g-find2d', H, 'if(tmp->Net[c]==node->Net && tmp->Node[c]==node->Node) return(TRUE);', 'if(tmp->Node[c]==node->Node) return(TRUE);'),
('A07', 1, 'g-find2d-last', H, 'for(c=0;c<tmp->Nodes;c++)\n         if(tmp->Net', 'for(c=1;c<tmp->Nodes;c++)\n         if(tmp->Net'),
('A07', 1, 'g-find2d-first', H, 'for(tmp=(struct Nodes2D *)list->First;tmp;tmp=tmp->Next)\n      for(c=0', 'for(tmp=(struct Nodes2D *)list->First;tmp && tmp->Next==NULL;tmp=tmp->Next)\n      for(c=0'),
('A07', 1, 'g-stop', H, '''                     if(!WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
                        return(FALSE);
''', '''                     if(!WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
                        return(FALSE);

                     if(mm->Flags & MMFLAG_TWIT) break;
'''),
('A08', 1, 'g-dupe-order', H, 'if(config.cfg_DupeMode!=DUPE_IGNORE && (mm->Flags & MMFLAG_TOSSED)', 'if(config.cfg_DupeMode!=DUPE_IGNORE && temparea->Messagebase && (mm->Flags & MMFLAG_TOSSED)'),
('A08', 1, 'g-crc-only', 'crashmail/dupe.c', 'if(dupecomp(buf,dbuf,dsize) == 0)', 'if(dupecomp(buf,dbuf,4) == 0)'),
('A08', 1, 'g-size', 'crashmail/dupe.c', 'if(size == dsize)\n', 'if(size <= dsize)\n'),
('A08', 1, 'g-noarea', 'crashmail/dupe.c', '   strcpy(&dbuf[dsize],mm->Area);\n   dsize += strlen(mm->Area) + 1;\n', ''),
('A08', 1, 'g-index', 'crashmail/dupe.c', 'for(c=0;c<dupeentrymax;c++)\n      if(dupebuf', 'for(c=0;c<dupeentrynum;c++)\n      if(dupebuf'),
('A08', 1, 'g-wrap', 'crashmail/dupe.c', 'if(dupeentrynum == config.cfg_DupeSize)', 'if(dupeentrynum > config.cfg_DupeSize)'),
('A08', 1, 'g-close', 'crashmail/dupe.c', '   if(!osClose(newfh))\n      ok=FALSE;', '   osClose(newfh);'),
('A08', 1, 'g-copyfirst', 'crashmail/dupe.c', 'for(c=0;ok && c<dupeentrynum;c++)', 'for(c=1;ok && c<dupeentrynum;c++)'),
('A08', 1, 'g-bad', H, 'if(config.cfg_DupeMode == DUPE_BAD)', 'if(config.cfg_DupeMode != DUPE_KILL || tempcnode==NULL)'),
]
