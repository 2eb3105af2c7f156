H, P = 'crashmail/handle.c', 'crashmail/pkt.c'
CASES = [
('A14', 1, 'skip-empty', P, '''      /* Get rest of text */
''', '''      if(messageend && mm->Area[0])
      {
         if(osRead(fh,PktMsgHeader,SIZE_PKTMSGHEADER) < 2) memset(PktMsgHeader,0,SIZE_PKTMSGHEADER);
         continue;
      }

      /* Get rest of text */
'''),
('A14', 1, 'noroute-drop', H, '''         toss_bad++;

         if(!WriteBad(mm,"No routing for destination node"))
            return(FALSE);

         return(TRUE);''', '''         toss_bad++;

         return(TRUE);'''),
('A14', 1, 'loop-drop', H, '''               if(!WriteBad(tmpmm,"Possible loopmail"))
                  return(FALSE);

               mmFree(tmpmm);
''', '''               if(!WriteBad(tmpmm,"Possible loopmail"))
                  return(FALSE);

               mmFree(tmpmm);
               return(TRUE);
'''),
('A14', 1, 'twit-routed-drop', H, '''   /* Find correct area */

   for(tmparea''', '''   if(mm->Flags & MMFLAG_TWIT)
      return(TRUE);

   /* Find correct area */

   for(tmparea'''),
('A14', 1, 'areafix-always', H, '''            if(!(config.cfg_Flags & CFG_IMPORTAREAFIX))
               return(TRUE);''', '''            if(!(config.cfg_Flags & CFG_IMPORTAREAFIX) || (mm->Attr & FLAG_AUDIT))
               return(TRUE);'''),
('A14', 1, 'empty-drop', H, '''      if(!(config.cfg_Flags & CFG_IMPORTEMPTYNETMAIL))
      {
         istext=FALSE;
''', '''      if(!(config.cfg_Flags & CFG_IMPORTEMPTYNETMAIL) || !(mm->Flags & MMFLAG_TOSSED))
      {
         istext=FALSE;
'''),
('A14', 1, 'bounce-forgot', H, '''               if(!Bounce(mm,buf,headeronly))
                  return(FALSE);

               return(TRUE);''', '''               if(headeronly && !Bounce(mm,buf,headeronly))
                  return(FALSE);

               return(TRUE);'''),
('A14', 1, 'route-orig', H, 'if(Compare4DPat(&tmproute->Pattern,&mm->DestNode)==0) break;', 'if(Compare4DPat(&tmproute->Pattern,&mm->OrigNode)==0) break;'),
('A14', 1, 'expand-orig', H, 'ExpandNodePat(&tmproute->DestPat,&mm->DestNode,&Dest4D);', 'ExpandNodePat(&tmproute->DestPat,&mm->PktDest,&Dest4D);'),
('A14', 1, 'first-aka', H, 'if(!WriteNetMail(mm,&Dest4D,tmproute->Aka))', 'if(!WriteNetMail(mm,&Dest4D,((struct Route *)config.RouteList.First)->Aka))'),
('A14', 1, 'receipt-after-empty', H, '''      if((mm->Attr & FLAG_RREQ) && (config.cfg_Flags & CFG_ANSWERRECEIPT))''', '''      if((mm->Attr & FLAG_RREQ) && !(mm->Attr & FLAG_FILEATTACH) && (config.cfg_Flags & CFG_ANSWERRECEIPT))'''),
('A14', 1, 'audit-crash', H, '''(config.cfg_Flags & CFG_ANSWERAUDIT) && (mm->Flags & MMFLAG_TOSSED))''', '''(config.cfg_Flags & CFG_ANSWERAUDIT) && (mm->Flags & MMFLAG_TOSSED) && mm->Type == PKTS_NORMAL)'''),
('A14', 1, 'bad-first-area', H, '''      if(temparea->AreaType == AREATYPE_BAD) break;
''', '''      if(temparea->AreaType == AREATYPE_BAD || temparea->AreaType == AREATYPE_DEFAULT) break;
'''),
('A14', 1, 'bad-twice', H, '''   if(temparea->Messagebase)
   {
      if(!((*temparea->Messagebase->importfunc)(mm,temparea)))
         return(FALSE);
   }
''', '''   if(temparea->Messagebase && !(mm->Flags & MMFLAG_EXPORTED))
   {
      if(!((*temparea->Messagebase->importfunc)(mm,temparea)))
         return(FALSE);
   }
'''),
('A14', 1, 'dispatch', H, '''   if(mm->Area[0]==0) res=HandleNetmail(mm);
   else               res=HandleEchomail(mm);
''', '''   res=TRUE;
   if(mm->Area[0]==0) res=HandleNetmail(mm);
   else if(handle_nesting < 3) res=HandleEchomail(mm);
'''),
('A14', 0, 'dispatch-ref', H, '''   bool res;

   LogWrite(6,DEBUG,"Is in HandleMessage()");

   handle_nesting++;

   if(mm->Area[0]==0) res=HandleNetmail(mm);
   else               res=HandleEchomail(mm);

   handle_nesting--;

   return(res);
''', '''   bool ok;

   LogWrite(6,DEBUG,"Is in HandleMessage()");

   handle_nesting++;
   ok = mm->Area[0] ? HandleEchomail(mm) : HandleNetmail(mm);
   handle_nesting--;

   return(ok ? TRUE : FALSE);
'''),
('A14', 0, 'bad-ref', H, '''   for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
      if(temparea->AreaType == AREATYPE_BAD) break;

   if(!temparea)
   {
      LogWrite(2,TOSSINGERR,"No BAD area configured, message lost");''', '''   temparea=(struct Area *)config.AreaList.First;

   while(temparea && temparea->AreaType != AREATYPE_BAD)
      temparea=temparea->Next;

   if(temparea == NULL)
   {
      LogWrite(2,TOSSINGERR,"No BAD area configured, message lost");'''),
('A14', 0, 'route-ref', H, '''      for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
         if(Compare4DPat(&tmproute->Pattern,&mm->DestNode)==0) break;
''', '''      tmproute=(struct Route *)config.RouteList.First;

      while(tmproute != NULL)
      {
         if(!Compare4DPat(&tmproute->Pattern,&mm->DestNode))
            break;

         tmproute=tmproute->Next;
      }
'''),
]
