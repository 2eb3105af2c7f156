T='crashmail/toss.c'; C='crashmail/crashmail.c'; M='crashmail/mb_msg.c'; H='crashmail/handle.c'
CASES=[
('A01',1,'g4-delete-zero-time',T,"   if(fe->Size == 0)\n   {\n      LogWrite(1,TOSSINGINFO,\"Deleting zero","   if(fe->Size < 22)\n   {\n      LogWrite(1,TOSSINGINFO,\"Deleting zero"),
('A01',1,'g4-badfile-result',T,"      if(!BadFile(file,buf2))\n         return(FALSE);","      BadFile(file,buf2);"),
('A01',1,'g4-ctrlc-bundle',T,"   jbFreeList(&FEList);\n\n   if(ctrlc)\n      return(FALSE);\n\n   return(TRUE);\n}\n\nbool TossDir","   jbFreeList(&FEList);\n\n   return(TRUE);\n}\n\nbool TossDir"),
('A01',1,'g4-ctrlc-dir',T,"""   if(ctrlc)
   {
      AfterScanToss(FALSE);
      return(FALSE);
   }

   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

bool TossFile""","""   LogTossResults();
   AfterScanToss(TRUE);

   return(TRUE);
}

bool TossFile"""),
('A01',1,'g4-unpack-result',T,"   if(arcres!=0)\n   {","   if(arcres>0)\n   {"),
('A01',1,'g4-safedel-name',T,"         if(strcmp(safedel->Name,buf)==0) break;","         if(strcmp(GetFilePart(safedel->Name),pktfe->Name)==0) break;"),
('A18',1,'g4-unlock-name',C,"	mystrncpy(buf,file,190);\n	strcat(buf,\".busy\");\n	\n	osDelete(buf);","	mystrncpy(buf,file,90);\n	strcat(buf,\".busy\");\n	\n	osDelete(buf);"),
('A18',1,'g4-lock-oldfile',C,"while(!(fp=osOpen(buf,MODE_CREATEFILE)))","while(osExists(buf) || !(fp=osOpen(buf,MODE_NEWFILE)))"),
('A18',1,'g4-cleanup-order',C,"   if(done_init)\n      Free();\n\n	if(done_lockconfig)\n		UnlockConfig(config.filename);\n","	if(done_lockconfig)\n		UnlockConfig(config.filename);\n\n   if(done_init)\n      Free();\n"),
('A18',1,'g4-unlock-anyway',C,"	if(done_lockconfig)\n		UnlockConfig(config.filename);\n","	if(done_initconfig)\n		UnlockConfig(config.filename);\n"),
('A19',1,'g4-remove-open',C,"      LogWrite(1,USERERR,\"Unknown area %s\",areaname);\n      AfterScanToss(FALSE);\n      return(TRUE);\n   }\n\n   LogWrite(1,AREAFIX","      LogWrite(1,USERERR,\"Unknown area %s\",areaname);\n      return(TRUE);\n   }\n\n   LogWrite(1,AREAFIX"),
('A19',1,'g4-nosec',C,"	if(args[ARG_NOSECURITY].data)\n","	if(args[ARG_NOSECURITY].data || args[ARG_TOSSFILE].data)\n"),
('A19',1,'g4-check-skip',C,"   if(!CheckConfig(&config,errorbuf))\n   {\n      printf(\"Configuration error in %s:\\n%s\\n\",cfg,errorbuf);\n      CleanUp","   if(!CheckConfig(&config,errorbuf))\n   {\n      printf(\"Configuration error in %s:\\n%s\\n\",cfg,errorbuf);\n      if(!args[ARG_TOSS].data) CleanUp"),
('A16',1,'g4-rescan-count',M,"      start=ma->HighMsg-max+1;","      start=ma->HighMsg-max;"),
('A16',1,'g4-start',M,"   if(ma->HighWater) start=ma->HighWater+1;\n","   if(ma->HighWater) start=ma->HighWater+2;\n"),
('A16',1,'g4-sent-and-local',M,"if((Msg.Attr & FLAG_SENT) || !(Msg.Attr & FLAG_LOCAL))","if((Msg.Attr & FLAG_SENT) && !(Msg.Attr & FLAG_LOCAL))"),
('A16',1,'g4-rescan-kill',M,"   if(!isrescanning)\n   {\n      scan_total++;","   if(!isrescanning || (oldattr & FLAG_KILLSENT))\n   {\n      scan_total++;"),
('A16',1,'g4-highwater-success',M,"   if(success && (config.cfg_msg_Flags & CFG_MSG_HIGHWATER))","   if(config.cfg_msg_Flags & CFG_MSG_HIGHWATER)"),
('A21',1,'g4-attr-mask',M,"FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT|FLAG_HOLD);\n   mm->Cost","FLAG_RREQ|FLAG_AUDIT|FLAG_HOLD);\n   mm->Cost"),
('A16',1,'g4-shortread',M,"   } while(!msg_messageend && !msg_shortread);\n\n   osClose(fh);\n\n   mm->msgnum=num;","   } while(!msg_messageend && !msg_shortread);\n\n   osClose(fh);\n\n   mm->msgnum=num;\n   ma->HighWater=num;"),
]
