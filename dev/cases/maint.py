F = 'tools/crashmaint.c'
KNW = '''      while(num>area->KeepNum && !ctrlc)
      {
         while(msg->Num==0)
            msg=msg->Next;
'''
DELNUM = '''         osDelete(buf);

         msg->Num=0;
         num--;
         del++;
'''
CASES = [
    # the defects that were repaired
    ('A22', 1, 'm-future-msg', F, 'if(msg->Day < today && today - msg->Day > area->KeepDays', 'if(today - msg->Day > area->KeepDays'),
    ('A22', 1, 'm-future-jam', F, 'if(day < today && today-day > area->KeepDays', 'if(today-day > area->KeepDays'),
    ('A22', 1, 'm-default-keep', F, '         LastArea=NULL;\n\n', ''),
    ('A22', 1, 'm-rename-goes-on', F, ',msg->Num,msg->NewNum);\n               break;', ',msg->Num,msg->NewNum);'),
    ('A22', 1, 'm-mark-exact', F, 'if(msg->Num!=0 && msg->Num <= highwater)', 'if(msg->Num!=0 && msg->Num == highwater)'),
    ('A22', 1, 'm-empty-ignored', F, '''				if(Header_S.Attribute & MSG_DELETED)
				{
					if(firstwritten) 
					{
						if(JAM_AddEmptyMessage(NewBase_PS))
						{
							printf(" Failed to copy message %d (disk full?), cannot pack messagebase\\n",num+basenum);
							JAM_UnlockMB(Base_PS);
							JAM_CloseMB(Base_PS);
							JAM_UnlockMB(NewBase_PS);
							JAM_CloseMB(NewBase_PS);
							JAM_RemoveMB(NewBase_PS,buf);
							return(TRUE);
						}
''', '''				if(Header_S.Attribute & MSG_DELETED)
				{
					if(firstwritten) 
					{
						JAM_AddEmptyMessage(NewBase_PS);
'''),
    # *.msg
    ('A22', 1, 'm-keepnum-ge', F, 'while(num>area->KeepNum && !ctrlc)', 'while(num>=area->KeepNum && !ctrlc)'),
    ('A22', 1, 'm-keepnum-zero', F, 'if(maint && area->KeepNum!=0)\n   {\n      num=0;', 'if(maint)\n   {\n      num=0;'),
    ('A22', 1, 'm-count-one', F, '''   if(maint && area->KeepNum!=0)
   {
      num=0;
''', '''   if(maint && area->KeepNum!=0)
   {
      num=1;
'''),
    ('A22', 1, 'm-nodec', F, '''         msg->Num=0;
         num--;
''', '''         msg->Num=0;
'''),
    ('A22', 1, 'm-not-gone', F, '''         msg->Num=0;
         num--;
''', '''         msg=msg->Next;
         num--;
'''),
    ('A22', 1, 'm-maint-or', F, 'if(maint && area->KeepDays!=0)\n   {\n      del=0;\n      num=0;\n\t\t\n\t\ttoday=time', 'if(area->KeepDays!=0)\n   {\n      del=0;\n      num=0;\n\t\t\n\t\ttoday=time'),
    ('A22', 1, 'm-days-ge', F, 'today - msg->Day > area->KeepDays', 'today - msg->Day >= area->KeepDays'),
    ('A22', 1, 'm-days-hours', F, 'today=time(NULL) / (24*60*60);', 'today=time(NULL) / (60*60);'),
    ('A22', 1, 'm-day-hours', F, 'day=fe->Date / (24*60*60);', 'day=fe->Date / (24*60);'),
    ('A22', 1, 'm-delete-new', F, '''            sprintf(buf2,"%u.msg",msg->Num);
            MakeFullPath(area->Path,buf2,buf,200);

            if(msg->Num == highwater)''', '''            sprintf(buf2,"%u.msg",msg->NewNum);
            MakeFullPath(area->Path,buf2,buf,200);

            if(msg->Num == highwater)'''),
    ('A22', 1, 'm-sort-desc', F, 'if((*m1)->Num > (*m2)->Num) return(1);\n   if((*m1)->Num < (*m2)->Num) return(-1);', 'if((*m1)->Num > (*m2)->Num) return(-1);\n   if((*m1)->Num < (*m2)->Num) return(1);'),
    ('A22', 1, 'm-num-from-1', F, '      num=2;\n', '      num=1;\n'),
    ('A22', 1, 'm-num-from-3', F, '      num=2;\n', '      num=3;\n'),
    ('A22', 1, 'm-scan-mark', F, 'if(atol(str) < 2)', 'if(atol(str) < 1)'),
    ('A22', 1, 'm-rename-nopack', F, '   if(pack)\n   {\n      num=2;', '   if(maint || pack)\n   {\n      num=2;'),
    ('A22', 1, 'm-rename-swapped', F, 'if(!osRename(buf,newbuf))', 'if(!osRename(newbuf,buf))'),
    ('A22', 1, 'm-mark-next', F, 'if(!msg || msg->Num > highwater)\n         highwater=newhighwater;', 'if(!msg || msg->Num > highwater)\n         highwater=newhighwater+1;'),
    ('A22', 1, 'm-mark-any', F, 'if(msg->Num!=0 && msg->Num <= highwater)', 'if(msg->Num!=0)'),
    # JAM
    ('A22', 1, 'm-jam-active', F, '					BaseHeader_S.ActiveMsgs--;\n					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);\n					\n					active--;', '					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);\n					\n					active--;'),
    ('A22', 1, 'm-jam-active-unwritten', F, '					BaseHeader_S.ActiveMsgs--;\n					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);\n					\n					del++;', '					BaseHeader_S.ActiveMsgs--;\n					\n					del++;'),
    ('A22', 1, 'm-jam-noactive', F, '					active--;\n					del++;\n', '					del++;\n'),
    ('A22', 1, 'm-jam-total', F, 'active=BaseHeader_S.ActiveMsgs;', 'active=total;'),
    ('A22', 1, 'm-jam-again', F, '''			   if(!(Header_S.Attribute & MSG_DELETED))
				{
					/* Not already deleted */''', '''				{
					/* Not already deleted */'''),
    ('A22', 1, 'm-jam-num', F, '''					JAM_ChangeMsgHeader(Base_PS,num,&Header_S);

					BaseHeader_S.ActiveMsgs--;
					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);
					
					del++;''', '''					JAM_ChangeMsgHeader(Base_PS,basenum+num,&Header_S);

					BaseHeader_S.ActiveMsgs--;
					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);
					
					del++;'''),
    ('A22', 1, 'm-jam-readfail', F, '''		   res=JAM_ReadMsgHeader(Base_PS,num,&Header_S,NULL);

         if(res == 0)
			{
				/* Read success */

				day=''', '''		   res=JAM_ReadMsgHeader(Base_PS,num,&Header_S,NULL);

         if(res != JAM_NO_MESSAGE)
			{
				/* Read success */

				day='''),
    ('A22', 1, 'm-jam-anyfail', F, '				if(res == JAM_NO_MESSAGE)', '				if(res)'),
    ('A22', 1, 'm-jam-notext', F, '				   if(Header_S.TxtLen)\n', '				   if(Header_S.TxtLen && !firstwritten)\n'),
    ('A22', 1, 'm-jam-textfail', F, '''				      if(res)
				      {
				      	printf(" Failed to read message %d, cannot pack messagebase\\n",num+basenum);
				         JAM_DelSubPacket(SubPacket_PS);''', '''				      if(res == JAM_NO_MESSAGE)
				      {
				      	printf(" Failed to read message %d, cannot pack messagebase\\n",num+basenum);
				         JAM_DelSubPacket(SubPacket_PS);'''),
    ('A22', 1, 'm-jam-addfail', F, '''					if(res)
					{
				      printf(" Failed to copy message''', '''					if(res == JAM_IO_ERROR)
					{
				      printf(" Failed to copy message'''),
    ('A22', 1, 'm-jam-nosub', F, 'JAM_AddMessage(NewBase_PS,&Header_S,SubPacket_PS,msgtext', 'JAM_AddMessage(NewBase_PS,&Header_S,NULL,msgtext'),
    ('A22', 1, 'm-jam-ctrlc', F, '''		if(ctrlc)
		{
			JAM_RemoveMB(NewBase_PS,buf);
         return(TRUE);
      }
''', ''),
    ('A22', 1, 'm-jam-total-1', F, '''		while(num < total && !ctrlc)
		{
		   res=JAM_ReadMsgHeader(Base_PS,num,&Header_S,NULL);

         if(res)
''', '''		while(num+1 < total && !ctrlc)
		{
		   res=JAM_ReadMsgHeader(Base_PS,num,&Header_S,NULL);

         if(res)
'''),
    ('A22', 1, 'm-jam-hdrfail', F, '''      res=JAM_WriteMBHeader(NewBase_PS,&BaseHeader_S);

     	if(res)
     	{
        	printf(" Failed to write messagebase header, cannot pack messagebase\\n");
        	JAM_UnlockMB(Base_PS);
        	JAM_CloseMB(Base_PS);
        	JAM_UnlockMB(NewBase_PS);
			JAM_CloseMB(NewBase_PS);
        	JAM_RemoveMB(NewBase_PS,buf);
        	return(TRUE);
      }
''', '''      JAM_WriteMBHeader(NewBase_PS,&BaseHeader_S);
'''),
    ('A22', 1, 'm-jam-packed-count', F, '					BaseHeader_S.ActiveMsgs++;\n', ''),
    ('A22', 1, 'm-jam-idx', F, 'sprintf(tmpname,"%s.cmtemp%s",area->Path,EXT_IDXFILE);', 'sprintf(tmpname,"%s.cmtemp%s",area->Path,EXT_TXTFILE);'),
    ('A22', 1, 'm-jam-lastread', F, 'res2=osDelete(tmpname);', 'res2=osDelete(oldname);'),
    ('A22', 1, 'm-jam-quiet', F, '''			printf(" Failed to update area. The area might be in use by another program.\\n");
			return(FALSE);''', '''			printf(" Failed to update area. The area might be in use by another program.\\n");'''),
    # which areas
    ('A22', 1, 'm-swap-settings', F, 'LastArea->KeepNum=atol(tag);', 'LastArea->KeepDays=atol(tag);'),
    ('A22', 1, 'm-main-args', F, 'processfunc(area,maint,pack,verbose)', 'processfunc(area,maint || pack,pack,verbose)'),
    ('A22', 1, 'm-main-swapped', F, 'processfunc(area,maint,pack,verbose)', 'processfunc(area,pack,maint,verbose)'),
    ('A22', 1, 'm-main-pattern', F, 'bool match;\n\n      match=FALSE;', 'static bool match;\n'),
    ('A22', 1, 'm-main-path', F, 'data,area->Tagname))', 'data,area->Path))'),
    # refactorings
    ('A22', 0, 'r-delete-helper', F, 'bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)\n{\n', '''static void DeleteMsg(struct Area *area,struct Msg *msg)
{
   char buf[200],buf2[100];

   sprintf(buf2,"%u.msg",msg->Num);
   MakeFullPath(area->Path,buf2,buf,200);
   osDelete(buf);
   msg->Num=0;
}

bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
{
''', F, DELNUM, '''         DeleteMsg(area,msg);

         num--;
         del++;
''', F, '''            osDelete(buf);
            
      	    msg->Num=0;
''', '''            DeleteMsg(area,msg);
'''),
    ('A22', 0, 'r-for-keepnum', F, KNW, '''      for(;num>area->KeepNum && !ctrlc;num--)
      {
         for(;msg->Num==0;msg=msg->Next);
''', F, '''         num--;
         del++;
''', '''         del++;
'''),
    ('A22', 0, 'r-days-nested', F, '         if(msg->Day < today && today - msg->Day > area->KeepDays && msg->Num!=0)\n', '         if(msg->Num!=0 && !(msg->Day >= today || today - msg->Day <= area->KeepDays))\n'),
    ('A22', 0, 'r-mark-before', F, '            osDelete(buf);\n            \n      	    msg->Num=0;\n            del++;', '            del++;\n            msg->Num=0;\n            osDelete(buf);\n'),
    ('A22', 0, 'r-count-helper', F, 'bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)\n{\n', '''static uint32_t CountMsgs(struct jbList *list)
{
   struct Msg *msg;
   uint32_t n;

   n=0;

   for(msg=(struct Msg *)list->First;msg;msg=msg->Next)
      n++;

   return(n);
}

bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
{
''', F, '''      num=0;

      for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
         num++;
''', '''      num=CountMsgs(&MsgList);
'''),
    ('A22', 0, 'r-newnum-for', F, '''      msg=(struct Msg *)MsgList.First;

      while(msg && !ctrlc)
      {
         while(msg && msg->Num==0)
            msg=msg->Next;

         if(msg)
         {
            msg->NewNum=num++;
            msg=msg->Next;
         }
      }
''', '''      for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
      {
         if(msg->Num==0)
            continue;

         msg->NewNum=num;
         num+=1;
      }
'''),
    ('A22', 0, 'r-compare-diff', F, '''   if((*m1)->Num > (*m2)->Num) return(1);
   if((*m1)->Num < (*m2)->Num) return(-1);
   return(0);
''', '''   return((*m1)->Num < (*m2)->Num ? -1 : (*m1)->Num > (*m2)->Num);
'''),
    ('A22', 0, 'r-jam-for', F, '''		while(num < total && active > area->KeepNum && !ctrlc)
		{
''', '''		for(num=0;num < total && active > area->KeepNum && !ctrlc;num++)
		{
''', F, '''					active--;
					del++;
				}
			}
			
			num++;
''', '''					active--;
					del++;
				}
			}
'''),
    ('A22', 0, 'r-jam-delete-helper', F, 'bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)\n{\n', '''static void JamDelete(s_JamBase *base,s_JamBaseHeader *mb,uint32_t num,s_JamMsgHeader *h)
{
   h->Attribute |= MSG_DELETED;
   JAM_ChangeMsgHeader(base,num,h);

   mb->ActiveMsgs--;
   JAM_WriteMBHeader(base,mb);
}

bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
{
''', F, '''					Header_S.Attribute |= MSG_DELETED;
					JAM_ChangeMsgHeader(Base_PS,num,&Header_S);

					BaseHeader_S.ActiveMsgs--;
					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);
					
					active--;''', '''					JamDelete(Base_PS,&BaseHeader_S,num,&Header_S);
					
					active--;''', F, '''					Header_S.Attribute |= MSG_DELETED;
					JAM_ChangeMsgHeader(Base_PS,num,&Header_S);

					BaseHeader_S.ActiveMsgs--;
					JAM_WriteMBHeader(Base_PS,&BaseHeader_S);
					
					del++;''', '''					JamDelete(Base_PS,&BaseHeader_S,num,&Header_S);
					
					del++;'''),
    ('A22', 0, 'r-jam-replace-helper', F, 'bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)\n{\n', '''static bool Replace(char *path,char *ext)
{
   char oldname[200],tmpname[200];

   sprintf(oldname,"%s%s",path,ext);
   sprintf(tmpname,"%s.cmtemp%s",path,ext);

   if(!osDelete(oldname))
      return(FALSE);

   return(osRename(tmpname,oldname));
}

bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
{
''', F, '''	   sprintf(oldname,"%s%s",area->Path,EXT_HDRFILE);
  	   sprintf(tmpname,"%s.cmtemp%s",area->Path,EXT_HDRFILE);
		res1=osDelete(oldname);
		res2=osRename(tmpname,oldname);

		if(res1 && res2)
		{
		   sprintf(oldname,"%s%s",area->Path,EXT_TXTFILE);
  		   sprintf(tmpname,"%s.cmtemp%s",area->Path,EXT_TXTFILE);
			res1=osDelete(oldname);
			res2=osRename(tmpname,oldname);
		}
		
		if(res1 && res2)
		{
	   	sprintf(oldname,"%s%s",area->Path,EXT_IDXFILE);
  	   	sprintf(tmpname,"%s.cmtemp%s",area->Path,EXT_IDXFILE);
			res1=osDelete(oldname);
			res2=osRename(tmpname,oldname);
		}
''', '''		res2=TRUE;
		res1=Replace(area->Path,EXT_HDRFILE) && Replace(area->Path,EXT_TXTFILE) && Replace(area->Path,EXT_IDXFILE);
'''),
    ('A22', 0, 'r-jam-fail-goto', F, '''      res=JAM_WriteMBHeader(NewBase_PS,&BaseHeader_S);

     	if(res)
     	{
        	printf(" Failed to write messagebase header, cannot pack messagebase\\n");
        	JAM_UnlockMB(Base_PS);
        	JAM_CloseMB(Base_PS);
        	JAM_UnlockMB(NewBase_PS);
			JAM_CloseMB(NewBase_PS);
        	JAM_RemoveMB(NewBase_PS,buf);
        	return(TRUE);
      }
''', '''      if(JAM_WriteMBHeader(NewBase_PS,&BaseHeader_S)!=0)
     	{
        	printf(" Failed to write messagebase header, cannot pack messagebase\\n");
        	goto failed;
      }
''', F, '''	else
	{
		JAM_UnlockMB(Base_PS);
		JAM_CloseMB(Base_PS);
	}
	
   return(TRUE);
''', '''	else
	{
		JAM_UnlockMB(Base_PS);
		JAM_CloseMB(Base_PS);
	}
	
   return(TRUE);

failed:

   JAM_UnlockMB(Base_PS);
   JAM_CloseMB(Base_PS);
   JAM_UnlockMB(NewBase_PS);
   JAM_CloseMB(NewBase_PS);
   JAM_RemoveMB(NewBase_PS,buf);
   return(TRUE);
'''),
    ('A22', 0, 'r-config-else', F, '''      if(stricmp(cfgword,"KEEPNUM")==0 && LastArea)
      {
''', '''      else if(LastArea!=NULL && !stricmp(cfgword,"KEEPNUM"))
      {
'''),
    ('A22', 0, 'r-main-match', F, '''      match=FALSE;

      if(!args[ARG_PATTERN].data)
         match=TRUE;

      else if(osMatchPattern((char *)args[ARG_PATTERN].data,area->Tagname))
         match=TRUE;
''', '''      match=(!args[ARG_PATTERN].data || osMatchPattern((char *)args[ARG_PATTERN].data,area->Tagname));
'''),
    ('A22', 0, 'r-main-bools', F, '''	maint=FALSE;
	pack=FALSE;
	verbose=FALSE;

   if(args[ARG_MAINT].data)
		maint=TRUE;
	
	if(args[ARG_PACK].data)
		pack=TRUE;
''', '''	verbose=FALSE;

	maint=(args[ARG_MAINT].data!=NULL);
	pack=(args[ARG_PACK].data ? TRUE : FALSE);
'''),
]
